"""Using a type never changes it: histories of operations against the state of the exported world before them."""
import random, os, io, pickle, copy, signal
from checks.common import *
from checks import opens as O
from checks import c10

PROPERTY = 'C12'
RULE = ('three kinds of case. Histories: a sequence of 40 to 200 operations (decoding valid and malformed octets with and without open '
        'types and with caller-supplied maps, building, partial building, cloning, subtyping, copying, overwriting every part of decoded '
        'values, reading absent components, printing, native conversion, PEM reading, arithmetic on constants) run in a fresh process; '
        'afterwards a fingerprint of every exported type, constant and map and the outcomes of fixed probe decodes and encodes must be '
        'what they were before. Separation: two values got from the same octets (or built twice, or copied); after one of them is '
        'overwritten in every part the other and a third decode must still have the published content. '
        'Sequences: values of one type that look alike (same digits, same number, one place different) are read, printed and written one after '
        'another in a fresh process; each must come out as published, and as before. '
        'Non-trivial: the sequence has two values; the history has at least ten operations that succeeded; the overwritten value had at least one component.')
ASSUMPTIONS = ['values a caller puts into a structure by reference are shared with it (pyasn1); no history overwrites exported values that way',
               'each history runs in a process of its own, forked after all modules were imported']
MODULES = sorted(M.mods)


# ------------------------------------------------------------------ state of the exported world
def fingerprint():
    """{module.name: digest-able text} of everything the modules export"""
    from pyasn1.type import base, univ, namedval
    memo = {}

    def fp(o, depth=0):
        if isinstance(o, type):
            if not issubclass(o, base.Asn1Type): return 'class'
            if o not in memo:
                memo[o] = '<%s.%s>' % (o.__module__, o.__name__)
                try: x = o()
                except Exception as e: memo[o] = 'class %s' % type(e).__name__
                else: memo[o] = 'class ' + fp(x, depth)
            return memo[o]
        if isinstance(o, dict): return '{%s}' % ', '.join(sorted('%s: %s' % (key(k), fp(v, depth)) for k, v in list(o.items())))
        if not isinstance(o, base.Asn1Type): return '%s %s' % (type(o).__name__, repr(o) if isinstance(o, (int, str, bytes, tuple, float, frozenset, namedval.NamedValues)) else '')
        if id(o) in memo and memo[id(o)][0] is o: return memo[id(o)][1]
        memo[id(o)] = (o, '<%s again>' % type(o).__name__)
        parts = [type(o).__module__, type(o).__name__, repr(o.tagSet), repr(getattr(o, 'subtypeSpec', '')), repr(getattr(o, 'encoding', ''))]
        nv = getattr(o, 'namedValues', None)
        if nv: parts.append(repr(sorted(nv.items())))
        ot = lambda x: '' if x is None else '%s%s' % (getattr(x, 'name', ''), fp(dict(x.items()), depth + 1))
        if isinstance(o, univ.SequenceAndChoiceBase if hasattr(univ, 'SequenceAndChoiceBase') else (univ.Sequence, univ.Set, univ.Choice)):
            for n in o.componentType.namedTypes:
                parts.append('(%s %s %s %s%s)' % (n.name, n.isOptional, n.isDefaulted, fp(n.asn1Object, depth + 1), ot(n.openType)))
            held(o, parts, len(o.componentType), fp, depth)
        elif isinstance(o, (univ.SequenceOf, univ.SetOf)):
            parts.append(fp(o.componentType, depth + 1) if o.componentType is not None else 'None')
            if o.isValue: held(o, parts, len(o), fp, depth)
        elif isinstance(o, base.SimpleAsn1Type) and o.isValue: parts.append('= ' + value(o))
        s = ' '.join(parts)
        if len(s) > 200: s = s[:60] + '#' + hashlib.sha256(s.encode('utf-8', 'replace')).hexdigest()
        memo[id(o)] = (o, s)
        return s

    def key(k):
        try: return str(k)
        except Exception: return repr(k)

    def value(o):
        try: return der_enc.encode(o).hex()
        except Exception: return repr(o)[:200]

    def held(o, parts, n, fp, depth):
        for i in range(n):
            try: c = o.getComponentByPosition(i, default=None, instantiate=False)
            except Exception: c = None
            if c is None or not c.isValue: continue
            # encoding makes defaults explicit (pyasn1): holding the default is holding nothing
            nt = o.componentType.namedTypes[i] if isinstance(o, (univ.Sequence, univ.Set)) else None
            if nt is not None and nt.isDefaulted and c.prettyPrint() == nt.asn1Object.prettyPrint(): continue
            parts.append('[%d holds %s]' % (i, fp(c, depth + 1)))

    import hashlib
    out = {}
    for m in MODULES:
        mod = repo.module(m)
        for n in sorted(vars(mod)):
            if n.startswith('__'): continue
            o = vars(mod)[n]
            if callable(o) and not isinstance(o, (type, base.Asn1Type)): continue
            if type(o).__name__ == 'module': continue
            out[m + '.' + n] = fp(o)
    for k in out:
        if len(out[k]) > 300: out[k] = out[k][:80] + '#' + hashlib.sha256(out[k].encode('utf-8', 'replace')).hexdigest()
    return out


# ------------------------------------------------------------------ probes
def probes(seed, n=400):
    """fixed (type, octets, open) decodes"""
    rnd = random.Random(seed)
    keys = [k for k in typenames() if public(k) and k not in UNDECODABLE]
    out = []
    for k in rnd.sample(keys, min(n, len(keys))):
        t = M.entries[k].type
        for v in (G.minimal(t), G.maximal(t)):
            b = M.encode(t, v)
            out.append((k, b, False))
            if O.has_open(t): out.append((k, b, True))
    return out


def regprobes():
    """open types by unregistered and registered identifiers, in one structure per map"""
    out = []
    done = set()
    for k in typenames():
        if not public(k): continue
        t = M.entries[k].type
        r = M.eff(t)
        if r.kind not in ('SEQUENCE', 'SET'): continue
        for f in r.fields:
            if not f.gov or M.eff(f.type).kind != 'ANY' or (f.map, k[1]) in done: continue
            done.add((f.map, k[1]))
            v = dict(G.minimal(t))
            g = r.byname[f.gov]
            if M.eff(g.type).kind != 'OBJECT IDENTIFIER': continue
            for oid in ((1, 2, 3, 4, 5), (1, 2, 840, 113549, 1, 7, 1), (2, 5, 4, 3)):
                a = dict(v)
                a[f.gov] = oid
                a[f.name] = b'\x05\x00'
                out.append((k, M.encode(t, a), True))
    return out


def outcome(p):
    key, b, opn = p
    try:
        w, rest = der_dec.decode(b, asn1Spec=repo.new(*key), **({'decodeOpenTypes': True} if opn else {}))
        text = w.prettyPrint()
    except PyAsn1Error: return 'refused'
    except Exception as e: return type(e).__name__
    try: again = der_enc.encode(w).hex()
    except Exception as e: again = 'encode ' + type(e).__name__
    return '%s|%s|%s' % (text, again, rest.hex())


PEM = '-----BEGIN A-----\nMAA=\n-----END A-----\nrubbish\n-----BEGIN B-----\nMAMCAQE=\n-----END B-----\n'


def pemoutcome():
    from pyasn1_modules import pem
    f = io.StringIO(PEM)
    out = []
    for _ in range(3): out.append(pem.readPemBlocksFromFile(f, ('-----BEGIN A-----', '-----END A-----'), ('-----BEGIN B-----', '-----END B-----')))
    out.append(pem.readPemFromFile(io.StringIO(PEM), '-----BEGIN B-----', '-----END B-----'))
    out.append(pem.readBase64fromText('MAMCAQE='))
    return repr(out)


# ------------------------------------------------------------------ operations
CUSTOM = {}


def wreck(o, rnd, depth=0):
    """overwrite every part of a value, in place"""
    from pyasn1.type import univ, base
    if depth > 6: return
    if isinstance(o, univ.Choice):
        try: wreck(o.getComponent(), rnd, depth + 1)
        except PyAsn1Error: pass
        n = len(o.componentType)
        for i in sorted(rnd.sample(range(n), min(n, 3))):
            try: c = o.getComponentByPosition(i)
            except Exception: continue
            wreck(c, rnd, depth + 1)
    elif isinstance(o, (univ.Sequence, univ.Set)):
        for i in range(len(o.componentType)):
            try: c = o.getComponentByPosition(i)
            except Exception: continue
            if isinstance(c, base.ConstructedAsn1Type): wreck(c, rnd, depth + 1)
            else:
                for x in (7, b'wrecked', 'wrecked', (1, 3, 6, 1), (1, 0), True):
                    try:
                        o.setComponentByPosition(i, x)
                        break
                    except Exception: pass
    elif isinstance(o, (univ.SequenceOf, univ.SetOf)):
        if o.isValue:
            for i in range(min(len(o), 5)): wreck(o.getComponentByPosition(i), rnd, depth + 1)
        try:
            c = o.getComponentByPosition(len(o) if o.isValue else 0)
            if isinstance(c, base.ConstructedAsn1Type): wreck(c, rnd, depth + 1)
        except Exception: pass
        for x in (7, b'wrecked', 'wrecked', (1, 3, 6, 1)):
            try:
                o.append(x)
                break
            except Exception: pass
    if depth and rnd.random() < .15 and isinstance(o, base.ConstructedAsn1Type):
        try: rnd.choice((o.clear, o.reset))()
        except Exception: pass


def touch(o, depth=0):
    from pyasn1.type import univ
    if depth > 4: return
    if isinstance(o, (univ.Sequence, univ.Set)):
        for n in list(o.componentType): touch(o[n], depth + 1)
    elif isinstance(o, univ.Choice):
        for n in list(o.componentType): touch(o[n], depth + 1)
    elif isinstance(o, (univ.SequenceOf, univ.SetOf)): touch(o[0], depth + 1)


def operate(op):
    """one operation of a history; True if it did what it names (errors are part of the history)"""
    name, key, arg, salt = op
    rnd = random.Random(salt)
    from pyasn1.type import tag, univ, constraint
    from pyasn1.codec.native import encoder as nat_enc, decoder as nat_dec
    if name == 'pem':
        from pyasn1_modules import pem
        f = io.StringIO(PEM * rnd.randrange(3) + 'x' * rnd.randrange(3))
        for _ in range(rnd.randrange(4)): pem.readPemBlocksFromFile(f, ('-----BEGIN B-----', '-----END B-----'))
        f = io.StringIO('-----BEGIN A-----\nMAA=\n')
        pem.readPemFromFile(f, '-----BEGIN A-----', '-----END A-----')
        return True
    if name == 'constant':
        c = repo.lookup(*key)
        if isinstance(c, univ.ObjectIdentifier):
            c + (1,), c[:2], str(c), c.clone((1, 2, 3)), hash(c), c == (1, 2), c.isPrefixOf(c)
        elif hasattr(c, 'isValue') and c.isValue:
            der_enc.encode(c), c.prettyPrint()
            wreck(c.clone(cloneValueFlag=True) if hasattr(c, 'componentType') else c.clone(), rnd)
        return True
    t = M.entries[key].type
    if name in ('decode', 'open', 'custom', 'bad', 'wreck', 'touch', 'native', 'print', 'copy', 'clone', 'subtype', 'ber'):
        b = bytes.fromhex(arg)
        opts = {}
        if name == 'open' or (name == 'wreck' and salt % 2): opts = {'decodeOpenTypes': True}
        if name == 'custom':
            opts = {'decodeOpenTypes': True, 'openTypes': {univ.ObjectIdentifier(x): univ.Any() for x in ((1, 2, 3, 4, 5), (2, 5, 4, 3), (1, 2, 840, 113549, 1, 7, 1), (1, 3))}}
        c = repo.lookup(*key)
        spec = c() if isinstance(c, type) else c
        w, rest = (ber_dec if name == 'ber' else der_dec).decode(b, asn1Spec=spec, **opts)
        if name == 'wreck': wreck(w, rnd)
        elif name == 'touch':
            touch(w)
            if isinstance(c, type): touch(c())
        elif name == 'native':
            n = nat_enc.encode(w)
            nat_dec.decode(n, asn1Spec=spec)
        elif name == 'print': w.prettyPrint(), repr(w), str(w), w.prettyPrintType()
        elif name == 'copy':
            x = copy.copy(w) if rnd.random() < .5 else copy.deepcopy(w)
            wreck(x, rnd)
        elif name == 'clone':
            x = w.clone(cloneValueFlag=True) if hasattr(w, 'componentType') else w.clone()
            wreck(x, rnd)
        elif name == 'subtype':
            w.subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 5))
            w.subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 6))
            spec.subtype(subtypeSpec=constraint.ConstraintsUnion())
        return True
    v = fromjson(arg)
    o = A.build(t, v, key, 'inplace' if salt % 2 else 'assign')
    if name == 'build': der_enc.encode(o)
    elif name == 'rebuild':
        der_enc.encode(o)
        wreck(o, rnd)
        der_enc.encode(o)
    elif name == 'template':
        c = repo.lookup(*key)
        if isinstance(c, type):
            x = c()
            wreck(x, rnd)
            x.prettyPrint()
    return True


DECODING = ['decode', 'open', 'custom', 'bad', 'wreck', 'wreck', 'wreck', 'touch', 'native', 'print', 'copy', 'clone', 'subtype', 'ber']
BUILDING = ['build', 'rebuild', 'template']
_keys = []


def history(rnd, n):
    if not _keys:
        _keys.append([k for k in typenames() if public(k) and k not in UNDECODABLE])
        _keys.append([k for k in _keys[0] if M.eff(M.entries[k].type).kind not in repo.SCALAR])
        _keys.append([k for k, e in M.entries.items() if e.what in ('OID', 'VALUE', 'TEMPLATE') and public(k)])
    allkeys, struct, consts = _keys
    focus = rnd.sample(struct, 12)
    out = []
    for _ in range(n):
        x = rnd.random()
        if x < .04: out.append(('pem', None, None, rnd.randrange(1 << 30)))
        elif x < .12: out.append(('constant', rnd.choice(consts), None, rnd.randrange(1 << 30)))
        else:
            k = rnd.choice(focus if x < .6 else struct if x < .92 else allkeys)
            t = M.entries[k].type
            vs = G.brief(t)
            v = rnd.choice(vs)[1] if vs and rnd.random() < .8 else G.maximal(t)
            if x < .75 or x >= .92:
                op = rnd.choice(DECODING)
                b = M.encode(t, v)
                if op == 'bad':
                    try:
                        tr = tree(b)
                        for _ in range(rnd.choice((1, 2))):
                            if tr: _o, tr = c10.structural(rnd, tr)
                        b = untree(tr)
                    except asn1ref.Reject: b = b[:-1]
                out.append((op, k, b.hex(), rnd.randrange(1 << 30)))
            else: out.append((rnd.choice(BUILDING), k, tojson(v), rnd.randrange(1 << 30)))
    return out


def inchild(fn, *args):
    """result of fn(*args) computed in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(300)
            framework.watch(2 * framework.CPU)
            try: res = ('ok', fn(*args))
            except framework.Hang as e: res = ('hang', str(e))
            except BaseException as e: res = ('error', short(e))
            with os.fdopen(w, 'wb') as f: pickle.dump(res, f)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    os.waitpid(pid, 0)
    if not data: return ('error', 'the process died')
    res = pickle.loads(data)
    if res[0] == 'hang': raise framework.Hang(res[1])
    return res


def world(seed):
    """in a child: the state and outcomes before anything happened"""
    a = fingerprint()
    ps = probes(seed) + regprobes()
    return a, [outcome(p) for p in ps], pemoutcome()


def live(ops, seed, fp0, out0, pem0):
    """in a child: run a history, then compare with the state before it.  (succeeded, message or None)"""
    good = 0
    for op in ops:
        try: good += bool(operate(op))
        except Exception: pass
    ps = probes(seed) + regprobes()
    for p, want in zip(ps, out0):
        got = outcome(p)
        if got != want: return good, 'decoding %s with %s%s gave %s before and gives %s after' % (hexs(p[1]), tname(p[0]), ' with open types' if p[2] else '', want[:200], got[:200])
    if pemoutcome() != pem0: return good, 'PEM reading gave %s before and gives %s after' % (pem0, pemoutcome())
    now = fingerprint()
    for k in sorted(fp0, key=lambda k: not fp0[k].startswith('{')):      # maps first: types that use them differ as well
        if now.get(k) != fp0[k]: return good, 'exported %s was %s, is %s' % (k, fp0[k][:200], str(now.get(k))[:200])
    for k in now:
        if k not in fp0: return good, 'exported %s appeared' % k
    return good, None


def shrink(ops, bad, budget=80):
    n = 2
    while len(ops) > 1 and budget > 0:
        size = max(1, len(ops) // n)
        for i in range(0, len(ops), size):
            cand = ops[:i] + ops[i + size:]
            budget -= 1
            if budget <= 0: break
            if cand and bad(cand):
                ops, n = cand, max(2, n - 1)
                break
        else:
            if size == 1: break
            n = min(len(ops), n * 2)
    return ops


# ------------------------------------------------------------------ separation
def separate(key, v, how, salt):
    """None or message"""
    t = M.entries[key].type
    if neardefault(t, v): return None
    b = M.encode(t, v)
    rnd = random.Random(salt)
    opts = {'decodeOpenTypes': True} if how == 'open' else {}
    dec = lambda: der_dec.decode(b, asn1Spec=repo.new(*key), **opts)[0]
    spec = repo.spec(*key)
    if how == 'build':
        one, two = A.build(t, v, key, 'inplace'), A.build(t, v, key, 'inplace')
    elif how == 'clone':
        two = der_dec.decode(b, asn1Spec=spec)[0]
        try: one = two.clone(cloneValueFlag=True)
        except PyAsn1Error: return None     # pyasn1: templates and sized lists do not clone
    elif how == 'deepcopy':
        two = der_dec.decode(b, asn1Spec=spec)[0]
        one = copy.deepcopy(two)
    elif how == 'spec':
        one = der_dec.decode(b, asn1Spec=spec)[0]
        two = der_dec.decode(b, asn1Spec=spec)[0]
    else: one, two = dec(), dec()
    text = two.prettyPrint()
    wreck(one, rnd)
    if two.prettyPrint() != text: return '%s, %s: overwriting one value turned the other from %s into %s' % (how, hexs(b), text[:300], two.prettyPrint()[:300])
    if how != 'open':
        m = read(t, v, two, b, 'the other value')
        if m: return how + ': ' + m
        m = read(t, v, dec(), b, 'a later decode')
        if m: return how + ': ' + m
    else:
        x = dec().prettyPrint()
        if x != text: return 'open, %s: read as %s, after overwriting that value as %s' % (hexs(b), text[:300], x[:300])
    fresh = repo.new(*key)
    if fresh.isValue and not blank(t): return '%s, %s: a new %s already has a value: %s' % (how, hexs(b), tname(key), fresh.prettyPrint()[:200])
    return None


def blank(t):
    """is a new value of t complete without anything set (pyasn1: everything OPTIONAL or DEFAULT)"""
    r = M.eff(t)
    return r.kind in ('SEQUENCE', 'SET') and all(f.opt for f in r.fields)


def read(t, v, w, b, what):
    try: got = A.extract(t, w)
    except (Mismatch, Exception) as e: return '%s of %s: %s' % (what, hexs(b), short(e))
    if M.norm(t, got) != M.norm(t, v): return '%s of %s reads as %r, was %r' % (what, hexs(b), got, v)


def exists_quiet(key):
    try: return not hasattr(repo.module(key[0]), key[1])
    except Exception: return True


# ------------------------------------------------------------------ sequences of values that look alike
def alike(t, rnd, n):
    """values of t, many of them close to one another"""
    r = M.eff(t)
    if r.kind in repo.SCALAR: vs = [v for _, v in G.scalars(r)]
    else: vs = [v for _, v in G.brief(t)] + [G.minimal(t, 1), G.minimal(t, 2)]
    vs = [v for v in vs if len(repr(v)) < 2000]
    vs = rnd.sample(vs, min(n, len(vs)))
    if r.kind == 'OBJECT IDENTIFIER' and not r.cons: vs += gen.ALIKE
    for v in vs[:4]:
        close = [x for _, x in G.near(t, v)]
        vs += rnd.sample(close, min(3, len(close)))
    vs = [v for v in vs if M.valid(t, v) and not neardefault(t, v) and G.sound(t, v)]
    rnd.shuffle(vs)
    return vs[:3 * n]


def insequence(key, vs, salt):
    """read, print and write values one after another; message or None"""
    t = M.entries[key].type
    rnd = random.Random(salt)
    spec, kept, texts = repo.new(*key), [], {}
    for v in vs + rnd.sample(vs, len(vs)):
        b = M.encode(t, v)
        w = der_dec.decode(b, asn1Spec=spec if rnd.random() < .5 else repo.new(*key))[0]
        m = read(t, v, w, b, 'after %d others, the content' % len(texts))
        if m: return m
        text = w.prettyPrint()
        if texts.setdefault(b, text) != text: return '%s was printed as %s, after others as %s' % (hexs(b), texts[b][:200], text[:200])
        x = der_enc.encode(w)
        if x not in alternatives(t, v, b): return '%s, after others, is written as %s' % (hexs(b), hexs(x))
        if rnd.random() < .5: kept.append(w)
    return None


def sequence(key, vs, salt):
    r = inchild(insequence, key, vs, salt)
    return r[1] if r[0] == 'ok' or r[1] == 'the process died' else None          # errors are other checks' matter


WAYS = ['decode', 'spec', 'build', 'clone', 'deepcopy', 'open']


def shards(tier, seed):
    keys = [k for k in typenames() if public(k) and k not in UNDECODABLE and M.eff(M.entries[k].type).kind not in repo.SCALAR]
    n = 96 if tier == 'quick' else 800
    return [('history', i, seed) for i in range(n)] + [('separate', x, seed) for x in stripe(keys, 40)] + \
        [('sequence', x, seed) for x in stripe([k for k in typenames() if public(k) and k not in UNDECODABLE], 40)]


_world = {}


def run(item, ctx):
    for m in MODULES: repo.module(m)
    if item[0] == 'history':
        _, i, seed = item
        ps = seeded(seed, 'probes', i % 4)
        if ps not in _world:
            r = inchild(world, ps)
            if r[0] == 'error': raise RuntimeError('world: ' + r[1])
            _world[ps] = r[1]
        fp0, out0, pem0 = _world[ps]
        rnd = random.Random(seeded(seed, 'history', i))
        ops = history(rnd, rnd.choice((40, 100, 200)))
        r = inchild(live, ops, ps, fp0, out0, pem0)
        for op in ops: ctx.count('operation ' + op[0])
        if r[0] == 'error':
            ctx.fail('history', 'history %d: %s' % (i, r[1]), {'ops': ops, 'probes': ps})
            return
        good, m = r[1]
        ctx.evaluations += len(ops)
        ctx.case('history %d %d' % (seed, i), good >= 10, 'history', 'history of %d operations, %d succeeded; first: %s' % (len(ops), good, str(ops[0])[:150]))
        if m:
            def bad(x):
                r = inchild(live, x, ps, fp0, out0, pem0)
                return r[0] == 'ok' and bool(r[1][1])
            ops = shrink(ops, bad)
            m = inchild(live, ops, ps, fp0, out0, pem0)[1][1] or m
            ctx.fail('history: ' + m.split(' ', 2)[0], 'after %d operation(s) %s: %s' % (len(ops), str(ops)[:300], m), {'ops': ops, 'probes': ps})
        return
    if item[0] == 'sequence':
        quick = ctx.tier == 'quick'
        for key in item[1]:
            if exists_quiet(key): continue
            rnd = random.Random(seeded(ctx.seed, 'sequence', key))
            for i in range(1 if quick else 8):
                vs = alike(M.entries[key].type, rnd, 8)
                if not vs: continue
                salt = rnd.randrange(1 << 30)
                ctx.case('%s %s' % (tname(key), vs), len(vs) > 1, 'values one after another', '%s %s' % (tname(key), str(vs)[:200]))
                ctx.evaluations += 2 * len(vs) - 1
                if not sequence(key, vs, salt): continue
                vs = shrink(vs, lambda x: bool(sequence(key, x, salt)))
                m = sequence(key, vs, salt)
                if m: ctx.fail('%s sequence' % tname(key), '%s: %s' % (vs, m), {'sequence': tname(key), 'values': tojson(vs), 'salt': salt})
        return
    for key in item[1]:
        if exists(key): continue
        t = M.entries[key].type
        vs = [v for _, v in G.brief(t)][:6 if ctx.tier == 'quick' else 40] + [G.minimal(t), G.maximal(t)]
        for n, v in enumerate(vs):
            for how in WAYS:
                if how == 'open' and not O.has_open(t): continue
                for salt in range(1 if ctx.tier == 'quick' else 3):
                    ctx.case('%s %s %s %d' % (tname(key), how, M.encode(t, v).hex(), salt), v not in ({}, []), 'separation by ' + how)
                    try: m = separate(key, v, how, salt)
                    except (Mismatch, PyAsn1Error): m = None        # other checks' matter
                    if m: ctx.fail('%s %s' % (tname(key), how), m, {'type': tname(key), 'value': tojson(v), 'how': how, 'salt': salt})


def replay(c):
    for m in MODULES: repo.module(m)
    if 'sequence' in c: return sequence(tkey(c['sequence']), fromjson(c['values']), c['salt'])
    if 'ops' in c:
        ops = [(o[0], tuple(o[1]) if o[1] else None, o[2], o[3]) for o in c['ops']]
        w = inchild(world, c['probes'])
        r = inchild(live, ops, c['probes'], *w[1])
        return r[1] if r[0] == 'error' else r[1][1]
    return separate(tkey(c['type']), fromjson(c['value']), c['how'], c['salt'])
