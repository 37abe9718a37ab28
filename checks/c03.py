"""Mandatory, OPTIONAL and DEFAULT components behave as published."""
from checks.common import *

PROPERTY = 'C03'
RULE = ('a case is one SEQUENCE or SET type, one presence pattern of its components (each left out or put in, in small and in full '
        'values, random subsets) or one disturbance of an encoding (component missing, repeated, swapped, foreign). The reference '
        'decoder says whether the octets are still valid: then the value read must be the published one, otherwise a pyasn1 error is '
        'due. Building without a mandatory component must fail on encoding. Non-trivial: the pattern differs from the minimal value.')
ASSUMPTIONS = ['only disturbances for which the reference decoder and pyasn1 agree on what an error is: SEQUENCE structure, not SET duplicates']


def shards(tier, seed):
    return stripe([k for k in typenames() if public(k) and M.eff(M.entries[k].type).kind in ('SEQUENCE', 'SET')], 48)


def pieces(r, v):
    """[(field, encoding)] of the components of v, in definition order"""
    return [(f, M.encode(f.type, v[f.name])) for f in r.fields if f.name in v]


def wrap(r, parts):
    body = b''.join(parts)
    tags = r.tags
    body = asn1ref.tlv(tags[-1], True, body)
    for tg in reversed(tags[:-1]): body = asn1ref.tlv(tg, True, body)
    return body


PRESET = {(('rfc1157', 'Message'), 'version')}       # comes with the only value there is
FOREIGN = [b'\xdf\x7f\x01\x00', b'\xbf\x87\x68\x02\x05\x00', b'\x09\x01\x00', b'\x1a\x01A']


def defaults(key, v):
    """components left out read as their defaults, OPTIONAL ones as absent"""
    t = M.entries[key].type
    r = M.eff(t)
    b = M.encode(t, v)
    try: w, rest = der_dec.decode(b, asn1Spec=repo.spec(*key))
    except Exception as e: return ('refused', 'valid %s of %r is refused: %s' % (hexs(b), v, short(e)))
    for f in r.fields:
        if f.name in v or not f.opt: continue
        if f.default is not None:
            want = M.default(f)[0]
            try: got = A.extract(f.type, w[f.name])
            except (Mismatch, Exception) as e: return ('default', '%s: default of %s: %s' % (hexs(b), f.name, short(e)))
            if not M.same(f.type, got, want): return ('default', '%s: %s left out reads as %r, published default %r' % (hexs(b), f.name, got, want))
        else:
            c = w.getComponentByName(f.name, default=None, instantiate=False)
            if c is not None and c.isValue: return ('absent', '%s: OPTIONAL %s left out reads as %r' % (hexs(b), f.name, c))
    return None


def missing(key, v, name, mode):
    """building v without mandatory component name must not encode"""
    t = M.entries[key].type
    a = dict(v)
    a.pop(name)
    try: b = der_enc.encode(A.build(t, a, key, mode))
    except Exception: return None
    return ('encoded', 'value without mandatory %s encodes as %s' % (name, hexs(b)))


def disturbances(r, v):
    ps = pieces(r, v)
    enc = [e for _, e in ps]
    for i, (f, e) in enumerate(ps):
        yield 'without ' + f.name, enc[:i] + enc[i + 1:]
        if r.kind == 'SEQUENCE': yield 'repeated ' + f.name, enc[:i + 1] + enc[i:]
        if r.kind == 'SEQUENCE' and i + 1 < len(enc): yield 'swapped ' + f.name, enc[:i] + [enc[i + 1], enc[i]] + enc[i + 2:]
    if r.kind == 'SEQUENCE':
        for x in FOREIGN:
            yield 'foreign at end', enc + [x]
        yield 'foreign in front', [FOREIGN[0]] + enc
    for f in r.fields:
        if f.name not in v and r.kind == 'SEQUENCE':
            x = M.encode(f.type, G.minimal(f.type))
            yield 'only misplaced ' + f.name, enc + [x]
            yield 'misplaced ' + f.name, [x] + enc


def nested(t, v, cap):
    """the same disturbances at every level of an encoding"""
    tr = tree(M.encode(t, v))
    muts = []
    for path in nodes(tr):
        if len(path) < 2: continue
        kids = at(tr, path)[1]
        for i, k in enumerate(kids):
            muts.append(('without', path, kids[:i] + kids[i + 1:]))
            muts.append(('repeated', path, kids[:i + 1] + kids[i:]))
            if i + 1 < len(kids): muts.append(('swapped', path, kids[:i] + [kids[i + 1], k] + kids[i + 2:]))
        muts.append(('foreign', path, kids + tree(FOREIGN[len(muts) % len(FOREIGN)])))
    step = max(1, -(-len(muts) // cap))
    for lab, path, kids in muts[::step]: yield lab, untree(withkids(tr, path, kids))


def solid(t, depth=0):
    """pyasn1 makes up an empty list or structure where a mandatory one is missing, so
    only components that need a value somewhere are missed on encoding"""
    r = M.eff(t)
    if r.kind in ('SEQUENCE', 'SET'): return depth < 6 and any(not f.opt and solid(f.type, depth + 1) for f in r.fields)
    if r.kind in ('SEQUENCE OF', 'SET OF'): return False
    return True


# defaults the reference text states as the tree has them, and their published values (known findings)
OFF = {('rfc5035', 'ESSCertIDv2'): ('hashAlgorithm', '300b0609608648016503040201')}


def published_default(key):
    t = M.entries[key].type
    name, octets = OFF[key]
    f = M.eff(t).byname[name]
    b = M.encode(t, G.minimal(t))
    try: got = A.extract(f.type, der_dec.decode(b, asn1Spec=repo.spec(*key))[0].getComponentByName(name))
    except (Mismatch, Exception) as e: return 'decoding %s: %s' % (hexs(b), short(e))
    want = M.decode(f.type, bytes.fromhex(octets))
    if M.norm(f.type, got) != M.norm(f.type, want): return '%s left out of %s reads as %r, published default %r' % (name, hexs(b), got, want)


def run(item, ctx):
    for key in item:
        t = M.entries[key].type
        r = M.eff(t)
        if missing_type(ctx, key): continue
        mn, mx = G.minimal(t), G.maximal(t)
        base = [mn, mx]
        for f in r.fields:
            if f.opt:
                a = dict(mn)
                a[f.name] = G.fieldval(f, False, 1)
                base.append(a)
                a = dict(mx)
                a.pop(f.name, None)
                base.append(a)
        base = [v for v in base if M.valid(t, v)]
        if key in OFF:
            ctx.case(tname(key) + ' published default', True, 'published default')
            got = published_default(key)
            if got: ctx.fail(tname(key) + ' published default', got, {'type': tname(key), 'op': 'published default', 'value': None, 'error': ''})
        seen = set()
        for v in base:
            b = M.encode(t, v)
            ctx.case(tname(key) + 'p' + b.hex(), v != mn, 'presence pattern', '%s %s' % (tname(key), hexs(b)))
            got = defaults(key, v)
            if got: ctx.fail('%s %s' % (tname(key), got[0]), got[1], case(key, v, got[0], got[1], how='defaults'))
        for v in base[:2] + base[2::2][:6]:
            for lab, parts in disturbances(r, v):
                b = wrap(r, parts)
                if b in seen: continue
                seen.add(b)
                ctx.case(tname(key) + b.hex(), True, lab.split(' ')[0], '%s %s: %s' % (tname(key), lab, hexs(b)))
                got = verdict(key, b)
                if got: ctx.fail('%s %s' % (tname(key), got[0]), '%s: %s' % (lab, got[1]), {'type': tname(key), 'op': got[0], 'octets': b.hex(), 'how': 'verdict', 'error': errname(got[1])})
        for lab, b in nested(t, mx, 150 if ctx.tier == 'quick' else 2000):
            if b in seen: continue
            seen.add(b)
            ctx.case(tname(key) + b.hex(), True, 'nested ' + lab, '%s nested %s: %s' % (tname(key), lab, hexs(b)))
            got = verdict(key, b)
            if got: ctx.fail('%s %s' % (tname(key), got[0]), '%s: %s' % (lab, got[1]), {'type': tname(key), 'op': got[0], 'octets': b.hex(), 'how': 'verdict', 'error': errname(got[1])})
        for v in (mn, mx):
            for f in r.fields:
                if f.opt or not solid(f.type) or (key, f.name) in PRESET: continue
                for mode in ('inplace', 'assign'):
                    ctx.case('%s-%s-%s-%d' % (tname(key), f.name, mode, v is mx), True, 'built without')
                    got = missing(key, v, f.name, mode)
                    if got: ctx.fail('%s %s' % (tname(key), got[0]), got[1], case(key, v, got[0], got[1], how='missing', name=f.name, mode=mode))
        n = 30 if ctx.tier == 'quick' else 100
        if len(r.fields) > 1:
            def fn(v):
                b = M.encode(t, v)
                ctx.case(tname(key) + 'p' + b.hex(), v != mn, 'random pattern')
                return defaults(key, v)
            drive(ctx, key, n, fn)


def replay(c):
    key = tkey(c['type'])
    if c['op'] == 'exists': return exists(key)
    if c['op'] == 'published default': return published_default(key)
    if c.get('how') == 'verdict': got = verdict(key, bytes.fromhex(c['octets']))
    elif c.get('how') == 'missing': got = missing(key, fromjson(c['value']), c['name'], c['mode'])
    else: got = defaults(key, fromjson(c['value']))
    return got and got[1]
