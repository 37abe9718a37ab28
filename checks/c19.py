"""Values and types survive copying, pickling and the way into another process."""
import copy, pickle, subprocess, sys, os, json, struct
from checks.common import *
from checks import opens as O

PROPERTY = 'C19'
RULE = ('a case is one value of one exported type (decoded from its published octets, or built through the API), the type itself, an exported '
        'constant, predefined value or table of open types, taken through one copy: copy, pickled with one protocol and read '
        'back here, or read back in a new Python process that has imported nothing of the package. The copy must have the published content and encode '
        'to the same octets; a copied type must decode the octets to the published content; a copied table must resolve what the table resolves. '
        'Non-trivial: the encoding has more than two octets.')
ASSUMPTIONS = ['the other process runs the same tree with the same Python']
PROTOCOLS = tuple(range(2, pickle.HIGHEST_PROTOCOL + 1))
WAYS = ('copy',) + PROTOCOLS

# the other process: length-prefixed pickles in, one JSON line per pickle out
CHILD = r'''
import sys, pickle, json, struct
sys.dont_write_bytecode = True
sys.path[:0] = json.loads(sys.argv[1])
sys.pycache_prefix = '/nonexistent'
import warnings; warnings.simplefilter('ignore')
from pyasn1.codec.der import encoder, decoder
f = sys.stdin.buffer
while True:
    h = f.read(4)
    if len(h) < 4: break
    b = f.read(struct.unpack('>I', h)[0])
    n = struct.unpack('>I', f.read(4))[0]
    octets = f.read(n)
    try:
        x = pickle.loads(b)
        if octets:
            w, rest = decoder.decode(octets, asn1Spec=x)
            r = encoder.encode(w).hex() if not rest else 'rest'
        else: r = encoder.encode(x).hex()
    except Exception as e: r = '%s: %s' % (type(e).__name__, str(e)[:300])
    print(json.dumps(r), flush=True)
'''


def duplicate(x, way):
    if way == 'copy': return copy.copy(x)
    if way == 'deepcopy': return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, way))


def made(key, v, how):
    t = M.entries[key].type
    if how == 'built': return A.build(t, v, key, 'inplace')
    w, rest = der_dec.decode(M.encode(t, v), asn1Spec=repo.spec(*key), decodeOpenTypes=how == 'open')
    return w


def check(key, v, how, way):
    """None or what differs"""
    t = M.entries[key].type
    b = M.encode(t, v)
    try: w = made(key, v, how); ref = der_enc.encode(made(key, v, how))
    except (Mismatch, Exception): return None                    # C01, C02 and C07 decide that
    if not w.isValue or (how == 'type' and not isinstance(way, int)): return None                    # pyasn1 does not copy schema objects (and empty lists read with open types are such)
    if how == 'type':
        try: s = duplicate(repo.spec(*key), way)
        except Exception as e: return 'the type cannot be copied (%s): %s' % (way, short(e))
        try: got = A.extract(t, der_dec.decode(b, asn1Spec=s)[0])
        except (Mismatch, Exception) as e: return '%s does not decode with a copy (%s) of the type: %s' % (hexs(b), way, short(e))
        return None if M.norm(t, got) == M.norm(t, v) or M.encode_alt(t, got) == M.encode_alt(t, v) else '%s decodes with a copy (%s) of the type to %r' % (hexs(b), way, got)
    try: x = duplicate(w, way)
    except Exception as e: return '%s value %r cannot be copied (%s): %s' % (how, v, way, short(e))
    try:
        if how != 'open':
            got, was = A.extract(t, x), A.extract(t, w)
            if got != was: return 'the copy (%s) of the %s value %r is %r' % (way, how, was, got)
        b2 = der_enc.encode(x)
    except (Mismatch, Exception) as e: return 'the copy (%s) of the %s value %r: %s' % (way, how, v, short(e))
    if b2 != ref: return 'the copy (%s) of the %s value %r encodes as %s, was %s' % (way, how, v, hexs(b2), hexs(ref))
    return None


def abroad(jobs):
    """[(pickle, octets or b'')] -> what the other process says of each"""
    env = {'PATH': os.environ.get('PATH', ''), 'PYTHONHASHSEED': '0'}
    data = b''.join(struct.pack('>I', len(p)) + p + struct.pack('>I', len(o)) + o for p, o in jobs)
    r = subprocess.run([sys.executable, '-c', CHILD, json.dumps([repo.REPO, repo.VENV])], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd='/', timeout=600)
    out = [json.loads(l) for l in r.stdout.decode().splitlines()]
    return out + ['no answer: ' + r.stderr.decode('utf-8', 'replace')[-200:]] * (len(jobs) - len(out))


def parcel(key, v, how, way):
    """(pickle, octets, expected answer) or None"""
    t = M.entries[key].type
    try: ref = der_enc.encode(made(key, v, 'read' if how == 'type' else how))
    except (Mismatch, Exception): return None
    try:
        if how == 'type': return pickle.dumps(repo.spec(*key), way), M.encode(t, v), ref.hex()
        return pickle.dumps(made(key, v, how), way), b'', ref.hex()
    except Exception: return None                                # reported by check()


def away(key, v, how, way):
    p = parcel(key, v, how, way)
    if p is None: return None
    r = abroad([p[:2]])[0]
    return None if r == p[2] else foreign(v, how, way, r, p[2])


def foreign(v, how, way, r, want): return 'the %s pickled (%s) and read in another process gives %s, here %s (%r)' % ('type' if how == 'type' else how + ' value', way, r[:200], want[:200], v)



def shards(tier, seed):
    out = [('types', s) for s in stripe([k for k in typenames() if public(k)], 64)]
    names = sorted(M.mods)
    return out + [('constants', names[i::4]) for i in range(4)]


def tables(mod):
    """exported dictionaries from identifiers to types"""
    m = repo.module(mod)
    for n in sorted(vars(m)):
        x = getattr(m, n)
        if not n.startswith('_') and isinstance(x, dict) and x and all(isinstance(k, repo.univ.ObjectIdentifier) or isinstance(k, repo.univ.Integer) for k in x): yield n, x


def constants(mod):
    m = repo.module(mod)
    for n in sorted(vars(m)):
        x = getattr(m, n)
        if not n.startswith('_') and isinstance(x, repo.base.Asn1Type) and x.isValue: yield n, x


def same(a, b):
    """do two pyasn1 objects (values or types) look the same"""
    if type(a) is not type(b): return 'is of type %s' % type(b).__name__
    if repr(a.tagSet) != repr(b.tagSet): return 'has other tags'
    if a.isValue != b.isValue: return 'is %sa value' % ('' if b.isValue else 'not ')
    if a.isValue and a.prettyPrint() != b.prettyPrint(): return 'prints as %s, was %s' % (short(b.prettyPrint()), short(a.prettyPrint()))
    return None


def constant(mod, name, way):
    x = getattr(repo.module(mod), name)
    try:
        y = duplicate(x, way)
        m = same(x, y)
        if m: return '%s.%s: the copy (%s) %s' % (mod, name, way, m)
        try: b = der_enc.encode(x)
        except Exception: return None
        if der_enc.encode(y) != b: return '%s.%s: the copy (%s) encodes as %s, was %s' % (mod, name, way, hexs(der_enc.encode(y)), hexs(b))
    except Exception as e: return '%s.%s cannot be copied (%s): %s' % (mod, name, way, short(e))


def table(mod, name, way):
    x = getattr(repo.module(mod), name)
    try: y = duplicate(x, way)
    except Exception as e: return '%s.%s cannot be copied (%s): %s' % (mod, name, way, short(e))
    if sorted(map(str, x)) != sorted(map(str, y)): return '%s.%s: the copy (%s) has other keys' % (mod, name, way)
    for k in x:
        if k not in y: return '%s.%s: the copy (%s) does not find %s' % (mod, name, way, k)
        m = same(x[k], y[k]) if isinstance(x[k], repo.base.Asn1Type) else None
        if m: return '%s.%s[%s]: the copy (%s) %s' % (mod, name, k, way, m)


def run(item, ctx):
    what, names = item
    if what == 'constants':
        jobs = []
        for mod in names:
            try: repo.module(mod)
            except Exception: continue
            for n, x in constants(mod):
                for way in WAYS:
                    ctx.case('%s.%s %s' % (mod, n, way), True, 'constant', '%s.%s %s' % (mod, n, way))
                    m = constant(mod, n, way)
                    if m: ctx.fail('%s.%s constant' % (mod, n), m, {'kind': 'constant', 'name': [mod, n], 'way': way, 'error': errname(m)})
                try: jobs.append((mod, n, pickle.dumps(x, 2), der_enc.encode(x).hex()))
                except Exception: pass
            for n, x in tables(mod):
                for way in WAYS:
                    ctx.case('%s.%s %s' % (mod, n, way), True, 'table', '%s.%s %s' % (mod, n, way))
                    m = table(mod, n, way)
                    if m: ctx.fail('%s.%s table' % (mod, n), m, {'kind': 'table', 'name': [mod, n], 'way': way, 'error': errname(m)})
        for (mod, n, p, want), r in zip(jobs, abroad([(j[2], b'') for j in jobs])):
            ctx.case('%s.%s abroad' % (mod, n), True, 'constant in another process')
            if r != want: ctx.fail('%s.%s constant' % (mod, n), '%s.%s pickled and read in another process gives %s, here %s' % (mod, n, r[:200], want[:200]), {'kind': 'constant abroad', 'name': [mod, n], 'error': errname(r)})
        return
    parcels = []
    for key in names:
        t = M.entries[key].type
        if missing_type(ctx, key): continue
        state = [0]

        def fn(v, gen=True):
            b = M.encode(t, v)
            i = state[0] = state[0] + 1
            hs = ('read', 'built', 'type', 'open') if ctx.tier != 'quick' else (('read', 'built', 'type', 'open')[(i + len(b)) % 4],)
            for j, how in enumerate(hs):
                for way in WAYS if ctx.tier != 'quick' else ('copy', PROTOCOLS[(i + j) % len(PROTOCOLS)]):
                    ctx.case('%s %s %s %s' % (tname(key), how, way, b.hex()), len(b) > 2, '%s, %s' % (how, 'protocol %s' % way if isinstance(way, int) else way), '%s %s %s %s' % (tname(key), how, way, hexs(b)))
                    m = check(key, v, how, way)
                    if m: return 'copy', m
            if len(parcels) < 4000 and i % 4 == 2: parcels.append((key, v, hs[i % len(hs)], PROTOCOLS[i % len(PROTOCOLS)]))
        for lab, v in G.brief(t)[:4 if ctx.tier == 'quick' else 99]:
            r = fn(v, False)
            if r: report(ctx, key, v, r[0], r[1])
        drive(ctx, key, 3 if ctx.tier == 'quick' else 6, fn)
    jobs = [(x, parcel(*x)) for x in parcels]
    jobs = [(x, p) for x, p in jobs if p]
    for ((key, v, how, way), p), r in zip(jobs, abroad([p[:2] for _, p in jobs])):
        ctx.case('%s abroad %s %s %s' % (tname(key), how, way, p[2]), len(p[2]) > 4, how + ', in another process', '%s %s' % (tname(key), p[2][:60]))
        if r != p[2]: report(ctx, key, v, 'abroad', foreign(v, how, way, r, p[2]), how=how, way=way)


def replay(c):
    k = c.get('kind')
    if k == 'constant': return constant(c['name'][0], c['name'][1], c['way'])
    if k == 'table': return table(c['name'][0], c['name'][1], c['way'])
    if k == 'constant abroad':
        x = getattr(repo.module(c['name'][0]), c['name'][1])
        r = abroad([(pickle.dumps(x, 2), b'')])[0]
        return None if r == der_enc.encode(x).hex() else r
    key = tkey(c['type'])
    if c['op'] == 'exists': return exists(key)
    v = fromjson(c['value'])
    if c['op'] == 'abroad': return away(key, v, c['how'], c['way'])
    for how in ('read', 'built', 'type', 'open'):
        for way in WAYS:
            m = check(key, v, how, way)
            if m: return m
