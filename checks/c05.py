"""Named numbers, bits and enumerations carry their published values."""
from checks.common import *
from hypothesis import strategies as st

PROPERTY = 'C05'
RULE = ('a case is one identifier (or one number) of one named INTEGER, ENUMERATED or named BIT STRING type, reached directly or as a '
        'part of an exported type. Setting the part by identifier must encode the published number; decoding the published number '
        'must print that identifier; the set of identifiers must be exactly the published one; unknown identifiers are refused. '
        'Random subsets of named bits and random numbers are generated as well. Non-trivial: all.')
ASSUMPTIONS = []


def parts(t, path=(), depth=0, seen=()):
    """(path, type) of the parts with named values; a path step is a component
    name, an alternative name or 0 for 'element'"""
    r = M.eff(t)
    if r.named and r.kind in ('INTEGER', 'ENUMERATED', 'BIT STRING'): yield path, t
    if depth > 3 or id(r) in seen: return
    s = seen + (id(r),)
    if r.kind in ('SEQUENCE', 'SET', 'CHOICE'):
        for f in r.fields:
            if depth == 0 or f.type.ref is None or M.eff(f.type).kind in repo.SCALAR:
                for x in parts(f.type, path + (f.name,), depth + 1, s): yield x
    elif r.kind in ('SEQUENCE OF', 'SET OF'):
        for x in parts(r.elem, path + (0,), depth + 1, s): yield x


def shards(tier, seed):
    return stripe([k for k in typenames() if public(k) and k not in UNDECODABLE and any(True for _ in parts(M.entries[k].type))], 32)


def embed(t, path, v):
    """smallest value of t whose part at path is v"""
    if not path: return v
    r = M.eff(t)
    if r.kind == 'CHOICE': return (path[0], embed(r.byname[path[0]].type, path[1:], v))
    if r.kind in ('SEQUENCE', 'SET'):
        a = dict(G.minimal(t))
        a[path[0]] = embed(r.byname[path[0]].type, path[1:], v)
        return a
    n = max(1, int(gen.cons(r).slo))
    return [embed(r.elem, path[1:], v)] + [G.minimal(r.elem, i) for i in range(n - 1)]


def reach(obj, t, path):
    """the part of a decoded value"""
    for s in path:
        r = M.eff(t)
        if r.kind == 'CHOICE':
            if obj.getName() != s: raise Mismatch('alternative %s instead of %s' % (obj.getName(), s))
            obj, t = obj.getComponent(), r.byname[s].type
        elif r.kind in ('SEQUENCE', 'SET'): obj, t = obj[s], r.byname[s].type
        else: obj, t = obj[0], r.elem
    return obj


def number(r, ident):
    n = r.named[ident]
    return n if r.kind != 'BIT STRING' else '0' * n + '1'


def fits(r, v):
    return all(asn1ref.holds(r, c, v) for c in r.cons)


def pad(r, v):
    """named bits of a size-constrained BIT STRING"""
    if r.kind == 'BIT STRING':
        lo = int(gen.cons(r).slo)
        if len(v) < lo: v = v.ljust(lo, '0')
    return v


def decoded(key, path, t, v):
    """the part, from decoding the published encoding of v in place"""
    T = M.entries[key].type
    b = M.encode(T, embed(T, path, v))
    w, rest = der_dec.decode(b, asn1Spec=repo.spec(*key))
    return reach(w, T, path), b


def by_number(key, path, t, ident):
    """decoding the number prints the identifier"""
    r = M.eff(t)
    v = pad(r, number(r, ident))
    try: o, b = decoded(key, path, t, v)
    except (Mismatch, Exception) as e: return 'decoding %s: %s' % (ident, short(e))
    if r.kind == 'BIT STRING':
        got = o.asBinary() if len(o) else ''
        if got != v: return '%s: bits %s read as %s' % (ident, v, got)
        nm = dict(o.namedValues)
        if nm.get(ident) != r.named[ident]: return '%s is bit %s, published bit %d' % (ident, nm.get(ident), r.named[ident])
        return None
    if int(o) != v: return '%s: %d read as %d' % (ident, v, int(o))
    if o.prettyPrint() != ident: return '%d is shown as %r, published %r' % (v, o.prettyPrint(), ident)
    return None


def by_name(key, path, t, ident):
    """setting the identifier encodes the number"""
    r, T = M.eff(t), M.entries[key].type
    v = number(r, ident)
    if pad(r, v) != v: return None
    try: b = M.encode(T, embed(T, path, v))
    except asn1ref.RefError: return None
    try:
        if not path: o = repo.spec(*key).clone(ident)
        else:
            o = A.build(T, embed(T, path, v), key, 'inplace')
            parent = reach(o, T, path[:-1])
            parent[path[-1]] = ident
        got = der_enc.encode(o)
    except (Mismatch, Exception) as e: return 'setting %s: %s' % (ident, short(e))
    if got not in (b, M.encode_alt(T, embed(T, path, v))): return 'set to %s encodes as %s, published %s' % (ident, hexs(got), hexs(b))
    return None


def names(key, path, t):
    """exactly the published identifiers are known"""
    r = M.eff(t)
    ident = sorted(r.named, key=lambda n: r.named[n])
    for first in ident:
        if fits(r, pad(r, number(r, first))): break
    else: return None
    try: o, b = decoded(key, path, t, pad(r, number(r, first)))
    except (Mismatch, Exception) as e: return short(e)
    got = {str(n): int(x) for n, x in dict(o.namedValues).items()}
    if got != dict(r.named):
        extra = {n: x for n, x in got.items() if r.named.get(n) != x}
        lost = {n: x for n, x in r.named.items() if got.get(n) != x}
        return 'identifiers differ from the published ones: has %r instead of %r' % (extra, lost)
    for bad in ('no-such-identifier', first + 'x', first.swapcase()):
        if bad in r.named: continue
        try: x = o.clone(bad)
        except PyAsn1Error: continue
        except Exception as e: return 'unknown identifier %s: %s' % (bad, short(e))
        return 'unknown identifier %r accepted as %r' % (bad, x)
    return None


def bits(key, path, t, idents):
    """a set of named bits given as text"""
    r, T = M.eff(t), M.entries[key].type
    ns = [r.named[i] for i in idents]
    v = ''.join('1' if i in ns else '0' for i in range(max(ns) + 1))
    if not fits(r, v): return None
    try:
        o = repo.spec(*key) if not path else None
        if o is None: o, _ = decoded(key, path, t, v)
        got = o.clone(', '.join(idents))
    except (Mismatch, Exception) as e: return 'bits %s: %s' % (idents, short(e))
    if got.asBinary() != v: return 'bits %s are %s, published %s' % (idents, got.asBinary(), v)
    return None


def run(item, ctx):
    for key in item:
        if missing_type(ctx, key): continue
        T = M.entries[key].type
        for path, t in parts(T):
            r = M.eff(t)
            where = tname(key) + ''.join('/' + str(p) for p in path)

            def note(m, op, **kw):
                if m: ctx.fail('%s %s' % (where, op), '%s: %s' % (where, m), dict(type=tname(key), path=list(path), op=op, error=errname(m), **kw))
            ctx.case(where, True, 'identifier set', where)
            note(names(key, path, t), 'names')
            idents = sorted(r.named, key=lambda n: r.named[n])
            if len(path) and t.ref is not None and ctx.tier == 'quick' and len(idents) > 8: idents = idents[:3] + idents[3::7] + idents[-1:]
            for i in idents:
                if not fits(r, pad(r, number(r, i))): continue
                ctx.case(where + i, True, 'identifier of ' + r.kind, '%s %s(%d)' % (where, i, r.named[i]))
                note(by_number(key, path, t, i), 'number', ident=i)
                note(by_name(key, path, t, i), 'name', ident=i)
            n = 12 if ctx.tier == 'quick' else 120
            if r.kind == 'BIT STRING':
                def fn(ids):
                    ctx.case(where + repr(sorted(ids)), True, 'set of bits')
                    m = bits(key, path, t, sorted(ids))
                    if m: raise Violation(m)
                got = framework.hypo(st.sets(st.sampled_from(sorted(r.named)), min_size=1), fn, seeded(ctx.seed, where), n)
                if got: note(str(got[1]), 'bits', idents=sorted(got[0]))
            elif not path:
                def fn(v):
                    ctx.case(where + str(v), True, 'any number')
                    m = anynumber(key, t, v)
                    if m: raise Violation(m)
                got = framework.hypo(G.strategy(t), fn, seeded(ctx.seed, where), n)
                if got: note(str(got[1]), 'any', value=got[0])


def anynumber(key, t, v):
    """a number prints as its identifier if it has one, as itself otherwise"""
    r = M.eff(t)
    try: o, b = decoded(key, (), t, v)
    except (Mismatch, Exception) as e: return '%d: %s' % (v, short(e))
    want = [n for n, x in r.named.items() if x == v] or [str(v)]
    if o.prettyPrint() not in want: return '%d is shown as %r, published %r' % (v, o.prettyPrint(), want)
    return None


def replay(c):
    key, path = tkey(c['type']), tuple(c.get('path', ()))
    if c['op'] == 'exists': return exists(key)
    t = M.entries[key].type
    for s in path:
        r = M.eff(t)
        t = r.byname[s].type if r.kind in ('SEQUENCE', 'SET', 'CHOICE') else r.elem
    if c['op'] == 'names': return names(key, path, t)
    if c['op'] == 'number': return by_number(key, path, t, c['ident'])
    if c['op'] == 'name': return by_name(key, path, t, c['ident'])
    if c['op'] == 'bits': return bits(key, path, t, c['idents'])
    return anynumber(key, t, c['value'])
