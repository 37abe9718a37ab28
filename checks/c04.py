"""Published value constraints are enforced at their exact bounds."""
from checks.common import *
from hypothesis import strategies as st

PROPERTY = 'C04'
RULE = ('a case is one value of one exported type in which one constrained part sits at, inside or outside its published bound, the '
        'part being the value itself, a component, an alternative or an element at any depth of a generated value. Inside: it must '
        'build, encode and decode. Outside: a simple part must be refused on decoding and on building or encoding, a list or '
        'structure at the latest on encoding. Non-trivial: every such case (types without constraints are not counted).')
ASSUMPTIONS = ['SIZE of lists and WITH COMPONENTS are enforced by pyasn1 0.5.1 on encoding only',
               'constraints the modules have never expressed are not demanded']


def constrained(t, depth=0, seen=()):
    r = M.eff(t)
    if r.cons: return True
    if depth > 3 or id(r) in seen: return False
    s = seen + (id(r),)
    if r.kind in ('SEQUENCE', 'SET', 'CHOICE'): return any(constrained(f.type, depth + 1, s) for f in r.fields)
    if r.kind in ('SEQUENCE OF', 'SET OF'): return constrained(r.elem, depth + 1, s)
    return False


def shards(tier, seed):
    return stripe([k for k in typenames() if public(k) and k not in UNDECODABLE and constrained(M.entries[k].type)], 48)


def accepted(key, v):
    t = M.entries[key].type
    b = M.encode(t, v)
    try: w, rest = der_dec.decode(b, asn1Spec=repo.spec(*key))
    except Exception as e: return ('inside decode', 'allowed %r refused on decoding %s: %s' % (v, hexs(b), short(e)))
    if M.encode_alt(t, v) == b:
        try: der_enc.encode(w)
        except Exception as e: return ('inside re-encode', 'allowed %r refused on encoding: %s' % (v, short(e)))
    try: der_enc.encode(A.build(t, v, key, 'inplace'))
    except (Mismatch, Exception) as e: return ('inside build', 'allowed %r refused on building: %s' % (v, short(e)))
    return None


def refused(key, v, where):
    t = M.entries[key].type
    b = M.encode(t, v)
    if where == 'scalar':
        try: w, rest = der_dec.decode(b, asn1Spec=repo.spec(*key))
        except PyAsn1Error: w = None
        except Exception as e: return ('outside decode', 'decoding forbidden %r: %s' % (v, short(e)))
        if w is not None and not rest: return ('outside decode', 'forbidden %r accepted on decoding %s' % (v, hexs(b)))
    else:
        try: w, rest = der_dec.decode(b, asn1Spec=repo.spec(*key))
        except PyAsn1Error: w = None
        except Exception as e: return ('outside decode', 'decoding forbidden %r: %s' % (v, short(e)))
        if w is not None:
            try: b2 = der_enc.encode(w)
            except Exception: b2 = None
            if b2 == b: return ('outside re-encode', 'forbidden %r accepted on decoding and re-encoding %s' % (v, hexs(b)))
    try: b2 = der_enc.encode(A.build(t, v, key, 'inplace'))
    except (Mismatch, Exception): return None
    if b2 != b: return None     # the forbidden part did not make it into the encoding
    return ('outside build', 'forbidden %r accepted, encodes as %s' % (v, hexs(b2)))


def leaves(t, v, path=()):
    """(path, reference type) of the constrained simple parts of v"""
    r = M.eff(t)
    if r.kind in ('SEQUENCE', 'SET'):
        for f in r.fields:
            if f.name in v:
                for x in leaves(f.type, v[f.name], path + (f.name,)): yield x
    elif r.kind == 'CHOICE':
        for x in leaves(r.byname[v[0]].type, v[1], path + (0,)): yield x
    elif r.kind in ('SEQUENCE OF', 'SET OF'):
        for i, e in enumerate(v):
            for x in leaves(r.elem, e, path + (i,)): yield x
    elif r.cons: yield path, r


def replace(t, v, path, new):
    if not path: return new
    r = M.eff(t)
    if r.kind in ('SEQUENCE', 'SET'):
        a = dict(v)
        a[path[0]] = replace(r.byname[path[0]].type, v[path[0]], path[1:], new)
        return a
    if r.kind == 'CHOICE': return (v[0], replace(r.byname[v[0]].type, v[1], path[1:], new))
    a = list(v)
    a[path[0]] = replace(r.elem, v[path[0]], path[1:], new)
    return a


def outside(draw, r):
    """an arbitrary forbidden value of a constrained simple type, or None"""
    k, c = r.kind, gen.cons(r)
    inv = [v for _, v in G.invalid_scalars(r)]
    if not inv: return None
    if c.values is None and draw(st.booleans()):
        d = draw(st.integers(1, 40))
        if k in ('INTEGER', 'ENUMERATED') and not c.ranges:
            if c.hi != asn1ref.INF and draw(st.booleans()): return int(c.hi) + d
            if c.lo != asn1ref.INF * -1: return int(c.lo) - d
        elif c.sized and not c.sizes and k in ('OCTET STRING', 'BIT STRING'):
            n = None
            if c.shi <= 5000 and draw(st.booleans()): n = int(c.shi) + d
            elif c.slo > 0: n = draw(st.integers(0, int(c.slo) - 1))
            if n is not None: return b'\x07' * n if k == 'OCTET STRING' else '1' * n
    return inv[draw(st.integers(0, len(inv) - 1))]


def run(item, ctx):
    for key in item:
        t = M.entries[key].type
        if missing_type(ctx, key): continue

        def note(got, v, where=None):
            if got: ctx.fail('%s %s' % (tname(key), got[0]), got[1], case(key, v, got[0], got[1], where=where))
        for lab, v in G.directed(t):
            if not any(x in lab for x in ('bound', 'size', 'elements', 'value', 'alphabet', 'minimal')): continue
            if len(repr(v)) > 300000: continue
            ctx.case(tname(key) + 'i' + lab + str(hash(repr(v))), True, 'inside', '%s inside (%s)' % (tname(key), lab))
            note(accepted(key, v), v)
        seen = set()
        for lab, v, where in G.invalid(t):
            h = hash(repr(v))
            if h in seen: continue
            seen.add(h)
            ctx.case(tname(key) + 'o' + lab + str(h), True, 'outside ' + where, '%s outside (%s) %s' % (tname(key), lab, repr(v)[:150]))
            note(refused(key, v, where), v, where)
        n = 20 if ctx.tier == 'quick' else 80
        if M.eff(t).kind in repo.SCALAR: n *= 3

        @st.composite
        def deep(draw):
            v = G.draw(draw, M.eff(t), 5)
            ls = list(leaves(t, v))
            if not ls: return (v, None)
            path, r = ls[draw(st.integers(0, len(ls) - 1))]
            bad = outside(draw, r)
            if bad is None: return (v, None)
            return (v, replace(t, v, path, bad))

        def fn(vs):
            v, bad = vs
            if bad is None:
                ctx.case(tname(key) + 'i' + str(hash(repr(v))), True, 'inside, deep')
                if not M.valid(t, v): return None
                got = accepted(key, v)
            else:
                ctx.case(tname(key) + 'o' + str(hash(repr(bad))), True, 'outside, deep')
                got = refused(key, bad, 'scalar')
            return got

        def g(vs):
            got = fn(vs)
            if got: raise Violation(got[1], group=got[0])
        res = framework.hypo(deep(), g, seeded(ctx.seed, key, n), n)
        if res:
            (v, bad), e = res
            note((e.group, str(e)), v if bad is None else bad, 'scalar')


def replay(c):
    key = tkey(c['type'])
    if c['op'] == 'exists': return exists(key)
    v = fromjson(c['value'])
    got = accepted(key, v) if c['op'].startswith('inside') else refused(key, v, c['where'])
    return got and got[1]
