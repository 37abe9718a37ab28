"""Shared by the checks: the reference model, the generators, the adapter."""
import os, functools
import asn1ref, gen, repo, framework
from framework import tojson, fromjson, Violation, seeded
from repo import Mismatch, PyAsn1Error, der_dec, der_enc, ber_dec, ber_enc, cer_dec, cer_enc

M = asn1ref.Model()
G = gen.Gen(M)
A = repo.Adapter(M)


def typenames(include=None):
    """(module, name) of every published type"""
    return [k for k, e in M.entries.items() if e.what in ('TYPE', 'SCHEMA') and (include is None or include(k))]


def cost(key):
    return 3 + min(60, G.weight(M.entries[key].type)) if M.entries[key].type else 1


def stripe(names, n):
    """n shards of roughly equal work, deterministic"""
    names = sorted(names, key=lambda k: (-cost(k), k))
    out = [[] for _ in range(n)]
    for i, k in enumerate(names): out[i % n].append(k)
    return [x for x in out if x]


def short(e):
    s = '%s: %s' % (type(e).__name__, e)
    return s if len(s) < 300 else s[:300] + '...'


def hexs(b):
    return b.hex() if len(b) < 200 else b.hex()[:400] + '...(%d octets)' % len(b)


def alternatives(t, v, b):
    return (b, M.encode_alt(t, v))


def check_decode(key, t, v, b):
    """DER octets b of v decode to v and re-encode to b; message or None"""
    try:
        w, rest = der_dec.decode(b, asn1Spec=repo.spec(*key))
        if rest: return 'decoding %s leaves %d octets unread' % (hexs(b), len(rest))
        got = A.extract(t, w)
    except (Mismatch, Exception) as e:
        return 'decoding %s of %r: %s' % (hexs(b), v, short(e))
    want = M.norm(t, v)
    if M.norm(t, got) != want: return 'decoding %s: got %r, published meaning %r' % (hexs(b), got, want)
    try: b2 = der_enc.encode(w)
    except Exception as e: return 're-encoding decoded %s: %s' % (hexs(b), short(e))
    if b2 != b and b2 not in alternatives(t, v, b):
        return 're-encoding decoded %s gives %s' % (hexs(b), hexs(b2))
    return None


def check_build(key, t, v, b, mode):
    try: b2 = der_enc.encode(A.build(t, v, key, mode))
    except (Mismatch, Exception) as e:
        return 'building %r (%s): %s' % (v, mode, short(e))
    if b2 != b and b2 not in alternatives(t, v, b):
        return 'building %r (%s) encodes as %s, published encoding %s' % (v, mode, hexs(b2), hexs(b))
    return None


def nontrivial_value(v):
    """a value that carries some content"""
    return v not in (None, {}, [], b'', '', 0, False)


def errname(msg):
    """class of exception named in a message, for matching known findings"""
    import re
    m = re.search(r': (\w+(?:Error|Exception|Warning)): ', ': ' + msg)
    return m.group(1) if m else ''


def public(key):
    return not key[1].startswith('_')


def tname(key):
    return '.'.join(key)


def tkey(name):
    return tuple(name.split('.', 1))


def presence(t, d, v):
    """does pyasn1 0.5.1 fail to compare value v with d (equal up to a component present in one only)?"""
    r = M.eff(t)
    if r.kind in ('SEQUENCE', 'SET'):
        for f in r.fields:
            if (f.name in d) != (f.name in v): return True
            if f.name not in d: continue
            if presence(f.type, d[f.name], v[f.name]): return True
            if not M.same(f.type, d[f.name], v[f.name]): return False
    return False


_defaulted = {}


def has_default(t, seen=()):
    """does t contain a structured DEFAULT at any depth"""
    r = M.eff(t)
    if id(r) in _defaulted: return _defaulted[id(r)][1]
    if id(r) in seen: return False
    if r.fields: x = any((f.default is not None and M.eff(f.type).fields) or has_default(f.type, seen + (id(r),)) for f in r.fields)
    elif r.elem is not None: x = has_default(r.elem, seen + (id(r),))
    else: x = False
    if not seen: _defaulted[id(r)] = (r, x)
    return x


def neardefault(t, v):
    """name of the component with a structured DEFAULT that v's component differs from only in the presence of
    something: encoding such a value fails (known findings of C01 and C02; the other checks leave them alone)"""
    if not has_default(t): return None
    r = M.eff(t)
    if r.kind in ('SEQUENCE', 'SET'):
        for f in r.fields:
            if f.name not in v: continue
            if f.default is not None and M.eff(f.type).fields and presence(f.type, M.default(f)[0], v[f.name]): return '%s.%s' % (r.name, f.name)
            x = neardefault(f.type, v[f.name])
            if x: return x
    elif r.kind == 'CHOICE': return neardefault(r.byname[v[0]].type, v[1])
    elif r.elem is not None:
        for x in v:
            y = neardefault(r.elem, x)
            if y: return y
    return None


def case(key, v, op, msg='', **kw):
    d = {'type': tname(key), 'op': op, 'value': tojson(v), 'error': errname(msg)}
    t = M.entries[key].type
    try: n = neardefault(t, v) if t is not None and v is not None else None
    except Exception: n = None
    if n: d['neardefault'] = n
    d.update(kw)
    return d


def report(ctx, key, v, op, msg, **kw):
    """record a violation for a type"""
    ctx.fail('%s %s' % (tname(key), op), msg, case(key, v, op, msg, **kw))


def drive(ctx, key, n, fn, strategy=None):
    """Hypothesis search on one type; fn(value) returns None or (op, message)"""
    t = M.entries[key].type

    def f(v):
        r = fn(v)
        if r:
            c = case(key, v, r[0], r[1])
            if any(framework.matches_known(k, '%s %s' % (tname(key), r[0]), c) for k in ctx.known):
                ctx.fail('%s %s' % (tname(key), r[0]), r[1], c)
                return
            raise Violation(r[1], group=r[0])
    got = framework.hypo(strategy if strategy is not None else G.strategy(t), f, seeded(ctx.seed, key, n), n)
    if got:
        v, e = got
        report(ctx, key, v, e.group, str(e))


# ------------------------------------------------------- TLV trees of encodings
def tree(b):
    """DER octets as nested [(header octets, children list | None, content)]"""
    out = []
    while b:
        tg, cons, body, rest = asn1ref.readtlv(b)
        used = b[:len(b) - len(rest)]
        # identifier octets only; the length is recomputed
        n = 1
        if used[0] & 31 == 31:
            while used[n] & 0x80: n += 1
            n += 1
        kids = None
        if cons:
            try: kids = tree(body)
            except asn1ref.Reject: kids = None
        out.append([used[:n], kids, body])
        b = rest
    return out


def untree(nodes):
    out = b''
    for ident, kids, body in nodes:
        c = body if kids is None else untree(kids)
        out += ident + asn1ref.lenbytes(len(c)) + c
    return out


def nodes(t, path=()):
    """paths of the constructed nodes of a tree"""
    for i, (ident, kids, body) in enumerate(t):
        if kids is not None:
            yield path + (i,)
            for p in nodes(kids, path + (i,)): yield p


def at(t, path):
    n = t[path[0]]
    for i in path[1:]: n = n[1][i]
    return n


def withkids(t, path, kids):
    """copy of tree t with the children of the node at path replaced"""
    i = path[0]
    n = t[i]
    new = [n[0], kids if len(path) == 1 else withkids(n[1], path[1:], kids), n[2]]
    return t[:i] + [new] + t[i + 1:]


# types whose published definition is ambiguous: no codec can decode them (known
# findings of C01, C02 and C03); the other checks leave them alone
UNDECODABLE = {('rfc6402', 'ChangeSubjectName'), ('rfc6402', 'CMCStatusInfoV2')}


def exists(key):
    """None, or why an exported type cannot be used at all"""
    try: repo.spec(*key)
    except (Mismatch, Exception) as e: return 'cannot be used: ' + short(e)
    return None


def missing_type(ctx, key):
    m = exists(key)
    if m: ctx.fail(tname(key) + ' exists', m, {'type': tname(key), 'op': 'exists', 'value': None, 'error': errname(m)})
    return m


# ------------------------------------------------------- octets that may not be valid
REFUSED = object()
BITS = ('index out of range', '__len__() should return >= 0')


def verdict(key, b):
    """None if the code treats b as published, else (op, message)"""
    t = M.entries[key].type
    want, why, free = REFUSED, None, False
    try:
        want = M.decode(t, b, check=False)
        free = not M.valid(t, want)         # constraints are C04's matter: may also be refused
    except asn1ref.Reject as e:
        why = str(e)
        if e.kind == 'content' or M.lax_accepts(t, b): free = True
    try:
        w, rest = der_dec.decode(b, asn1Spec=repo.spec(*key))
        if rest: raise PyAsn1Error('trailing octets')
    except PyAsn1Error as e:
        if want is REFUSED or free: return None
        return ('refused', 'valid %s of %r is refused: %s' % (hexs(b), want, short(e)))
    except OverflowError:
        return None         # pyasn1 0.5.1: an element that declares 2**63 octets or more
    except Exception as e:
        if want is REFUSED and str(e) in BITS: return None       # pyasn1 0.5.1 on bad BIT STRING contents
        return ('crash', 'decoding %s: %s' % (hexs(b), short(e)))
    if want is REFUSED and free: return None
    try: got = A.extract(t, w)
    except (Mismatch, Exception) as e: return ('misread', 'decoding %s: %s' % (hexs(b), short(e)))
    if want is REFUSED: return ('accepted', '%s is accepted as %r, but: %s' % (hexs(b), got, why))
    if M.norm(t, got) != M.norm(t, want): return ('misread', '%s read as %r, published meaning %r' % (hexs(b), got, want))
    return None
