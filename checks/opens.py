"""Open types in the reference model: which identifiers are registered, values
whose open components hold what their identifier promises, and reading values
decoded with open types enabled."""
import random
from checks.common import *

ALIASES = {'rfc6402.cmcControlAttributesMap': 'rfc5652.cmsAttributesMap'}
FREE = [(1, 2, 3, 4, 5, 6, 7, 8, 9), (2, 999, 1), (1, 3, 6, 1, 4, 1, 99999, 7)]


def mapname(f, mod=None):
    m = f.map if '.' in f.map else (mod + '.' + f.map)
    return ALIASES.get(m, m)


REG = {}           # map -> identifier -> [Type]
for _m, _map, _oid, _t in M.regs:
    _l = REG.setdefault(ALIASES.get(_map, _map), {}).setdefault(_oid, [])
    if _t.ref not in [x.ref for x in _l] or _t.ref is None: _l.append(_t)


def registered(f, gov):
    """published syntaxes for governing value gov of open component f"""
    return REG.get(mapname(f), {}).get(gov if isinstance(gov, tuple) else (gov,), [])


_reaches = {}


def reaches(t, bad, seen=()):
    """does type t contain one of the type names in bad"""
    if t.ref in bad: return True
    r = M.eff(t)
    k = (id(r), bad)
    if k in _reaches: return _reaches[k][1]
    if id(r) in seen: return False
    kids = [f.type for f in r.fields] if r.fields else [r.elem] if r.elem is not None else []
    _reaches[k] = (r, any(reaches(x, bad, seen + (id(r),)) for x in kids) or (M.types.get(t.ref) is not None and reaches(M.types[t.ref], bad, seen + (id(r),))))
    return _reaches[k][1]


BAD = frozenset(UNDECODABLE)


def usable(t):
    return not reaches(t, BAD)


_openin = {}


def has_open(t, seen=()):
    r = M.eff(t)
    if id(r) in _openin: return _openin[id(r)][1]
    if id(r) in seen: return False
    if r.fields: x = any(f.gov or has_open(f.type, seen + (id(r),)) for f in r.fields)
    elif r.elem is not None: x = has_open(r.elem, seen + (id(r),))
    else: x = False
    if not seen: _openin[id(r)] = (r, x)
    return x


class Unsettled(Exception):
    """no consistent open content found"""


def content_for(types, rnd, depth):
    """octets valid under every published syntax in types, with inner open components filled too"""
    t = types[rnd.randrange(len(types))]
    if not usable(t): raise Unsettled()
    vs = G.brief(t)
    return agreed(types, t, settle(t, vs[rnd.randrange(len(vs))][1], rnd, depth - 1))


def agreed(types, t, v):
    try:
        c = M.encode(t, v)
        if c != M.encode_alt(t, v) or neardefault(t, v): raise Unsettled()
        for x in types:
            if x is not t: M.decode(x, c)
    except (asn1ref.Reject, asn1ref.RefError, ValueError): raise Unsettled()
    return c


def settle(t, v, rnd, depth=2):
    """v with every open component made consistent with its governing identifier"""
    if not has_open(t): return v
    r = M.eff(t)
    if r.kind == 'CHOICE': return (v[0], settle(r.byname[v[0]].type, v[1], rnd, depth))
    if r.kind in ('SEQUENCE OF', 'SET OF'): return [settle(r.elem, x, rnd, depth) for x in v]
    if r.kind not in ('SEQUENCE', 'SET'): return v
    out = {f.name: settle(f.type, v[f.name], rnd, depth) for f in r.fields if f.name in v}
    for f in r.fields:
        if f.gov and f.name in v: out.update(open_value(r, f, out, rnd, depth))
    return out


def open_value(r, f, v, rnd, depth):
    """new values for the governing and the open component"""
    g = r.byname[f.gov]
    isoid = M.eff(g.type).kind == 'OBJECT IDENTIFIER'
    regs = sorted(REG.get(mapname(f), {}))
    tries = []
    if depth > 0 and regs:
        for _ in range(3): tries.append(regs[rnd.randrange(len(regs))])
    tries.append(FREE[rnd.randrange(len(FREE))] if isoid else (250,))
    if f.gov in v: tries.append(v[f.gov] if isoid else (v[f.gov],))
    for o in tries:
        o = o if isoid else o[0]
        if not M.valid(g.type, o): continue
        types = registered(f, o)
        try: val = wrap(f, content_for(types, rnd, depth) if types else None, v.get(f.name))
        except Unsettled: continue
        if M.valid(f.type, val): return {f.gov: o, f.name: val}
    raise Unsettled()


def wrap(f, c, old):
    """value of open component f holding content octets c"""
    fe = M.eff(f.type)
    if c is None: return old
    if fe.kind in ('SEQUENCE OF', 'SET OF'):
        n = max(1, len(old or []))
        if any(k[0] == 'size' and k[2] < n for k in fe.cons): n = 1
        return [c] * min(n, 2)
    return c


class OpenAdapter(repo.Adapter):
    """reads values decoded with open types on; every registered open component must hold a value of
    the registered type.  Gives the raw value (octets in open components)."""
    def __init__(self, model, extra=None):
        repo.Adapter.__init__(self, model)
        self.extra = extra or {}          # caller-supplied identifier -> Type
        self.resolved = 0
        self.lookup = registered

    def extract(self, t, obj, path=''):
        r = self.M.eff(t)
        if r.kind not in ('SEQUENCE', 'SET') or not any(f.gov or f.default is not None for f in r.fields):
            return repo.Adapter.extract(self, t, obj, path)
        opens = {f.name: f for f in r.fields if f.gov}
        names = list(obj.componentType)
        if sorted(names) != sorted(f.name for f in r.fields):
            raise Mismatch('%s: components %s' % (path, names))
        out = {}
        for f in r.fields:
            if f.default is not None: c = obj.getComponentByName(f.name)
            else: c = obj.getComponentByName(f.name, default=None, instantiate=False)
            if c is None or not c.isValue: continue
            p = path + '/' + f.name
            if f.name not in opens:
                if f.default is not None:
                    # a defaulted component that was left out is never resolved
                    try:
                        v = repo.Adapter.extract(A, f.type, c, p)
                        if self.M.same(f.type, v, self.M.default(f)[0]):
                            out[f.name] = v
                            continue
                    except (Mismatch, PyAsn1Error): pass
                out[f.name] = self.extract(f.type, c, p)
                continue
            gov = obj.getComponentByName(f.gov)
            gov = int(gov) if isinstance(gov, repo.univ.Integer) else tuple(gov)
            types = [self.extra[gov]] if gov in self.extra else self.lookup(f, gov)
            if not types:
                out[f.name] = repo.Adapter.extract(self, f.type, c, p)
                continue
            e = self.M.eff(f.type)
            if e.kind in ('SEQUENCE OF', 'SET OF'): out[f.name] = [self.content(types, x, '%s[%d]' % (p, i), gov) for i, x in enumerate(c)]
            else: out[f.name] = self.content(types, c, p, gov)
        return out

    def content(self, types, obj, path, gov):
        err = None
        for t in types:
            try:
                v = self.extract(t, obj, path)
                self.resolved += 1
                return self.M.encode(t, v)
            except (Mismatch, asn1ref.RefError, PyAsn1Error, AttributeError, TypeError, UnicodeError) as e:
                err = err or e
        raise Mismatch('%s governed by %s is not the registered %s: %s' % (path, gov, '/'.join(typetext(t) for t in types), short(err)))


def typetext(t):
    return tname(t.ref) if t.ref else M.eff(t).kind
