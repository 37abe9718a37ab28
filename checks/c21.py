"""Exported types can be tagged, restricted and used as parts of new types."""
from checks.common import *
from hypothesis import strategies as st
from pyasn1.type import tag, constraint, namedtype, univ
import random

PROPERTY = 'C21'
RULE = ('a case is one value of a type made up by the check from exported types: tagged implicitly or explicitly up to twice (with subtype(), one after another or in one step '
        'with a restriction and a value, in a class derived from it, or both), restricted further, and placed in a made up SEQUENCE, SET, CHOICE, SEQUENCE OF or SET OF as mandatory, OPTIONAL or '
        'DEFAULT component. The octets must be those X.680 and X.690 give for the made up type, and must decode to the value; values outside the '
        'added restriction must be refused. Non-trivial: the type has at least one added tag or a made up container.')
ASSUMPTIONS = ['a type whose restriction is a single pyasn1 constraint is restricted further in a derived class only (subtype() of pyasn1 0.5.1 cannot add to a single constraint, or widens it)',
               'implicit tags on CHOICE and ANY are explicit (X.680 31.2.7)']
CLASSES = {0: tag.tagClassUniversal, 1: tag.tagClassApplication, 2: tag.tagClassContext, 3: tag.tagClassPrivate}
CONSTRUCTED = ('SEQUENCE', 'SET', 'SEQUENCE OF', 'SET OF')
# a made up type: ['ref', 'mod.Name', tags, way, limit] | ['seq'|'set'|'choice', [[name, node, mode, default]], tags] | ['of'|'setof', node, tags]
# tags: [[class, number, explicit]], outermost first; limit: None | ['range'|'size', lo, hi]


# ------------------------------------------------------------------ the two sides of a made up type
def reference(n):
    t = asn1ref.Type('made up')
    t.tags = [(c, num, 'EXPLICIT' if e else 'IMPLICIT') for c, num, e in n[2]]
    if n[0] == 'ref':
        t.ref = tkey(n[1])
        if n[4]: t.cons = [('or', [tuple(x) for x in n[4][1]]) if n[4][0] == 'or' else tuple(n[4])]
    elif n[0] in ('of', 'setof'):
        t.kind, t.elem = ('SEQUENCE OF' if n[0] == 'of' else 'SET OF'), reference(n[1])
    else:
        t.kind, t.fields = {'seq': 'SEQUENCE', 'set': 'SET', 'choice': 'CHOICE'}[n[0]], []
        for name, sub, mode, d in n[1]:
            f = asn1ref.Field()
            f.name, f.type, f.opt, f.default, f.gov, f.map, f.rawdefault = name, reference(sub), mode != 'req', None, None, None, None
            if mode == 'default': f.default = (fromjson(d),)
            t.fields.append(f)
    return t


def tagged(o, tags, primitive):
    for c, num, e in reversed(tags):
        if e: o = o.subtype(explicitTag=tag.Tag(CLASSES[c], tag.tagFormatConstructed, num))
        else: o = o.subtype(implicitTag=tag.Tag(CLASSES[c], tag.tagFormatSimple if primitive else tag.tagFormatConstructed, num))
    return o


def bare(key):
    """the type's restriction is one pyasn1 constraint rather than an intersection: pyasn1 cannot add to it, or widens it"""
    s = getattr(repo.new(*key), 'subtypeSpec', None)
    return s is not None and not isinstance(s, constraint.ConstraintsIntersection)


def restriction(c):
    if c[0] == 'range': return constraint.ValueRangeConstraint(*c[1:])
    if c[0] == 'size': return constraint.ValueSizeConstraint(*c[1:])
    return constraint.SingleValueConstraint(*[x[1] for x in c[1]])


def together(o, tags, more, primitive, value=None):
    """the tags one by one, the last one in one step with the restriction and the value"""
    o = tagged(o, tags[1:], primitive)
    kw = {'subtypeSpec': more} if more is not None else {}
    if tags:
        cl, num, e = tags[0]
        if e: kw['explicitTag'] = tag.Tag(CLASSES[cl], tag.tagFormatConstructed, num)
        else: kw['implicitTag'] = tag.Tag(CLASSES[cl], tag.tagFormatSimple if primitive else tag.tagFormatConstructed, num)
    return o.subtype(value, **kw) if value is not None else o.subtype(**kw)


def real(n):
    """the pyasn1 schema object"""
    if n[0] == 'ref':
        key = tkey(n[1])
        r = M.eff(M.entries[key].type)
        primitive = r.kind not in CONSTRUCTED + ('CHOICE', 'ANY')
        more = restriction(n[4]) if n[4] else None
        c = repo.lookup(*key)
        if n[3] == 'class' and isinstance(c, type):
            ts = c.tagSet
            for cl, num, e in reversed(n[2]):
                if e: ts = ts.tagExplicitly(tag.Tag(CLASSES[cl], tag.tagFormatConstructed, num))
                else: ts = ts.tagImplicitly(tag.Tag(CLASSES[cl], tag.tagFormatSimple if primitive else tag.tagFormatConstructed, num))
            d = {'tagSet': ts}
            if more is not None: d['subtypeSpec'] = constraint.ConstraintsIntersection(c.subtypeSpec, more) if bare(key) else c.subtypeSpec + more
            return type('MadeUp', (c,), d)()
        o = repo.new(*key)
        if n[3] in ('together', 'value'): return together(o, n[2], more, primitive)
        if n[3] == 'mixed' and isinstance(c, type) and len(n[2]) > 1:          # a class for the inner tag, made a subtype of
            o = real(n[:2] + [n[2][1:], 'class', n[4]])
            return tagged(o, n[2][:1], primitive)
        if more is not None: o = o.subtype(subtypeSpec=more)
        return tagged(o, n[2], primitive)
    if n[0] in ('of', 'setof'): o = (univ.SequenceOf if n[0] == 'of' else univ.SetOf)(componentType=real(n[1]))
    else:
        fs = []
        for name, sub, mode, d in n[1]:
            s = real(sub)
            if mode == 'req': fs.append(namedtype.NamedType(name, s))
            elif mode == 'opt': fs.append(namedtype.OptionalNamedType(name, s))
            else: fs.append(namedtype.DefaultedNamedType(name, s.clone(repo.native(M.eff(M.entries[tkey(sub[1])].type).kind, fromjson(d)))))
        o = {'seq': univ.Sequence, 'set': univ.Set, 'choice': univ.Choice}[n[0]](componentType=namedtype.NamedTypes(*fs))
    return tagged(o, n[2], False)


def build(n, t, v):
    r = M.eff(t)
    o = real(n)
    if r.kind in repo.SCALAR and n[0] == 'ref' and n[3] == 'value':
        return together(repo.new(*tkey(n[1])), n[2], restriction(n[4]) if n[4] else None, r.kind != 'ANY', repo.native(r.kind, v))
    if r.kind in repo.SCALAR: return o.clone(repo.native(r.kind, v))
    A.fill(r, v, o, 'inplace')
    return o


def spelled(t, v):
    """v spells out a structured DEFAULT somewhere"""
    r = M.eff(t)
    if r.kind in ('SEQUENCE', 'SET'):
        return any(f.default is not None and M.eff(f.type).fields and M.same(f.type, v[f.name], M.default(f)[0]) or spelled(f.type, v[f.name]) for f in r.fields if f.name in v)
    if r.kind == 'CHOICE': return spelled(r.byname[v[0]].type, v[1])
    return r.elem is not None and any(spelled(r.elem, x) for x in v)


# ------------------------------------------------------------------ the oracle
def check(n, v, refuse=False):
    t = reference(n)
    b = M.encode(t, v)
    try: spec = real(n)
    except Exception as e: return 'the type cannot be made: ' + short(e)
    if refuse:
        try: w, rest = der_dec.decode(b, asn1Spec=spec)
        except PyAsn1Error: return None
        except Exception as e: return 'decoding %s of %r, outside what was added: %s' % (hexs(b), v, short(e))
        return '%s of %r, outside what was added, is accepted' % (hexs(b), v)
    try:
        w, rest = der_dec.decode(b, asn1Spec=spec)
        if rest: return 'decoding %s leaves %d octets unread' % (hexs(b), len(rest))
        got = A.extract(t, w)
    except (Mismatch, Exception) as e: return 'decoding %s of %r: %s' % (hexs(b), v, short(e))
    if M.norm(t, got) != M.norm(t, v): return 'decoding %s: got %r, meaning %r' % (hexs(b), got, M.norm(t, v))
    try: b2 = der_enc.encode(w)
    except Exception as e: return 're-encoding %s: %s' % (hexs(b), short(e))
    if b2 not in alternatives(t, v, b): return 're-encoding %s gives %s' % (hexs(b), hexs(b2))
    if spelled(t, v): return None          # (known findings of C01 and C02)
    try: b3 = der_enc.encode(build(n, t, v))
    except (Mismatch, Exception) as e: return 'building %r: %s' % (v, short(e))
    if b3 not in alternatives(t, v, b): return 'building %r encodes as %s, should be %s' % (v, hexs(b3), hexs(b))
    return None


# ------------------------------------------------------------------ generation
TAGS = ([2, 0], [2, 1], [2, 17], [2, 30], [2, 31], [2, 200], [1, 3], [1, 40], [3, 5], [3, 1000])


def tags(draw, least=0):
    k = max(least, draw(st.sampled_from((1, 1, 0, 2))))
    return [draw(st.sampled_from(TAGS)) + [draw(st.booleans())] for _ in range(k)]


def limit(draw, key):
    """a further restriction the type's values can meet, or None"""
    r = M.eff(M.entries[key].type)
    if r.kind in ('INTEGER', 'ENUMERATED') and (r.cons or r.named or draw(st.booleans())):         # some of its values
        vs = [v for _, v in G.scalars(r) if M.valid(M.entries[key].type, v)]
        if not vs: return None
        some = draw(st.lists(st.sampled_from(vs), min_size=1, max_size=4, unique=True))
        return ['or', [['value', x] for x in some]]
    if r.cons or r.named: return None
    if r.kind == 'INTEGER':
        lo = draw(st.integers(-5, 300))
        return ['range', lo, lo + draw(st.integers(0, 70000))]
    if r.kind == 'OCTET STRING' or r.kind in asn1ref.CHARKINDS:
        lo = draw(st.integers(0, 5))
        return ['size', lo, lo + draw(st.integers(0, 9))]
    return None


def leaf(draw, key, least=0, limited=True):
    r = M.eff(M.entries[key].type)
    ts = tags(draw, least)
    if r.kind == 'ANY': ts = ts[:0 if r.tags else 1]          # pyasn1 reads an ANY with two tags with the inner one on
    way, more = draw(st.sampled_from(('subtype', 'class', 'together', 'value', 'mixed'))), limit(draw, key) if limited and draw(st.integers(0, 2)) == 0 else None
    if more and preset(key): more = None
    if more and bare(key):
        if isinstance(repo.lookup(*key), type): way = 'class'
        else: more = None
    return ['ref', tname(key), ts, way, more]


def wild(n): return n[0] == 'ref' and M.eff(M.entries[tkey(n[1])].type).kind == 'ANY'


def fussy(t):
    """a structure that can be empty but for its restrictions: pyasn1 makes up an absent OPTIONAL one and trips over it"""
    r = M.eff(t)
    return r.kind in CONSTRUCTED and bool(r.cons)


def preset(key):
    """an object of the class has a value from the start (rfc1157.Version), so as an OPTIONAL component it is never absent"""
    o = repo.new(*key)
    return M.eff(M.entries[key].type).kind in repo.SCALAR and o.isValue


def node(draw, keys, depth):
    kind = draw(st.sampled_from(('ref', 'seq', 'set', 'choice', 'of', 'setof') if depth else ('ref',)))
    key = keys[0] if draw(st.integers(0, 2)) else draw(st.sampled_from(keys))
    if kind == 'ref': return leaf(draw, key)
    if kind in ('of', 'setof'): return [kind, node(draw, keys, depth - 1), tags(draw)]
    fs = []
    for i in range(draw(st.integers(1, 3))):
        sub = node(draw, keys, depth - 1) if draw(st.integers(0, 3)) == 0 else leaf(draw, keys[0] if i == 0 else draw(st.sampled_from(keys)))
        mode, d = 'req' if kind == 'choice' else draw(st.sampled_from(('req', 'opt', 'default'))), None
        if mode == 'default':
            t = reference(sub)
            if sub[0] == 'ref' and M.eff(t).kind in repo.SCALAR and M.eff(t).kind != 'ANY': d = tojson(draw(values(t)))
            else: mode = 'opt'
        if mode == 'opt' and (fussy(reference(sub)) or sub[0] == 'ref' and preset(tkey(sub[1]))): mode = 'req'
        # its own tag in the container
        sub[2] = [[2, i + 3, draw(st.booleans())]] + (sub[2][:1] if not wild(sub) else [])
        fs.append(['f%d' % i, sub, mode, d])
    for n in [f[1] for f in fs if wild(f[1])][:1]: kind, fs = 'seq', [['f0', n, 'req', None]]          # pyasn1 takes an ANY for anything
    if kind == 'set' and any(len(M.eff(reference(f[1])).tags) != 1 or f[1][2][0][2] for f in fs): kind = 'seq'          # pyasn1 sorts a SET by the innermost tags
    return [kind, fs, tags(draw)]


def values(t):
    return G.strategy(t, 4).filter(lambda v: M.valid(t, v))


def cases(keys):
    @st.composite
    def s(draw):
        n = node(draw, keys, draw(st.sampled_from((0, 1, 1, 2))))
        t = reference(n)
        out = None
        if n[0] == 'ref' and n[4] and draw(st.booleans()):
            r = M.eff(M.entries[tkey(n[1])].type)
            if n[4][0] == 'or':
                vs = [v for _, v in G.scalars(r) if M.valid(M.entries[tkey(n[1])].type, v) and ['value', v] not in n[4][1]]
                return (n, draw(st.sampled_from(vs)), True) if vs else (n, n[4][1][0][1], False)
            kind, lo, hi = n[4]
            x = hi + draw(st.integers(1, 500)) if kind == 'range' or lo == 0 or draw(st.booleans()) else lo - 1
            if kind == 'range': out = x if draw(st.booleans()) else lo - draw(st.integers(1, 500))
            else: out = b'x' * min(x, 600) if r.kind == 'OCTET STRING' else '1' * min(x, 600)
            return n, out, True
        v = draw(values(t))
        if n[0] in ('seq', 'set'):
            for f in t.fields:
                if f.default is None or not draw(st.booleans()): continue
                close = [x for _, x in G.near(f.type, f.default[0]) if M.valid(f.type, x)]
                if close: v[f.name] = draw(st.sampled_from(close))
        return n, v, False
    return s()


def besides(key, rnd, n):
    """the type as a component with a DEFAULT, and values close to it"""
    t = M.entries[key].type
    r = M.eff(t)
    if r.kind not in repo.SCALAR or r.kind == 'ANY': return
    vs = [v for _, v in G.scalars(r) if len(repr(v)) < 200 and M.valid(t, v)]
    for d in rnd.sample(vs, min(n, len(vs))):
        node = ['seq', [['f0', ['ref', tname(key), [[2, 0, False]], rnd.choice(('subtype', 'class', 'together', 'value')), None], 'default', tojson(d)]], []]
        for _, x in G.near(t, d):
            if M.valid(t, x): yield node, {'f0': x}, False
        yield node, {'f0': d}, False
        yield node, {}, False


def derived(key, rnd, tier):
    """every pattern of two tags, in one step with a restriction and a value, and in the other ways"""
    t = M.entries[key].type
    r = M.eff(t)
    vs = [v for _, v in G.brief(t) if M.valid(t, v)]
    if not vs or r.kind == 'ANY': return
    for es in ((True,), (False,), (True, True), (True, False), (False, True), (False, False)):
        ways = ('together', 'value', 'subtype', 'class', 'mixed')
        if tier == 'quick': ways = ('together', rnd.choice(ways[1:]))
        for way in ways:
            v, more = rnd.choice(vs), None
            if r.kind in ('INTEGER', 'ENUMERATED'): more = ['or', [['value', x] for x in [v] + rnd.sample(vs, min(2, len(vs)))]]
            elif r.kind in repo.SCALAR and r.kind in ('OCTET STRING', 'BIT STRING') + tuple(asn1ref.CHARKINDS): more = ['size', max(0, len(v) - rnd.randrange(3)), len(v) + rnd.randrange(3)]
            if more and (preset(key) or bare(key)): more = None
            if tier == 'quick' and way != 'together' and rnd.random() < .5: more = None
            n = ['ref', tname(key), [rnd.choice(TAGS) + [e] for e in es], way, more]
            yield n, v, False
            if not more: continue
            out = [x for x in vs if not asn1ref.holds(r, reference(n).cons[0], x)]
            if out: yield n, rnd.choice(out), True


def shards(tier, seed):
    return stripe([k for k in typenames() if public(k) and k in M.types and k not in UNDECODABLE and not M.eff(M.entries[k].type).prim], 64)


def run(item, ctx):
    rnd = random.Random('%s c21 %s' % (ctx.seed, len(item)))
    for key in item:
        if missing_type(ctx, key): continue
        near = [k for k in rnd.sample(item, min(4, len(item))) if not exists(k)]

        def fn(x):
            n, v, refuse = x
            t = reference(n)
            if neardefault(t, v): return
            ctx.case(repr(x), bool(n[2]) or n[0] != 'ref', ('outside the restriction' if refuse else 'made up ' + n[0]) + (', tagged' if n[2] else ''), '%s %r' % (n, v))
            m = check(n, v, refuse)
            if not m and n[0] == 'ref' and not refuse:
                m = check_decode(tkey(n[1]), M.entries[tkey(n[1])].type, v, M.encode(M.entries[tkey(n[1])].type, v))
                if m: m = 'the exported type, after a type was made of it: ' + m
            if m: raise Violation(m)
        for x in list(besides(key, rnd, 3 if ctx.tier == 'quick' else 12)) + list(derived(key, rnd, ctx.tier)):
            try: fn(x)
            except Violation as e:
                n, v, refuse = x
                ctx.fail('made up of %s' % tname(key), '%s: %s' % (n, e), {'node': n, 'value': tojson(v), 'refuse': refuse})
        got = framework.hypo(cases([key] + near), fn, seeded(ctx.seed, 'c21', key), 32 if ctx.tier == 'quick' else 250)
        if got:
            n, v, refuse = got[0]
            ctx.fail('made up of %s' % tname(key), '%s: %s' % (n, got[1]), {'node': n, 'value': tojson(v), 'refuse': refuse})


def replay(c):
    if 'node' not in c: return exists(tkey(c['type']))
    n, v = c['node'], fromjson(c['value'])
    m = check(n, v, c['refuse'])
    if m or n[0] != 'ref' or c['refuse']: return m
    return check_decode(tkey(n[1]), M.entries[tkey(n[1])].type, v, M.encode(M.entries[tkey(n[1])].type, v))
