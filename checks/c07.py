"""Open types resolve by their governing identifier."""
from checks.common import *
from checks.opens import *
from hypothesis import strategies as st
from pyasn1.type import univ, opentype
import random

PROPERTY = 'C07'
RULE = ('a case is one structure with an open component, its governing identifier and content: registered identifier with content of the '
        'registered syntax (decoded with open types on: equals the content decoded on its own, re-encodes identically; off: raw octets; '
        'built from a value of the registered type: published encoding), an unregistered identifier (raw octets), a caller-supplied map that '
        'overrides or extends the registered one, a published table looked up directly, or a whole published structure with open components at any depth. '
        'Non-trivial: content longer than two octets.')
ASSUMPTIONS = ['pyasn1 0.5.1 does not wrap open content whose type equals the type of its container when encoding, and leaves out OPTIONAL open content that is an empty structure; re-encoding is not compared there',
               'for identifiers registered with two syntaxes, only content valid under both is used (C08 covers the difference)']
for _m in M.mods: repo.module(_m)


def openfields():
    """(container key, Field)"""
    for k, e in sorted(M.entries.items()):
        if e.what != 'TYPE' or not public(k): continue
        r = M.eff(e.type)
        for f in (r.fields or []):
            if f.gov: yield k, f.name


def shards(tier, seed):
    pairs = []
    for k, fname in openfields():
        f = M.eff(M.entries[k].type).byname[fname]
        regs = sorted(REG.get(mapname(f), {}))
        alias = M.entries[k].type.ref is not None
        if alias and tier == 'quick': regs = random.Random('%s %s' % (k, seed)).sample(regs, min(6, len(regs)))
        for i in range(0, max(1, len(regs)), 12): pairs.append(('field', k, fname, regs[i:i + 12]))
    whole = [k for k in typenames() if public(k) and k not in UNDECODABLE and usable(M.entries[k].type) and has_open(M.entries[k].type)]
    for m in sorted(REG):
        regs = sorted(REG[m])
        for i in range(0, len(regs), 12): pairs.append(('table', m, None, regs[i:i + 12]))
    out = []
    for i in range(40):
        w = pairs[i::40]
        x = [('whole', k, None, None) for k in sorted(whole)[i::40]]
        if w + x: out.append(w + x)
    return out


def compare(key, t, outer, b, adapter, options, what):
    """decode b, extract, re-encode; None or message"""
    try: w, rest = der_dec.decode(b, asn1Spec=repo.spec(*key), **options)
    except Exception as e: return '%s: decoding %s: %s' % (what, hexs(b), short(e))
    if rest: return '%s: octets left over' % what
    try: got = adapter.extract(t, w)
    except Exception as e: return '%s: %s: %s' % (what, hexs(b), short(e))
    if M.norm(t, got) != M.norm(t, outer): return '%s: %s reads as %r' % (what, hexs(b), got)
    return w


def reencode(w, t, outer, b, what):
    try: b2 = der_enc.encode(w)
    except Exception as e: return '%s: re-encoding %s: %s' % (what, hexs(b), short(e))
    if b2 not in alternatives(t, outer, b): return '%s: %s re-encodes as %s' % (what, hexs(b), hexs(b2))


def sametype(f, t):
    """content type equal to the container's: pyasn1 0.5.1 cannot tell a value from its container"""
    e = M.eff(M.eff(f.type).elem) if M.eff(f.type).elem is not None else M.eff(f.type)
    r = M.eff(t)
    return e.kind == r.kind and list(e.tags) == list(r.tags)


EMPTY = [bytes([i]) for i in range(256) if i & 32]


def anysame(t, v):
    """does v hold, at any depth, open content that pyasn1 0.5.1 does not re-encode: of the type of its own
    container, or OPTIONAL and an empty structure"""
    r = M.eff(t)
    if not has_open(t): return False
    if r.kind == 'CHOICE': return anysame(r.byname[v[0]].type, v[1])
    if r.kind in ('SEQUENCE OF', 'SET OF'): return any(anysame(r.elem, x) for x in v)
    for f in r.fields or []:
        if f.name not in v: continue
        if f.gov and f.opt and v[f.name][:1] in EMPTY and v[f.name][1:] == b'\0': return True
        if not f.gov:
            if anysame(f.type, v[f.name]): return True
            continue
        for x in registered(f, v[f.gov]):
            if sametype(f, x): return True
            cs = v[f.name] if isinstance(v[f.name], list) else [v[f.name]]
            for c in cs:
                try:
                    if has_open(x) and anysame(x, M.decode(x, c, False)): return True
                except asn1ref.Reject: pass
    return False


def native_spec(t):
    """schema for a registered or caller-chosen syntax"""
    if t.ref: return repo.spec(*t.ref)
    k = M.eff(t).kind
    if k in repo.SCALAR: return repo.KIND[k]()
    return None


def check_registered(key, fname, outer, types, t, v):
    """outer: value of the container with the content octets of v of type t"""
    ct = M.entries[key].type
    f = M.eff(ct).byname[fname]
    b = M.encode(ct, outer)
    w = compare(key, ct, outer, b, OpenAdapter(M), {'decodeOpenTypes': True}, 'open types on')
    if isinstance(w, str): return ('resolve', w)
    # equal to the content on its own
    cont = M.decode(ct, b)[fname]
    if not isinstance(cont, list): cont = [cont]
    got = w.getComponentByName(fname)
    got = list(got) if isinstance(outer[fname], list) else [got]
    same = anysame(ct, outer)
    if len(got) != len(cont): return ('resolve', 'open types on: %d values for %d contents' % (len(got), len(cont)))
    s = None
    if len(types) == 1: s = native_spec(t)
    if s is not None:
        for g, c in zip(got, cont):
            try: alone = der_dec.decode(c, asn1Spec=s, decodeOpenTypes=True)[0]
            except Exception as e: return ('alone', 'decoding content %s on its own: %s' % (hexs(c), short(e)))
            if not alone.isSameTypeWith(g): return ('alone', 'content %s is a %s, decoded on its own a %s' % (hexs(c), type(g).__name__, type(alone).__name__))
            try: x, y = OpenAdapter(M).extract(t, alone), OpenAdapter(M).extract(t, g)
            except Exception as e: return ('alone', 'content %s on its own: %s' % (hexs(c), short(e)))
            if x != y: return ('alone', 'content %s reads %r, on its own %r' % (hexs(c), y, x))
    if not same:
        m = reencode(w, ct, outer, b, 'open types on')
        if m: return ('re-encode', m)
    w = compare(key, ct, outer, b, A, {}, 'open types off')
    if isinstance(w, str): return ('raw', w)
    m = reencode(w, ct, outer, b, 'open types off')
    if m: return ('raw', m)
    if not same and s is not None and not has_open(t):
        try:
            obj = A.build(ct, outer, key)
            if isinstance(outer[fname], list):
                o = obj.getComponentByName(fname)
                o.clear()
                for i, c in enumerate(cont): o.setComponentByPosition(i, der_dec.decode(c, asn1Spec=s)[0])
            else: obj.setComponentByName(fname, der_dec.decode(cont[0], asn1Spec=s)[0])
            b2 = der_enc.encode(obj)
        except Exception as e: return ('build', 'building %r with a value of %s: %s' % (outer, typetext(t), short(e)))
        if b2 not in alternatives(ct, outer, b): return ('build', 'built with a value of %s encodes as %s, published %s' % (typetext(t), hexs(b2), hexs(b)))
    return None


def govkey(gov):
    return univ.ObjectIdentifier(gov) if isinstance(gov, tuple) else univ.Integer(gov)


OVER = [('INTEGER', 7, b'\x02\x01\x07'), ('BOOLEAN', True, b'\x01\x01\xff'), ('UTF8String', 'x\u00e9', b'\x0c\x03x\xc3\xa9'), ('NULL', None, b'\x05\x00'),
        ('OBJECT IDENTIFIER', (1, 3, 5), b'\x06\x02\x2b\x05')]


def basic(kind):
    t = asn1ref.Type('x')
    t.kind = kind
    return t


def check_override(key, fname, outer, gov, i, extend):
    """the caller's map has the last word for its identifiers and leaves the others alone"""
    ct = M.entries[key].type
    f = M.eff(ct).byname[fname]
    kind, v, c = OVER[i % len(OVER)]
    outer = dict(outer)
    outer[f.gov] = gov
    outer[fname] = [c] if isinstance(outer[fname], list) else c
    if not M.valid(ct, outer): return None
    b = M.encode(ct, outer)
    own = {govkey(gov): repo.KIND[kind]()}
    for opts in ({'openTypes': own}, {'openTypes': own, 'decodeOpenTypes': True}):
        w = compare(key, ct, outer, b, OpenAdapter(M, {gov: basic(kind)}), opts, 'caller map %s for %s' % (kind, gov))
        if isinstance(w, str): return ('override', w)
        m = reencode(w, ct, outer, b, 'caller map')
        if m: return ('override', m)
    return None


def check_other_map(key, fname, outer):
    """a caller's map without the identifier leaves the registered syntax in force"""
    ct = M.entries[key].type
    b = M.encode(ct, outer)
    w = compare(key, ct, outer, b, OpenAdapter(M), {'openTypes': {univ.ObjectIdentifier((1, 2, 3, 77)): univ.Integer()}}, 'caller map without the identifier')
    if isinstance(w, str): return ('extend', w)


def neighbours(o, tier, seed):
    """identifiers close to a registered one"""
    near = [o + (0,), o[:-1]]
    more = [o + (1,), o + (0, 0), o + o[-1:], o[:-1] + (o[-1] + 1,), o[:-1] + (o[-1] + 1000,), o[:-1] + (o[-1] + 128,), o[:-1] + (o[-1] + 2 ** 8,), o[:-1] + (o[-1] + 2 ** 16,), o[:-1] + (o[-1] + 2 ** 32,),
            o[:-1] + (o[-1] + 2 ** 64,), o[:-2], o[:-2] + o[-1:], o[:-2] + (o[-2] + 1, o[-1]), o[:-2] + (o[-1], o[-2]), o[:-1] + (0, o[-1]), (o[0] ^ 3,) + o[1:] if o[0] and o[1] < 40 else (1,) + o[1:]]
    if o[-1]: more.append(o[:-1] + (o[-1] - 1,))
    return near + (more if tier != 'quick' else random.Random('%s %s' % (seed, o)).sample(more, 3))


def check_unregistered(key, outer):
    ct = M.entries[key].type
    b = M.encode(ct, outer)
    for opts in ({'decodeOpenTypes': True}, {}):
        w = compare(key, ct, outer, b, A, opts, 'unregistered identifier')
        if isinstance(w, str): return ('unregistered', w)
        m = reencode(w, ct, outer, b, 'unregistered identifier')
        if m: return ('unregistered', m)


def check_whole(key, v):
    t = M.entries[key].type
    b = M.encode(t, v)
    ad = OpenAdapter(M)
    w = compare(key, t, v, b, ad, {'decodeOpenTypes': True}, 'open types on')
    if isinstance(w, str): return ('whole', w)
    if not anysame(t, v):
        m = reencode(w, t, v, b, 'open types on')
        if m: return ('whole', m)


def put(key, fname, base, gov, c):
    """container value with governing value and content set"""
    ct = M.entries[key].type
    f = M.eff(ct).byname[fname]
    out = dict(base)
    out[f.gov] = gov
    out[fname] = c
    return out


def run(item, ctx):
    for kind, key, fname, regs in item:
        if kind == 'table':
            run_table(ctx, key, regs)
            continue
        if missing_type(ctx, key): continue
        if kind == 'whole': run_whole(ctx, key)
        else: run_field(ctx, key, fname, regs)


def tablekey(m, o):
    """some tables are indexed by integers"""
    ints = [o for o in REG[m] if len(o) != 1] == []
    return univ.Integer(o[0]) if ints else univ.ObjectIdentifier(o)


def check_table(m, o, t, v):
    """the published table, used directly: table[identifier] decodes the content"""
    try: s = repo.lookup(*m.split('.'))[tablekey(m, o)]
    except Exception as e: return '%s has no %s: %s' % (m, '.'.join(map(str, o)), short(e))
    c = M.encode(t, v)
    ad = OpenAdapter(M)
    try:
        w, rest = der_dec.decode(c, asn1Spec=s, decodeOpenTypes=True)
        got = None
        for x in REG[m][o]:
            try:
                got = M.decode(t, M.encode(x, ad.extract(x, w)))
                break
            except Mismatch as e: err = e
        if got is None and M.eff(t).kind != 'NULL': raise err
    except Exception as e: return '%s[%s]: content %s: %s' % (m, '.'.join(map(str, o)), hexs(c), short(e))
    if rest or M.norm(t, got) != M.norm(t, v): return '%s[%s]: content %s reads as %r' % (m, '.'.join(map(str, o)), hexs(c), got)
    if not anysame(t, v):
        b2 = der_enc.encode(w)
        if b2 not in alternatives(t, v, c): return '%s[%s]: content %s re-encodes as %s' % (m, '.'.join(map(str, o)), hexs(c), hexs(b2))


def run_table(ctx, m, regs):
    for o in regs:
        types = REG[m][o]
        for t in types:
            if not usable(t): continue

            @st.composite
            def values(draw):
                v = draw(G.strategy(t, 4))
                try:
                    v = settle(t, v, random.Random(draw(st.integers(0, 10 ** 6))), 2)
                    agreed(types, t, v)
                except Unsettled: return None
                return (v,) if M.valid(t, v) else None

            def fn(x):
                if x is None: return
                c = M.encode(t, x[0])
                ctx.case('%s %s %s' % (m, o, c.hex()), len(c) > 2, 'table lookup', '%s[%s] %s' % (m, '.'.join(map(str, o)), hexs(c)))
                msg = check_table(m, o, t, x[0])
                if msg: raise Violation(msg)
            got = framework.hypo(values(), fn, seeded(ctx.seed, m, o), 20 if ctx.tier == 'quick' else 80)
            if got:
                ctx.fail('%s %s' % (m, '.'.join(map(str, o))), str(got[1]), {'table': m, 'oid': list(o), 'which': types.index(t), 'value': tojson(got[0][0]), 'op': 'table', 'type': ''})


def run_whole(ctx, key):
    t = M.entries[key].type

    @st.composite
    def values(draw):
        v = draw(G.strategy(t))
        try: return settle(t, v, random.Random(draw(st.integers(0, 10 ** 6))), 2)
        except Unsettled: return None

    def fn(v):
        if v is None or not M.valid(t, v) or neardefault(t, v): return None
        b = M.encode(t, v)
        ctx.case(tname(key) + 'w' + b.hex(), len(b) > 2, 'whole', None)
        return check_whole(key, v)
    drive(ctx, key, 20 if ctx.tier == 'quick' else 120, fn, values())
    for lab, v in G.brief(t):
        for s in range(8 if ctx.tier == 'quick' else 25):
            try: v2 = settle(t, v, random.Random('%s %s %s' % (ctx.seed, key, s)), 3)
            except Unsettled: continue
            if not M.valid(t, v2) or neardefault(t, v2): continue
            ctx.case(tname(key) + 'w' + M.encode(t, v2).hex(), True, 'whole', None)
            f = check_whole(key, v2)
            if f: report(ctx, key, v2, f[0], f[1])


def run_field(ctx, key, fname, regs):
    ct = M.entries[key].type
    cr = M.eff(ct)
    f = cr.byname[fname]
    ge, fe = M.eff(cr.byname[f.gov].type), M.eff(f.type)
    isoid = ge.kind == 'OBJECT IDENTIFIER'
    many = fe.kind in ('SEQUENCE OF', 'SET OF')
    single = many and any(k[0] == 'size' and k[2] < 2 for k in fe.cons)
    base0 = dict(G.minimal(ct))
    if fname not in base0: base0[fname] = G.minimal(f.type)
    n = 4 if ctx.tier == 'quick' else 60

    def go(outer, what, fnc, cls, t=None):
        if not M.valid(ct, outer) or neardefault(ct, outer): return
        ctx.case('%s %s %s' % (tname(key), what, M.encode(ct, outer).hex()), len(M.encode(ct, outer)) > 8, cls,
                 '%s %s %s' % (tname(key), what, hexs(M.encode(ct, outer))))
        r = fnc()
        if r: report(ctx, key, outer, what + ' ' + r[0], r[1], field=fname, what=what)

    try: base = settle_others(ct, base0, fname)
    except Unsettled: return
    # unregistered identifiers: the open component stays raw
    raw = [asn1ref.tlv((0, 4), False, b'raw'), b'\x30\x03\x02\x01\x05']
    for gov in (FREE if isoid else [250, 251]):
        if registered(f, gov): continue
        outer = put(key, fname, base, gov, raw[:1] if many else raw[0])
        go(outer, 'unregistered', lambda: check_unregistered(key, outer), 'unregistered')
        go(outer, 'extend', lambda: check_override(key, fname, outer, gov, len(tname(key)), True), 'extended by caller')
    for ri, o in enumerate(regs):
        gov = o if isoid else o[0]
        types = REG[mapname(f)][o]
        # neighbours of a registered identifier are not registered
        if isoid:
            for gov2 in neighbours(o, ctx.tier, ctx.seed):
                if registered(f, gov2) or len(gov2) < 2: continue
                outer = put(key, fname, base, gov2, raw[:1] if many else raw[0])
                go(outer, 'unregistered', lambda: check_unregistered(key, outer), 'neighbour of a registered identifier')
        for t in types:
            if not usable(t): continue
            vs = [v for _, v in G.brief(t)]
            rnd = random.Random('%s %s %s' % (ctx.seed, key, o))
            for vi, v in enumerate(vs):
                try: c = agreed(types, t, settle(t, v, rnd, 1))
                except Unsettled: continue
                outer = put(key, fname, base, gov, [c] if many else c)
                go(outer, 'registered', lambda: check_registered(key, fname, outer, types, t, v), 'registered')
                if vi == 0:
                    go(outer, 'other map', lambda: check_other_map(key, fname, outer), 'other map')
                    go(outer, 'override', lambda: check_override(key, fname, outer, gov, ri, False), 'overridden by caller')

            @st.composite
            def values(draw):
                m = draw(st.integers(1, 1 if single or not many else 3)) if many else 1
                seed = draw(st.integers(0, 10 ** 6))
                cs = []
                for i in range(m):
                    v = draw(G.strategy(t, 4))
                    try: cs.append(agreed(types, t, settle(t, v, random.Random(seed + i), 2)))
                    except Unsettled: return None
                others = draw(G.strategy(ct, 3)) if draw(st.booleans()) else base0
                others = dict(others)
                others.setdefault(fname, base0[fname])
                try: others = settle_others(ct, others, fname)
                except Unsettled: return None
                out = put(key, fname, others, gov, cs if many else cs[0])
                return out if M.valid(ct, out) and not neardefault(ct, out) else None

            def fn(outer):
                if outer is None: return None
                b = M.encode(ct, outer)
                ctx.case(tname(key) + 'r' + b.hex(), len(b) > 8, 'registered generated')
                r = check_registered(key, fname, outer, types, t, None)
                return r and ('registered ' + r[0], r[1])
            got = framework.hypo(values(), lambda v: raise_if(fn(v)), seeded(ctx.seed, key, fname, o), n)
            if got:
                v, e = got
                report(ctx, key, v, e.group, str(e), field=fname, what='registered')


def raise_if(r):
    if r: raise Violation(r[1], group=r[0])


def settle_others(ct, v, fname):
    """make the other open components consistent"""
    r = M.eff(ct)
    rnd = random.Random(5)
    out = {f.name: (v[f.name] if f.name == fname else settle(f.type, v[f.name], rnd, 1)) for f in r.fields if f.name in v}
    for f in r.fields:
        if f.gov and f.name in v and f.name != fname: out.update(open_value(r, f, out, rnd, 1))
    return out


def replay(c):
    if c['op'] == 'table':
        o = tuple(c['oid'])
        return check_table(c['table'], o, REG[c['table']][o][c['which']], fromjson(c['value']))
    key = tkey(c['type'])
    if c['op'] == 'exists': return exists(key)
    v = fromjson(c['value'])
    if c['op'] == 'whole': r = check_whole(key, v)
    else:
        ct = M.entries[key].type
        f = M.eff(ct).byname[c['field']]
        w = c['what']
        if w == 'unregistered': r = check_unregistered(key, v)
        elif w in ('extend', 'override'):
            r = None
            for i in range(len(OVER)): r = r or check_override(key, c['field'], v, v[f.gov], i, w == 'extend')
        elif w == 'other map': r = check_other_map(key, c['field'], v)
        else:
            types = registered(f, v[f.gov])
            r = None
            for t in types: r = r or check_registered(key, c['field'], v, types, t, None)
    return r and r[1]
