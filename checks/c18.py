"""Native Python objects and printed text."""
import re
from checks.common import *
from checks import c05
from pyasn1.codec.native import encoder as nat_enc, decoder as nat_dec

PROPERTY = 'C18'
RULE = ('a case is one value of one exported type. Decoded from its published octets and built through the API, its native form must be '
        'what an independent converter makes of the value (dictionaries keyed by the published component names, lists, integers, '
        'booleans, octets, text, dotted identifiers), reading the native form back with the type must give an equal value, and the '
        'printed text must be what an independent printer expects, identifiers for named numbers included. Non-trivial: the value is '
        'of a constructed type, or a number with a name.')
ASSUMPTIONS = ['pyasn1 0.5.1 makes up absent components whose own components can all be absent, and gives \'0\' for the empty BIT STRING',
               'pyasn1 0.5.1 gives None for NULL and takes \'\' for it: replaced before reading back',
               'empty lists and structures are lost when pyasn1 0.5.1 reads native objects back: such values are only converted one way',
               'pyasn1 0.5.1 cannot read back a size-limited list inside another value (its clones do not fit): a refusal that says so is accepted there',
               'components with a default that are absent may or may not be printed']
TEXT = {'BMPString': 'utf-16-be', 'UniversalString': 'utf-32-be', 'UTF8String': 'utf-8'}


def native(t, v):
    """independent native form; strings as ('text', s)"""
    r = M.eff(t)
    k = r.kind
    if k in ('SEQUENCE', 'SET'):
        out = {}
        for f in r.fields:
            if f.name in v: out[f.name] = native(f.type, v[f.name])
            elif f.default is not None: out[f.name] = native(f.type, M.default(f)[0])
        return out
    if k == 'CHOICE': return {v[0]: native(r.byname[v[0]].type, v[1])}
    if k in ('SEQUENCE OF', 'SET OF'): return [native(r.elem, x) for x in v]
    if k == 'OBJECT IDENTIFIER': return '.'.join(map(str, v))
    if k in asn1ref.CHARSET: return ('text', k, v)
    return v


def madeup(t, got):
    """is got what pyasn1 0.5.1 makes up for an absent component whose own components can all be absent"""
    r = M.eff(t)
    if r.elem is not None: return got == []
    if r.kind not in ('SEQUENCE', 'SET') or not isinstance(got, dict): return False
    by = {f.name: f for f in r.fields}
    return all(k in by and (by[k].default is not None and not differs(by[k].type, x, native(by[k].type, M.default(by[k])[0])) or madeup(by[k].type, x)) for k, x in got.items())


def differs(t, got, want, path=''):
    """where a native object differs from the independent one, or None"""
    r = M.eff(t)
    if isinstance(want, dict):
        if not isinstance(got, dict): return '%s is %r instead of a dictionary' % (path or 'the object', got)
        by = {f.name: f for f in r.fields} if r.kind != 'CHOICE' else r.byname
        if not set(want) <= set(got) or any(k not in want and (r.kind == 'CHOICE' or k not in by or not madeup(by[k].type, got[k])) for k in got):
            return '%s has keys %s, published %s' % (path or 'the object', sorted(got), sorted(want))
        for k in want:
            m = differs(by[k].type, got[k], want[k], '%s[%r]' % (path, k))
            if m: return m
        return None
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want): return '%s is %r instead of a list of %d' % (path, got, len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            m = differs(r.elem, a, b, '%s[%d]' % (path, i))
            if m: return m
        return None
    if r.kind == 'BIT STRING' and want == '' and got == '0': return None      # pyasn1 0.5.1
    if r.kind == 'ANY' and want == b'\x05\x00' and got is None: return None     # a NULL object in its place
    if isinstance(want, tuple):
        ok = [want[2], want[2].encode(TEXT.get(want[1], 'latin-1'), 'replace')]
    else: ok = [want]
    if not any(got == x and type(got) in (type(x), *((int, bool) if isinstance(x, bool) else ())) for x in ok): return '%s is %r, published meaning %r' % (path or 'the object', got, ok[0])


def back(t, v, got):
    """the native object with pyasn1 0.5.1's forms of NULL and the empty BIT STRING replaced, made-up components left out"""
    r = M.eff(t)
    if r.kind == 'ANY': return v
    if r.kind == 'NULL' or r.kind == 'BIT STRING' and v == '': return ''
    if r.kind in ('SEQUENCE', 'SET'): return {f.name: back(f.type, v[f.name] if f.name in v else M.default(f)[0], got[f.name]) for f in r.fields if f.name in v or f.default is not None}
    if r.kind == 'CHOICE': return {v[0]: back(r.byname[v[0]].type, v[1], got[v[0]])}
    if r.elem is not None: return [back(r.elem, x, y) for x, y in zip(v, got)]
    return got


def hollow(t, v):
    """an empty list or structure somewhere"""
    r = M.eff(t)
    if r.kind in ('SEQUENCE', 'SET'): return not v or any(hollow(f.type, v[f.name]) for f in r.fields if f.name in v)
    if r.kind == 'CHOICE': return hollow(r.byname[v[0]].type, v[1])
    if r.elem is not None: return not v or any(hollow(r.elem, x) for x in v)
    return False


def sized(t, v, top=True):
    """a list with a published size inside another value: pyasn1 0.5.1 cannot put clones of such a list anywhere"""
    r = M.eff(t)
    if r.elem is not None: return not top and gen.cons(r).sized or any(sized(r.elem, x, False) for x in v)
    if r.kind == 'CHOICE': return sized(r.byname[v[0]].type, v[1], False)
    if r.kind in ('SEQUENCE', 'SET'): return not top and gen.cons(r).sized or any(sized(f.type, v[f.name], False) for f in r.fields if f.name in v)
    return False


def render(t, v, obj, scope=0):
    """regular expression for the printed text; obj only for class names and the order within a SET"""
    r = M.eff(t)
    k = r.kind
    if k in ('SEQUENCE', 'SET', 'CHOICE'):
        out = '[A-Za-z_]\\w*:\\n'
        names = [f.name for f in r.fields] if k != 'SET' else list(obj.componentType)
        if k == 'CHOICE': v, names = {v[0]: v[1]}, [v[0]]
        by = {f.name: f for f in r.fields} if k != 'CHOICE' else r.byname
        for n in names:
            f = by[n]
            if n not in v and (k == 'CHOICE' or f.default is None): continue
            x = v[n] if n in v else M.default(f)[0]
            sub = obj.getComponent() if k == 'CHOICE' else obj.getComponentByName(n)
            s = ' ' * (scope + 1) + re.escape(n) + '=' + render(f.type, x, sub, scope + 1) + '\\n'
            out += s if n in v and (f.default is None or k == 'CHOICE' or not M.same(f.type, x, M.default(f)[0])) else '(?:%s)?' % s
        return out
    if k in ('SEQUENCE OF', 'SET OF'): return '[A-Za-z_]\\w*:\\n' + ''.join(' ' * (scope + 1) + render(r.elem, x, y, scope + 1) for x, y in zip(v, obj))
    if k == 'BOOLEAN': return str(bool(v))
    if k in ('INTEGER', 'ENUMERATED'): return '(?:%s)' % '|'.join(re.escape(n) for n, x in r.named.items() if x == v) if r.named and v in r.named.values() else re.escape(str(v))
    if k == 'BIT STRING': return str(int(v or '0', 2))
    if k == 'NULL': return ''
    if k == 'OBJECT IDENTIFIER': return re.escape('.'.join(map(str, v)))
    if k in asn1ref.CHARSET: return re.escape(v)
    return re.escape(v.decode('ascii') if all(32 <= x < 127 for x in v) else '0x' + v.hex())


def dress(t, v):
    """v with the elements of every SET OF in the order the codec writes them"""
    return M.decode(t, M.encode(t, v), check=False)


def check(key, v, how):
    """how: 'decoded' or 'built'"""
    t = M.entries[key].type

    def make():
        if how == 'built': return A.build(t, v, key, 'inplace')
        w, rest = der_dec.decode(M.encode(t, v), asn1Spec=repo.spec(*key))
        return w
    u = v if how == 'built' else dress(t, v)
    try: obj, text = make(), make().prettyPrint()
    except Exception as e: return 'print', 'printing %r (%s): %s' % (v, how, short(e))
    try: rx = render(t, u, obj)
    except Exception as e: return 'print', 'reading the components of %r (%s): %s' % (v, how, short(e))
    if not isinstance(text, str) or not re.fullmatch(rx, text): return 'print', '%r (%s) prints as %r' % (u, how, text)
    try: nat = nat_enc.encode(make())
    except Exception as e: return 'native', 'converting %r (%s): %s' % (v, how, short(e))
    m = differs(t, nat, native(t, u))
    if m: return 'native', '%r (%s) becomes %r: %s' % (u, how, nat, m)
    if hollow(t, u): return None
    try:
        w = nat_dec.decode(back(t, u, nat), asn1Spec=repo.spec(*key))
        got = A.extract(t, w)
    except (Mismatch, Exception) as e:
        if 'tag-incompatible' in str(e) and sized(t, u): return None
        return 'back', 'reading %r back: %s' % (nat, short(e))
    if M.norm(t, got) != M.norm(t, u): return 'back', '%r read back as %r' % (nat, got)


def shards(tier, seed):
    return stripe([k for k in typenames() if public(k) and k not in UNDECODABLE], 48)


def named(key):
    """values that hold each named number"""
    t = M.entries[key].type
    for path, p in c05.parts(t):
        r = M.eff(p)
        if r.kind == 'BIT STRING': continue
        for x in list(r.named.values()): yield c05.embed(t, path, x)


def run(item, ctx):
    for key in item:
        t = M.entries[key].type
        if missing_type(ctx, key): continue
        r = M.eff(t)
        nt = r.kind not in repo.SCALAR or bool(r.named)

        def one(v, cls):
            for how in ('decoded', 'built'):
                ctx.case(tname(key) + how + M.encode(t, v).hex(), nt, cls + ' ' + how, '%s %s' % (tname(key), v))
                f = check(key, v, how)
                if f: return f
        for v in [v for _, v in G.directed(t, 1, False) + G.large(t)] + list(named(key)):
            if not M.valid(t, v) or neardefault(t, v): continue
            f = one(v, 'directed')
            if f: report(ctx, key, v, f[0], f[1])
        drive(ctx, key, (8 if ctx.tier == 'quick' else 120) // (2 if r.kind in repo.SCALAR else 1), lambda v: None if neardefault(t, v) else one(v, 'generated'))


def replay(c):
    key = tkey(c['type'])
    if c['op'] == 'exists': return exists(key)
    for how in ('decoded', 'built'):
        f = check(key, fromjson(c['value']), how)
        if f: return f[1]
