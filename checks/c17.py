"""Objects made by an independent implementation are read correctly."""
from checks.common import *
from checks import ossl
import time

PROPERTY = 'C17'
RULE = ('a case is one object (certificate, request, CRL, key, parameters, PKCS#7, CMS, PKCS#12, OCSP, time stamp or CMP message, or a part of one) made by the openssl '
        'program from generated parameters, read with one module\'s type: nothing is left over, the value is the one the reference model reads, the facts '
        'that the parameters (or openssl\'s own text report) establish hold, and it re-encodes to the same octets. Non-trivial: at least one fact is stated.')
ASSUMPTIONS = ['the openssl 3 command line program makes what it is asked to make; what it refuses is skipped',
               'objects that openssl writes in BER with indefinite lengths are compared by value only']


# ------------------------------------------------------------------ facts
class Wrong(Exception): pass


ABSENT = object()
STRINGS = {12: 'utf-8', 19: 'ascii', 20: 'latin-1', 22: 'ascii', 26: 'ascii', 30: 'utf-16-be', 28: 'utf-32-be', 18: 'ascii'}


def anytext(b):
    tg, cons, body, rest = asn1ref.readtlv(b)
    return body.decode(STRINGS[b[0] & 31])


def plain(t, v):
    while v is not ABSENT and t is not None and M.eff(t).kind == 'CHOICE': t, v = M.eff(t).byname[v[0]].type, v[1]
    return t, v


def walk(mod, t, v, path):
    """(type, value) at the path"""
    for n, s in enumerate(path):
        if v is ABSENT: return t, v
        r = M.eff(t) if t is not None else None
        if isinstance(s, int):
            if not isinstance(v, list) or s >= len(v): return None, ABSENT
            t, v = r.elem, v[s]
        elif s == '#': return None, len(v)
        elif s == '*':
            if r.kind != 'CHOICE': continue
            t, v = r.byname[v[0]].type, v[1]
        elif s.startswith('>'):
            s, _, without = s.partition('!')                 # not in the module after the !
            k = (mod, s[1:])
            if k not in M.entries or mod == without: return None, None         # the module does not have the type
            t = M.entries[k].type
            v = M.decode(t, v, check=False)
        elif s.startswith('='):                              # =component=oid: the element with it
            name, want = s[1:].split('=')
            e = M.eff(r.elem)
            hit = [x for x in v if '.'.join(map(str, x[pickname(e, name)])) == want]
            if len(hit) != 1: raise Wrong('%d elements with %s %s' % (len(hit), name, want))
            t, v = r.elem, hit[0]
        elif r.kind == 'CHOICE':
            if v[0] not in s.split('|'): return None, ABSENT
            t, v = r.byname[v[0]].type, v[1]
        elif r.kind in ('SEQUENCE', 'SET'):
            f = r.byname[pickname(r, s)]
            if f.name in v: t, v = f.type, v[f.name]
            elif f.default is not None: t, v = f.type, M.default(f)[0]
            else: t, v = f.type, ABSENT
        else: raise Wrong('step %r into %s' % (s, r.kind))
    return t, v


def pickname(r, s):
    for x in s.split('|'):
        if x in r.byname: return x
    raise Wrong('no component %s among %s' % (s, ', '.join(r.byname)))


def holds(mod, t, v, path, want):
    """None, or what is there instead"""
    t, v = walk(mod, t, v, path)
    if t is None and v is None: return None
    if want is None: return None if v is ABSENT or v is None or M.eff(t).kind == 'NULL' else repr(v)
    if v is ABSENT: return 'nothing'
    if isinstance(want, dict):
        got = []
        for x in v:
            r = M.eff(M.eff(t).elem)
            a, b = x[pickname(r, 'type')], x[pickname(r, 'value')]
            got.append([list(a), anytext(b)])
        return None if sorted(got) == sorted([list(a), b] for a, b in want['names']) else repr(got)
    if isinstance(want, str) and want.startswith('\0'):          # any string type
        t, v = plain(t, v)
        if isinstance(v, bytes): v = anytext(v)
        return None if v == want[1:] else repr(v)
    if isinstance(want, str): t, v = plain(t, v)
    if M.eff(t).kind == 'BIT STRING' if t is not None else False:
        if isinstance(want, str) and M.eff(t).named: v, want = v.rstrip('0'), want.rstrip('0')
    if isinstance(want, bool): v = bool(v)
    elif isinstance(want, list): v = [plain(M.eff(t).elem, x)[1] for x in v] if isinstance(v, list) else v
    return None if v == want and type(v) == type(want) or (isinstance(v, int) and isinstance(want, int) and v == want) else repr(v)


def examine(art, key):
    """yields (operation, message, None or (path of the fact, what is there))"""
    t = M.entries[key].type
    b = art.octets
    try: want = M.decode(t, b, check=False)
    except asn1ref.Reject as e:
        if not art.ber:
            yield 'published', 'the published definition of %s does not fit %s (%s): %s' % (tname(key), hexs(b), art.label, e), None
            return
        want = None
    dec = ber_dec if art.ber else der_dec
    try:
        w, rest = dec.decode(b, asn1Spec=repo.spec(*key))
        if rest:
            yield 'read', 'reading %s (%s) leaves %d octets' % (hexs(b), art.label, len(rest)), None
            return
        got = A.extract(t, w)
    except (Mismatch, Exception) as e:
        yield 'read', 'reading %s (%s): %s' % (hexs(b), art.label, short(e)), None
        return
    if want is not None and M.norm(t, got) != M.norm(t, want):
        yield 'read', '%s (%s) is read as %r, it is %r' % (hexs(b), art.label, got, want), None
        return
    for path, fact in art.facts:
        try: m = holds(key[0], t, got, path, fact)
        except (Wrong, asn1ref.Reject, KeyError, TypeError, ValueError, AttributeError) as e: m = short(e)
        if m: yield 'fact', '%s (%s): at %r there is %s, openssl was told or reports %r' % (hexs(b), art.label, path, m, fact), (path, m)
    if want is not None:
        try: b2 = der_enc.encode(w)
        except Exception as e:
            yield 'write', 're-encoding %s (%s): %s' % (hexs(b), art.label, short(e)), None
            return
        if b2 != b and b2 != M.encode_alt(t, want): yield 'write', '%s (%s) re-encodes as %s' % (hexs(b), art.label, hexs(b2)), None


def pick(key, octets, path, raw=False):
    """octets at the path in the object, by the reference model; None: not there"""
    t = M.entries[key].type
    t, v = walk(key[0], t, M.decode(t, octets, check=False), path)
    if v is ABSENT: return None
    return v if raw or isinstance(v, bytes) else M.encode(t, v)


ossl.pick = pick


def shards(tier, seed):
    k = 3 if tier == 'quick' else 8
    out = []
    for name in sorted(ossl.RECIPES, key=lambda n: -ossl.RECIPES[n][2]):
        out += [(name, i) for i in range(k if ossl.RECIPES[name][2] > 5 else max(1, k // 2))]
    return out


def run(item, ctx):
    name, part = item
    strategy, make, weight = ossl.RECIPES[name]
    lab = ossl.Lab()
    try:
        def fn(v):
            try: arts = make(lab, v)
            except ossl.Refused as e:
                ctx.case(repr((name, v)), False, name + ', refused by openssl', str(e)[:200])
                return
            for a in arts:
                for key in a.keys:
                    if not M.entries[key].type: continue
                    ctx.case(repr(key) + a.octets.hex(), bool(a.facts), '%s: %s' % (name, key[1]), '%s %s %s' % (a.label, tname(key), a.octets[:40].hex()))
                    for op, m, at in examine(a, key):
                        c = {'type': tname(key), 'op': op, 'label': a.label, 'octets': a.octets.hex(), 'facts': [[p, tojson(x)] for p, x in a.facts], 'ber': a.ber,
                             'path': at and '/'.join(map(str, at[0])), 'found': at and at[1], 'error': errname(m)}
                        g = '%s %s' % (tname(key), op)
                        if any(framework.matches_known(x, g, c) for x in ctx.known): ctx.fail(g, m, c)
                        else: raise Violation(m, group=g, case=c)
        n = weight * (3 if ctx.tier == 'quick' else 20)
        got = framework.hypo(strategy, fn, seeded(ctx.seed, 'c17', name, part), n)
        if got: ctx.fail(got[1].group, str(got[1]), got[1].case)
    finally: lab.close()


def replay(c):
    a = ossl.Art(c['label'], [], bytes.fromhex(c['octets']), [(p, fromjson(x)) for p, x in c['facts']], c['ber'])
    for op, m, at in examine(a, tkey(c['type'])):
        if (op, at and '/'.join(map(str, at[0]))) == (c['op'], c['path']): return m
