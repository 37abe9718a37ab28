"""Wire format is the published one: differential against the reference model."""
from checks.common import *

PROPERTY = 'C02'
RULE = ('a case is one value of one exported type: directed values (every component, alternative, boundary) and Hypothesis-'
        'generated ones. DER written by the reference model must decode to that value under the published component names and '
        're-encode to it, and the value built through the API must encode to it. Non-trivial: the encoding has more than two octets.')
ASSUMPTIONS = ['the reference text in ref/*.asn1 states the published definitions',
               'two DER departures of the pyasn1 encoder (empty OPTIONAL components omitted, padded -2**(8k-1)) are accepted']
SEC = {'rfc2634', 'rfc3281', 'rfc5755'}


def shards(tier, seed):
    names = [k for k in typenames() if public(k)]
    return [('types', x) for x in stripe(names, 64)] + [('secat', m) for m in sorted(SEC)]


def check(key, v, modes=('inplace', 'assign')):
    t = M.entries[key].type
    b = M.encode(t, v)
    m = check_decode(key, t, v, b)
    if m: return ('decode', m)
    for mode in modes:
        m = check_build(key, t, v, b, mode)
        if m: return (keeps(key, t, v, b, mode) or 'build', m)
    return None


def keeps(key, t, v, b, mode):
    k = M.encode_keeping(t, v)
    try:
        if k != b and der_enc.encode(A.build(t, v, key, mode)) == k: return 'build keeps default'
    except (Mismatch, Exception): pass


def check_all(key, v):
    """like check, but every operation is tried"""
    t = M.entries[key].type
    b = M.encode(t, v)
    m = check_decode(key, t, v, b)
    if m: yield ('decode', m)
    for mode in ('inplace', 'assign'):
        m = check_build(key, t, v, b, mode)
        if m:
            yield (keeps(key, t, v, b, mode) or 'build', m)
            break


def run(item, ctx):
    if item[0] == 'secat':
        m = secat(item[1])
        ctx.case('secat ' + item[1], cls='SecurityCategory with a constructed tag')
        if m: ctx.fail('secat ' + item[1], m, {'secat': item[1]})
        return
    for key in item[1]:
        t = M.entries[key].type
        if missing_type(ctx, key): continue
        for lab, v in G.directed(t) + G.large(t, ctx.tier != 'quick'):
            b = M.encode(t, v)
            ctx.case(tname(key) + b.hex(), len(b) > 2, 'directed: ' + M.eff(t).kind, '%s (%s) %s' % (tname(key), lab, hexs(b)))
            for op, m in check_all(key, v): report(ctx, key, v, op, '%s: %s' % (lab, m))
        n = (16 if ctx.tier == 'quick' else 150) * (1 if M.eff(t).kind in repo.SCALAR else 2)
        if trivial(t): n = min(n, 8)

        def fn(v):
            b = M.encode(t, v)
            ctx.case(tname(key) + b.hex(), len(b) > 2, 'generated: ' + M.eff(t).kind)
            return check(key, v, ('inplace',) if len(b) % 2 else ('assign',))
        drive(ctx, key, n, fn)


def trivial(t):
    return M.eff(t).kind in ('NULL', 'BOOLEAN', 'ENUMERATED')


def secat(mod):
    """X.680: the tag of an open type is explicit, hence constructed"""
    b = bytes.fromhex('300f80092b06010401868d1f01a1020500')
    try: w, rest = der_dec.decode(b, asn1Spec=repo.spec(mod, 'SecurityCategory'))
    except Exception as e: return 'decoding %s: %s' % (b.hex(), short(e))
    if der_enc.encode(w) != b: return 're-encoding %s gives %s' % (b.hex(), der_enc.encode(w).hex())


def replay(c):
    if 'secat' in c: return secat(c['secat'])
    key = tkey(c['type'])
    if c['op'] == 'exists': return exists(key)
    for op, m in check_all(key, fromjson(c['value'])): return m
