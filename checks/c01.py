"""Every value survives encoding and decoding, in DER and BER."""
from checks.common import *

PROPERTY = 'C01'
RULE = ('a case is one value of one exported type taken through one coding: DER, DER with octets following, BER definite length, '
        'BER with a long-form length, BER with an indefinite length. The decoded value must equal the one built, use up exactly '
        'its own octets, and encode to the same DER. Non-trivial: the encoding has more than two octets.')
ASSUMPTIONS = ['indefinite length is not tried on a SET with untagged CHOICE components (pyasn1 0.5.1 defect)',
               'components that pyasn1 0.5.1 drops when encoding (OPTIONAL with empty content) count as absent']
TAILS = [b'\x00\x00', b'\x30\x03\x02\x01\x05', b'\xff', b'\x05\x00\x05\x00', b'\xa0\x80', b'\x02']
CODINGS = ('der', 'tail', 'ber', 'long', 'indef')


def shards(tier, seed):
    return stripe([k for k in typenames() if public(k)], 64)


def equal(t, a, b):
    return M.norm(t, a) == M.norm(t, b) or M.encode_alt(t, a) == M.encode_alt(t, b)


def relength(b, form):
    """the same value in BER, with another length form on the outermost TLV"""
    tg, cons, body, rest = asn1ref.readtlv(b)
    hdr = b[:1]
    if b[0] & 31 == 31:
        i = 1
        while b[i] & 0x80: i += 1
        hdr = b[:i + 1]
    if form == 'long': return hdr + b'\x84' + len(body).to_bytes(4, 'big') + body
    if not cons: return None
    return hdr + b'\x80' + body + b'\x00\x00'


def setofchoices(t):
    """pyasn1 0.5.1 misreads a SET with untagged CHOICE components in indefinite form"""
    r = M.eff(t)
    return r.kind == 'SET' and any(M.eff(f.type).kind in ('CHOICE', 'ANY') and not M.eff(f.type).tags for f in r.fields)


def check(key, v, codings=CODINGS, n=0):
    t = M.entries[key].type
    try: obj = A.build(t, v, key, 'inplace')
    except (Mismatch, Exception) as e: return ('build', 'building %r: %s' % (v, short(e)))
    try: b = der_enc.encode(obj)
    except Exception as e: return ('encode', 'encoding %r: %s' % (v, short(e)))
    for coding in codings:
        try: m = code(key, t, v, obj, b, coding, n)
        except (Mismatch, Exception) as e: m = '%s: %s' % (coding, short(e))
        if m: return ('decode' if coding in ('der', 'tail') else coding, '%s (%r)' % (m, v))
    return None


def code(key, t, v, obj, b, coding, n):
    spec, dec, tail = repo.spec(*key), ber_dec.decode, b''
    if coding == 'der': dec, data = der_dec.decode, b
    elif coding == 'tail': dec, data, tail = der_dec.decode, b, TAILS[n % len(TAILS)]
    elif coding == 'ber': data = ber_enc.encode(A.build(t, v, key, 'inplace'))   # pyasn1: encoding twice may materialise absent components
    else:
        if M.eff(t).kind in ('ANY', 'CHOICE') and not M.eff(t).tags: return None
        if coding == 'indef' and setofchoices(t): return None
        data = relength(b, coding)
        if data is None: return None
    w, rest = dec(data + tail, asn1Spec=spec)
    if rest != tail: return '%s: decoding %s followed by %s leaves %s' % (coding, hexs(data), tail.hex(), hexs(rest))
    got = A.extract(t, w)
    if not equal(t, got, v): return '%s: %s decodes to %r' % (coding, hexs(data), got)
    again = der_enc.encode(w)
    if again != b: return '%s: decoded value encodes as %s, was %s' % (coding, hexs(again), hexs(b))


def run(item, ctx):
    for key in item:
        t = M.entries[key].type
        if missing_type(ctx, key): continue
        r = M.eff(t)
        vs = G.directed(t, 1, False) + G.large(t, ctx.tier != 'quick')
        for i, (lab, v) in enumerate(vs):
            b = M.encode(t, v)
            cs = ('tail', 'ber') if i % 3 == 0 else ('tail', 'long') if i % 3 == 1 else ('tail', 'indef')
            for c in cs:
                ctx.case(tname(key) + c + b.hex(), len(b) > 2, 'directed ' + c, '%s %s %s' % (tname(key), c, hexs(b)))
                f = check(key, v, (c,), i)
                if f: report(ctx, key, v, f[0], f[1], coding=c)
        n = 10 if ctx.tier == 'quick' else 150
        if r.kind in repo.SCALAR: n //= 2

        def fn(v):
            b = M.encode(t, v)
            cs = ('tail', ('ber', 'long', 'indef')[len(b) % 3])
            for c in cs: ctx.case(tname(key) + c + b.hex(), len(b) > 2, 'generated ' + c)
            return check(key, v, cs, len(b))
        drive(ctx, key, n, fn)


def replay(c):
    key = tkey(c['type'])
    if c['op'] == 'exists': return exists(key)
    for n in range(len(TAILS)):
        f = check(key, fromjson(c['value']), n=n)
        if f: return f[1]
