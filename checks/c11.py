"""Definitions that several RFCs carry agree: octets valid under both decode to the same content and re-encode identically."""
from checks.common import *

PROPERTY = 'C11'
RULE = ('a case is one pair of exported types that stand for the same structure in two RFCs (same name in two modules, or a listed '
        'successor) and one octet string valid under both published definitions, made from directed and generated values of either. '
        'Both must decode it to the same content and re-encode it unchanged, and what one of them re-encodes the other must read '
        'again. Non-trivial: more than two octets.')
ASSUMPTIONS = ['content is compared without component names, tags and alternatives\' names, which later RFCs renamed']

RENAMED = '''rfc2314.CertificationRequest rfc2986.CertificationRequest
rfc2314.CertificationRequestInfo rfc2986.CertificationRequestInfo
rfc5208.PrivateKeyInfo rfc5958.OneAsymmetricKey
rfc5208.EncryptedPrivateKeyInfo rfc5958.EncryptedPrivateKeyInfo
rfc5208.PrivateKeyInfo rfc5958.PrivateKeyInfo
rfc2437.RSASSA_PSS_params rfc8017.RSASSA_PSS_params
rfc2437.RSAES_OAEP_params rfc8017.RSAES_OAEP_params
rfc3447.RSASSA_PSS_params rfc8017.RSASSA_PSS_params
rfc4055.RSASSA_PSS_params rfc8017.RSASSA_PSS_params
rfc4055.RSAES_OAEP_params rfc8017.RSAES_OAEP_params
rfc1155.Counter rfc1902.Counter32
rfc1155.Gauge rfc1902.Gauge32
rfc1155.Gauge rfc1902.Unsigned32
rfc1155.NetworkAddress rfc1902.IpAddress
rfc1155.ObjectSyntax rfc1902.ObjectSyntax
rfc1155.ApplicationSyntax rfc1902.ApplicationSyntax
rfc1155.SimpleSyntax rfc1902.SimpleSyntax
rfc1157.Message rfc1901.Message
rfc1157.PDUs rfc1905.PDUs
rfc1157.GetRequestPDU rfc1905.GetRequestPDU
rfc1157.GetNextRequestPDU rfc1905.GetNextRequestPDU
rfc1157.GetResponsePDU rfc1905.ResponsePDU
rfc1157.SetRequestPDU rfc1905.SetRequestPDU
rfc1157.VarBindList rfc1905.VarBindList
rfc1157.VarBind rfc1905.VarBind
rfc2315.ContentInfo rfc5652.ContentInfo
rfc2315.DigestInfo rfc2437.DigestInfo
rfc2315.SignerInfo rfc5652.SignerInfo
rfc2315.IssuerAndSerialNumber rfc5652.IssuerAndSerialNumber
rfc2315.SignedData rfc5652.SignedData
rfc2315.EncryptedContentInfo rfc5652.EncryptedContentInfo
rfc2315.EnvelopedData rfc5652.EnvelopedData
rfc2315.RecipientInfo rfc5652.KeyTransRecipientInfo
rfc2315.ExtendedCertificateOrCertificate rfc3852.CertificateChoices
rfc3852.CertificateChoices rfc5652.CertificateChoices
rfc2459.Validity rfc3281.AttCertValidityPeriod
rfc3281.AttributeCertificate rfc3852.AttributeCertificateV2
rfc5755.AttributeCertificate rfc5652.AttributeCertificateV2
rfc3281.AttributeCertificateInfo rfc5755.AttributeCertificateInfo
rfc2459.DSAPublicKey rfc3279.DSAPublicKey
rfc2459.Dss_Parms rfc3279.Dss_Parms
rfc3279.Dss_Sig_Value rfc5480.DSA_Sig_Value
rfc3279.ECDSA_Sig_Value rfc5480.ECDSA_Sig_Value
rfc3279.RSAPublicKey rfc8017.RSAPublicKey
rfc2437.RSAPublicKey rfc8017.RSAPublicKey
rfc2437.RSAPrivateKey rfc8017.RSAPrivateKey
rfc2634.SigningCertificate rfc5035.SigningCertificate
rfc2634.ESSCertID rfc5035.ESSCertID
rfc2511.CertReqMessages rfc4211.CertReqMessages
rfc2560.BasicOCSPResponse rfc6960.BasicOCSPResponse
rfc2560.OCSPRequest rfc6960.OCSPRequest
rfc2560.OCSPResponse rfc6960.OCSPResponse
rfc5084.GCMParameters rfc5084.CCMParameters
rfc3779.IPAddrBlocks rfc8360.IPAddrBlocks
rfc3370.PBKDF2_params rfc8018.PBKDF2_params
rfc2898.PBKDF2_params rfc8018.PBKDF2_params
rfc2459.Certificate rfc5652.Certificate
rfc2459.Certificate rfc5280.Certificate
rfc3280.Certificate rfc5280.Certificate
rfc2459.CertificateList rfc5280.CertificateList
rfc3280.CertificateList rfc5280.CertificateList'''


def pairs():
    out = set()
    by = {}
    for k in typenames():
        if public(k) and k not in UNDECODABLE: by.setdefault(k[1], []).append(k)
    for ks in by.values():
        for i, a in enumerate(sorted(ks)):
            for b in sorted(ks)[i + 1:]: out.add((a, b))
    for line in RENAMED.split('\n'):
        a, b = [tkey(x) for x in line.split()]
        if a in M.entries and b in M.entries: out.add((a, b))
    return sorted(out)


def shards(tier, seed):
    ps = sorted(pairs(), key=lambda p: (-cost(p[0]) - cost(p[1]), p))
    return [x for x in (ps[i::64] for i in range(64)) if x]


def content(t, v):
    """value without names: only what was transmitted"""
    r = M.eff(t)
    if r.kind in ('SEQUENCE', 'SET'): x = [content(f.type, v[f.name]) for f in r.fields if f.name in v]
    elif r.kind == 'CHOICE': x = content(r.byname[v[0]].type, v[1])
    elif r.elem is not None: x = [content(r.elem, e) for e in v]
    elif r.kind == 'BOOLEAN': return int(v)
    elif r.kind == 'OCTET STRING': return v
    elif r.kind in asn1ref.CHARSET: return v.encode(asn1ref.CHARSET[r.kind])
    else: return v
    return x


def opaque(t, seen=()):
    """may one of the two hide structure in an ANY"""
    r = M.eff(t)
    if r.kind == 'ANY': return True
    if id(r) in seen: return False
    if r.fields: return any(opaque(f.type, seen + (id(r),)) for f in r.fields)
    return r.elem is not None and opaque(r.elem, seen + (id(r),))


def both(a, b, octets):
    """None, or message"""
    got = []
    for key in (a, b):
        t = M.entries[key].type
        try:
            w, rest = der_dec.decode(octets, asn1Spec=repo.spec(*key))
            if rest: return '%s: decoding %s leaves %d octets' % (tname(key), hexs(octets), len(rest))
            v = A.extract(t, w)
            again = der_enc.encode(w)
        except (Mismatch, Exception) as e: return '%s: %s: %s' % (tname(key), hexs(octets), short(e))
        got.append((t, w, v, again))
    (ta, wa, va, ea), (tb, wb, vb, eb) = got
    if not (ea in ok(ta, va, octets)): return '%s re-encodes %s as %s' % (tname(a), hexs(octets), hexs(ea))
    if not (eb in ok(tb, vb, octets)): return '%s re-encodes %s as %s' % (tname(b), hexs(octets), hexs(eb))
    # defaults are filled in on one side only where the definitions differ: compare what was transmitted
    sa, sb = M.decode(ta, octets, False), M.decode(tb, octets, False)
    if not opaque(ta) and not opaque(tb):
        ca, cb = content(ta, strip(ta, va, sa)), content(tb, strip(tb, vb, sb))
        if ca != cb: return '%s reads %s as %r, %s as %r' % (tname(a), hexs(octets), va, tname(b), vb)
    for t, v, s, key in ((ta, va, sa, a), (tb, vb, sb, b)):
        if M.norm(t, v) != M.norm(t, s): return '%s reads %s as %r' % (tname(key), hexs(octets), v)
    return None


def ok(t, v, octets):
    return (octets, M.encode_alt(t, v))


def strip(t, v, sent):
    """v reduced to the components that were sent"""
    r = M.eff(t)
    if r.kind in ('SEQUENCE', 'SET'): return {n: strip(r.byname[n].type, v[n], sent[n]) for n in v if n in sent}
    if r.kind == 'CHOICE': return (v[0], strip(r.byname[v[0]].type, v[1], sent[1])) if v[0] == sent[0] else v
    if r.elem is not None and len(v) == len(sent): return [strip(r.elem, x, y) for x, y in zip(v, sent)]
    return v


def octets(a, b, t, v):
    """encoding of v (of a's type) if it is valid under b's definition as well, else None"""
    if neardefault(t, v): return None
    o = M.encode(t, v)
    u = M.entries[b].type
    try: w = M.decode(u, o)
    except asn1ref.Reject: return None
    if not M.valid(u, w) or M.encode(u, w) != o or neardefault(u, w): return None
    return o


def run(item, ctx):
    for a, b in item:
        if exists(a) or exists(b): continue
        seen = set()

        def probe(o, cls):
            if o in seen: return None
            seen.add(o)
            ctx.case('%s %s %s' % (tname(a), tname(b), o.hex()), len(o) > 2, cls, '%s %s: %s' % (tname(a), tname(b), hexs(o)))
            return both(a, b, o)
        for x, y in ((a, b), (b, a)):
            t = M.entries[x].type
            hits = 0
            for lab, v in G.directed(t, 1, False):
                o = octets(x, y, t, v)
                if o is None: continue
                hits += 1
                m = probe(o, 'directed')
                if m: ctx.fail('%s %s' % (tname(a), tname(b)), m, {'a': tname(a), 'b': tname(b), 'octets': o.hex()})
            if not hits: continue
            n = 10 if ctx.tier == 'quick' else 60
            if not G.weight(t): continue
            last = {}

            def fn(v):
                o = octets(x, y, t, v)
                if o is None: return
                m = probe(o, 'generated')
                if m is None and o in seen: m = both(a, b, o) if last else None
                if m:
                    last['o'] = o
                    raise Violation(m)
            got = framework.hypo(G.strategy(t), fn, seeded(ctx.seed, a, b, x), n)
            if got:
                o = octets(x, y, t, got[0])
                ctx.fail('%s %s' % (tname(a), tname(b)), str(got[1]), {'a': tname(a), 'b': tname(b), 'octets': o.hex()})


def replay(c):
    return both(tkey(c['a']), tkey(c['b']), bytes.fromhex(c['octets']))
