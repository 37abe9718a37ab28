"""Exported constants equal their published values."""
from checks.common import *
import re
from hypothesis import strategies as st
from pyasn1.type import univ

PROPERTY = 'C06'
RULE = ('a case is one exported constant put to one use: read and compared with its published value; encoded, and its published encoding '
        'decoded and compared; extended by random arcs; placed as governing identifier into a generated value of a published type that '
        'has an OBJECT IDENTIFIER component, which must encode as published; a predefined value cloned and placed into generated values; a template '
        'filled with generated components; a name re-exported by another module used like the original. Object identifiers are also '
        'compared with OpenSSL\'s table by name. Non-trivial: all.')
ASSUMPTIONS = ['OpenSSL\'s object table (obj_mac.h) is an independent statement of the identifiers whose names it shares',
               'RFC 2459/3280/5280 print holdInstruction under arc 2.2.840 where OpenSSL uses 1.2.840: the printed value is taken as published']
STAR = {'rfc2314': 'rfc2459', 'rfc2315': 'rfc2459', 'rfc2511': 'rfc2459', 'rfc5208': 'rfc2459', 'rfc3447': 'rfc2437'}
OBJMAC = '/usr/include/openssl/obj_mac.h'
# names that mean something else in OpenSSL's table, or a value an RFC prints differently
NOTSAME = {'data', 'iddata', 'holdinstructionnone', 'holdinstructioncallissuer', 'holdinstructionreject', 'holdinstruction', 'clearance'}
# published name -> OpenSSL's name, where they differ
ALIAS = dict(x.split('=') for x in '''signeddata=pkcs7signeddata envelopeddata=pkcs7envelopeddata signedandenvelopeddata=pkcs7signedandenvelopeddata
 digesteddata=pkcs7digestdata encrypteddata=pkcs7encrypteddata idat=x509 idatsutname=surname idcecrlreasons=crlreason idcedeltacrlindicator=deltacrl
 idsigneddata=pkcs7signeddata idenvelopeddata=pkcs7envelopeddata iddigesteddata=pkcs7digestdata idencrypteddata=pkcs7encrypteddata
 pkcs9atdateofbirth=idpdadateofbirth pkcs9atplaceofbirth=idpdaplaceofbirth pkcs9atgender=idpdagender
 pkcs9atcountryofcitizenship=idpdacountryofcitizenship pkcs9atcountryofresidence=idpdacountryofresidence ietfat=idpda
 idalgzlibcompress=zlibcompression idecsigtype=x962idecsigtype idfieldtype=x962idfieldtype gnbasis=onbasis idpublickeytype=x962idpublickeytype
 c2pnb176w1=c2pnb176v1 idpeacauditidentity=acauditentity idmod=idpkixmod idalgcms3deswrap=idsmimealgcms3deswrap idalgesdh=idsmimealgesdh
 idalgcmsrc2wrap=idsmimealgcmsrc2wrap idpeipaddrblocks=sbgpipaddrblock idpeautonomoussysids=sbgpautonomoussysnum
 idpeipaddrblocksv2=sbgpipaddrblockv2 idpeautonomoussysidsv2=sbgpautonomoussysnumv2 idcryptoproalgorithms=cryptopro
 idgostr34102001keytransportsmimecapability=idgostr34102001 idgostr341094keytransportsmimecapability=idgostr341094
 idspqetsunotice=idsmimespqetssqtunotice idspqetsuri=idsmimespqetssqturi idaasignaturetimestamptoken=idsmimeaatimestamptoken
 secp192r1=prime192v1 secp256r1=prime256v1 idatclearancerfc3281=clearance nistalgorithm=nistalgorithms idextensionreq=extreq
 iddhsighmacsha1=idalgdhsighmacsha1 iddhpopstaticsha1hmacsha1=idalgdhsighmacsha1 idalgdhpopsha1=idalgdhpop
 pbewithshaand128bitrc4=pbewithsha1and128bitrc4 pbewithshaand40bitrc4=pbewithsha1and40bitrc4
 pbewithshaand3keytripledescbc=pbewithsha1and3keytripledescbc pbewithshaand2keytripledescbc=pbewithsha1and2keytripledescbc
 pbewithshaand128bitrc2cbc=pbewithsha1and128bitrc2cbc pbewithshaand40bitrc2cbc=pbewithsha1and40bitrc2cbc bagtypes=pkcs12bagids
 idaakpclassification=idsmimeaasecuritylabel hashalgs=nisthashalgs aes128cbcpad=aes128cbc aes192cbcpad=aes192cbc aes256cbcpad=aes256cbc
 idkmacwithshake128=kmac128 idkmacwithshake256=kmac256'''.split())
PREFIXES = ('idce', 'idpe', 'idat', 'idad', 'idkp', 'idalg', 'idsmime', 'idpkix', 'id', 'pkcs9', 'pkcs9at', 'oid')


def norm(s):
    return re.sub(r'[^a-z0-9]', '', s.lower())


def objmac():
    text = open(OBJMAC).read()
    defs = dict(re.findall(r'#define OBJ_(\w+)\s+(.+)', text))
    sn = dict(re.findall(r'#define SN_(\w+)\s+"(.*)"', text))
    ln = dict(re.findall(r'#define LN_(\w+)\s+"(.*)"', text))

    def val(n):
        out = ()
        for p in defs[n].split(','):
            p = p.strip().rstrip('L')
            if p.isdigit(): out += (int(p),)
            elif p.startswith('OBJ_') and p[4:] in defs: out += val(p[4:])
            else: raise KeyError(p)
        return out
    table = {}
    for n in defs:
        try: v = val(n)
        except KeyError: continue
        for s in {n, sn.get(n, n), ln.get(n, n)}: table.setdefault(norm(s), set()).add(v)
    return table


TABLE = objmac() if os.path.exists(OBJMAC) else {}


def openssl_names(name):
    k = norm(name)
    if k in NOTSAME or (k.startswith('id') and k[2:] in NOTSAME) or k == 'idatclearance': return []
    if k in ALIAS: return [ALIAS[k]]
    c = [k] + [k[len(p):] for p in PREFIXES if k.startswith(p)]
    c += [k.replace('idct', 'idsmimect'), k.replace('idaa', 'idsmimeaa'), k.replace('idcti', 'idsmimecti')]
    return [x for x in c if x in TABLE]


def carriers():
    """(key, component name) of published types with an OBJECT IDENTIFIER component"""
    out = []
    for k in typenames():
        if not public(k) or k in UNDECODABLE: continue
        r = M.eff(M.entries[k].type)
        if r.kind != 'SEQUENCE': continue
        for f in r.fields:
            fr = M.eff(f.type)
            if fr.kind == 'OBJECT IDENTIFIER' and not fr.cons and fr.tags == [(0, 6)]: out.append((k, f.name))
    return out


CARRIERS = None


def holders(tref):
    """(key, component) of published types with a component of type tref"""
    out = []
    for k in typenames():
        if not public(k) or k in UNDECODABLE: continue
        r = M.eff(M.entries[k].type)
        if r.kind not in ('SEQUENCE', 'SET'): continue
        for f in r.fields:
            if f.type.ref == tref and not f.type.cons: out.append((k, f.name))
    return out


def aliases():
    """names re-exported wholesale: (module, name) -> entry of the source"""
    out = {}
    for m, src in STAR.items():
        for (sm, n), e in M.entries.items():
            if sm == src and (m, n) not in M.entries and not n.startswith('_'): out[m, n] = e
    return out


ALIASES = aliases()


def published(key):
    return M.entries[key] if key in M.entries else ALIASES[key]


def shards(tier, seed):
    keys = [k for k, e in M.entries.items() if e.what in ('OID', 'INT', 'VALUE', 'TEMPLATE') and public(k)] + list(ALIASES)
    return [sorted(keys)[i::24] for i in range(24)] + ['siren']


def get(key):
    return repo.lookup(*key)


def emptied(e, c):
    """pyasn1 drops an OPTIONAL parameter that is an empty structure"""
    v = A.extract(e.type, c)
    if isinstance(v, dict): v = {k: x for k, x in v.items() if x != b'\x30\x00'}
    return M.encode(e.type, v)


# ------------------------------------------------------------------- checks
def plain(key):
    """reads as the published value"""
    e = published(key)
    try: c = get(key)
    except (Mismatch, Exception) as x: return short(x)
    if e.what == 'OID':
        if not isinstance(c, univ.ObjectIdentifier): return 'is %s' % type(c).__name__
        dotted = '.'.join(map(str, e.value))
        if tuple(c) != e.value or str(c) != dotted: return 'is %s, published %s' % (c, dotted)
        b = asn1ref.oid_tlv(e.value)
        if der_enc.encode(c) != b: return 'encodes as %s, published %s' % (hexs(der_enc.encode(c)), hexs(b))
        w, rest = der_dec.decode(b)
        if rest or w != c or hash(w) != hash(c): return 'differs from the decoded published identifier'
        if key in M.entries:
            ns = openssl_names(key[1])
            if ns and not any(tuple(c) in TABLE[n] for n in ns): return 'is %s, OpenSSL knows %s as %s' % (c, ns[0], sorted(TABLE[ns[0]]))
        return None
    if e.what == 'INT':
        try: n = int(c)
        except Exception as x: return 'is not a number: ' + short(x)
        if n != e.value: return 'is %d, published %d' % (n, e.value)
        return None
    if e.what == 'VALUE':
        try:
            b = der_enc.encode(c)
            if b != e.value: return 'encodes as %s, published %s' % (hexs(b), hexs(e.value))
            if der_enc.encode(c) != e.value: return 'encodes differently the second time'
            w, rest = der_dec.decode(e.value, asn1Spec=c.clone())
            want = M.norm(e.type, M.decode(e.type, e.value))
            if rest or M.norm(e.type, A.extract(e.type, w)) != want: return 'published value decodes to %r' % (A.extract(e.type, w),)
            if e.value not in (M.encode(e.type, A.extract(e.type, c)), M.encode_alt(e.type, A.extract(e.type, c)), emptied(e, c)): return 'holds %r, published %r' % (A.extract(e.type, c), want)
        except (Mismatch, Exception) as x: return short(x)
        return None
    if e.what == 'TEMPLATE':
        r = M.eff(e.type)
        try:
            for f in r.fields:
                got = c.getComponentByName(f.name, default=None, instantiate=False)
                if f.name in e.value:
                    if got is None or not got.isValue: return 'has no %s' % f.name
                    if der_enc.encode(got) != e.value[f.name]: return '%s is %s, published %s' % (f.name, hexs(der_enc.encode(got)), hexs(e.value[f.name]))
                elif got is not None and got.isValue and f.default is None and der_enc.encode(got) != b'\x30\x00': return 'has a preset %s' % f.name
        except (Mismatch, Exception) as x: return short(x)
        return None
    return None


def typeuse(key, v):
    """a re-exported type works like the original"""
    e = published(key)
    b = M.encode(e.type, v)
    try:
        w, rest = der_dec.decode(b, asn1Spec=repo.spec(*key))
        if rest or M.norm(e.type, A.extract(e.type, w)) != M.norm(e.type, v): return 'decoding %s gives %r' % (hexs(b), A.extract(e.type, w))
        b2 = der_enc.encode(w)
    except (Mismatch, Exception) as x: return 'decoding %s: %s' % (hexs(b), short(x))
    if b2 != b and b2 != M.encode_alt(e.type, v): return 're-encoding %s gives %s' % (hexs(b), hexs(b2))
    return None


def oiduse(key, arcs, carrier, comp, v):
    """the constant as prefix, and as a component of a published type"""
    e = published(key)
    try:
        c = get(key)
        if arcs:
            x = c + tuple(arcs)
            if tuple(x) != e.value + tuple(arcs): return 'extended by %s is %s' % (arcs, x)
            if not c.isPrefixOf(x): return 'is no prefix of %s' % (x,)
        t = M.entries[carrier].type
        v = dict(v)
        v[comp] = e.value
        b = M.encode(t, v)
        obj = A.build(t, {k: x for k, x in v.items() if k != comp}, carrier, 'inplace')
        obj[comp] = c
        got = der_enc.encode(obj)
        if got != b and got != M.encode_alt(t, v): return 'as %s of %s encodes as %s, published %s' % (comp, tname(carrier), hexs(got), hexs(b))
        w, rest = der_dec.decode(b, asn1Spec=repo.spec(*carrier))
        if w[comp] != c: return 'decoded %s of %s is %s' % (comp, tname(carrier), w[comp])
    except (Mismatch, Exception) as x: return 'as %s of %s: %s' % (comp, tname(carrier), short(x))
    return None


def valueuse(key, carrier, comp, v):
    """a predefined value as a component of a published type"""
    e = published(key)
    try:
        c = get(key)
        t = M.entries[carrier].type
        v = dict(v)
        v[comp] = M.decode(e.type, e.value)
        if neardefault(t, v): return None
        b = M.encode(t, v)
        obj = A.build(t, {k: x for k, x in v.items() if k != comp}, carrier, 'inplace')
        if M.eff(next(f for f in M.eff(t).fields if f.name == comp).type).tags != M.eff(e.type).tags: return None
        obj[comp] = c
        got = der_enc.encode(obj)
        if got not in (b, M.encode_alt(t, v), M.encode_keeping(t, v)): return 'as %s of %s encodes as %s, published %s' % (comp, tname(carrier), hexs(got), hexs(b))
        if der_enc.encode(c) != e.value: return 'encodes as %s after use in %s' % (hexs(der_enc.encode(c)), tname(carrier))
    except (Mismatch, Exception) as x: return 'as %s of %s: %s' % (comp, tname(carrier), short(x))
    return None


def fill(key, v):
    """a template filled with the components it leaves open"""
    e = published(key)
    r = M.eff(e.type)
    v = dict(v)
    for n, b in e.value.items(): v[n] = M.decode(r.byname[n].type, b)
    b = M.encode(e.type, v)
    try:
        src = get(key)
        c = src.clone()
        for n in e.value: c[n] = src[n]
        for f in r.fields:
            if f.name in v and f.name not in e.value: A.put(c, f.name, f.type, v[f.name], 'inplace')
        got = der_enc.encode(c)
    except (Mismatch, Exception) as x: return 'filled with %r: %s' % (v, short(x))
    if got not in (b, M.encode_alt(e.type, v)): return 'filled with %r encodes as %s, published %s' % (v, hexs(got), hexs(b))
    if plain(key): return 'after filling a copy: ' + plain(key)
    return None


def siren(presets):
    """rfc7191.siren_dn() presets the identifier type"""
    mod = repo.module('rfc7191')
    try:
        obj = mod.siren_dn()
        if tuple(obj['sirenType']) != M.entries['rfc7191', 'id_dn'].value: return 'siren_dn() has type %s' % obj['sirenType']
    except (Mismatch, Exception) as x: return 'siren_dn(): ' + short(x)
    return None


# --------------------------------------------------------------------- run
def run(item, ctx):
    global CARRIERS
    if CARRIERS is None: CARRIERS = carriers()
    if item == 'siren':
        ctx.case('siren', True, 'preset type')
        m = siren(None)
        if m: ctx.fail('siren', m, {'use': 'siren', 'name': 'rfc7191.siren_dn'})
        return
    thorough = ctx.tier == 'thorough'
    for key in item:
        e = published(key)
        name = tname(key)

        def note(m, use, **kw):
            if m: ctx.fail('%s %s' % (name, use), '%s: %s' % (name, m), dict(name=name, use=use, **kw))
        if e.what in ('TYPE', 'SCHEMA'):
            if key[1] in ('GeneralName',) and False: continue
            vs = [v for _, v in G.brief(e.type)] + [v for _, v in G.directed(e.type, 0, False)][:40 if thorough else 8]
            for v in vs:
                ctx.case(name + repr(M.encode(e.type, v)), True, 're-exported type', name)
                m = typeuse(key, v)
                if m:
                    note(m, 'type', value=tojson(v))
                    break
            continue
        ctx.case(name, True, 'read ' + e.what, '%s %s' % (name, e.value if e.what in ('OID', 'INT') else ''))
        m = plain(key)
        note(m, 'plain')
        if m: continue
        if e.what == 'OID':
            @st.composite
            def use(draw):
                carrier, comp = draw(st.sampled_from(CARRIERS))
                v = draw(G.strategy(M.entries[carrier].type, 2))
                return draw(st.lists(st.integers(0, 1 << 40), max_size=3)), carrier, comp, v

            def fn(u):
                ctx.case(name + repr(u), True, 'identifier in use')
                m = oiduse(key, *u)
                if m: raise Violation(m)
            got = framework.hypo(use(), fn, seeded(ctx.seed, key), 40 if thorough else 3)
            if got: note(str(got[1]), 'oid', arcs=list(got[0][0]), carrier=tname(got[0][1]), comp=got[0][2], value=tojson(got[0][3]))
        elif e.what == 'VALUE':
            hs = holders(e.type.ref) if e.type.ref else []
            if not hs: continue

            @st.composite
            def use(draw):
                carrier, comp = draw(st.sampled_from(hs))
                return carrier, comp, draw(G.strategy(M.entries[carrier].type, 2))

            def fn(u):
                ctx.case(name + repr(u), True, 'predefined value in use')
                m = valueuse(key, *u)
                if m: raise Violation(m)
            got = framework.hypo(use(), fn, seeded(ctx.seed, key), 60 if thorough else 8)
            if got: note(str(got[1]), 'value', carrier=tname(got[0][0]), comp=got[0][1], value=tojson(got[0][2]))
        elif e.what == 'TEMPLATE':
            def fn(v):
                ctx.case(name + repr(v), True, 'template filled')
                m = fill(key, v)
                if m: raise Violation(m)
            got = framework.hypo(G.strategy(e.type), fn, seeded(ctx.seed, key), 60 if thorough else 8)
            if got: note(str(got[1]), 'fill', value=tojson(got[0]))


def replay(c):
    if c['use'] == 'siren': return siren(None)
    key = tkey(c['name'])
    v = fromjson(c['value']) if 'value' in c else None
    if c['use'] == 'type': return typeuse(key, v)
    if c['use'] == 'plain': return plain(key)
    if c['use'] == 'oid': return oiduse(key, c['arcs'], tkey(c['carrier']), c['comp'], v)
    if c['use'] == 'value': return valueuse(key, tkey(c['carrier']), c['comp'], v)
    return fill(key, v)
