"""SNMP messages of every version against an encoder written from RFC 1157, 3416, 3412 and 3414."""
from checks.common import *
from hypothesis import strategies as st

PROPERTY = 'C13'
RULE = ('a case is one SNMP message (v1, v2c or v3; every PDU kind, error code, generic trap, value type with boundary values, varbind '
        'exception) written by an independent encoder with minimal or long-form lengths: it must decode to the published components '
        'and names, and the same message built through the modules must encode to the minimal octets. Or one message with a value '
        'outside its published range, an unknown PDU or an unknown value type, which must be refused. Non-trivial: it has at least '
        'one variable binding or is a refusal.')
ASSUMPTIONS = ['lengths may use any definite form; integers are minimal, as BER requires',
               'pyasn1 0.5.1 writes -2**(8k-1) with a redundant octet (a dependency): accepted']

ERRORS = ['noError', 'tooBig', 'noSuchName', 'badValue', 'readOnly', 'genErr', 'noAccess', 'wrongType', 'wrongLength', 'wrongEncoding', 'wrongValue',
          'noCreation', 'inconsistentValue', 'resourceUnavailable', 'commitFailed', 'undoFailed', 'authorizationError', 'notWritable', 'inconsistentName']
TRAPS = ['coldStart', 'warmStart', 'linkDown', 'linkUp', 'authenticationFailure', 'egpNeighborLoss', 'enterpriseSpecific']
V1 = ['get-request', 'get-next-request', 'get-response', 'set-request', 'trap']
V2 = {'get-request': 0, 'get-next-request': 1, 'response': 2, 'set-request': 3, 'get-bulk-request': 5, 'inform-request': 6, 'snmpV2-trap': 7, 'report': 8}
PDUTYPE1 = ['GetRequestPDU', 'GetNextRequestPDU', 'GetResponsePDU', 'SetRequestPDU', 'TrapPDU']

# value kind -> (identifier octet, (choices, names), low, high)
VAL1 = {'int': (0x02, ('simple', 'number')), 'str': (0x04, ('simple', 'string')), 'oid': (0x06, ('simple', 'object')), 'null': (0x05, ('simple', 'empty')),
        'ip': (0x40, ('application-wide', 'address', 'internet')), 'counter': (0x41, ('application-wide', 'counter')), 'gauge': (0x42, ('application-wide', 'gauge')),
        'ticks': (0x43, ('application-wide', 'ticks')), 'opaque': (0x44, ('application-wide', 'arbitrary'))}
VAL2 = {'int': (0x02, ('value', 'simple', 'integer-value')), 'str': (0x04, ('value', 'simple', 'string-value')), 'oid': (0x06, ('value', 'simple', 'objectID-value')),
        'ip': (0x40, ('value', 'application-wide', 'ipAddress-value')), 'counter': (0x41, ('value', 'application-wide', 'counter-value')),
        'gauge': (0x42, ('value', 'application-wide', 'gauge32-value')), 'ticks': (0x43, ('value', 'application-wide', 'timeticks-value')),
        'opaque': (0x44, ('value', 'application-wide', 'arbitrary-value')), 'counter64': (0x46, ('value', 'application-wide', 'big-counter-value')),
        'null': (0x05, ('unSpecified',)), 'noSuchObject': (0x80, ('noSuchObject',)), 'noSuchInstance': (0x81, ('noSuchInstance',)), 'endOfMibView': (0x82, ('endOfMibView',))}
NULLS = ('null', 'noSuchObject', 'noSuchInstance', 'endOfMibView')
INTS = ('int', 'counter', 'gauge', 'ticks', 'counter64')
BOUNDS = {'counter': (0, 2 ** 32 - 1), 'gauge': (0, 2 ** 32 - 1), 'ticks': (0, 2 ** 32 - 1), 'counter64': (0, 2 ** 64 - 1)}
I32 = (-2 ** 31, 2 ** 31 - 1)


# ------------------------------------------------------------------ encoder
class Enc(object):
    def __init__(self, long=0): self.long = long

    def tl(self, ident, body):
        n = len(body)
        if not self.long: ln = bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255]) if n < 65536 else b'\x83' + n.to_bytes(3, 'big')
        else: ln = bytes([0x80 | self.long]) + n.to_bytes(self.long, 'big')
        return bytes([ident]) + ln + body

    def int(self, v, ident=2):
        n = 1
        while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)): n += 1
        return self.tl(ident, v.to_bytes(n, 'big', signed=True))

    def str(self, b, ident=4): return self.tl(ident, b)

    def oid(self, o, ident=6):
        out = b''
        for a in (o[0] * 40 + o[1],) + tuple(o[2:]):
            p = bytes([a & 127])
            a >>= 7
            while a: p, a = bytes([128 | a & 127]) + p, a >> 7
            out += p
        return self.tl(ident, out)

    def value(self, table, kind, v):
        ident = table[kind][0]
        if kind in NULLS: return self.tl(ident, b'')
        if kind in INTS: return self.int(v, ident)
        if kind == 'oid': return self.oid(v, ident)
        return self.str(v, ident)

    def vbl(self, table, vbs): return self.tl(0x30, b''.join(self.tl(0x30, self.oid(o) + self.value(table, k, v)) for o, k, v in vbs))

    def v1(self, m):
        if m['pdu'] == 'trap':
            b = self.oid(m['enterprise']) + self.str(m['agent'], 0x40) + self.int(m['generic']) + self.int(m['specific']) + self.int(m['stamp'], 0x43)
        else: b = self.int(m['id']) + self.int(m['error']) + self.int(m['index'])
        return self.tl(0x30, self.int(0) + self.str(m['community']) + self.tl(0xa0 | V1.index(m['pdu']), b + self.vbl(VAL1, m['vbs'])))

    def pdu2(self, m):
        return self.tl(0xa0 | V2[m['pdu']], self.int(m['id']) + self.int(m['error']) + self.int(m['index']) + self.vbl(VAL2, m['vbs']))

    def v2(self, m): return self.tl(0x30, self.int(1) + self.str(m['community']) + self.pdu2(m))

    def scoped(self, m): return self.tl(0x30, self.str(m['engine']) + self.str(m['context']) + self.pdu2(m))

    def usm(self, m):
        return self.tl(0x30, self.str(m['engine']) + self.int(m['boots']) + self.int(m['time']) + self.str(m['user']) + self.str(m['auth']) + self.str(m['priv']))

    def v3(self, m):
        hdr = self.tl(0x30, self.int(m['msgid']) + self.int(m['maxsize']) + self.str(m['flags']) + self.int(m['model']))
        data = self.str(m['cipher']) if m['cipher'] is not None else self.scoped(m)
        return self.tl(0x30, self.int(3) + hdr + self.str(self.usm(m)) + data)


# ------------------------------------------------------------------ reading
class Bad(Exception): pass


def eq(got, want, what):
    if got != want: raise Bad('%s is %r, published meaning %r' % (what, got, want))


def readvalue(obj, table, kind, v, what):
    for n in table[kind][1]:
        eq(obj.getName(), n, what + ' alternative')
        obj = obj.getComponent()
    if kind in NULLS: return
    if kind in INTS: eq(int(obj), v, what)
    elif kind == 'oid': eq(tuple(obj), tuple(v), what)
    else: eq(obj.asOctets(), v, what)


def readvbl(vbl, table, vbs):
    eq(len(vbl), len(vbs), 'number of variable bindings')
    for i, (o, k, v) in enumerate(vbs):
        eq(tuple(vbl[i]['name']), tuple(o), 'name %d' % i)
        readvalue(vbl[i][1], table, k, v, 'value %d' % i)


def named(obj, n, names, what):
    eq(int(obj), n, what)
    eq(obj.prettyPrint(), names[n] if 0 <= n < len(names) else str(n), what + ' name')


def decode(mod, name, b, codec=None):
    w, rest = (codec or ber_dec).decode(b, asn1Spec=repo.spec(mod, name))
    if rest: raise Bad('%d octets left' % len(rest))
    return w


def readpdu2(pdus, m):
    eq(pdus.getName(), m['pdu'], 'PDU')
    p = pdus.getComponent()
    eq(int(p['request-id']), m['id'], 'request-id')
    if m['pdu'] == 'get-bulk-request':
        eq(int(p['non-repeaters']), m['error'], 'non-repeaters')
        eq(int(p['max-repetitions']), m['index'], 'max-repetitions')
    else:
        named(p['error-status'], m['error'], ERRORS, 'error-status')
        eq(int(p['error-index']), m['index'], 'error-index')
    readvbl(p['variable-bindings'], VAL2, m['vbs'])


def read(ver, m, b, codec):
    if ver == 1:
        w = decode('rfc1157', 'Message', b, codec)
        named(w['version'], 0, ['version-1'], 'version')
        eq(w['community'].asOctets(), m['community'], 'community')
        eq(w['data'].getName(), m['pdu'], 'PDU')
        p = w['data'].getComponent()
        if m['pdu'] == 'trap':
            eq(tuple(p['enterprise']), tuple(m['enterprise']), 'enterprise')
            eq(p['agent-addr'].getName(), 'internet', 'agent-addr')
            eq(p['agent-addr'].getComponent().asOctets(), m['agent'], 'agent-addr')
            named(p['generic-trap'], m['generic'], TRAPS, 'generic-trap')
            eq(int(p['specific-trap']), m['specific'], 'specific-trap')
            eq(int(p['time-stamp']), m['stamp'], 'time-stamp')
        else:
            eq(int(p['request-id']), m['id'], 'request-id')
            named(p['error-status'], m['error'], ERRORS[:6], 'error-status')
            eq(int(p['error-index']), m['index'], 'error-index')
        readvbl(p['variable-bindings'], VAL1, m['vbs'])
    elif ver == 2:
        w = decode('rfc1901', 'Message', b, codec)
        named(w['version'], 1, ['', 'version-2c'], 'version')
        eq(w['community'].asOctets(), m['community'], 'community')
        readpdu2(decode('rfc1905', 'PDUs', w['data'].asOctets(), codec), m)
    else:
        w = decode('rfc3412', 'SNMPv3Message', b, codec)
        eq(int(w['msgVersion']), 3, 'msgVersion')
        h = w['msgGlobalData']
        for n, k in (('msgID', 'msgid'), ('msgMaxSize', 'maxsize'), ('msgSecurityModel', 'model')): eq(int(h[n]), m[k], n)
        eq(h['msgFlags'].asOctets(), m['flags'], 'msgFlags')
        u = decode('rfc3414', 'UsmSecurityParameters', w['msgSecurityParameters'].asOctets(), codec)
        eq(u['msgAuthoritativeEngineID'].asOctets(), m['engine'], 'msgAuthoritativeEngineID')
        eq(int(u['msgAuthoritativeEngineBoots']), m['boots'], 'boots')
        eq(int(u['msgAuthoritativeEngineTime']), m['time'], 'time')
        eq(u['msgUserName'].asOctets(), m['user'], 'msgUserName')
        eq(u['msgAuthenticationParameters'].asOctets(), m['auth'], 'auth')
        eq(u['msgPrivacyParameters'].asOctets(), m['priv'], 'priv')
        if m['cipher'] is not None:
            eq(w['msgData'].getName(), 'encryptedPDU', 'msgData')
            eq(w['msgData'].getComponent().asOctets(), m['cipher'], 'encryptedPDU')
        else:
            eq(w['msgData'].getName(), 'plaintext', 'msgData')
            s = w['msgData'].getComponent()
            eq(s['contextEngineId'].asOctets(), m['engine'], 'contextEngineId')
            eq(s['contextName'].asOctets(), m['context'], 'contextName')
            readpdu2(s['data'], m)
    return w


# ------------------------------------------------------------------ building
def fillvbl(vbl, table, vbs):
    vbl.clear()
    for i, (o, k, v) in enumerate(vbs):
        vb = vbl.getComponentByPosition(i)
        vb['name'] = o
        obj = vb[1]
        path = table[k][1]
        for n in path[:-1]: obj = obj[n]
        obj[path[-1]] = '' if k in NULLS else v


def fillpdu2(p, m, byname):
    p['request-id'] = m['id']
    if m['pdu'] == 'get-bulk-request': p['non-repeaters'], p['max-repetitions'] = m['error'], m['index']
    else: p['error-status'], p['error-index'] = ERRORS[m['error']] if byname else m['error'], m['index']
    fillvbl(p['variable-bindings'], VAL2, m['vbs'])


def build(ver, m, byname):
    if ver == 1:
        w = repo.new('rfc1157', 'Message')
        w['version'] = 'version-1' if byname else 0
        w['community'] = m['community']
        p = w['data'][m['pdu']]
        if m['pdu'] == 'trap':
            p['enterprise'] = m['enterprise']
            p['agent-addr']['internet'] = m['agent']
            p['generic-trap'] = TRAPS[m['generic']] if byname else m['generic']
            p['specific-trap'], p['time-stamp'] = m['specific'], m['stamp']
        else: p['request-id'], p['error-status'], p['error-index'] = m['id'], ERRORS[m['error']] if byname else m['error'], m['index']
        fillvbl(p['variable-bindings'], VAL1, m['vbs'])
        return w
    if ver == 2:
        w = repo.new('rfc1901', 'Message')
        w['version'] = 'version-2c' if byname else 1
        w['community'] = m['community']
        if byname:
            ps = repo.new('rfc1905', 'PDUs')
            fillpdu2(ps[m['pdu']], m, byname)
            w['data'] = ber_enc.encode(ps)
        else:       # a PDU on its own
            p = repo.new('rfc1905', {'get-request': 'GetRequestPDU', 'get-next-request': 'GetNextRequestPDU', 'response': 'ResponsePDU', 'set-request': 'SetRequestPDU',
                                     'get-bulk-request': 'GetBulkRequestPDU', 'inform-request': 'InformRequestPDU', 'snmpV2-trap': 'SNMPv2TrapPDU', 'report': 'ReportPDU'}[m['pdu']])
            fillpdu2(p, m, byname)
            w['data'] = ber_enc.encode(p)
        return w
    w = repo.new('rfc3412', 'SNMPv3Message')
    w['msgVersion'] = 3
    h = w['msgGlobalData']
    h['msgID'], h['msgMaxSize'], h['msgFlags'], h['msgSecurityModel'] = m['msgid'], m['maxsize'], m['flags'], m['model']
    u = repo.new('rfc3414', 'UsmSecurityParameters')
    for n, k in (('msgAuthoritativeEngineID', 'engine'), ('msgAuthoritativeEngineBoots', 'boots'), ('msgAuthoritativeEngineTime', 'time'), ('msgUserName', 'user'),
                 ('msgAuthenticationParameters', 'auth'), ('msgPrivacyParameters', 'priv')): u[n] = m[k]
    w['msgSecurityParameters'] = ber_enc.encode(u)
    if m['cipher'] is not None: w['msgData']['encryptedPDU'] = m['cipher']
    else:
        s = w['msgData']['plaintext']
        s['contextEngineId'], s['contextName'] = m['engine'], m['context']
        fillpdu2(s['data'][m['pdu']], m, byname)
    return w


def encoded(ver, m, long=0):
    e = Enc(long)
    return e.v1(m) if ver == 1 else e.v2(m) if ver == 2 else e.v3(m)


def check(ver, m, long, byname):
    b = encoded(ver, m, long)
    short_ = encoded(ver, m)
    for codec in (ber_dec, der_dec):
        try: w = read(ver, m, b, codec)
        except Bad as e: return 'decode', '%s: %s' % (hexs(b), e)
        except Exception as e: return 'decode', 'decoding %s: %s' % (hexs(b), short(e))
        if not long:
            again = (ber_enc if codec is ber_dec else der_enc).encode(w)
            if again != b and again != quirk(ver, m): return 'reencode', '%s re-encodes as %s' % (hexs(b), hexs(again))
    if m.get('error', 0) >= (6 if ver == 1 else len(ERRORS)): byname = False
    for enc in (ber_enc, der_enc):
        try: got = enc.encode(build(ver, m, byname))
        except Exception as e: return 'build', 'building %r: %s' % (m, short(e))
        if got != short_ and got != quirk(ver, m): return 'build', '%r encodes as %s, published %s' % (m, hexs(got), hexs(short_))


def quirk(ver, m):
    """the encoding with pyasn1 0.5.1's padded -2**(8k-1)"""
    class Q(Enc):
        def int(self, v, ident=2):
            n = 1
            while not -(1 << (8 * n - 1)) < v < (1 << (8 * n - 1)): n += 1
            return self.tl(ident, v.to_bytes(n, 'big', signed=True))
    e = Q()
    return e.v1(m) if ver == 1 else e.v2(m) if ver == 2 else e.v3(m)


# ------------------------------------------------------------------ generation
def ints(lo, hi): return st.one_of(st.sampled_from([x for x in (lo, hi, 0, 1, 127, 128, 255, 256, 32767, 65535, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1) if lo <= x <= hi]), st.integers(lo, hi))


OIDS = st.one_of(st.sampled_from([(1, 3, 6, 1, 2, 1, 1, 1, 0), (1, 3), (0, 0), (1, 3, 6, 1, 4, 1, 4294967295), (1, 3, 6, 1, 6, 3, 1, 1, 4, 1, 0), (2, 39)]),
                 st.tuples(st.integers(0, 1), st.integers(0, 39), st.lists(ints(0, 2 ** 32 - 1), max_size=12)).map(lambda x: (x[0], x[1]) + tuple(x[2])))


def octs(lo=0, hi=40): return st.one_of(st.binary(min_size=lo, max_size=hi), st.sampled_from([b'public', b'x' * 127, b'x' * 128, b'x' * 300]) if hi >= 300 else st.binary(min_size=lo, max_size=hi))


def vals(kind, ver):
    if kind in NULLS: return st.none()
    if kind == 'int': return ints(*(I32 if ver > 1 else (-2 ** 40, 2 ** 40)))
    if kind in BOUNDS: return ints(*BOUNDS[kind])
    if kind == 'oid': return OIDS
    if kind == 'ip': return st.binary(min_size=4, max_size=4)
    return octs(0, 400)


def vbs(ver):
    kinds = sorted(VAL1 if ver == 1 else VAL2)
    return st.lists(st.sampled_from(kinds).flatmap(lambda k: st.tuples(OIDS, st.just(k), vals(k, ver))), max_size=5)


def messages(ver):
    if ver == 1:
        base = {'community': octs(0, 400), 'vbs': vbs(1)}
        req = st.fixed_dictionaries(dict(base, pdu=st.sampled_from(V1[:4]), id=ints(*I32), error=st.integers(0, 5), index=ints(0, 2 ** 31 - 1)))
        trap = st.fixed_dictionaries(dict(base, pdu=st.just('trap'), enterprise=OIDS, agent=st.binary(min_size=4, max_size=4), generic=st.integers(0, 6), specific=ints(*I32), stamp=ints(0, 2 ** 32 - 1)))
        return st.one_of(req, trap)
    pdu = {'vbs': vbs(2), 'id': ints(*I32), 'index': ints(0, 2 ** 31 - 1)}
    kind = st.one_of(st.tuples(st.sampled_from(sorted(set(V2) - {'get-bulk-request'})), st.integers(0, 18)), st.tuples(st.just('get-bulk-request'), ints(0, 2 ** 31 - 1)))
    d = dict(pdu, kind=kind)
    if ver == 2: d['community'] = octs(0, 400)
    else:
        m = 2 ** 31 - 1
        d.update(msgid=ints(0, m), maxsize=ints(484, m), flags=st.binary(min_size=1, max_size=1), model=ints(1, m), engine=octs(0, 32), context=octs(0, 32), boots=ints(0, m),
                 time=ints(0, m), user=octs(0, 32), auth=octs(0, 24), priv=octs(0, 16), cipher=st.one_of(st.none(), octs(0, 300)))
    def split(x):
        x = dict(x)
        x['pdu'], x['error'] = x.pop('kind')
        return x
    return st.fixed_dictionaries(d).map(split)


def sample(ver):
    """a plain message"""
    m = {'community': b'public', 'pdu': 'get-request', 'id': 1, 'error': 0, 'index': 0, 'vbs': [((1, 3, 6, 1), 'null', None)]}
    if ver == 3: m.update(msgid=1, maxsize=65507, flags=b'\x04', model=3, engine=b'\x80\0\0\0\1', context=b'', boots=1, time=2, user=b'u', auth=b'', priv=b'', cipher=None)
    return m


def trap(): return {'community': b'public', 'pdu': 'trap', 'enterprise': (1, 3, 6, 1, 4, 1, 1), 'agent': b'\1\2\3\4', 'generic': 0, 'specific': 0, 'stamp': 0, 'vbs': []}


def directed():
    out = []
    for ver in (1, 2, 3):
        add = lambda lab, **kw: out.append((ver, lab, dict(sample(ver), **kw)))
        kinds = V1[:4] if ver == 1 else sorted(V2)
        for k in kinds:
            add('PDU ' + k, pdu=k)
            for n in range(3): add('%d bindings' % n, pdu=k, vbs=[((1, 3, 6, 1, i), 'int', i) for i in range(n)])
        for e in range(6 if ver == 1 else 19): add('error-status', pdu='get-response' if ver == 1 else 'response', error=e, index=e)
        table = VAL1 if ver == 1 else VAL2
        for kind in sorted(table):
            vs = [None] if kind in NULLS else [b'\0\0\0\0', b'\xff\xff\xff\xff', b'\x7f\0\0\1'] if kind == 'ip' else [(0, 0), (1, 3, 6, 1, 4, 1, 2 ** 32 - 1), (2, 39, 1), (1, 39) + (7,) * 126] if kind == 'oid' else \
                [b'', b'a', bytes(range(256)), b'x' * 127, b'x' * 128] + ([b'x' * 65535] if ver > 1 or kind == 'opaque' else []) if kind in ('str', 'opaque') else \
                sorted({x for lo, hi in [BOUNDS.get(kind, I32)] for x in (lo, hi, lo + 1, hi - 1, 0, 1, 127, 128, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 24, -1, -128, -129) if lo <= x <= hi})
            for v in vs: add('value ' + kind, vbs=[((1, 3, 6, 1, 2, 1), kind, v), ((1, 3), 'str', b'after')])
        for i in (0, 1, -1, 2 ** 31 - 1, -2 ** 31, 128): add('request-id', id=i)
        if ver > 1:
            for i in (0, 1, 2 ** 31 - 1): add('bulk', pdu='get-bulk-request', error=i, index=i)
        if ver == 3:
            m = 2 ** 31 - 1
            for f, vs in (('msgid', (0, m)), ('maxsize', (484, m)), ('flags', [bytes([i]) for i in range(8)] + [b'\xff']), ('model', (1, 2, 3, m)), ('boots', (0, m)), ('time', (0, m)),
                          ('user', (b'', b'u' * 32)), ('auth', (b'', b'a' * 12, b'a' * 48)), ('priv', (b'', b'p' * 8)), ('cipher', (b'', b'c' * 200)), ('engine', (b'', b'e' * 32)), ('context', (b'ctx',))):
                for v in vs: add(f, **{f: v})
    for g in range(7): out.append((1, 'generic-trap', dict(trap(), generic=g, specific=g)))
    for s in (0, 2 ** 32 - 1, 2 ** 31): out.append((1, 'time-stamp', dict(trap(), stamp=s)))
    for s in (0, -1, 2 ** 31 - 1): out.append((1, 'specific-trap', dict(trap(), specific=s)))
    return out


def outside():
    """(version, what, octets) that must be refused"""
    e, out = Enc(), []
    for ver in (1, 2, 3):
        table = VAL1 if ver == 1 else VAL2
        for kind in sorted(table):
            if kind in BOUNDS:
                lo, hi = BOUNDS[kind]
                for v in (lo - 1, hi + 1, hi * 2 + 2, -2 ** 31): out.append((ver, '%s %d' % (kind, v), encoded(ver, dict(sample(ver), vbs=[((1, 3), kind, v)]))))
            if kind == 'int' and ver > 1:
                for v in (I32[0] - 1, I32[1] + 1): out.append((ver, '%s %d' % (kind, v), encoded(ver, dict(sample(ver), vbs=[((1, 3), kind, v)]))))
            if kind == 'ip':
                for v in (b'', b'\1\2\3', b'\1\2\3\4\5', b'\0' * 16): out.append((ver, 'address of %d octets' % len(v), encoded(ver, dict(sample(ver), vbs=[((1, 3), kind, v)]))))
        if ver > 1:
            out.append((ver, 'string of 65536', encoded(ver, dict(sample(ver), vbs=[((1, 3), 'str', b'x' * 65536)]))))
            for i in (I32[0] - 1, I32[1] + 1): out.append((ver, 'request-id %d' % i, encoded(ver, dict(sample(ver), id=i))))
            for i in (-1, 2 ** 31):
                out.append((ver, 'error-index %d' % i, encoded(ver, dict(sample(ver), index=i))))
                out.append((ver, 'non-repeaters %d' % i, encoded(ver, dict(sample(ver), pdu='get-bulk-request', error=i))))
                out.append((ver, 'max-repetitions %d' % i, encoded(ver, dict(sample(ver), pdu='get-bulk-request', index=i))))
        if ver == 3:
            for f, vs in (('msgid', (-1, 2 ** 31)), ('maxsize', (483, 0, -1, 2 ** 31)), ('flags', (b'', b'\0\0')), ('model', (0, -1, 2 ** 31)), ('boots', (-1, 2 ** 31)), ('time', (-1, 2 ** 31)), ('user', (b'u' * 33,))):
                for v in vs: out.append((3, '%s %r' % (f, v), encoded(3, dict(sample(3), **{f: v}))))
    for v in (b'', b'\1\2\3', b'\1\2\3\4\5'): out.append((1, 'agent-addr of %d octets' % len(v), encoded(1, dict(trap(), agent=v))))
    for v in (-1, 2 ** 32): out.append((1, 'time-stamp %d' % v, encoded(1, dict(trap(), stamp=v))))
    # unknown PDUs and value types
    good1, good2, good3 = encoded(1, sample(1)), encoded(2, sample(2)), encoded(3, sample(3))
    for tagno in (5, 6, 7, 8, 9, 30): out.append((1, 'PDU [%d]' % tagno, good1.replace(b'\xa0', bytes([0xa0 | tagno]), 1)))
    for tagno in (4, 9, 10, 30):
        out.append((2, 'PDU [%d]' % tagno, good2.replace(b'\xa0', bytes([0xa0 | tagno]), 1)))
        out.append((3, 'PDU [%d]' % tagno, good3.replace(b'\xa0', bytes([0xa0 | tagno]), 1)))
    for ver, good, tags in ((1, good1, (0x45, 0x46, 0x47, 0x80, 0x81, 0x82, 0x83, 0x0c, 0x03, 0x01, 0x0a)), (2, good2, (0x45, 0x47, 0x48, 0x83, 0x84, 0x0c, 0x03, 0x01, 0x0a)), (3, good3, (0x45, 0x47, 0x48, 0x83, 0x84, 0x0c, 0x03, 0x01, 0x0a))):
        for tg in tags:
            assert good.endswith(b'\x05\x00')
            out.append((ver, 'value type %02x' % tg, good[:-2] + bytes([tg, 0])))
    return out


def refused(ver, b):
    try: w = decode(*{1: ('rfc1157', 'Message'), 2: ('rfc1901', 'Message'), 3: ('rfc3412', 'SNMPv3Message')}[ver], b=b)
    except PyAsn1Error: return None
    except Bad: return None
    except Exception as e: return 'decoding %s: %s' % (hexs(b), short(e))
    try:
        if ver == 2: decode('rfc1905', 'PDUs', w['data'].asOctets())
        elif ver == 3: decode('rfc3414', 'UsmSecurityParameters', w['msgSecurityParameters'].asOctets())
        else: return '%s is accepted: %s' % (hexs(b), w.prettyPrint()[:300])
    except PyAsn1Error: return None
    except Bad: return None
    return '%s is accepted: %s' % (hexs(b), w.prettyPrint()[:300])


def shards(tier, seed):
    n = 1500 if tier == 'quick' else 12000
    return [('directed', i) for i in range(4)] + [('outside', 0)] + [('generated', ver, i, n) for ver in (1, 2, 3) for i in range(6)]


def run(item, ctx):
    if item[0] == 'outside':
        for ver, lab, b in outside():
            ctx.case(b, True, 'v%d refusal' % ver, 'v%d %s: %s' % (ver, lab, hexs(b)))
            m = refused(ver, b)
            if m: ctx.fail('v%d %s' % (ver, lab), m, {'ver': ver, 'octets': b.hex()})
        return
    if item[0] == 'directed':
        for i, (ver, lab, m) in enumerate(directed()):
            if i % 4 != item[1]: continue
            for long in (0, 2, 4):
                if long == 2 and len(encoded(ver, m, 4)) > 65535: continue
                ctx.case('%d %d %r' % (ver, long, m), bool(m['vbs']), 'v%d directed' % ver, 'v%d %s: %s' % (ver, lab, hexs(encoded(ver, m, long))))
                for byname in (False, True):
                    r = check(ver, m, long, byname)
                    if r: ctx.fail('v%d %s %s' % (ver, lab, r[0]), r[1], {'ver': ver, 'message': pack(m), 'long': long, 'byname': byname})
        return
    _, ver, i, n = item

    def fn(x):
        m, long, byname = x
        if long == 1 and len(encoded(ver, m)) > 120: long = 2
        ctx.case('%d %d %r' % (ver, long, m), bool(m['vbs']), 'v%d generated' % ver)
        r = check(ver, m, long, byname)
        if r: raise Violation(r[1], group=r[0])
    got = framework.hypo(st.tuples(messages(ver), st.sampled_from((0, 0, 1, 2, 4)), st.booleans()), fn, seeded(ctx.seed, 'snmp', ver, i), n)
    if got:
        (m, long, byname), e = got
        if long == 1 and len(encoded(ver, m)) > 120: long = 2
        ctx.fail('v%d %s' % (ver, e.group), str(e), {'ver': ver, 'message': pack(m), 'long': long, 'byname': byname})


def pack(m): return {k: [[list(o), kind, tojson(v)] for o, kind, v in v] if k == 'vbs' else tojson(v) for k, v in m.items()}


def unpack(m): return {k: [(tuple(o), kind, fromjson(v)) for o, kind, v in v] if k == 'vbs' else fromjson(v) for k, v in m.items()}


def replay(c):
    if 'octets' in c: return refused(c['ver'], bytes.fromhex(c['octets']))
    r = check(c['ver'], unpack(c['message']), c['long'], c['byname'])
    return r and r[1]
