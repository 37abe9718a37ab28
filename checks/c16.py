"""The network tools against loopback servers that answer with generated messages."""
import base64, hashlib, http.server, os, random, re, socket, threading
from checks.common import *
from checks import tools, c13, c10
from hypothesis import strategies as st

PROPERTY = 'C16'
RULE = ('a case is one run of one tool against a server of this check on the loopback interface. SNMP tool: any community and object; the '
        'server must get exactly one datagram, which an independent reader finds to be a version-1 GetRequest for that object, and its '
        'answer (any GetResponse, or octets that are no SNMP message) must be printed or refused. OCSP tool: two generated certificates; '
        'the server must get one POST of application/ocsp-request holding one request with the SHA-1 hashes of issuer name and key and '
        'the serial number, and the status, serial number and times of the answer must be printed; an issuer that does not match, '
        'another response status or type, an HTTP error and malformed answers must end in an error. Non-trivial: every case.')
ASSUMPTIONS = ['the SNMP tool\'s socket is led to a free port instead of port 161; a sample of runs uses port 161 itself, as a process of its own',
               'SNMP answers fit the 2048 octets the tool reads; communities are ASCII', 'the answer\'s first single response is the one asked for',
               'what is printed for an SNMP message is prettyPrint() of the message (C18 decides what that says)']
SNMP, OCSP = 'snmpget.py', 'ocspclient.py'
ENC = c13.Enc()


# ------------------------------------------------------------------ servers
class Udp(object):
    """answers every datagram with one octet string, remembers the datagrams"""
    def __init__(self, addr=('127.0.0.1', 0)):
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.sock.bind(addr)
        self.addr = self.sock.getsockname()
        self.got, self.answer = [], b''
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            try: d, a = self.sock.recvfrom(65536)
            except OSError: return
            if d == b'stop' + str(id(self)).encode(): return
            if d == b'sync' + str(id(self)).encode(): self.sock.sendto(d, a); continue
            self.got.append(d)
            try: self.sock.sendto(self.answer, a)
            except OSError: pass

    def sync(self):
        """everything sent before has been taken"""
        with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as s:
            s.settimeout(10)
            s.sendto(b'sync' + str(id(self)).encode(), self.addr)
            s.recvfrom(100)

    def close(self):
        with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as s: s.sendto(b'stop' + str(id(self)).encode(), self.addr)
        self.thread.join(10)
        self.sock.close()


class Http(object):
    """answers every POST with what answer(body) gives, remembers the requests"""
    def __init__(self):
        me = self
        self.got, self.answer = [], None

        class Handler(http.server.BaseHTTPRequestHandler):
            protocol_version = 'HTTP/1.1'

            def do(self):
                n = int(self.headers.get('Content-Length') or 0)
                body = self.rfile.read(n)
                me.got.append((self.command, self.path, self.headers.get('Content-Type'), body))
                code, out = me.answer(body)
                self.send_response(code)
                self.send_header('Content-Type', 'application/ocsp-response')
                self.send_header('Content-Length', str(len(out)))
                self.send_header('Connection', 'close')
                self.end_headers()
                self.wfile.write(out)
            do_GET = do_POST = do_PUT = do_HEAD = do

            def log_message(self, *a): pass
        self.server = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Handler)
        self.server.daemon_threads = True
        self.port = self.server.server_address[1]
        threading.Thread(target=self.server.serve_forever, kwargs={'poll_interval': .02}, daemon=True).start()

    def close(self):
        self.server.shutdown()
        self.server.server_close()


def led(addr, hosts):
    """socket class whose traffic to port 161 goes to addr"""
    class Socket(socket.socket):
        def sendto(self, data, *a):
            to = a[-1]
            if to[1] == 161:
                hosts.append(to[0])
                return super().sendto(data, *a[:-1], addr)
            return super().sendto(data, *a)

        def connect(self, to):
            if to[1] == 161:
                hosts.append(to[0])
                to = addr
            return super().connect(to)
    return Socket


# ------------------------------------------------------------------ SNMP tool
_udp = None


def snmp_run(community, host, oid, answer):
    """(requests, hosts, rc, out, why)"""
    global _udp
    if _udp is None or _udp[0] != os.getpid(): _udp = (os.getpid(), Udp())
    s = _udp[1]
    s.got, s.answer = [], answer
    hosts, real = [], socket.socket
    socket.socket = led(s.addr, hosts)
    try: rc, out, why = tools.inprocess(SNMP, '', [community, host, '.'.join(map(str, oid))], limit=20)
    finally: socket.socket = real
    s.sync()
    return list(s.got), hosts, rc, out, why


def snmp_own(community, host, oid, answer):
    """the same as a process of its own, on port 161 of an address of this process's"""
    pid = os.getpid()
    host = '127.%d.%d.%d' % (64 + (pid >> 16) % 128, pid >> 8 & 255, pid & 255 or 1)
    try: s = Udp((host, 161))
    except OSError: return None
    try:
        s.answer = answer
        rc, out, why = tools.subprocessed(SNMP, '', [community, host, '.'.join(map(str, oid))])
        s.sync()
        return list(s.got), [host], rc, out, why
    finally: s.close()


def snmp_request(b, community, oid):
    """is b the GetRequest asked for; message or None"""
    try: v = M.decode(M.entries['rfc1157', 'Message'].type, b)
    except asn1ref.Reject as e: return 'the request %s is no SNMPv1 message: %s' % (hexs(b), e)
    if v['version'] != 0: return 'the request has version %r' % v['version']
    if v['community'] != community.encode(): return 'the request has community %r, given %r' % (v['community'], community)
    kind, p = v['data']
    if kind != 'get-request': return 'the request is a %s' % kind
    if p['error-status'] or p['error-index']: return 'the request has an error status'
    if not -2 ** 31 <= p['request-id'] < 2 ** 31: return 'request-id %d' % p['request-id']
    vbl = p['variable-bindings']
    if [tuple(x['name']) for x in vbl] != [tuple(oid)]: return 'the request asks for %r, given %r' % ([x['name'] for x in vbl], oid)
    if vbl[0]['value'] != ('simple', ('empty', None)): return 'the request carries the value %r' % (vbl[0]['value'],)
    want = ENC.v1({'community': community.encode(), 'pdu': 'get-request', 'id': p['request-id'], 'error': 0, 'index': 0, 'vbs': [(oid, 'null', None)]})
    if b != want: return 'the request is %s, the published encoding %s' % (hexs(b), hexs(want))


def pretty(b):
    w, rest = ber_dec.decode(b, asn1Spec=repo.new('rfc1157', 'Message'))
    one = w.prettyPrint()
    ber_enc.encode(w)
    return {one, w.prettyPrint()}


def snmp_case(community, host, oid, answer, good, run=None):
    got = (run or snmp_run)(community, host, oid, answer)
    if got is None: return None
    reqs, hosts, rc, out, why = got
    if rc == 'hang': return '%s %s' % (SNMP, why)
    if len(reqs) != 1: return '%s sends %d datagrams: status %s %s' % (SNMP, len(reqs), rc, why)
    if run is None and hosts != [host]: return '%s sends to %s, given %s' % (SNMP, hosts, host)
    m = snmp_request(reqs[0], community, oid)
    if m: return m
    if not good:
        if rc == 0: return '%s takes %s for an answer and prints %r' % (SNMP, hexs(answer), out[-200:])
        return None
    if rc: return '%s ends with %s on the answer %s: %s' % (SNMP, rc, hexs(answer), why)
    sent = {'sending: ' + x for x in pretty(reqs[0])}
    recv = {'received: ' + x for x in pretty(answer)}
    if out.strip('\n') not in {a.rstrip('\n') + '\n' + b.rstrip('\n') for a in sent for b in recv} | {a + '\n' + b.rstrip('\n') for a in sent for b in recv}:
        return '%s prints %r, the message and its answer are %r and %r' % (SNMP, out, min(sent), min(recv))


def answers():
    """(octets, whether they are an SNMP response)"""
    ok = c13.messages(1).filter(lambda m: m['pdu'] != 'trap').map(lambda m: dict(m, pdu='get-response'))
    def make(x):
        m, long, times = x
        b = c13.encoded(1, m, long)
        one = len(b) - len(c13.encoded(1, dict(m, vbs=[]), long))
        k = min(times, (1960 - len(b)) // max(one, 1))          # as many bindings as fit
        return c13.encoded(1, dict(m, vbs=list(m['vbs']) * k), long) if k > 1 else b
    return st.tuples(ok, st.sampled_from([0, 0, 2, 4]), st.sampled_from([1, 1, 1, 3, 20, 120])).map(make).filter(lambda b: len(b) <= 2048)


def spoil(b, rnd):
    """octets near b that are no SNMP message for certain"""
    t = M.entries['rfc1157', 'Message'].type
    for _ in range(20):
        x = rnd.choice([lambda: b[:rnd.randrange(len(b))], lambda: b'\x31' + b[1:], lambda: c10.octetwise(rnd, b)[1], lambda: b''])()
        try:
            v = M.decode(t, x, check=False)
            continue
        except asn1ref.Reject as e:
            if e.kind == 'content' or M.lax_accepts(t, x): continue
        try:            # the tool lets octets follow
            tg, cons, body, rest = asn1ref.readtlv(x)
            if rest: continue
        except asn1ref.Reject: pass
        try: ber_dec.decode(x, asn1Spec=repo.new('rfc1157', 'Message'))     # BER the strict reader does not know (C10's matter)
        except PyAsn1Error: return x
        except Exception: return x
    return None


COMMUNITY = st.one_of(st.sampled_from(['public', 'private', '', 'x' * 127, 'x' * 128, 'x' * 300, '0x41', "it's", 'a b']), st.text(st.characters(min_codepoint=1, max_codepoint=126), max_size=40))
HOST = st.sampled_from(['127.0.0.1', '127.0.0.2', 'localhost', '127.1.2.3'])


# ------------------------------------------------------------------ OCSP tool
BASIC = (1, 3, 6, 1, 5, 5, 7, 48, 1, 1)
SHA1 = (1, 3, 14, 3, 2, 26)


def pemtext(*octets):
    out = ''
    for b in octets:
        s = base64.b64encode(b).decode()
        out += '-----BEGIN CERTIFICATE-----\n' + '\n'.join(s[i:i + 64] for i in range(0, len(s), 64)) + '\n-----END CERTIFICATE-----\n'
    return out


_http = None


def ocsp_run(text, path, answer, own=False):
    global _http
    if _http is None or _http[0] != os.getpid(): _http = (os.getpid(), Http())
    s = _http[1]
    s.got, s.answer = [], answer
    old = {k: os.environ.pop(k) for k in list(os.environ) if k.lower().endswith('_proxy')}
    try: rc, out, why = (tools.subprocessed if own else tools.inprocess)(OCSP, text, ['http://127.0.0.1:%d%s' % (s.port, path)])
    finally: os.environ.update(old)
    return list(s.got), rc, out, why


def certid(issuer, user):
    """what identifies certificate value user, issued by the holder of certificate value issuer"""
    name = M.encode(M.entries['rfc2459', 'Name'].type, user['tbsCertificate']['issuer'])
    bits = issuer['tbsCertificate']['subjectPublicKeyInfo']['subjectPublicKey']
    bits += '0' * (-len(bits) % 8)
    key = int(bits, 2).to_bytes(len(bits) // 8, 'big') if bits else b''
    return {'hashAlgorithm': {'algorithm': SHA1}, 'issuerNameHash': hashlib.sha1(name).digest(), 'issuerKeyHash': hashlib.sha1(key).digest(),
            'serialNumber': user['tbsCertificate']['serialNumber']}


def ocsp_request(req, path, cid):
    method, p, ctype, body = req
    if method != 'POST' or ctype != 'application/ocsp-request': return 'the request is a %s of %s' % (method, ctype)
    if p != path: return 'the request is for %s, given %s' % (p, path)
    t = M.entries['rfc2560', 'OCSPRequest'].type
    try: v = M.decode(t, body)
    except asn1ref.Reject as e: return 'the request %s is no OCSPRequest: %s' % (hexs(body), e)
    if M.encode(t, v) != body: return 'the request %s is not DER' % hexs(body)
    if v['tbsRequest'].get('version', 0) != 0: return 'the request has version %r' % v['tbsRequest']['version']
    lst = v['tbsRequest']['requestList']
    if len(lst) != 1: return 'the request is for %d certificates' % len(lst)
    got = dict(lst[0]['reqCert'])
    alg = dict(got['hashAlgorithm'])
    if alg.get('parameters') == b'\x05\x00': del alg['parameters']
    got['hashAlgorithm'] = alg
    for k in cid:
        if got[k] != cid[k]: return 'the request has %s %r, the certificate %r' % (k, got[k], cid[k])


def ocsp_case(c, own=False):
    """c: {'issuer', 'user': certificate values, 'basic': BasicOCSPResponse value, 'twist': what is wrong or None, 'path'}"""
    tc, tr = M.entries['rfc2459', 'Certificate'].type, M.entries['rfc2560', 'OCSPResponse'].type
    cid = certid(c['issuer'], c['user'])
    basic = dict(c['basic'])
    tbs = dict(basic['tbsResponseData'])
    tbs['responses'] = [dict(tbs['responses'][0], certID=cid)] + tbs['responses'][1:]
    basic['tbsResponseData'] = tbs
    tw = c['twist'] or ['']
    inner = M.encode(M.entries['rfc2560', 'BasicOCSPResponse'].type, basic)
    if tw[0] == 'inner': inner = inner[:tw[1] % len(inner)]
    v = {'responseStatus': 0, 'responseBytes': {'responseType': BASIC, 'response': inner}}
    if tw[0] == 'status': v = {'responseStatus': tw[1]}
    if tw[0] == 'status+': v['responseStatus'] = tw[1]
    if tw[0] == 'type': v['responseBytes']['responseType'] = tuple(tw[1])
    out = M.encode(tr, v)
    if tw[0] == 'outer': out = out[:tw[1] % len(out)]
    code = tw[1] if tw[0] == 'http' else 200
    octets = [M.encode(tc, c['issuer']), M.encode(tc, c['user'])]
    if tw[0] == 'one': octets.pop(tw[1])
    reqs, rc, printed, why = ocsp_run(pemtext(*octets), c['path'], lambda body: (code, out), own)
    if rc == 'hang': return '%s %s' % (OCSP, why)
    mine = tw[0] in ('one', 'issuer')       # must not even ask
    if len(reqs) != (0 if mine else 1): return '%s sends %d requests%s: status %s %s' % (OCSP, len(reqs), ' with ' + str(tw) if mine else '', rc, why)
    if not mine:
        m = ocsp_request(reqs[0], c['path'], cid)
        if m: return m
    if tw[0]:
        if rc == 0: return '%s ends without an error, printing %r, on %s' % (OCSP, printed, tw)
        return None
    if rc: return '%s ends with %s on %s: %s' % (OCSP, rc, hexs(out), why)
    one = tbs['responses'][0]
    want = 'Certificate ID %d is %s at %s till %s' % (cid['serialNumber'], one['certStatus'][0], tbs['producedAt'], one['thisUpdate'])
    if printed.strip() != want: return '%s prints %r, the answer says %r' % (OCSP, printed, want)


def clean(key, v):
    t = M.entries[key].type
    return M.encode_alt(t, v) == M.encode(t, v) and not neardefault(t, v)


def ocspcases():
    kc, kb = ('rfc2459', 'Certificate'), ('rfc2560', 'BasicOCSPResponse')
    certs = G.strategy(M.entries[kc].type).filter(lambda v: clean(kc, v))
    basics = G.strategy(M.entries[kb].type).filter(lambda v: v['tbsResponseData']['responses'] and clean(kb, v))
    twists = st.one_of(st.none(), st.none(), st.none(), st.sampled_from([['status', 1], ['status', 2], ['status', 3], ['status', 5], ['status', 6], ['status+', 1], ['status+', 6],
                       ['type', [1, 3, 6, 1, 5, 5, 7, 48, 1]], ['type', [1, 3, 6, 1, 5, 5, 7, 48, 1, 2]], ['http', 500], ['http', 404], ['one', 0], ['one', 1], ['issuer', 0], ['issuer', 1]]),
                       st.tuples(st.sampled_from(['inner', 'outer']), st.integers(0, 10 ** 6)).map(list))
    serial = st.one_of(st.integers(0, 2 ** 160), st.integers(-2 ** 70, 2 ** 70), st.sampled_from([0, 127, 128, 255, 256, 2 ** 64, 2 ** 159, -1]))
    key = st.one_of(st.none(), st.text('01', max_size=40), st.binary(max_size=200).map(lambda b: ''.join('%08d' % int(bin(x)[2:]) for x in b)))
    name = G.strategy(M.entries['rfc2459', 'Name'].type)

    def put(x):
        a, b, basic, tw, ser, bits, nm, path = x
        a, b = dict(a, tbsCertificate=dict(a['tbsCertificate'])), dict(b, tbsCertificate=dict(b['tbsCertificate'], serialNumber=ser))
        if bits is not None: a['tbsCertificate']['subjectPublicKeyInfo'] = dict(a['tbsCertificate']['subjectPublicKeyInfo'], subjectPublicKey=bits)
        a['tbsCertificate']['subject'] = nm
        t = M.entries['rfc2459', 'Name'].type
        if tw and tw[0] == 'issuer':
            other = b['tbsCertificate']['issuer']
            if M.encode(t, other) == M.encode(t, nm): tw = None
        else: b['tbsCertificate']['issuer'] = nm
        return {'issuer': a, 'user': b, 'basic': basic, 'twist': tw, 'path': path}
    return st.tuples(certs, certs, basics, twists, serial, key, name, st.sampled_from(['/', '/ocsp', '/a/b?x=1'])).map(put).filter(lambda c: clean(kc, c['issuer']) and clean(kc, c['user']))


def kinsmen():
    """certificates whose issuer differs from the CA's subject in one respect only"""
    kc, kb = ('rfc2459', 'Certificate'), ('rfc2560', 'BasicOCSPResponse')
    v, basic = G.minimal(M.entries[kc].type), G.maximal(M.entries[kb].type)
    atv = lambda o, s: {'type': o, 'value': b'\x13' + bytes([len(s)]) + s}
    C, O, CN = (2, 5, 4, 6), (2, 5, 4, 10), (2, 5, 4, 3)
    name = [[atv(C, b'DE')], [atv(O, b'Org')], [atv(CN, b'CA 1')]]
    near = [name[:2], name + [name[2]], [name[1], name[0], name[2]], [name[0], name[1], [atv(CN, b'CA 2')]], [name[0], name[1], [atv(CN, b'CA 10')]], [name[0], name[1], [atv(CN, b'ca 1')]],
            [name[0], name[1], [atv(O, b'CA 1')]], [name[0], name[1], [atv(CN, b'CA 1'), atv(O, b'x')]], [], name[:1], name[1:], [[atv(C, b'DE'), atv(O, b'Org')], name[2]]]
    for n in [name] + near:
        a, b = dict(v, tbsCertificate=dict(v['tbsCertificate'], subject=('', name))), dict(v, tbsCertificate=dict(v['tbsCertificate'], issuer=('', n), serialNumber=4711))
        yield {'issuer': a, 'user': b, 'basic': basic, 'twist': None if n is name else ['issuer', 0], 'path': '/'}


def pack(c): return {'tool': OCSP, 'issuer': tojson(c['issuer']), 'user': tojson(c['user']), 'basic': tojson(c['basic']), 'twist': c['twist'], 'path': c['path']}


def unpack(c): return {'issuer': fromjson(c['issuer']), 'user': fromjson(c['user']), 'basic': fromjson(c['basic']), 'twist': c['twist'], 'path': c['path']}


# ------------------------------------------------------------------ running
def snmpcases():
    """(community, host, oid, answer, good)"""
    def pick(x):
        com, host, oid, ans, bad, salt = x
        if bad == 0:
            s = spoil(ans, random.Random(salt))
            if s is not None: return com, host, oid, s, False
        return com, host, oid, ans, True
    return st.tuples(COMMUNITY, HOST, c13.OIDS, answers(), st.sampled_from([1, 2, 3, 0]), st.integers(0, 2 ** 30)).map(pick)


def shards(tier, seed):
    k, n = (6, 400) if tier == 'quick' else (16, 3000)
    own = 3 if tier == 'quick' else 30
    return [('snmp', i, n) for i in range(k)] + [('ocsp', i, n // 2) for i in range(2 * k)] + [('ownsnmp', i, own) for i in range(4)] + [('ownocsp', i, own) for i in range(4)] + [('directed', i, 0) for i in range(4)]


def sjson(x): return {'tool': SNMP, 'community': x[0], 'host': x[1], 'oid': list(x[2]), 'answer': x[3].hex(), 'good': x[4]}


def directed():
    ok = ENC.v1({'community': b'public', 'pdu': 'get-response', 'id': 123, 'error': 0, 'index': 0, 'vbs': [((1, 3, 6, 1, 2, 1, 1, 1, 0), 'str', b'system')]})
    for com in ('public', 'x' * 100, 'x' * 2000): yield sjson((com, '127.0.0.1', (1, 3, 6, 1, 2, 1, 1, 1, 0), ok, True))
    for k, v in [('int', -2 ** 31), ('int', 2 ** 31 - 1), ('str', b''), ('str', b'\x00\xff'), ('oid', (1, 3, 6, 1)), ('null', None), ('ip', b'\x7f\0\0\1'), ('counter', 2 ** 32 - 1), ('gauge', 0), ('ticks', 2 ** 31), ('opaque', b'\x9f\x78\x04abcd')]:
        for e in range(6):
            yield sjson(('public', '127.0.0.1', (1, 3, 6, 1, 2, 1, 1, 1, 0), ENC.v1({'community': b'public', 'pdu': 'get-response', 'id': 123, 'error': e, 'index': e and 1, 'vbs': [((1, 3, 6, 1, 2, 1, 1, 1, 0), k, v)]}), True))
    for k, n in [('int', 90), ('str', 60), ('null', 120), ('oid', 60), ('counter', 80)]:
        v = {'int': 5, 'str': b'value', 'null': None, 'oid': (1, 3, 6, 1, 4, 1), 'counter': 7}[k]
        long = ENC.v1({'community': b'public', 'pdu': 'get-response', 'id': 123, 'error': 0, 'index': 0, 'vbs': [((1, 3, 6, 1, 2, i + 1), k, v) for i in range(n)]})
        if len(long) > 2048: raise RuntimeError('answer too long')
        yield sjson(('public', '127.0.0.1', (1, 3, 6, 1, 2, 1), long, True))
    for b in (b'', b'\x30', ok[:-1], b'hello', b'\x05\x00'): yield sjson(('public', '127.0.0.1', (1, 3, 6, 1), b, False))
    for c in kinsmen(): yield pack(c)


def again(c, own=False):
    if c['tool'] == SNMP: return snmp_case(c['community'], c['host'], tuple(c['oid']), bytes.fromhex(c['answer']), c['good'], snmp_own if own else None)
    return ocsp_case(unpack(c), own)


def run(item, ctx):
    what, i, n = item
    if what == 'directed':
        for k, c in enumerate(directed()):
            if k % 4 != i: continue
            ctx.case(repr(c), True, 'directed ' + c['tool'], str(c)[:300])
            m = again(c)
            if m: ctx.fail('directed ' + c['tool'], m, c)
        return
    own = what.startswith('own')

    def fn(x):
        c = sjson(x) if 'snmp' in what else pack(x)
        cls = '' if (c['good'] if 'snmp' in what else not c['twist']) else ' refusal'
        ctx.case(what + repr(c), True, c['tool'] + cls + (' own process' if own else ''), str(c)[:300])
        m = again(c, own)
        if m: raise Violation(m, case=c)
    got = framework.hypo(snmpcases() if 'snmp' in what else ocspcases(), fn, seeded(ctx.seed, what, i), n)
    if got: ctx.fail(what, str(got[1]), got[1].case)


def replay(c):
    return again(c)
