"""LDAPv3 messages of every operation against an encoder written from RFC 2251."""
from checks.common import *
from hypothesis import strategies as st

PROPERTY = 'C14'
RULE = ('a case is one LDAP message (every operation, result code, authentication, filter up to the nesting the module supports, with '
        'and without controls) written by an independent encoder with minimal or long-form lengths: it must decode to the published '
        'components and names and re-encode unchanged, and the message built through the module must encode to the minimal octets. Or a '
        'message outside the published definition (unknown operation, result code tag, out-of-range number, missing part), which '
        'must be refused. Non-trivial: the operation is not unbindRequest.')
ASSUMPTIONS = ['search filters nest at most three deep, the limit the module states']

CODES = {0: 'success', 1: 'operationsError', 2: 'protocolError', 3: 'timeLimitExceeded', 4: 'sizeLimitExceeded', 5: 'compareFalse', 6: 'compareTrue', 7: 'authMethodNotSupported',
         8: 'strongAuthRequired', 10: 'referral', 11: 'adminLimitExceeded', 12: 'unavailableCriticalExtension', 13: 'confidentialityRequired', 14: 'saslBindInProgress',
         16: 'noSuchAttribute', 17: 'undefinedAttributeType', 18: 'inappropriateMatching', 19: 'constraintViolation', 20: 'attributeOrValueExists', 21: 'invalidAttributeSyntax',
         32: 'noSuchObject', 33: 'aliasProblem', 34: 'invalidDNSyntax', 36: 'aliasDereferencingProblem', 48: 'inappropriateAuthentication', 49: 'invalidCredentials',
         50: 'insufficientAccessRights', 51: 'busy', 52: 'unavailable', 53: 'unwillingToPerform', 54: 'loopDetect', 64: 'namingViolation', 65: 'objectClassViolation',
         66: 'notAllowedOnNonLeaf', 67: 'notAllowedOnRDN', 68: 'entryAlreadyExists', 69: 'objectClassModsProhibited', 71: 'affectsMultipleDSAs', 80: 'other'}
SCOPES = ['baseObject', 'singleLevel', 'wholeSubtree']
DEREF = ['neverDerefAliases', 'derefInSearching', 'derefFindingBaseObj', 'derefAlways']
MODS = ['add', 'delete', 'replace']
OPS = {'bindRequest': 0x60, 'bindResponse': 0x61, 'unbindRequest': 0x42, 'searchRequest': 0x63, 'searchResEntry': 0x64, 'searchResDone': 0x65, 'searchResRef': 0x73,
       'modifyRequest': 0x66, 'modifyResponse': 0x67, 'addRequest': 0x68, 'addResponse': 0x69, 'delRequest': 0x4a, 'delResponse': 0x6b, 'modDNRequest': 0x6c,
       'modDNResponse': 0x6d, 'compareRequest': 0x6e, 'compareResponse': 0x6f, 'abandonRequest': 0x50, 'extendedReq': 0x77, 'extendedResp': 0x78}


# A message part is (octets writer, expected reading): the writer takes a length form, the reading is
# int | ('enum', number, name) | bytes | bool | None (NULL) | {name: reading} | [reading] | ('ch', name, reading)
def tl(ident, body, long):
    n = len(body)
    if long and n < 256 ** long: ln = bytes([0x80 | long]) + n.to_bytes(long, 'big')
    else: ln = bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255]) if n < 65536 else b'\x83' + n.to_bytes(3, 'big')
    return bytes([ident]) + ln + body


class P(object):
    """a part: ident octet, content (bytes or parts), reading"""
    def __init__(self, ident, body, reading): self.ident, self.body, self.reading = ident, body, reading

    def write(self, long=0, true=b'\xff'):
        b = self.body if isinstance(self.body, bytes) else b''.join(p.write(long, true) for p in self.body)
        if self.reading is True: b = true
        return tl(self.ident, b, long)


def octet(b, ident=0x04): return P(ident, b, b)


def integer(v, ident=0x02, reading=None):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)): n += 1
    return P(ident, v.to_bytes(n, 'big', signed=True), v if reading is None else reading)


def enum(v, names): return integer(v, 0x0a, ('enum', v, names[v]))


def boolean(v, ident=0x01): return P(ident, b'\xff' if v else b'\0', v)


def seq(parts, ident=0x30, hide=()):
    """parts: [(name, part)]"""
    return P(ident, [p for n, p in parts if p is not None and n not in hide], {n: p.reading for n, p in parts if p is not None})


def many(parts, ident=0x30): return P(ident, parts, [p.reading for p in parts])


def choice(name, part): return P(part.ident, part.body, ('ch', name, part.reading))


def retag(p, ident): return P(ident, p.body, p.reading)


def attribute(a): return seq([('type', octet(a[0])), ('vals', many([octet(v) for v in a[1]], 0x31))])


def ava(a, ident=0x30): return seq([('attributeDesc', octet(a[0])), ('assertionValue', octet(a[1]))], ident)


def result(r, ident, extra=()):
    parts = [('resultCode', enum(r['code'], CODES)), ('matchedDN', octet(r['dn'])), ('errorMessage', octet(r['text']))]
    if r['referral'] is not None: parts.append(('referral', many([octet(x) for x in r['referral']], 0xa3)))
    return seq(parts + list(extra), ident)


def filt(f):
    k, v = f
    if k in ('and', 'or'): return choice(k, many([filt(x) for x in v], 0xa0 if k == 'and' else 0xa1))
    if k == 'not':
        i = filt(v)
        return P(0xa2, [i], ('ch', 'not', i.reading))
    if k in ('equalityMatch', 'greaterOrEqual', 'lessOrEqual', 'approxMatch'):
        return choice(k, ava(v, {'equalityMatch': 0xa3, 'greaterOrEqual': 0xa5, 'lessOrEqual': 0xa6, 'approxMatch': 0xa8}[k]))
    if k == 'substrings':
        tags = {'initial': 0x80, 'any': 0x81, 'final': 0x82}
        return choice(k, seq([('type', octet(v[0])), ('substrings', many([choice(n, octet(s, tags[n])) for n, s in v[1]]))], 0xa4))
    if k == 'present': return choice(k, octet(v, 0x87))
    rule, typ, val, dn = v
    return choice(k, seq([('matchingRule', None if rule is None else octet(rule, 0x81)), ('type', None if typ is None else octet(typ, 0x82)), ('matchValue', octet(val, 0x83)),
                          ('dnAttributes', boolean(dn, 0x84))], 0xa9, () if dn else ('dnAttributes',)))


def operation(op, a):
    i = OPS[op]
    if op == 'bindRequest':
        k, v = a['auth']
        if k == 'sasl': au = choice('sasl', seq([('mechanism', octet(v[0])), ('credentials', None if v[1] is None else octet(v[1]))], 0xa3))
        else: au = choice(k, octet(v, {'simple': 0x80, 'reserved-1': 0x81, 'reserved-2': 0x82}[k]))
        return seq([('version', integer(a['version'])), ('name', octet(a['name'])), ('authentication', au)], i)
    if op == 'bindResponse': return result(a, i, [] if a['creds'] is None else [('serverSaslCreds', octet(a['creds'], 0x87))])
    if op == 'unbindRequest': return P(i, b'', None)
    if op == 'searchRequest':
        return seq([('baseObject', octet(a['base'])), ('scope', enum(a['scope'], SCOPES)), ('derefAliases', enum(a['deref'], DEREF)), ('sizeLimit', integer(a['size'])),
                    ('timeLimit', integer(a['time'])), ('typesOnly', boolean(a['types'])), ('filter', filt(a['filter'])), ('attributes', many([octet(x) for x in a['attrs']]))], i)
    if op == 'searchResEntry': return seq([('objectName', octet(a['name'])), ('attributes', many([attribute(x) for x in a['attrs']]))], i)
    if op == 'searchResRef': return many([octet(x) for x in a['urls']], i)
    if op == 'modifyRequest':
        return seq([('object', octet(a['name'])), ('modification', many([seq([('operation', enum(m, MODS)), ('modification', attribute(x))]) for m, x in a['mods']]))], i)
    if op == 'addRequest': return seq([('entry', octet(a['name'])), ('attributes', many([attribute(x) for x in a['attrs']]))], i)
    if op == 'delRequest': return octet(a['name'], i)
    if op == 'modDNRequest':
        return seq([('entry', octet(a['name'])), ('newrdn', octet(a['rdn'])), ('deleteoldrdn', boolean(a['delete'])), ('newSuperior', None if a['superior'] is None else octet(a['superior'], 0x80))], i)
    if op == 'compareRequest': return seq([('entry', octet(a['name'])), ('ava', ava(a['ava']))], i)
    if op == 'abandonRequest': return integer(a['id'], i)
    if op == 'extendedReq': return seq([('requestName', octet(a['oid'], 0x80)), ('requestValue', None if a['value'] is None else octet(a['value'], 0x81))], i)
    if op == 'extendedResp': return result(a, i, [x for x in (('responseName', None if a['oid'] is None else octet(a['oid'], 0x8a)), ('response', None if a['value'] is None else octet(a['value'], 0x8b))) if x[1] is not None])
    return result(a, i)


def message(m):
    cs = None
    if m['controls'] is not None:
        cs = many([seq([('controlType', octet(o)), ('criticality', boolean(c)), ('controlValue', None if v is None else octet(v))], 0x30, () if c else ('criticality',)) for o, c, v in m['controls']], 0xa0)
    return seq([('messageID', integer(m['id'])), ('protocolOp', choice(m['op'], operation(m['op'], m['args']))), ('controls', cs)])


# ------------------------------------------------------------------ reading and building
class Bad(Exception): pass


def read(o, want, path=''):
    if isinstance(want, dict):
        for n in want: read(o.getComponentByName(n), want[n], path + '/' + n)
        for n in o.componentType:
            if n in want: continue
            c = o.getComponentByName(n, default=None, instantiate=False)
            if c is not None and c.isValue: raise Bad('%s/%s is %r, was not sent' % (path, n, c))
    elif isinstance(want, list):
        n = len(o) if o.isValue else 0
        if n != len(want): raise Bad('%s has %d elements, sent %d' % (path, n, len(want)))
        for i, x in enumerate(want): read(o.getComponentByPosition(i), x, '%s[%d]' % (path, i))
    elif isinstance(want, tuple) and want[0] == 'ch':
        if o.getName() != want[1]: raise Bad('%s is %s, sent %s' % (path, o.getName(), want[1]))
        read(o.getComponent(), want[2], path + '/' + want[1])
    elif isinstance(want, tuple):
        if (int(o), o.prettyPrint()) != want[1:]: raise Bad('%s is %d (%s), sent %d (%s)' % ((path, int(o), o.prettyPrint()) + want[1:]))
    elif isinstance(want, bool):
        if bool(o) is not want: raise Bad('%s is %r, sent %r' % (path, o, want))
    elif isinstance(want, bytes):
        if o.asOctets() != want: raise Bad('%s is %r, sent %r' % (path, o.asOctets(), want))
    elif want is not None:
        if int(o) != want: raise Bad('%s is %r, sent %r' % (path, int(o), want))


def put(o, key, want, byname):
    setter = o.setComponentByPosition if isinstance(key, int) else o.setComponentByName
    if isinstance(want, (dict, list)) or isinstance(want, tuple) and want[0] == 'ch':
        fill(o.getComponentByPosition(key) if isinstance(key, int) else o.getComponentByName(key), want, byname)
    elif isinstance(want, tuple): setter(key, want[2] if byname else want[1])
    else: setter(key, '' if want is None else want)


def fill(o, want, byname):
    if isinstance(want, dict):
        for n in want: put(o, n, want[n], byname)
    elif isinstance(want, list):
        o.clear()
        for i, x in enumerate(want): put(o, i, x, byname)
    else: put(o, want[1], want[2], byname)


def empties(want):
    """an OPTIONAL list without elements: pyasn1 leaves it out"""
    if isinstance(want, dict): return any((n in ('referral', 'controls') and v == []) or empties(v) for n, v in want.items())
    if isinstance(want, list): return any(empties(x) for x in want)
    if isinstance(want, tuple) and want[0] == 'ch': return empties(want[2])
    return False


def check(m, long, byname):
    p = message(m)
    b, plain = p.write(long), p.write(0, b'\1')        # the BER encoder writes TRUE as 01
    spec = repo.spec('rfc2251', 'LDAPMessage')
    try:
        w, rest = ber_dec.decode(b + b'\x30\x00', asn1Spec=spec)
        if rest != b'\x30\x00': raise Bad('%d octets left, 2 followed' % len(rest))
        read(w, p.reading)
    except (Bad, Exception) as e: return 'decode', 'decoding %s: %s' % (hexs(b), short(e))
    if not empties(p.reading):
        try: again = ber_enc.encode(w)
        except Exception as e: return 'reencode', 're-encoding %s: %s' % (hexs(b), short(e))
        if again != plain: return 'reencode', '%s re-encodes as %s' % (hexs(b), hexs(again))
        o = repo.new('rfc2251', 'LDAPMessage')
        try:
            fill(o, p.reading, byname)
            got = ber_enc.encode(o)
        except Exception as e: return 'build', 'building %r: %s' % (m, short(e))
        if got != plain: return 'build', '%r encodes as %s, published %s' % (m, hexs(got), hexs(plain))


# ------------------------------------------------------------------ generation
T = st.one_of(st.sampled_from([b'', b'cn', b'dc=example,dc=com', b'objectClass', 'cn=Jürgen'.encode(), b'1.3.6.1.4.1.1466.20037', b'x' * 127, b'x' * 128, b'\0', b'\xff\xfe']), st.binary(max_size=30))
ATTR = st.tuples(T, st.lists(T, max_size=4))
AVA = st.tuples(T, T)
N = st.one_of(st.sampled_from([0, 1, 127, 128, 255, 256, 65535, 2 ** 31 - 1]), st.integers(0, 2 ** 31 - 1))


def opt(s): return st.one_of(st.none(), s)


def filters(depth):
    leaf = st.one_of(st.tuples(st.sampled_from(['equalityMatch', 'greaterOrEqual', 'lessOrEqual', 'approxMatch']), AVA),
                     st.tuples(st.just('substrings'), st.tuples(T, st.lists(st.tuples(st.sampled_from(['initial', 'any', 'final']), T), min_size=1, max_size=4))),
                     st.tuples(st.just('present'), T),
                     st.tuples(st.just('extensibleMatch'), st.tuples(opt(T), opt(T), T, st.booleans())))
    if depth == 1: return leaf
    sub = filters(depth - 1)
    return st.one_of(leaf, st.tuples(st.sampled_from(['and', 'or']), st.lists(sub, min_size=1, max_size=3)), st.tuples(st.just('not'), sub))


RESULT = {'code': st.sampled_from(sorted(CODES)), 'dn': T, 'text': T, 'referral': opt(st.lists(T, min_size=1, max_size=3))}
ARGS = {'bindRequest': {'version': st.integers(1, 127), 'name': T, 'auth': st.one_of(st.tuples(st.sampled_from(['simple', 'reserved-1', 'reserved-2']), T), st.tuples(st.just('sasl'), st.tuples(T, opt(T))))},
        'bindResponse': dict(RESULT, creds=opt(T)), 'unbindRequest': {},
        'searchRequest': {'base': T, 'scope': st.integers(0, 2), 'deref': st.integers(0, 3), 'size': N, 'time': N, 'types': st.booleans(), 'filter': filters(3), 'attrs': st.lists(T, max_size=4)},
        'searchResEntry': {'name': T, 'attrs': st.lists(ATTR, max_size=4)}, 'searchResRef': {'urls': st.lists(T, max_size=3)},
        'modifyRequest': {'name': T, 'mods': st.lists(st.tuples(st.integers(0, 2), ATTR), max_size=3)}, 'addRequest': {'name': T, 'attrs': st.lists(ATTR, max_size=3)},
        'delRequest': {'name': T}, 'modDNRequest': {'name': T, 'rdn': T, 'delete': st.booleans(), 'superior': opt(T)}, 'compareRequest': {'name': T, 'ava': AVA},
        'abandonRequest': {'id': N}, 'extendedReq': {'oid': T, 'value': opt(T)}, 'extendedResp': dict(RESULT, oid=opt(T), value=opt(T))}
for _o in OPS: ARGS.setdefault(_o, RESULT)
CONTROLS = opt(st.lists(st.tuples(T, st.booleans(), opt(T)), min_size=1, max_size=3))


def messages(op): return st.fixed_dictionaries({'id': N, 'op': st.just(op), 'args': st.fixed_dictionaries(ARGS[op]), 'controls': CONTROLS})


def plain(op):
    r = {'code': 0, 'dn': b'', 'text': b'', 'referral': None}
    return {'bindRequest': {'version': 3, 'name': b'', 'auth': ('simple', b'')}, 'bindResponse': dict(r, creds=None), 'unbindRequest': {},
            'searchRequest': {'base': b'', 'scope': 0, 'deref': 0, 'size': 0, 'time': 0, 'types': False, 'filter': ('present', b'objectClass'), 'attrs': []},
            'searchResEntry': {'name': b'', 'attrs': []}, 'searchResRef': {'urls': [b'ldap://x']}, 'modifyRequest': {'name': b'', 'mods': []}, 'addRequest': {'name': b'', 'attrs': []},
            'delRequest': {'name': b'x'}, 'modDNRequest': {'name': b'', 'rdn': b'', 'delete': False, 'superior': None}, 'compareRequest': {'name': b'', 'ava': (b'a', b'b')},
            'abandonRequest': {'id': 0}, 'extendedReq': {'oid': b'1.2', 'value': None}, 'extendedResp': dict(r, oid=None, value=None)}.get(op, r)


def directed():
    m = lambda op, i=1, controls=None, **kw: {'id': i, 'op': op, 'args': dict(plain(op), **kw), 'controls': controls}
    for op in sorted(OPS):
        yield op, m(op)
        yield op, m(op, 2 ** 31 - 1, [(b'1.2.3', True, b'v'), (b'1.2.4', False, None), (b'1.2.5', False, b'')])
        if 'code' in ARGS[op]:
            for c in sorted(CODES): yield 'result code', m(op, code=c)
            yield 'referral', m(op, code=10, referral=[b'ldap://a', b'ldap://b'], dn=b'd', text=b't')
    for v in (1, 2, 3, 127): yield 'bind version', m('bindRequest', version=v)
    for a in (('simple', b'pw'), ('reserved-1', b'x'), ('reserved-2', b'y'), ('sasl', (b'PLAIN', None)), ('sasl', (b'GSSAPI', b'')), ('sasl', (b'X', b'cred'))): yield 'bind authentication', m('bindRequest', auth=a)
    yield 'sasl credentials', m('bindResponse', creds=b'c')
    yield 'sasl credentials', m('bindResponse', creds=b'', referral=[b'u'])
    for s in range(3): yield 'scope', m('searchRequest', scope=s)
    for s in range(4): yield 'deref', m('searchRequest', deref=s)
    for s in (0, 1, 2 ** 31 - 1): yield 'limits', m('searchRequest', size=s, time=2 ** 31 - 1 - s, types=bool(s))
    leaf = [('equalityMatch', (b'a', b'b')), ('greaterOrEqual', (b'a', b'b')), ('lessOrEqual', (b'a', b'b')), ('approxMatch', (b'a', b'b')), ('present', b'a'), ('present', b''),
            ('substrings', (b'a', [('initial', b'i'), ('any', b'x'), ('any', b'y'), ('final', b'f')])), ('substrings', (b'a', [('final', b'')])),
            ('extensibleMatch', (b'r', b't', b'v', True)), ('extensibleMatch', (None, None, b'v', False)), ('extensibleMatch', (b'r', None, b'', False)), ('extensibleMatch', (None, b't', b'v', True))]
    for f in leaf:
        yield 'filter', m('searchRequest', filter=f)
        for w in ('and', 'or'):
            yield 'filter 2', m('searchRequest', filter=(w, [f, leaf[0]]))
            yield 'filter 3', m('searchRequest', filter=(w, [('not', f), ('or', [f, f]), ('and', [leaf[4], f])]))
        yield 'filter 2', m('searchRequest', filter=('not', f))
        yield 'filter 3', m('searchRequest', filter=('not', ('not', f)))
        yield 'filter 3', m('searchRequest', filter=('not', ('or', [f])))
    at = [(b'cn', [b'a', b'b', b'a']), (b'', []), (b'z', [b'b', b'a'])]
    yield 'attributes', m('searchRequest', attrs=[b'*', b'+', b'cn;lang-de'])
    yield 'attributes', m('searchResEntry', name=b'n', attrs=at)
    yield 'attributes', m('addRequest', name=b'n', attrs=at)
    yield 'modifications', m('modifyRequest', name=b'n', mods=[(i, at[i]) for i in range(3)])
    yield 'superior', m('modDNRequest', superior=b's', delete=True)
    yield 'superior', m('modDNRequest', superior=b'')
    for v in (b'', b'v'):
        yield 'extended', m('extendedReq', value=v)
        yield 'extended', m('extendedResp', value=v)
        yield 'extended', m('extendedResp', oid=b'1.2.3', value=v, referral=[b'u'])
    yield 'extended', m('extendedResp', oid=b'1.2.3')
    for i in (0, 1, 127, 128, 2 ** 31 - 1):
        yield 'abandon', {'id': i, 'op': 'abandonRequest', 'args': {'id': 2 ** 31 - 1 - i}, 'controls': None}
        yield 'messageID', m('unbindRequest', i)


def outside():
    """(what, octets) outside the published definition"""
    m = lambda op, i=1, controls=None, **kw: {'id': i, 'op': op, 'args': dict(plain(op), **kw), 'controls': controls}
    w = lambda lab, x: (lab, message(x).write())
    for i in (-1, 2 ** 31, 2 ** 40):
        yield w('messageID %d' % i, m('unbindRequest', i))
        yield w('abandon %d' % i, {'id': 1, 'op': 'abandonRequest', 'args': {'id': i}, 'controls': None})
        yield w('sizeLimit %d' % i, m('searchRequest', size=i))
        yield w('timeLimit %d' % i, m('searchRequest', time=i))
    for v in (0, -1, 128, 1000): yield w('bind version %d' % v, m('bindRequest', version=v))
    for tg in range(32):
        for form in (0x40, 0x60):
            if form | tg in OPS.values() or tg in (10, 31): continue
            for body in (b'', b'\x04\x00', b'\x0a\x01\x00\x04\x00\x04\x00'):
                yield 'operation %02x' % (form | tg), tl(0x30, b'\x02\x01\x01' + tl(form | tg, body, 0), 0)
    # four levels of filter are beyond the module; an unknown filter is beyond the protocol
    for tg in (0xaa, 0x8a, 0x83, 0xa7, 0xbe): yield 'filter %02x' % tg, message(m('searchRequest')).write().replace(b'\x87\x0b', bytes([tg, 11]))
    for tg in (0x84, 0x04, 0xa4): yield 'authentication %02x' % tg, message(m('bindRequest')).write()[:-2] + bytes([tg, 0])
    # parts missing: cut each element out of the operation
    for op in sorted(OPS):
        p = message(m(op))
        o = p.body[1]
        if isinstance(o.body, bytes) or op == 'searchResRef': continue
        for i in range(len(o.body)):
            q = P(o.ident, o.body[:i] + o.body[i + 1:], None)
            yield '%s without part %d' % (op, i), P(0x30, [p.body[0], q], None).write()
        yield '%s with one part more' % op, P(0x30, [p.body[0], P(o.ident, list(o.body) + [P(0x9d, b'', None)], None)], None).write()
        yield '%s without messageID' % op, P(0x30, [o], None).write()
    yield 'no operation', tl(0x30, b'\x02\x01\x01', 0)
    yield 'two operations', tl(0x30, b'\x02\x01\x01\x42\x00\x42\x00', 0)
    for c in (b'\x04\x00', b'\x30\x00', b'\x30\x03\x01\x01\xff', b'\x30\x05\x01\x01\xff\x04\x00'): yield 'control %s' % c.hex(), tl(0x30, b'\x02\x01\x01\x42\x00' + tl(0xa0, c, 0), 0)
    yield 'controls tag', tl(0x30, b'\x02\x01\x01\x42\x00\xa1\x00', 0)


def refused(b):
    try: w, rest = ber_dec.decode(b, asn1Spec=repo.spec('rfc2251', 'LDAPMessage'))
    except PyAsn1Error: return None
    except Exception as e: return 'decoding %s: %s' % (hexs(b), short(e))
    return '%s is accepted: %s' % (hexs(b), w.prettyPrint()[:300])


def shards(tier, seed):
    n = 1500 if tier == 'quick' else 4000
    return [('directed', i) for i in range(4)] + [('outside', 0)] + [('generated', op, i, n * (4 if op == 'searchRequest' else 1)) for op in sorted(OPS) for i in range(3 if op == 'searchRequest' else 1)]


def run(item, ctx):
    if item[0] == 'outside':
        for lab, b in outside():
            ctx.case(b, True, 'refusal', '%s: %s' % (lab, hexs(b)))
            m = refused(b)
            if m: ctx.fail(lab, m, {'octets': b.hex()})
        return
    if item[0] == 'directed':
        for i, (lab, m) in enumerate(directed()):
            if i % 4 != item[1]: continue
            for long in (0, 2, 4):
                ctx.case('%d %r' % (long, m), m['op'] != 'unbindRequest', 'directed ' + m['op'], '%s: %s' % (lab, hexs(message(m).write(long))))
                for byname in (False, True):
                    r = check(m, long, byname)
                    if r: ctx.fail('%s %s %s' % (m['op'], lab, r[0]), r[1], {'message': repr(m), 'long': long, 'byname': byname})
        return
    _, op, i, n = item

    def fn(x):
        m, long, byname = x
        ctx.case('%d %r' % (long, m), op != 'unbindRequest', 'generated ' + op)
        r = check(m, long, byname)
        if r: raise Violation(r[1], group=r[0])
    got = framework.hypo(st.tuples(messages(op), st.sampled_from((0, 0, 1, 2, 4)), st.booleans()), fn, seeded(ctx.seed, 'ldap', op, i), n)
    if got:
        (m, long, byname), e = got
        ctx.fail('%s %s' % (op, e.group), str(e), {'message': repr(m), 'long': long, 'byname': byname})


def replay(c):
    import ast
    if 'octets' in c: return refused(bytes.fromhex(c['octets']))
    r = check(ast.literal_eval(c['message']), c['long'], c['byname'])
    return r and r[1]
