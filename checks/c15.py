"""The dump tools print and re-serialise every valid input and refuse what is not."""
import base64, re, random
from checks.common import *
from checks import tools, c10
from hypothesis import strategies as st

PROPERTY = 'C15'
RULE = ('a case is one run of one dump tool on one text: up to four values of the structure it is for (generated from the published '
        'definition) in PEM blocks or base64, with other text and other blocks around them, any line width, CRLF, octets following the '
        'value inside its block. The tool must print the values in input order and nothing else but its count, report the right count '
        'and exit with 0. Or one of the values is malformed or not DER: then it must print the ones before and exit with an error, without '
        'reporting success. Non-trivial: at least one block.')
ASSUMPTIONS = ['standard input is UTF-8 text', 'what is printed for one value is the prettyPrint() of the value decoded with the module\'s type (C18 decides what that says)',
               'most runs execute the tool\'s file inside the checking process; a sample runs as a process of its own']

# tool: [(marker, module, type)]
BLOCKS = {'x509dump.py': [('CERTIFICATE', 'rfc2459', 'Certificate')], 'x509dump-rfc5280.py': [('CERTIFICATE', 'rfc5280', 'Certificate')],
          'crldump.py': [('X509 CRL', 'rfc2459', 'CertificateList')], 'pkcs10dump.py': [('CERTIFICATE REQUEST', 'rfc2314', 'CertificationRequest')],
          'pkcs1dump.py': [('RSA PRIVATE KEY', 'rfc2437', 'RSAPrivateKey'), ('DSA PRIVATE KEY', 'rfc2459', 'DSAPrivateKey')],
          'pkcs8dump.py': [('PRIVATE KEY', 'rfc5208', 'PrivateKeyInfo'), ('ENCRYPTED PRIVATE KEY', 'rfc5208', 'EncryptedPrivateKeyInfo')]}
WHOLE = {'crmfdump.py': ('rfc2511', 'CertReqMessages'), 'cmpdump.py': ('rfc4210', 'PKIMessage'), 'ocspreqdump.py': ('rfc2560', 'OCSPRequest'), 'ocsprspdump.py': ('rfc2560', 'OCSPResponse')}
PKCS7 = {1: 'Data', 2: 'SignedData', 3: 'EnvelopedData', 4: 'SignedAndEnvelopedData', 5: 'DigestedData', 6: 'EncryptedData'}
PKIDATA, SIGNED, PKCS7OID = (1, 3, 6, 1, 5, 5, 7, 12, 2), (1, 2, 840, 113549, 1, 7, 2), (1, 2, 840, 113549, 1, 7)
RUBBISH = ['subject=/CN=some one', '', 'Bag Attributes', '    localKeyID: 01 02', '-----BEGIN OTHER-----', '-----END OTHER-----', 'MIIB', '# Übung', '-----END CERTIFICATE REQUEST----', '----', '=']


def renders(key, b):
    """what the tool prints for one value: the codec may fill in absent components of a value it encodes, and a tool may print before or after"""
    w, rest = der_dec.decode(b, asn1Spec=repo.spec(*key))
    one = w.prettyPrint() + '\n'
    der_enc.encode(w)
    return {one, w.prettyPrint() + '\n'}


def consume(out, wants):
    """(how many characters of out are the wanted values, how many of the values are there)"""
    at = {0}
    for i, alts in enumerate(wants):
        nxt = {a + len(x) for a in at for x in alts if out.startswith(x, a)}
        if not nxt: return max(at), i
        at = nxt
    return max(at), len(wants)


def printed(tool, out, wants):
    """None if out is the wanted values and nothing else"""
    a, i = consume(out, wants)
    if i < len(wants): return '%s prints %r, value %d is %r' % (tool, clip(out[a:], min(wants[i])), i, clip(min(wants[i]), out[a:]))
    if a != len(out): return '%s prints %r after the last value' % (tool, out[a:a + 200])


def clean(t, v):
    """does the codec write v as DER does"""
    return not neardefault(t, v) and M.encode_alt(t, v) == M.encode(t, v)


def armor(marker, octets, width, eol, rubbish):
    s = base64.b64encode(octets).decode()
    lines = [s[i:i + width] for i in range(0, len(s), width)]
    return eol.join(rubbish + ['-----BEGIN %s-----' % marker] + lines + ['-----END %s-----' % marker]) + eol


def text_of(blocks, layout):
    """blocks: [(marker, octets)]"""
    width, eol, rub = layout
    out = ''
    for i, (m, b) in enumerate(blocks): out += armor(m, b, width, eol, [RUBBISH[x % len(RUBBISH)] for x in rub[i::len(blocks)]])
    if rub: out += RUBBISH[rub[0] % len(RUBBISH)] + eol
    return out


def defective(key, b):
    """does the published definition, or DER, refuse these octets for certain"""
    t = M.entries[key].type
    try: v = M.decode(t, b, check=False)
    except asn1ref.Reject as e: return e.kind != 'content' and not M.lax_accepts(t, b)
    try: M.decode(t, b)
    except asn1ref.Reject: return True
    return M.encode(t, v) != b and M.encode_alt(t, v) != b and not neardefault(t, v)


def count(out):
    m = re.findall(r'^\*\*\* (\d+) .*$', out, re.M)
    return [int(x) for x in m]


def blockcase(tool, items, layout, bad=None, run=tools.inprocess, wrap=()):
    """items: [(which, octets, tail)]; bad: index of the defective one or None"""
    kinds = BLOCKS[tool]
    blocks = [(kinds[w][0], b + t) for w, b, t in items]
    text = text_of(blocks, layout)
    rc, out, why = run(tool, text)
    if bad is None:
        want = [renders(kinds[w][1:], b) for w, b, t in items]
        if rc != 0: return '%s exits with %s on %d valid block(s): %s' % (tool, rc, len(items), why)
        got = re.sub(r'^\*\*\* [^\n]*\n*\Z', '', out, flags=re.M)
        m = printed(tool, got, want)
        if m: return m
        if count(out) != [len(items)]: return '%s reports %r for %d block(s)' % (tool, out[len(got):], len(items))
        return None
    want = [renders(kinds[w][1:], b) for w, b, t in items[:bad]]
    if rc == 0 or count(out): return '%s accepts defective block %d: %s: exit status %s, %s' % (tool, bad, hexs(items[bad][1]), rc, out[-60:])
    if rc == 'hang': return '%s: %s' % (tool, why)
    a, i = consume(out, want)
    if i < len(want): return '%s prints %r before the defective block, value %d is %r' % (tool, clip(out[a:], min(want[i])), i, clip(min(want[i]), out[a:]))
    return None


def clip(a, b):
    """a from where it differs from b"""
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]: i += 1
    return a[max(0, i - 40):i + 120]


def wholecase(tool, b, width, bad, run=tools.inprocess):
    key = WHOLE[tool]
    s = base64.b64encode(b).decode()
    rc, out, why = run(tool, '\n'.join(s[i:i + width] for i in range(0, len(s), width)) + '\n')
    return single(tool, key, b, bad, rc, out, why)


def single(tool, key, b, bad, rc, out, why):
    if rc == 'hang': return '%s: %s' % (tool, why)
    if bad: return '%s accepts defective %s' % (tool, hexs(b)) if rc == 0 else None
    if rc: return '%s exits with %s on valid %s: %s' % (tool, rc, hexs(b), why)
    return printed(tool, out, [renders(key, b)])


def pkcs7case(n, b, layout, bad=None, run=tools.inprocess):
    """b: content of PKCS#7 type n"""
    tool, t = 'pkcs7dump.py', M.entries['rfc2315', 'ContentInfo'].type
    outer = asn1ref.tlv((0, 16), True, asn1ref.oid_tlv(PKCS7OID + (n,)) + asn1ref.tlv((2, 0), True, b))
    if bad == 'outer': outer = outer[:-1]
    text = text_of([('PKCS7', outer)], layout) if bad != 'none' else '\n'.join(RUBBISH)
    rc, out, why = run(tool, text)
    if bad: return '%s exits with %s on defective %s' % (tool, rc, hexs(outer)) if rc in (0, 'hang') else None
    if rc: return '%s exits with %s on valid %s: %s' % (tool, rc, hexs(outer), why)
    return printed(tool, out, [renders(('rfc2315', 'ContentInfo'), outer), renders(('rfc2315', PKCS7[n]), b)])


def cmccase(sd, pki, width, depth, bad=None, run=tools.inprocess, chain=''):
    """SignedData octets built around PKIData octets; chain: further layers from the inside out, 's' signed, 'c' wrapped"""
    tool = 'cmcdump.py'
    t = M.entries['rfc5652', 'SignedData'].type
    signed = lambda oid, x: M.encode(t, dict(sd, encapContentInfo={'eContentType': oid, 'eContent': x}))
    ci = lambda oid, x: asn1ref.tlv((0, 16), True, asn1ref.oid_tlv(oid) + asn1ref.tlv((2, 0), True, x))
    content, oid = pki, PKIDATA
    layers = [('rfc6402', 'PKIData', pki)]
    for i, c in enumerate('s' + chain + 'c' * (depth + 1)):       # ContentInfo within ContentInfo
        if bad == 'long %d' % i: content = longform(content)
        if c == 's':
            content, oid = signed(oid, content), SIGNED
            layers.insert(0, ('rfc5652', 'SignedData', content))
        else:
            if bad == 'type' and oid == SIGNED: oid = (1, 2, 840, 113549, 1, 7, 5)
            content, oid = ci(oid, content), (1, 2, 840, 113549, 1, 9, 16, 1, 6)
            layers.insert(0, ('rfc5652', 'ContentInfo', content))
    outer = content
    if bad == 'trailing': outer += b'\x05\x00'
    s = base64.b64encode(outer).decode()
    rc, out, why = run(tool, '\n'.join(s[i:i + width] for i in range(0, len(s), width)) + '\n', limit=20)
    if bad: return '%s ends with %s on %s: %s' % (tool, rc, hexs(outer), why) if rc in (0, 'hang') else None
    if rc: return '%s exits with %s on valid %s: %s' % (tool, rc, hexs(outer), why)
    got = re.sub(r'^ \* New layer \(\w+\):\n', '', out, flags=re.M)
    return printed(tool, got, [renders((m, n), b) for m, n, b in layers])


def longform(b):
    """the same element with a length that is not minimal: BER, not DER"""
    tg, cons, body, rest = asn1ref.readtlv(b)
    return b[:1] + b'\x84' + len(body).to_bytes(4, 'big') + body


# ------------------------------------------------------------------ generation
LAYOUT = st.tuples(st.sampled_from([64, 76, 60, 4, 1000000, 48]), st.sampled_from(['\n', '\n', '\r\n']), st.lists(st.integers(0, 100), max_size=6))
TAIL = st.sampled_from([b'', b'', b'', b'\x05\x00', b'\x30\x00', b'\x00\x00', b'\x01'])


def values(key):
    t = M.entries[key].type
    return G.strategy(t).filter(lambda v: clean(t, v))


def mutants(key, rnd, b):
    """defective octets near b"""
    for _ in range(20):
        x = b
        if rnd.random() < .6:
            try: tr = tree(x)
            except asn1ref.Reject: continue
            _o, tr = c10.structural(rnd, tr)
            x = untree(tr)
        elif rnd.random() < .5: x = c10.octetwise(rnd, x)[1]
        else:           # a length that is not minimal: BER, not DER
            x = longform(x)
        if not x: continue
        try: tg, cons, body, rest = asn1ref.readtlv(x)      # the tools let octets follow
        except asn1ref.Reject: rest = b''
        if not rest and defective(key, x): return x
    return None


def shards(tier, seed):
    n = 150 if tier == 'quick' else 1500
    out = []
    for tool in sorted(BLOCKS): out += [('blocks', tool, i, n) for i in range(3)]
    for tool in sorted(WHOLE): out.append(('whole', tool, 0, n * 2))
    out += [('pkcs7', k, 0, n) for k in PKCS7] + [('cmc', None, i, n) for i in range(2)] + [('directed', k, 0, 0) for k in DIRECTED] + [('process', k, 0, 2 if tier == 'quick' else 20) for k in range(17)]
    return out


DIRECTED = sorted(BLOCKS) + sorted(WHOLE) + ['pkcs7', 'cmc', 'usage']
PROCESS = [('blocks', t) for t in sorted(BLOCKS)] + [('whole', t) for t in sorted(WHOLE)] + [('pkcs7', k) for k in PKCS7] + [('cmc', None)]


def strategy(what, tool):
    if what == 'blocks':
        kinds = BLOCKS[tool]
        one = st.one_of([st.tuples(st.just(w), values(k[1:]).map(lambda v, k=k: M.encode(M.entries[k[1:]].type, v)), TAIL) for w, k in enumerate(kinds)])
        return st.tuples(st.lists(one, min_size=1, max_size=4), LAYOUT, st.integers(0, 3), st.integers(0, 2 ** 30))
    if what == 'whole':
        t = M.entries[WHOLE[tool]].type
        return st.tuples(values(WHOLE[tool]).map(lambda v: M.encode(t, v)), st.sampled_from([64, 76, 1000000]), st.integers(0, 2), st.integers(0, 2 ** 30))
    if what == 'pkcs7':
        t = M.entries['rfc2315', PKCS7[tool]].type
        return st.tuples(values(('rfc2315', PKCS7[tool])).map(lambda v: M.encode(t, v)), LAYOUT)
    t = M.entries['rfc6402', 'PKIData'].type
    return st.tuples(values(('rfc5652', 'SignedData')), values(('rfc6402', 'PKIData')).map(lambda v: M.encode(t, v)), st.sampled_from([64, 1000000]), st.integers(0, 1), st.text('sc', max_size=3))


def try_one(what, tool, x, run=tools.inprocess):
    """(message or None, case description)"""
    if what == 'blocks':
        items, layout, bad, salt = x
        b = None
        if bad == 0:
            rnd = random.Random(salt)
            i = rnd.randrange(len(items))
            m = mutants(BLOCKS[tool][items[i][0]][1:], rnd, items[i][1])
            if m is not None:
                items = items[:i] + [(items[i][0], m, b'')] + items[i + 1:]
                b = i
        return blockcase(tool, items, layout, b, run), {'kind': 'blocks', 'tool': tool, 'items': [[w, o.hex(), t.hex()] for w, o, t in items], 'layout': [layout[0], layout[1], list(layout[2])], 'bad': b}
    if what == 'whole':
        o, width, bad, salt = x
        b = False
        if bad == 0:
            m = mutants(WHOLE[tool], random.Random(salt), o)
            if m is not None: o, b = m, True
        return wholecase(tool, o, width, b, run), {'kind': 'whole', 'tool': tool, 'octets': o.hex(), 'width': width, 'bad': b}
    if what == 'pkcs7':
        o, layout = x
        return pkcs7case(tool, o, layout, None, run), {'kind': 'pkcs7', 'n': tool, 'octets': o.hex(), 'layout': [layout[0], layout[1], list(layout[2])], 'bad': None}
    sd, pki, width, depth, chain = x
    return cmccase(sd, pki, width, depth, None, run, chain), {'chain': chain, 'kind': 'cmc', 'sd': tojson(sd), 'pki': pki.hex(), 'width': width, 'depth': depth, 'bad': None}


def again(c, run=tools.inprocess):
    lay = lambda l: (l[0], l[1], l[2])
    if c['kind'] == 'blocks': return blockcase(c['tool'], [(w, bytes.fromhex(o), bytes.fromhex(t)) for w, o, t in c['items']], lay(c['layout']), c['bad'], run)
    if c['kind'] == 'whole': return wholecase(c['tool'], bytes.fromhex(c['octets']), c['width'], c['bad'], run)
    if c['kind'] == 'pkcs7': return pkcs7case(c['n'], bytes.fromhex(c['octets']), lay(c['layout']), c['bad'], run)
    if c['kind'] == 'cmc': return cmccase(fromjson(c['sd']), bytes.fromhex(c['pki']), c['width'], c['depth'], c['bad'], run, c.get('chain', ''))
    return usage(c['tool'], c['text'])


def usage(tool, text):
    """an argument the tool does not know, or no input"""
    if text is None:
        rc, out, why = tools.inprocess(tool, '', ['unexpected', 'arguments'])
        return None if rc not in (0, 'hang') and '*** ' not in out else '%s called with arguments ends with %s: %s' % (tool, rc, out[:200])
    rc, out, why = tools.inprocess(tool, text)
    if tool == 'pkcs7dump.py': return None if rc not in (0, 'hang') else '%s without a block ends with %s' % (tool, rc)
    if rc: return '%s without a block ends with %s: %s' % (tool, rc, why)
    if tool in BLOCKS and count(out) != [0]: return '%s without a block reports %r' % (tool, out)
    if tool in WHOLE and out.strip(): return '%s without input prints %r' % (tool, out)


def directed():
    """blocks with minimal and maximal values; empty input; usage"""
    for tool in sorted(BLOCKS):
        for w, (mk, m, n) in enumerate(BLOCKS[tool]):
            t = M.entries[m, n].type
            vs = [v for v in [G.minimal(t), G.maximal(t)] + [v for _, v in G.brief(t)] if M.valid(t, v) and clean(t, v)]
            es = [M.encode(t, v) for v in vs]
            for b in es: yield {'kind': 'blocks', 'tool': tool, 'items': [[w, b.hex(), '']], 'layout': [64, '\n', []], 'bad': None}
            yield {'kind': 'blocks', 'tool': tool, 'items': [[w, b.hex(), ''] for b in es[:12]], 'layout': [64, '\n', [0, 1, 4, 5]], 'bad': None}
            yield {'kind': 'blocks', 'tool': tool, 'items': [[w, b.hex(), '0500'] for b in es[:3]], 'layout': [64, '\n', []], 'bad': None}
            # one block again and again, many blocks, long ones
            lay = [64, '\n', []]
            go = lambda bs, bad=None: {'kind': 'blocks', 'tool': tool, 'items': [[w, b.hex(), ''] for b in bs], 'layout': lay, 'bad': bad}
            last = es[-1]
            yield go([es[0]] * 2)
            yield go([es[0], last, es[0]])
            yield go([es[0], last, last, last, es[0], es[0]])
            yield go((es * 40)[:40])
            yield go([es[i % 2 * -1] for i in range(300)])
            for i in (9, 17, 29): yield go([(es * 30)[j] if j != i else longform(es[0]) for j in range(30)], i)
            for lab, v in G.large(t):
                if not clean(t, v): continue
                b = M.encode(t, v)
                yield go([b])
                yield go([es[0], b, es[0]])
                yield go([es[0], longform(b), es[0]], 1)
            for b in es[:2]:
                for x in (b[:-1], longform(b), b'\x05\x00', b'\x30\x00', b'\x04' + b[1:]):
                    for i in range(3):
                        it = [[w, b.hex(), '']] * 3
                        it[i] = [w, x.hex(), '']
                        yield {'kind': 'blocks', 'tool': tool, 'items': it, 'layout': [64, '\n', []], 'bad': i}
    for tool in sorted(WHOLE):
        key = WHOLE[tool]
        t = M.entries[key].type
        for v in [G.minimal(t), G.maximal(t)] + [v for _, v in G.brief(t)]:
            if not M.valid(t, v) or not clean(t, v): continue
            b = M.encode(t, v)
            yield {'kind': 'whole', 'tool': tool, 'octets': b.hex(), 'width': 64, 'bad': False}
        for lab, v in G.large(t):
            if not clean(t, v): continue
            x = M.encode(t, v)
            yield {'kind': 'whole', 'tool': tool, 'octets': x.hex(), 'width': 64, 'bad': False}
            yield {'kind': 'whole', 'tool': tool, 'octets': longform(x).hex(), 'width': 64, 'bad': True}
        for x in (b[:-1], b + b'\x05\x00', b'\x05\x00', b'\x04' + b[1:]): yield {'kind': 'whole', 'tool': tool, 'octets': x.hex(), 'width': 64, 'bad': True}
    for n in PKCS7:
        t = M.entries['rfc2315', PKCS7[n]].type
        for v in [G.minimal(t), G.maximal(t)] + [v for _, v in G.brief(t)]:
            if not M.valid(t, v) or not clean(t, v): continue
            b = M.encode(t, v)
            yield {'kind': 'pkcs7', 'n': n, 'octets': b.hex(), 'layout': [64, '\n', [0, 1]], 'bad': None}
        for lab, v in G.large(t):
            if clean(t, v): yield {'kind': 'pkcs7', 'n': n, 'octets': M.encode(t, v).hex(), 'layout': [64, '\n', []], 'bad': None}
        for bad in ('outer', 'none'): yield {'kind': 'pkcs7', 'n': n, 'octets': b.hex(), 'layout': [64, '\n', []], 'bad': bad}
        yield {'kind': 'pkcs7', 'n': n, 'octets': '0500', 'layout': [64, '\n', []], 'bad': 'content'}
    t, u = M.entries['rfc5652', 'SignedData'].type, M.entries['rfc6402', 'PKIData'].type
    for sd in (G.minimal(t), G.maximal(t)):
        for v in (G.minimal(u), G.maximal(u)):
            for d in (0, 1, 2): yield {'kind': 'cmc', 'sd': tojson(sd), 'pki': M.encode(u, v).hex(), 'width': 64, 'depth': d, 'bad': None}
    sd, v = G.minimal(t), M.encode(u, G.minimal(u)).hex()
    for chain in ('s', 'cs', 'ccs', 'sss', 'scs', 'cscs', 's' * 9 + 'c' * 9):
        for d in (0, 7): yield {'kind': 'cmc', 'sd': tojson(sd), 'pki': v, 'width': 64, 'depth': d, 'chain': chain, 'bad': None}
        for i in range(len(chain) + 2): yield {'kind': 'cmc', 'sd': tojson(sd), 'pki': v, 'width': 64, 'depth': 0, 'chain': chain, 'bad': 'long %d' % i}
    for lab, x in G.large(u):
        if clean(u, x): yield {'kind': 'cmc', 'sd': tojson(sd), 'pki': M.encode(u, x).hex(), 'width': 64, 'depth': 0, 'bad': None}
    v = G.maximal(u)
    for bad in ('trailing', 'type'): yield {'kind': 'cmc', 'sd': tojson(sd), 'pki': M.encode(u, v).hex(), 'width': 64, 'depth': 0, 'bad': bad}
    yield {'kind': 'cmc', 'sd': tojson(sd), 'pki': '0500', 'width': 64, 'depth': 0, 'bad': 'content'}
    for tool in sorted(BLOCKS) + sorted(WHOLE) + ['pkcs7dump.py', 'cmcdump.py']: yield {'kind': 'usage', 'tool': tool, 'text': None}
    for tool in sorted(BLOCKS) + ['pkcs7dump.py']:
        yield {'kind': 'usage', 'tool': tool, 'text': ''}
        yield {'kind': 'usage', 'tool': tool, 'text': '\n'.join(RUBBISH) + '\n'}
    for tool in sorted(WHOLE): yield {'kind': 'usage', 'tool': tool, 'text': ''}


def run(item, ctx):
    what, tool, i, n = item
    if what == 'directed':
        for c in directed():
            if tool != (c['kind'] if c['kind'] in DIRECTED else c['tool']): continue
            ctx.case(repr(sorted(c.items())), True, 'directed ' + c.get('tool', c['kind']), str(c)[:300])
            m = again(c)
            if m: ctx.fail('%s directed' % c.get('tool', c['kind']), m, c)
        return
    if what == 'process':
        w, t = PROCESS[tool]

        def own(x):
            m, c = try_one(w, t, x, tools.subprocessed)
            ctx.case('process' + repr(sorted(c.items())), True, 'own process')
            if m: raise Violation(m, case=c)
        got = framework.hypo(strategy(w, t), own, seeded(ctx.seed, 'process', w, t), n)
        if got: ctx.fail('%s process' % (t or w), str(got[1]), got[1].case)
        return

    def fn(x):
        m, c = try_one(what, tool, x)
        ctx.case(repr(sorted(c.items())), True, '%s %s%s' % (what, tool or '', ' defective' if c['bad'] not in (None, False) else ''))
        if m: raise Violation(m, case=c)
    got = framework.hypo(strategy(what, tool), fn, seeded(ctx.seed, what, tool, i), n)
    if got: ctx.fail('%s %s' % (what, tool or ''), str(got[1]), got[1].case)


def replay(c):
    return again(c)
