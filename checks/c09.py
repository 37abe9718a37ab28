"""PEM reading returns exactly the marked block."""
from checks.common import *
from hypothesis import strategies as st
import base64, io, re, ssl, tempfile, shutil, random

PROPERTY = 'C09'
RULE = ('a case is one text stream (blocks of asked and unasked kinds, text around them, near-markers, stray end markers, an unfinished last block; '
        'any line width, line ending and surrounding white space) read by a history of calls, each with its own marker pairs, to the end and beyond; '
        'every call is compared with a reference reader, also when the caller reads lines himself in between, when several streams are read in turns, '
        'and for long blocks, long lines and many of them. Or octets as plain base64 text, through a string or a file. Or the system\'s '
        'certificate bundle, compared with the ssl module. Non-trivial: at least one block is returned.')
ASSUMPTIONS = ['marker pairs of one call have distinct start markers and distinct end markers',
               'inside a block there are only base64 lines, blank lines, white space and end markers of other kinds; whether the letters of such a marker count as base64 is left open']
KINDS = ['CERTIFICATE', 'X509 CERTIFICATE', 'CERTIFICATE REQUEST', 'X509 CRL', 'PRIVATE KEY', 'RSA PRIVATE KEY', 'DSA PRIVATE KEY', 'EC PRIVATE KEY',
         'ENCRYPTED PRIVATE KEY', 'PUBLIC KEY', 'PKCS7', 'CMS', 'ATTRIBUTE CERTIFICATE', 'TRUSTED CERTIFICATE']


def begin(k): return '-----BEGIN %s-----' % k
def end(k): return '-----END %s-----' % k
def pair(k): return (begin(k), end(k))


ODD = [('{{', '}}'), ('start', 'stop'), ('BEGIN', 'END'), ('%A', '%Z'), ('-----BEGIN CERTIFICATE-----', 'quit')]


# -------------------------------------------------------------- reference
class Reader(object):
    """reads blocks from text by its lines"""
    def __init__(self, text):
        self.lines = [x.strip() for x in re.split('\r\n|\n|\r', text)]
        self.at = 0

    def next(self, pairs):
        starts = [a for a, b in pairs]
        while self.at < len(self.lines):
            line = self.lines[self.at]
            self.at += 1
            if line in starts:
                i = starts.index(line)
                if pairs[i][1] not in self.lines[self.at:]:
                    self.at = len(self.lines)
                    return None
                e = self.lines.index(pairs[i][1], self.at)
                body = ''.join(re.findall('[A-Za-z0-9+/=]', ''.join(self.lines[self.at:e])))
                self.at = e + 1
                return i, base64.b64decode(body)
        return None


# -------------------------------------------------------------- generator
payload = st.one_of(st.binary(max_size=12), st.binary(min_size=40, max_size=200), st.integers(0, 3).map(lambda n: bytes(range(256)) * n))
pads = st.sampled_from(['', '', '', ' ', '\t', '  ', ' \t '])


@st.composite
def block(draw, pr):
    a, b = pr
    body = base64.b64encode(draw(payload)).decode()
    w = draw(st.sampled_from([64, 64, 76, 60, 4, 1, 7, 63, 65, 70, 200, 10 ** 6]))
    lines = [body[i:i + w] for i in range(0, len(body), w)]
    if draw(st.booleans()):
        out = []
        for x in lines:
            if draw(st.integers(0, 3)) == 0: out.append(draw(pads))
            if len(x) > 2 and draw(st.integers(0, 5)) == 0: x = x[:2] + ' ' + x[2:]
            out.append(draw(pads) + x + draw(pads))
        lines = out
        if draw(st.booleans()): lines.append('')
    return [draw(pads) + a + draw(pads)] + lines + [draw(pads) + b + draw(pads)]


def noise(pairs):
    """lines that are not start markers"""
    a, b = pairs[0]
    near = [a + 'x', 'x' + a, a[:-1], a[1:], a.lower() if a.lower() != a else a.upper(), a + ' ' + a, a.replace('-----', '----') + '.', '# ' + a,
            a.replace('BEGIN', 'BEGlN') + '!', '"%s"' % a]
    ends = [q for p, q in pairs]
    return st.one_of(st.sampled_from(near + ends), st.sampled_from(['', ' ', 'subject=/CN=x', 'Bag Attributes', '    friendlyName: a', '----', 'AAAA', '=====', 'QUJD']),
                     st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=30), st.text(st.characters(exclude_characters='\r\n', exclude_categories=['Cs', 'Cc', 'Zl', 'Zp']), max_size=12))


@st.composite
def documents(draw):
    std = [pair(k) for k in KINDS]
    odd = draw(st.lists(st.sampled_from(ODD), max_size=2, unique=True))
    pool = draw(st.lists(st.sampled_from(std), min_size=1, max_size=4, unique=True)) + odd
    pool = draw(st.permutations(distinct(pool)))
    nz = noise(pool)
    lines = []
    for _ in range(draw(st.integers(0, 7))):
        if draw(st.integers(0, 2)): lines += draw(block(draw(st.sampled_from(pool))))
        else: lines += draw(st.lists(nz, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        lines += draw(block(draw(st.sampled_from(pool))))[:-1]       # unfinished
    nl = draw(st.sampled_from(['\n', '\n', '\r\n', '\r']))
    text = nl.join(lines) + (nl if draw(st.booleans()) else '')
    calls = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.integers(0, 9))
        if k < 2: calls.append('old')
        elif k == 2: calls.append('line')
        else:
            sub = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=len(pool), unique=True))
            calls.append([list(x) for x in sub])
    via = draw(st.sampled_from(['io', 'io', 'io', 'file']))
    return [text, calls, via]


def distinct(pairs):
    out, seen = [], set()
    for a, b in pairs:
        if a in seen or b in seen: continue
        seen |= {a, b}
        out.append((a, b))
    return out


def wellformed(text, calls):
    """inside every block a call would read there is only base64 (otherwise the case is out of scope)"""
    r = Reader(text)
    for c in calls:
        if c == 'line':
            r.at += r.at < len(r.lines)
            continue
        pairs = [pair('CERTIFICATE')] if c == 'old' else [tuple(x) for x in c]
        while r.at < len(r.lines) and r.lines[r.at] not in [a for a, b in pairs]: r.at += 1
        if r.at >= len(r.lines): return True
        stop = dict(pairs)[r.lines[r.at]]
        i = r.at + 1
        while i < len(r.lines) and r.lines[i] != stop:
            if not re.fullmatch(r'[A-Za-z0-9+/= \t]*', r.lines[i]): return False
            i += 1
        body = re.sub(r'[ \t]', '', ''.join(r.lines[r.at + 1:i]))
        if i < len(r.lines) and (len(body) % 4 or not re.fullmatch('[A-Za-z0-9+/]*={0,2}', body)): return False
        r.at = i + 1
    return True


class Scratch(object):
    """a file in a scratch folder"""
    def __init__(self): self.dir, self.n = tempfile.mkdtemp(prefix='c09.'), 0
    def open(self, text):
        self.n = (self.n + 1) % 9
        p = os.path.join(self.dir, '%d.pem' % self.n)
        if os.path.exists(p): os.unlink(p)
        with open(p, 'wb') as f: f.write(text.encode('utf-8'))
        return open(p, encoding='utf-8')
    def close(self): shutil.rmtree(self.dir)


class Reading(object):
    """one stream, read call by call beside the reference"""
    def __init__(self, text, f):
        self.text, self.f, self.ref, self.n, self.returned = text, f, Reader(text), 0, 0

    def call(self, c):
        """one call; message or None"""
        pem, f, ref, n = repo_pem(), self.f, self.ref, self.n
        self.n += 1
        if c == 'line':          # the caller reads a line himself
            want = ref.lines[ref.at] if ref.at < len(ref.lines) else ''
            ref.at = min(ref.at + 1, len(ref.lines))
            got = f.readline()
            if got.strip() != want: return 'call %d: the next line is %r, should be %r' % (n, got, want)
            return None
        pairs = [pair('CERTIFICATE')] if c == 'old' else [tuple(x) for x in c]
        want = ref.next(pairs)
        if c == 'old':
            got = pem.readPemFromFile(f)
            ok = got == want[1] and isinstance(got, bytes) if want and want[1] else not got
        else:
            got = pem.readPemBlocksFromFile(f, *pairs)
            ok = (tuple(got) == want and isinstance(got[1], bytes)) if want else not got[1]
        if want is not None: self.returned += 1
        if not ok: return 'call %d (%r): got %s, the next block is %s' % (n, c, cut(got), cut(want))
        if want is None and ref.at >= len(ref.lines) and c != 'old' and unfinished(self.text, pairs) is False and got[0] != -1:
            return 'call %d (%r): no block left but index %r' % (n, c, got[0])


def cut(x):
    x = repr(x)
    return x if len(x) < 400 else '%s... (%d characters)' % (x[:300], len(x))


def opened(text, via, scratch):
    if via == 'file' and scratch: return scratch.open(text)
    return io.StringIO(text, newline=None)


def check_doc(doc, scratch):
    text, calls, via = doc
    f = opened(text, via, scratch)
    r = Reading(text, f)
    try:
        for c in calls + [calls[-1], calls[-1]]:
            m = r.call(c)
            if m: return m, r.returned
    except Exception as e: return 'call %d: %s' % (r.n - 1, short(e)), r.returned
    finally: f.close()
    return None, r.returned


def check_two(docs, order, scratch):
    """several streams read in turns"""
    rs = [Reading(text, opened(text, via, scratch)) for text, _, via in docs]
    calls = [list(c) + [c[-1]] for _, c, _ in docs]
    try:
        for i in list(order) + [k for k in range(len(docs)) for _ in calls[k]]:
            i %= len(docs)
            if not calls[i]: continue
            try: m = rs[i].call(calls[i].pop(0))
            except Exception as e: m = 'call %d: %s' % (rs[i].n - 1, short(e))
            if m: return 'stream %d of %d read in turns, %s' % (i, len(docs), m), sum(r.returned for r in rs)
    finally:
        for r in rs: r.f.close()
    return None, sum(r.returned for r in rs)


def large():
    """name -> (text, calls): long blocks, long lines, many blocks, much noise"""
    c = [list(pair('CERTIFICATE')), list(pair('PRIVATE KEY'))]
    b64 = lambda n, w: [x for y in [base64.b64encode(bytes(i * 7 + i // 256 & 255 for i in range(n))).decode()] for x in (y[k:k + w] for k in range(0, len(y), w))]
    blk = lambda k, n, w: [begin(k)] + b64(n, w) + [end(k)]
    out = {}
    for n in (3000, 9000, 48000, 70000, 200000, 1500000):
        for w in (64, 76, 4096, 10 ** 9) + ((4,) if n < 100000 else ()):
            out['block of %d octets, lines of %d' % (n, w)] = blk('PRIVATE KEY', n, w) + blk('CERTIFICATE', 5, 64), [c, c]
    for n in (20, 100, 260, 1100): out['%d blocks' % n] = [x for i in range(n) for x in blk('CERTIFICATE' if i % 3 else 'PRIVATE KEY', i % 50 + 1, 64)], [c] * (n + 1)
    for n in (50, 1000, 70000):
        out['%d lines before a block' % n] = ['noise %d' % i for i in range(n)] + blk('CERTIFICATE', 30, 64), [c]
        out['%d empty lines in and before a block' % n] = [''] * n + [begin('CERTIFICATE')] + [''] * n + b64(30, 64) + [''] * n + [end('CERTIFICATE')] + blk('PRIVATE KEY', 3, 64), [c, c]
        out['%d blocks of another kind' % n] = [x for i in range(min(n, 3000)) for x in blk('CMS', 3, 64)] + blk('CERTIFICATE', 30, 64), [c]
    for n in (63, 64, 72, 76, 80, 100, 127, 128, 200, 255, 256, 500, 511, 512, 998, 1000, 1023, 1024, 2048, 4095, 4096, 8191, 8192, 16384, 32768, 65535, 65536, 131072):
        for d in (-1, 0, 1) if n > 200 else (0,):
            out['text of %d characters before a start marker' % (n + d)] = ['x' * (n + d) + begin('CERTIFICATE'), 'AAAA', end('CERTIFICATE')] + blk('PRIVATE KEY', 3, 64), [c]
            out['text of %d characters after a start marker' % (n + d)] = [begin('CERTIFICATE') + ' ' * (n + d) + 'x', 'AAAA', end('CERTIFICATE')] + blk('PRIVATE KEY', 3, 64), [c]
            out['%d spaces before a start marker' % (n + d)] = [' ' * (n + d) + begin('CERTIFICATE'), ' ' * (n + d) + 'AAAA', ' ' * (n + d) + end('CERTIFICATE')] + blk('PRIVATE KEY', 3, 64), [c, c]
            out['%d spaces after a start marker' % (n + d)] = [begin('CERTIFICATE') + ' ' * (n + d), 'AAAA' + ' ' * (n + d), end('CERTIFICATE') + ' ' * (n + d)] + blk('PRIVATE KEY', 3, 64), [c, c]
    return {k: ('\n'.join(lines) + '\n', calls) for k, (lines, calls) in out.items()}


@st.composite
def crossed(draw):
    """blocks that have end markers of other kinds among their lines"""
    pool = distinct(draw(st.permutations(draw(st.lists(st.sampled_from([pair(k) for k in KINDS]), min_size=1, max_size=3, unique=True)) + draw(st.lists(st.sampled_from(ODD[:4]), min_size=1, max_size=3, unique=True)))))
    blocks = []
    for _ in range(draw(st.integers(1, 4))):
        a, b = draw(st.sampled_from(pool))
        body = base64.b64encode(draw(st.binary(max_size=120))).decode()
        w = draw(st.sampled_from([4, 8, 64, 76]))
        lines = [body[i:i + w] for i in range(0, len(body), w)]
        others = [y for x, y in pool if y != b]
        for _ in range(draw(st.integers(0, 2)) if others else 0): lines.insert(draw(st.integers(0, len(lines))), draw(st.sampled_from(others)))
        blocks.append([a, lines, b])
    return [[list(x) for x in pool], blocks]


def taken(lines, strange):
    """octets of base64 lines; None: they are not base64.  strange: the letters of marker lines count as well"""
    s = ''.join(''.join(re.findall('[A-Za-z0-9+/=]', x)) for x in lines if strange or re.fullmatch('[A-Za-z0-9+/=]*', x))
    try: return base64.b64decode(s)
    except ValueError: return None


def check_crossed(c):
    pool, blocks = c
    pem = repo_pem()
    pairs = [tuple(x) for x in pool]
    f = io.StringIO('\n'.join(x for a, lines, b in blocks for x in [a] + lines + [b]) + '\n')
    for n, (a, lines, b) in enumerate(blocks):
        i = pairs.index((a, b))
        foreign = [x for x in lines if x in [q for p, q in pairs]]
        want = [taken([x for x in lines if x not in foreign], False), taken(lines, True)]
        try: got = tuple(pem.readPemBlocksFromFile(f, *pairs))
        except ValueError:
            if want[1] is None: continue
            return 'block %d (%r): base64 error' % (n, [a] + lines + [b])
        if got[0] != i or got[1] not in want: return 'block %d (%r) is read as %r' % (n, [a] + lines + [b], got)
    if pem.readPemBlocksFromFile(f, *pairs)[1]: return 'something after the last block'


def unfinished(text, pairs):
    """may reading to the end of text stop inside a block"""
    return any(a in [x.strip() for x in re.split('\r\n|\n|\r', text)] for a, b in pairs)


def repo_pem():
    return repo.module('pem')


def check_base64(data, width, nl, pad, via, scratch):
    pem = repo_pem()
    body = base64.b64encode(data).decode()
    text = pad + nl.join(body[i:i + width] for i in range(0, len(body), width)) + nl + pad
    try:
        if via == 'text': got = pem.readBase64fromText(text)
        elif via == 'io': got = pem.readBase64FromFile(io.StringIO(text))
        else:
            with scratch.open(text) as f: got = pem.readBase64FromFile(f)
    except Exception as e: return '%s of %d octets, width %d: %s' % (via, len(data), width, short(e))
    if got != data or not isinstance(got, bytes): return '%s of %s, width %d: read as %r' % (via, hexs(data), width, got)


def bundle(ctx_case=None):
    p = '/etc/ssl/certs/ca-certificates.crt'
    if not os.path.exists(p): return None
    pem = repo_pem()
    text = open(p).read()
    want = [ssl.PEM_cert_to_DER_cert(x) for x in re.findall('-----BEGIN CERTIFICATE-----.*?-----END CERTIFICATE-----', text, re.S)]
    with open(p) as f:
        for i, w in enumerate(want):
            got = pem.readPemFromFile(f) if i % 2 else pem.readPemBlocksFromFile(f, pair('X509 CRL'), pair('CERTIFICATE'))
            if ctx_case: ctx_case(i)
            if got != (w if i % 2 else (1, w)): return 'certificate %d of the system bundle differs from what the ssl module reads' % i
        if pem.readPemFromFile(f): return 'something after the last certificate'


def shards(tier, seed):
    n = 16 if tier == 'quick' else 64
    return [('doc', i) for i in range(n)] + [('b64', i) for i in range(n // 2)] + [('cross', i) for i in range(n // 4)] + [('two', i) for i in range(n // 2)] + [('bundle',)] + [('large', i) for i in range(8)]


def run(item, ctx):
    if item[0] == 'bundle':
        m = bundle(lambda i: ctx.case('bundle %d' % i, True, 'system bundle'))
        if m: ctx.fail('system bundle', m, {'kind': 'bundle'})
        return
    scratch = Scratch()
    try:
        k = 700 if ctx.tier == 'quick' else 4000
        if item[0] == 'large':
            for name, (text, calls) in sorted(large().items())[item[1]::8]:
                for via in ('io', 'file'):
                    ctx.case(name + via, True, 'large', '%s, %s' % (name, via))
                    m, n = check_doc((text, calls, via), scratch)
                    if m: ctx.fail('large ' + re.sub('[0-9]+', 'n', name), '%s: %s' % (name, m), {'kind': 'large', 'name': name, 'via': via})
            for n in (5000, 65537, 300001, 1000003):
                for w in (64, 76, 10 ** 9):
                    for via in ('text', 'io', 'file'):
                        data = bytes(i * 11 + i // 256 & 255 for i in range(n)) if (n + w) % 8 == item[1] else None
                        if data is None: continue
                        ctx.case('base64 %d %d %s' % (n, w, via), True, 'large')
                        m = check_base64(data, w, '\n', '', via, scratch)
                        if m: ctx.fail('large base64', m[:400], {'kind': 'b64', 'args': [tojson(y) for y in (data, w, '\n', '', via)]})
        elif item[0] == 'two':
            def fn(x):
                docs, order = x
                for d in docs:
                    if not wellformed(d[0], d[1] + [d[1][-1]] * 2): return
                m, n = check_two(docs, order, scratch)
                ctx.case(repr(x), n > 0, 'streams read in turns', repr(x)[:300])
                if m: raise Violation(m)
            got = framework.hypo(st.tuples(st.lists(documents(), min_size=2, max_size=3), st.lists(st.integers(0, 5), max_size=14)), fn, seeded(ctx.seed, 'c09two', item[1]), k // 2)
            if got: ctx.fail('streams in turns', str(got[1]), {'kind': 'two', 'docs': got[0][0], 'order': got[0][1]})
        elif item[0] == 'doc':
            def fn(doc):
                if not wellformed(doc[0], doc[1] + [doc[1][-1]] * 2): return
                m, n = check_doc(doc, scratch)
                ctx.case(repr(doc), n > 0, 'stream, %s' % ('no block' if n == 0 else 'one block' if n == 1 else 'several blocks'), repr(doc)[:300])
                if m: raise Violation(m)
            got = framework.hypo(documents(), fn, seeded(ctx.seed, 'c09', item[1]), k)
            if got: ctx.fail('PEM stream', str(got[1]), {'kind': 'doc', 'doc': got[0]})
        elif item[0] == 'cross':
            def fn(c):
                ctx.case(repr(c), any(x in [q for p, q in c[0]] for b in c[1] for x in b[1]), 'end markers of other kinds inside', repr(c)[:300])
                m = check_crossed(c)
                if m: raise Violation(m)
            got = framework.hypo(crossed(), fn, seeded(ctx.seed, 'c09x', item[1]), k)
            if got: ctx.fail('other end markers', str(got[1]), {'kind': 'cross', 'doc': got[0]})
        else:
            s = st.tuples(st.one_of(st.binary(max_size=300), st.binary(min_size=1000, max_size=3000)), st.integers(1, 100),
                          st.sampled_from(['\n', '\r\n', ' \n ', '\n\n']), st.sampled_from(['', '\n', '  ']), st.sampled_from(['text', 'text', 'io', 'file']))

            def fn(x):
                ctx.case(repr(x), len(x[0]) > 0, 'plain base64, ' + x[4])
                m = check_base64(*(x + (scratch,)))
                if m: raise Violation(m)
            got = framework.hypo(s, fn, seeded(ctx.seed, 'b64', item[1]), k // 2)
            if got: ctx.fail('base64', str(got[1]), {'kind': 'b64', 'args': [tojson(y) for y in got[0]]})
    finally: scratch.close()


def replay(c):
    if c['kind'] == 'bundle': return bundle()
    scratch = Scratch()
    try:
        if c['kind'] == 'large':
            text, calls = large()[c['name']]
            return check_doc((text, calls, c['via']), scratch)[0]
        if c['kind'] == 'two': return check_two(c['docs'], c['order'], scratch)[0]
        if c['kind'] == 'cross': return check_crossed(c['doc'])
        if c['kind'] == 'doc': return check_doc(c['doc'], scratch)[0]
        return check_base64(*([fromjson(y) for y in c['args']] + [scratch]))
    finally: scratch.close()
