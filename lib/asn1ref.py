"""Independent reference model: an ASN.1 notation parser, a type model and a
DER encoder / strict decoder written from X.680/X.690.  Nothing here imports
pyasn1 or pyasn1_modules.

The reference text lives in /verif/ref/*.asn1.

Reference values
  BOOLEAN bool | INTEGER, ENUMERATED int | BIT STRING str of '0'/'1' |
  OCTET STRING bytes | character strings and times str | NULL None |
  OBJECT IDENTIFIER tuple of int | SEQUENCE, SET dict (absent key = absent) |
  CHOICE (name, value) | SEQUENCE OF, SET OF list | ANY bytes (one DER TLV)
"""
import os, re

REFDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ref')
INF = float('inf')

UNIV = {'BOOLEAN': 1, 'INTEGER': 2, 'BIT STRING': 3, 'OCTET STRING': 4, 'NULL': 5,
        'OBJECT IDENTIFIER': 6, 'ObjectDescriptor': 7, 'REAL': 9, 'ENUMERATED': 10,
        'UTF8String': 12, 'SEQUENCE': 16, 'SEQUENCE OF': 16, 'SET': 17, 'SET OF': 17,
        'NumericString': 18, 'PrintableString': 19, 'TeletexString': 20, 'T61String': 20,
        'VideotexString': 21, 'IA5String': 22, 'UTCTime': 23, 'GeneralizedTime': 24,
        'GraphicString': 25, 'VisibleString': 26, 'ISO646String': 26, 'GeneralString': 27,
        'UniversalString': 28, 'BMPString': 30}
CHARSET = {'UTF8String': 'utf-8', 'BMPString': 'utf-16-be', 'UniversalString': 'utf-32-be',
           'TeletexString': 'iso-8859-1', 'T61String': 'iso-8859-1', 'VideotexString': 'iso-8859-1',
           'GraphicString': 'iso-8859-1', 'GeneralString': 'iso-8859-1', 'ObjectDescriptor': 'iso-8859-1',
           'NumericString': 'ascii', 'PrintableString': 'ascii', 'IA5String': 'ascii',
           'VisibleString': 'ascii', 'ISO646String': 'ascii', 'UTCTime': 'ascii', 'GeneralizedTime': 'ascii'}
CHARKINDS = set(CHARSET) - {'UTCTime', 'GeneralizedTime'}
TIMES = {'UTCTime', 'GeneralizedTime'}
STRINGS = CHARKINDS | TIMES | {'OCTET STRING', 'BIT STRING'}        # BER also knows these in pieces
CONSTRUCTED = {'SEQUENCE', 'SET', 'SEQUENCE OF', 'SET OF'}
CLASSNO = {'UNIVERSAL': 0, 'APPLICATION': 1, '': 2, 'CONTEXT': 2, 'PRIVATE': 3}


class RefError(Exception):
    """the reference text itself is wrong (harness error)"""


class Reject(Exception):
    """the reference decoder rejects these bytes"""
    def __init__(self, why, kind='structure'):
        Exception.__init__(self, why)
        self.kind = kind


# ---------------------------------------------------------------- notation
TOK = re.compile(r"""\s+|--[^\n]*|(?P<hex>'[0-9A-F]*'H)|(?P<bin>'[01]*'B)|(?P<pystr>FROM\s+'(?:\\.|[^'\\])*')
 |(?P<der><DER\s[0-9a-f]*>)|(?P<str>"[^"]*")|(?P<oid>\{\d+(?:\.\d+)+\})|(?P<assign>::=)|(?P<dots>\.\.)
 |(?P<num>-?\d+)|(?P<word>[A-Za-z_][A-Za-z0-9_\-]*(?:\.[A-Za-z_][A-Za-z0-9_\-]*)?)|(?P<punct>[{}()\[\],|^])""", re.X)


def tokenize(s):
    pos, out = 0, []
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise RefError('cannot tokenize %r' % s[pos:pos + 40])
        pos = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


class Type(object):
    __slots__ = ('mod', 'tags', 'kind', 'ref', 'named', 'cons', 'fields', 'elem', 'name', '_eff')

    def __init__(self, mod):
        self.mod, self.tags, self.kind, self.ref = mod, [], None, None
        self.named, self.cons, self.fields, self.elem, self.name = None, [], None, None, None
        self._eff = None


class Field(object):
    __slots__ = ('name', 'type', 'opt', 'default', 'gov', 'map', 'rawdefault')


class Eff(object):
    """effective (resolved) type"""
    __slots__ = ('kind', 'tags', 'named', 'cons', 'fields', 'elem', 'mod', 'name', 'byname', 'ident', 'prim')

    @property
    def field(self):
        return self.byname


class Parser(object):
    def __init__(self, mod, toks):
        self.mod, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        x = self.next()
        if x[1] != s:
            raise RefError('%s: expected %r, got %r near %r' % (self.mod, s, x, self.t[max(0, self.i - 8):self.i + 4]))

    def type(self):
        t = Type(self.mod)
        while self.accept('['):
            w = self.next()
            cls = ''
            if w[0] == 'word':
                cls, w = w[1], self.next()
            num = int(w[1])
            self.expect(']')
            mode = self.next()[1]
            if mode not in ('IMPLICIT', 'EXPLICIT', 'PRIMITIVE'):
                raise RefError('%s: tag mode %r' % (self.mod, mode))
            t.tags.append((CLASSNO[cls], num, mode))
        k = self.next()[1]
        if k in ('SEQUENCE', 'SET'):
            cons = self.constraints()
            if self.accept('OF'):
                t.kind, t.cons = k + ' OF', cons
                t.elem = self.type()
                return t
            t.kind, t.cons = k, cons
            t.fields = self.fields()
            return t
        if k == 'CHOICE':
            t.kind = k
            t.cons = self.constraints()
            t.fields = self.fields()
            return t
        if k in ('OCTET', 'BIT', 'OBJECT'):
            k += ' ' + self.next()[1]
        if k in UNIV or k == 'ANY':
            t.kind = k
            if k in ('INTEGER', 'ENUMERATED', 'BIT STRING') and self.accept('{'):
                t.named = {}
                while not self.accept('}'):
                    n = self.next()[1]
                    self.expect('(')
                    t.named[n] = int(self.next()[1])
                    self.expect(')')
                    self.accept(',')
        else:
            t.ref = tuple(k.split('.')) if '.' in k else (self.mod, k)
        t.cons = self.constraints()
        return t

    def fields(self):
        out = []
        self.expect('{')
        while not self.accept('}'):
            f = Field()
            f.name = '' if self.peek()[1] == '""' else self.peek()[1]
            self.next()
            f.type, f.opt, f.default, f.gov, f.map, f.rawdefault = self.type(), False, None, None, None, None
            if self.accept('DEFINED'):
                self.expect('BY')
                f.gov = self.next()[1]
                self.expect('IN')
                m = self.next()[1]
                f.map = m if '.' in m else self.mod + '.' + m
            if self.accept('OPTIONAL'):
                f.opt = True
            elif self.accept('DEFAULT'):
                f.rawdefault = self.next()
                f.opt = True
            self.accept(',')
            out.append(f)
        return out

    def constraints(self):
        out = []
        while self.peek()[1] == '(':
            out.append(self.constraint())
        return out

    def constraint(self):
        self.expect('(')
        alts = [self.conatom()]
        while self.accept('|'):
            alts.append(self.conatom())
        self.expect(')')
        return alts[0] if len(alts) == 1 else ('or', alts)

    def bound(self):
        g, w = self.next()
        if w == 'MAX': return INF
        if w == 'MIN': return -INF
        if g != 'num': raise RefError('bound %r' % w)
        return int(w)

    def conatom(self):
        g, w = self.peek()
        if w == 'SIZE':
            self.next()
            self.expect('(')
            lo = hi = self.bound()
            if self.accept('..'): hi = self.bound()
            self.expect(')')
            return ('size', lo, hi)
        if g == 'pystr':
            self.next()
            import ast
            return ('from', frozenset(ast.literal_eval(w[4:].strip())))
        if w == 'WITH':
            self.next()
            self.expect('COMPONENTS')
            self.expect('{')
            d = {}
            while not self.accept('}'):
                n = self.next()[1]
                d[n] = self.next()[1] == 'PRESENT'
                self.accept(',')
            return ('with', d)
        if g in ('num',) or w in ('MIN', 'MAX'):
            lo = self.bound()
            if self.accept('..'):
                return ('range', lo, self.bound())
            return ('value', lo)
        return ('value', literal(self.next()))


def literal(tok):
    g, w = tok
    if g == 'num': return int(w)
    if g == 'str': return w[1:-1]
    if g == 'hex': return bytes.fromhex(w[1:-2])
    if g == 'bin': return w[1:-2]
    if g == 'oid': return tuple(int(x) for x in w[1:-1].split('.'))
    if w == 'TRUE': return True
    if w == 'FALSE': return False
    if w == 'NULL': return None
    if g == 'der': return ('DER', bytes.fromhex(w[5:-1].strip()))
    raise RefError('literal %r' % (tok,))


class Entry(object):
    __slots__ = ('mod', 'name', 'what', 'type', 'value')


class Model(object):
    def __init__(self, refdir=REFDIR):
        self.entries = {}     # (mod, name) -> Entry
        self.types = {}       # (mod, name) -> Type
        self.mods = []
        self.regs = []        # (module, map, oid tuple / int, Type)
        self.rawregs = []
        for fn in sorted(os.listdir(refdir)):
            if fn.endswith('.asn1'):
                self.load(fn[:-5], open(os.path.join(refdir, fn)).read())
        p = os.path.join(refdir, 'registrations.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.split('#', 1)[0].strip()
                if not line: continue
                m, rest = line.split(' : ', 1)
                mp, rest = rest.split(' += ', 1)
                key, tx = rest.split(' => ', 1)
                ps = Parser(m.strip(), tokenize(tx))
                self.regs.append((m.strip(), mp.strip(), tuple(int(x) for x in key.split('.')), ps.type()))
        for (m, n), t in list(self.types.items()):
            t.name = m + '.' + n
        for e in self.entries.values():
            if e.what == 'TYPE': self.eff(e.type)

    def load(self, mod, text):
        self.mods.append(mod)
        # an assignment starts in column 0
        chunks, cur = [], []
        for line in text.split('\n'):
            if line.startswith('--'): continue
            if line and not line[0].isspace() and line[0] not in '}':
                if cur: chunks.append('\n'.join(cur))
                cur = [line]
            elif line.strip():
                cur.append(line)
        if cur: chunks.append('\n'.join(cur))
        for c in chunks:
            m = re.match(r'([A-Za-z_][\w\-]*)(?:\s+(OID|INT|VALUE|SCHEMA|TEMPLATE)(?:\s+([^\n]+?))?)?\s+::=\s*(.*)$', c, re.S)
            if not m:
                raise RefError('%s: %r' % (mod, c[:80]))
            e = Entry()
            e.mod, e.name, e.what, e.value, e.type = mod, m.group(1), m.group(2) or 'TYPE', None, None
            body = m.group(4)
            if e.what == 'OID': e.value = tuple(int(x) for x in body.strip().split('.'))
            elif e.what == 'INT': e.value = int(body)
            elif e.what == 'VALUE':
                e.type = Parser(mod, tokenize(m.group(3))).type()
                e.value = bytes.fromhex(body.strip())
            elif e.what == 'TEMPLATE':
                e.type = Parser(mod, tokenize(m.group(3))).type()
                e.value = {}
                inner = body.strip()[1:-1].strip()
                if inner:
                    for part in inner.split(','):
                        k, v = part.split('=')
                        e.value[k.strip()] = bytes.fromhex(v.strip())
            else:
                p = Parser(mod, tokenize(body))
                e.type = p.type()
                if p.i != len(p.t):
                    raise RefError('%s.%s: trailing %r' % (mod, e.name, p.t[p.i:p.i + 5]))
                if e.what == 'TYPE': self.types[mod, e.name] = e.type
            if (mod, e.name) in self.entries: raise RefError('duplicate %s.%s' % (mod, e.name))
            self.entries[mod, e.name] = e

    def eff(self, t):
        if t._eff is not None: return t._eff
        r = Eff()
        t._eff = r
        if t.ref is not None:
            if t.ref not in self.types: raise RefError('%s: unresolved %s' % (t.mod, '.'.join(t.ref)))
            b = self.types[t.ref]
            be = self.eff(b)
            if not hasattr(be, 'kind'): raise RefError('circular alias %s' % (t.ref,))
            r.prim = be.prim
            r.kind, r.named, r.fields, r.elem, r.byname = be.kind, be.named, be.fields, be.elem, be.byname
            tags, cons = list(be.tags), list(be.cons)
            r.mod, r.name = be.mod, be.name
        else:
            # PRIMITIVE marks a tagged ANY whose tag the tree writes without the
            # constructed bit (a known finding pinned by the project's own tests)
            r.prim = False
            r.kind, r.named, r.fields, r.elem, r.byname = t.kind, t.named, t.fields, t.elem, None
            tags = [] if t.kind in ('CHOICE', 'ANY') else [(0, UNIV[t.kind])]
            cons = []
            r.mod, r.name = t.mod, t.name
        for cls, num, mode in reversed(t.tags):
            if mode == 'PRIMITIVE': r.prim = True
            if mode == 'EXPLICIT' or not tags: tags = [(cls, num)] + tags
            else: tags = [(cls, num)] + tags[1:]
        r.tags, r.cons = tags, cons + list(t.cons)
        r.ident = t
        if t.ref is None and t.fields is not None:
            r.byname = {f.name: f for f in t.fields}
            for f in t.fields:
                fe = self.eff(f.type)
                if f.rawdefault is not None:
                    v = literal(f.rawdefault)
                    if isinstance(v, tuple) and v and v[0] == 'DER':
                        v = ('DERV', v[1])
                    f.default = (v,)
        elif t.ref is None and t.elem is not None:
            self.eff(t.elem)
        return r

    def default(self, f):
        """reference value of a DEFAULT field's default, or None if there is none"""
        if f.default is None: return None
        v = f.default[0]
        if isinstance(v, tuple) and v and v[0] == 'DERV':
            v = self.decode(f.type, v[1])
            f.default = (v,)
        return (v,)

    # ------------------------------------------------------------ encoder
    def encode(self, t, v, ine=False):
        r = t if isinstance(t, Eff) else self.eff(t)
        k = r.kind
        if k == 'ANY': body, cons = v, True
        elif k == 'CHOICE': body, cons = self.encode(r.byname[v[0]].type, v[1], ine), True
        else: body, cons = self.content(r, v, ine), k in CONSTRUCTED
        if ine and cons and not body and r.tags: return b''     # see encode_alt
        tags = r.tags
        if k not in ('ANY', 'CHOICE'):
            body = tlv(tags[-1], cons, body)
            tags = tags[:-1]
        for tg in reversed(tags): body = tlv(tg, not r.prim, body)
        return body

    def content(self, r, v, ine=False):
        k = r.kind
        if k == 'BOOLEAN': return b'\xff' if v else b'\x00'
        if k in ('INTEGER', 'ENUMERATED'): return intbytes(v, self.quirk)
        if k == 'NULL': return b''
        if k == 'OCTET STRING': return v
        if k == 'BIT STRING':
            pad = -len(v) % 8
            s = v + '0' * pad
            return bytes([pad]) + bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))
        if k == 'OBJECT IDENTIFIER': return oidbytes(v)
        if k in CHARSET: return v.encode(CHARSET[k])
        if k == 'SEQUENCE OF': return b''.join(self.encode(r.elem, x, ine) for x in v)
        if k == 'SET OF':
            parts = [self.encode(r.elem, x, ine) for x in v]
            n = max([len(p) for p in parts] or [0])
            return b''.join(sorted(parts, key=lambda p: p.ljust(n, b'\0')))
        if k in ('SEQUENCE', 'SET'):
            parts = []
            for f in r.fields:
                if f.name in v:
                    d = self.default(f)
                    if d is not None and not self.keepdefaults and self.same(f.type, d[0], v[f.name]): continue
                    parts.append(self.encode(f.type, v[f.name], self.quirk and f.opt and f.default is None))
                elif not f.opt:
                    raise RefError('missing %s' % f.name)
            if k == 'SET': parts.sort(key=lambda e: tagkey(e) if e else (0, 0))
            return b''.join(parts)
        raise RefError('kind %s' % k)

    # pyasn1 0.5.1 (a dependency, not the code under test) departs from DER in
    # two places when it *encodes*: an OPTIONAL component whose content would be
    # empty (a list with no elements, a SEQUENCE with no component) is left out, and -2**(8k-1) gets a redundant leading octet.  encode_alt is the
    # reference encoding with those two departures.
    quirk = False
    keepdefaults = False     # write components even when they have their default value

    def encode_alt(self, t, v):
        self.quirk = True
        try: return self.encode(t, v)
        finally: self.quirk = False

    def encode_keeping(self, t, v):
        self.keepdefaults = True
        try: return self.encode(t, v)
        finally: self.keepdefaults = False

    def same(self, t, a, b):
        return self.encode(t, a) == self.encode(t, b)

    # ------------------------------------------------------------ decoder
    def decode(self, t, data, check=True):
        v, rest = self.dec(self.eff(t), data, check)
        if rest: raise Reject('trailing data')
        return v

    # pyasn1 0.5.1 takes any element where a tagged ANY is due; lax decoding does the same
    lax = False

    def lax_accepts(self, t, data):
        self.lax = True
        try: self.decode(t, data, False)
        except Reject as e: return e.kind == 'content'
        finally: self.lax = False
        return True

    def first_tags(self, r):
        """set of possible first tags, None = any"""
        if r.kind == 'ANY' and (self.lax or not r.tags): return None
        if r.tags: return {r.tags[0]}
        out = set()
        for f in r.fields:
            s = self.first_tags(self.eff(f.type))
            if s is None: return None
            out |= s
        return out

    def matches(self, r, data):
        if not data: return False
        try: tg = readtag(data)[0]
        except Reject: return False
        s = self.first_tags(r)
        return s is None or tg in s

    def dec(self, r, data, check):
        if r.kind == 'ANY' and not r.tags:
            _, _, body, rest = readtlv(data)
            return data[:len(data) - len(rest)], rest
        outer = data
        for i, tg in enumerate(r.tags):
            got, cons, body, rest = readtlv(data)
            if got != tg and self.lax and r.kind == 'ANY' and i == 0: return data[:len(data) - len(rest)], rest
            if got != tg: raise Reject('tag %s where %s expected' % (got, tg))
            last = i == len(r.tags) - 1
            want = (r.kind in CONSTRUCTED) if (last and r.kind not in ('ANY', 'CHOICE')) else not r.prim
            if cons != want:        # strings in pieces are BER; the codec does not look at the form of explicit tags
                raise Reject('primitive/constructed bit', 'content' if r.kind in STRINGS or not last or r.kind in ('ANY', 'CHOICE') else 'structure')
            if i == 0: final = rest
            elif rest: raise Reject('trailing data in explicit tag')
            data = body
        if r.kind == 'CHOICE':
            for f in r.fields:
                fe = self.eff(f.type)
                if self.matches(fe, data):
                    v, rest = self.dec(fe, data, check)
                    if r.tags:
                        if rest: raise Reject('trailing data in tagged choice')
                        rest = final
                    out = (f.name, v)
                    break
            else: raise Reject('no alternative')
            if check: self.check(r, out)
            return out, rest
        if r.kind == 'ANY':
            try: _, _, _, rest = readtlv(data)
            except Reject as e: raise Reject(str(e), 'content')
            if rest: raise Reject('trailing data after ANY', 'content')
            return data, final
        v = self.uncontent(r, data, check)
        if check: self.check(r, v)
        return v, final

    def uncontent(self, r, b, check):
        k = r.kind
        if k == 'BOOLEAN':
            if len(b) != 1 or b[0] not in (0, 255): raise Reject('BOOLEAN content', 'content')
            return b[0] == 255
        if k in ('INTEGER', 'ENUMERATED'):
            if not b or (len(b) > 1 and (b[0], b[1] >> 7) in ((0, 0), (255, 1))): raise Reject('INTEGER content', 'content')
            return int.from_bytes(b, 'big', signed=True)
        if k == 'NULL':
            if b: raise Reject('NULL content', 'content')
            return None
        if k == 'OCTET STRING': return b
        if k == 'BIT STRING':
            if not b or b[0] > 7 or (len(b) == 1 and b[0]): raise Reject('BIT STRING content', 'content')
            s = ''.join('{:08b}'.format(x) for x in b[1:])
            return s[:len(s) - b[0]]
        if k == 'OBJECT IDENTIFIER': return oidparse(b)
        if k in CHARSET:
            try: return b.decode(CHARSET[k])
            except UnicodeError: raise Reject('characters', 'content')
        if k in ('SEQUENCE OF', 'SET OF'):
            out, e = [], self.eff(r.elem)
            while b:
                x, b = self.dec(e, b, check)
                out.append(x)
            return out
        if k == 'SEQUENCE':
            out = {}
            for f in r.fields:
                fe = self.eff(f.type)
                if self.matches(fe, b):
                    out[f.name], b = self.dec(fe, b, check)
                    d = self.default(f)
                elif not f.opt: raise Reject('missing %s' % f.name)
            if b: raise Reject('extra component')
            return out
        if k == 'SET':
            out = {}
            while b:
                for f in r.fields:
                    fe = self.eff(f.type)
                    if f.name not in out and self.matches(fe, b):
                        out[f.name], b = self.dec(fe, b, check)
                        break
                else:       # a repeated SET component is something the codec lets pass
                    raise Reject('extra component', 'content' if any(self.matches(self.eff(f.type), b) for f in r.fields) else 'structure')
            for f in r.fields:
                if not f.opt and f.name not in out: raise Reject('missing %s' % f.name)
            return out
        raise RefError(k)

    # -------------------------------------------------------- constraints
    def check(self, r, v):
        for c in r.cons:
            if not holds(r, c, v): raise Reject('constraint %r' % (c,), 'constraint')

    def valid(self, t, v):
        """does v satisfy the type (presence + constraints), recursively"""
        r = self.eff(t)
        for c in r.cons:
            if not holds(r, c, v): return False
        if r.kind in ('SEQUENCE', 'SET'):
            return all((f.name in v and self.valid(f.type, v[f.name])) or (f.name not in v and f.opt) for f in r.fields)
        if r.kind == 'CHOICE': return self.valid(r.byname[v[0]].type, v[1])
        if r.kind in ('SEQUENCE OF', 'SET OF'): return all(self.valid(r.elem, x) for x in v)
        return True

    # fill defaults in: canonical comparison form
    def norm(self, t, v):
        r = self.eff(t)
        if r.kind in ('SEQUENCE', 'SET'):
            out = {}
            for f in r.fields:
                if f.name in v: out[f.name] = self.norm(f.type, v[f.name])
                elif f.default is not None: out[f.name] = self.norm(f.type, self.default(f)[0])
            return out
        if r.kind == 'CHOICE': return (v[0], self.norm(r.byname[v[0]].type, v[1]))
        if r.kind == 'SEQUENCE OF': return [self.norm(r.elem, x) for x in v]
        if r.kind == 'SET OF':
            parts = [(self.encode(r.elem, x), self.norm(r.elem, x)) for x in v]
            n = max([len(p) for p, _ in parts] or [0])
            parts.sort(key=lambda p: p[0].ljust(n, b'\0'))
            return [x for _, x in parts]
        return v


def size(r, v):
    return len(v)


def holds(r, c, v):
    if c[0] == 'or': return any(holds(r, x, v) for x in c[1])
    if c[0] == 'size': return c[1] <= len(v) <= c[2]
    if c[0] == 'range': return c[1] <= v <= c[2]
    if c[0] == 'value':
        w = c[1]
        if isinstance(w, str) and r.kind == 'OCTET STRING': w = w.encode()
        return v == w
    if c[0] == 'from': return all(ch in c[1] for ch in v)
    if c[0] == 'with': return all((n in v) == p for n, p in c[1].items())
    raise RefError(c)


# -------------------------------------------------------------------- X.690
def taghead(tg, cons):
    c, n = tg
    b = (c << 6) | (0x20 if cons else 0)
    if n < 31: return bytes([b | n])
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.insert(0, 0x80 | (n & 0x7f))
        n >>= 7
    return bytes([b | 31] + out)


def lenbytes(n):
    if n < 128: return bytes([n])
    s = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([0x80 | len(s)]) + s


def tlv(tg, cons, body):
    return taghead(tg, cons) + lenbytes(len(body)) + body


def tagkey(enc):
    tg, cons, p = readtag(enc)
    return tg


def readtag(d):
    if not d: raise Reject('end of data')
    c, cons, n = d[0] >> 6, bool(d[0] & 0x20), d[0] & 31
    p = 1
    if n == 31:
        n = 0
        while True:
            if p >= len(d): raise Reject('truncated tag')
            b = d[p]
            p += 1
            n = (n << 7) | (b & 0x7f)
            if not b & 0x80: break
    return (c, n), cons, p


def readtlv(d):
    tg, cons, p = readtag(d)
    if p >= len(d): raise Reject('truncated length')
    n = d[p]
    p += 1
    if n == 0x80: raise Reject('indefinite length')
    if tg == (0, 0): raise Reject('end of contents', 'content')
    if n > 0x80:
        k = n & 0x7f
        if p + k > len(d): raise Reject('truncated length')
        n = int.from_bytes(d[p:p + k], 'big')
        p += k
    if p + n > len(d): raise Reject('truncated content')
    return tg, cons, d[p:p + n], d[p + n:]


def intbytes(v, quirk=False):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)): n += 1
    if quirk and v == -(1 << (8 * n - 1)): n += 1
    return v.to_bytes(n, 'big', signed=True)


def oidbytes(v):
    subs = [v[0] * 40 + v[1]] + list(v[2:])
    out = b''
    for s in subs:
        p = [s & 0x7f]
        s >>= 7
        while s:
            p.insert(0, 0x80 | (s & 0x7f))
            s >>= 7
        out += bytes(p)
    return out


def oidparse(b):
    if not b or b[-1] & 0x80: raise Reject('OID content', 'content')
    subs, n, start = [], 0, True
    for x in b:
        if start and x == 0x80: raise Reject('OID content', 'content')
        n = (n << 7) | (x & 0x7f)
        start = not x & 0x80
        if start:
            subs.append(n)
            n = 0
    f = subs[0]
    a = min(f // 40, 2)
    return (a, f - 40 * a) + tuple(subs[1:])


def oid_tlv(v):
    return tlv((0, 6), False, oidbytes(v))
