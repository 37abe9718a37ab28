"""Generators over reference types: directed (systematic) values, directed
invalid values, and Hypothesis strategies.  Everything is derived from the
reference model only."""
import datetime
from hypothesis import strategies as st
import asn1ref
from asn1ref import INF, Reject, intbytes, tlv

PRINTABLE = "ABCXYZabcxyz0189 '()+,-./:=?"
SIZECAP = 70000          # largest size boundary we build


def charpool(r, ascii_only=False):
    k = r.kind
    base = {'NumericString': ' 0123456789', 'PrintableString': PRINTABLE,
            'IA5String': PRINTABLE + '@_*&!\x00\x1b\x7f', 'VisibleString': PRINTABLE + '@_*~!',
            'ISO646String': PRINTABLE + '@_*~!', 'UTF8String': PRINTABLE + '\u00e9\u0416\u4e2d\U0001f600',
            'BMPString': PRINTABLE + '\u00e9\u0416\u4e2d', 'UniversalString': PRINTABLE + '\u00e9\u0416\U0001f600'
            }.get(k, PRINTABLE + '\u00e9\u00ff')
    for c in r.cons:
        if c[0] == 'from': base = sorted(c[1])[::7] + sorted(c[1])[:6] + [x for x in base if x in c[1]]
    return list(base)


class Cons(object):
    """digest of a scalar's / list's constraints: allowed single values, ranges, size"""
    def __init__(self, r):
        self.values, self.lo, self.hi, self.slo, self.shi = None, -INF, INF, 0, INF
        self.sized = self.ranged = False
        self.ranges = self.sizes = None
        for c in r.cons:
            if c[0] == 'size':
                self.slo, self.shi, self.sized = max(self.slo, c[1]), min(self.shi, c[2]), True
            elif c[0] == 'range':
                self.lo, self.hi, self.ranged = max(self.lo, c[1]), min(self.hi, c[2]), True
            elif c[0] == 'value': self.restrict([c[1]], r)
            elif c[0] == 'or':
                if all(x[0] == 'value' for x in c[1]): self.restrict([x[1] for x in c[1]], r)
                elif all(x[0] == 'range' for x in c[1]): self.ranges = [(x[1], x[2]) for x in c[1]]
                elif all(x[0] == 'size' for x in c[1]):
                    self.sizes = [(x[1], x[2]) for x in c[1]]
                    self.slo, self.shi, self.sized = min(x[1] for x in c[1]), max(x[2] for x in c[1]), True
        if r.kind == 'ENUMERATED' and r.named and self.values is None:
            pass

    def restrict(self, vs, r):
        vs = [v.encode() if isinstance(v, str) and r.kind == 'OCTET STRING' else v for v in vs]
        self.values = vs if self.values is None else [v for v in self.values if v in vs]


_cons = {}


def cons(r):
    k = id(r)
    if k not in _cons: _cons[k] = (r, Cons(r))
    return _cons[k][1]


TIMES = {'UTCTime': ['250102030405Z', '991231235959Z', '000101000000Z', '491231235959Z'],
         'GeneralizedTime': ['20250102030405Z', '20500101000000Z', '99991231235959Z', '19700101000000Z']}
ANYS = [b'\x05\x00', b'\x02\x01\x2a', b'\x04\x03abc', b'\x30\x03\x02\x01\x01', b'\x06\x03\x2a\x03\x04',
        b'\x0c\x02\xc3\xa9', b'\x30\x80'[:0] + b'\x31\x00', b'\xa0\x03\x02\x01\x07', b'\x04\x81\x80' + b'x' * 128]


MORETIMES = {'UTCTime': ['500101000000Z', '700101000000Z', '240229120000Z', '240630235959Z', '690101010101Z', '681231235959Z'],
             'GeneralizedTime': ['19491231235959Z', '19500101000000Z', '20491231235959Z', '00010101000000Z', '20240229120000Z', '20380119031408Z', '99991231000000Z', '10000101000000Z']}
NUMBERS = (2, 3, 4, 5, 7, 8, 10, 12, 16, 20, 31, 32, 60, 64, 99, 100, 129, 200, 254, 365, 512, 999, 1000, 1024, 1950, 2024, 4096, 9999, 10000, 32767, 65534, 65536, 99999, 2 ** 20, 2 ** 24, 2 ** 31 - 1, 2 ** 31 + 1,
           2 ** 32 - 1, 2 ** 32 + 1, 2 ** 40, 2 ** 48, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 10 ** 18, 2 ** 128, 2 ** 159, 2 ** 160, 2 ** 255, 2 ** 256, -3, -10, -127, -255, -256, -32768, -32769, -2 ** 31, -2 ** 63, -2 ** 64)
SIZES = (3, 4, 5, 6, 8, 10, 12, 15, 16, 17, 20, 21, 24, 28, 31, 33, 40, 48, 63, 64, 65, 100, 129, 255, 256, 257, 511, 512, 1024)
# contents that something might take for something else, strip, fold, normalise or translate
OCTETS = (b'\0', b'\x80', b' a ', b'1.2.3.4', b'127.00.000.1', b'\xef\xbb\xbfe\xcc\x81\xff', b'\xff\xfe\0A', b'0x41', b'0A1f', b'a\0', b'\0\0\0\0\0', b'\n', b'Ab\r\n', b'\x04\x01a', b'1' * 16,
          b'2.5.4.3', b'::1', b'AAAA', b"b'x'", b'%s', b'20250102030405Z', b'\xc0\xa8\x00\x01', b'\xfe\x80' + b'\0' * 13 + b'\x01', b'\xff' * 20, b'\x00\x80' * 16, b'\x80' * 8, b'\x04\x10' + b'k' * 16)
# identifiers that look alike to something sloppy: same digits, same sum, same ends
ALIKE = ((1, 2, 3, 45), (1, 2, 34, 5), (1, 2, 345), (1, 2, 3, 4, 5), (1, 23, 45), (1, 2, 45, 3), (1, 2, 3, 301), (2, 2, 3, 45), (1, 2, 3, 45, 0), (1, 2, 3), (0, 2, 3, 45))
BITS = ('0', '00000000', '10000000', '0' * 9, '1' + '0' * 20, '0000000100000000', '00000001', '11111111', '1' * 17)
TEXTS = (' a  B ', '1.2.3.4', '0', 'e\u0301\u212b\u00df\u0130\ufb01', '\ufeffa', 'a\0', '\0', '\tA\n', '\u200bx\u2028y\u00a0', 'None', "b'x'", '%s{}', '\\x41', '0x41', '-1', 'AAAA', 'aBcD', '--', '*',
         '\u0660\u0664', '\U0001f600\u0301', '\xe9', '\xdf')


def spellings(r):
    k = r.kind
    if k == 'OCTET STRING': return OCTETS
    if k == 'BIT STRING': return BITS
    out = []
    for x in TEXTS:
        try: x.encode(asn1ref.CHARSET[k])
        except UnicodeError: continue
        if k == 'NumericString' and set(x) - set(' 0123456789') or k == 'PrintableString' and set(x) - PRINTABLES: continue
        out.append(x)
    return out


PRINTABLES = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789' + " '()+,-./:=?")


class Gen(object):
    def __init__(self, model):
        self.M = model
        self._min = {}
        self._touchy = {}
        self._count = {}

    # ------------------------------------------------------------ minimal
    def minimal(self, t, salt=0):
        """smallest valid value of reference type t"""
        r = self.M.eff(t)
        key = (id(r), salt)
        if key not in self._min: self._min[key] = (r, self.mk(r, False, 0, salt))
        return self._min[key][1]

    def scalar(self, r, salt=0):
        k, c = r.kind, cons(r)
        if c.values is not None: return c.values[salt % len(c.values)]
        if k == 'BOOLEAN': return salt % 2 == 0
        if k in ('INTEGER', 'ENUMERATED'):
            if r.named and k == 'ENUMERATED':
                vs = [v for v in sorted(r.named.values()) if c.lo <= v <= c.hi]
                return vs[salt % len(vs)]
            if c.ranges: return int(c.ranges[salt % len(c.ranges)][0])
            lo = c.lo if c.lo != -INF else (min(1, c.hi))
            v = lo + salt
            return int(v if v <= c.hi else lo)
        if k == 'NULL': return None
        if k == 'OBJECT IDENTIFIER': return (1, 3, 6, 1, 4, 1, 99999, 1 + salt)
        if k in TIMES: return TIMES[k][salt % len(TIMES[k])]
        n = int(c.slo)
        if salt and n + 1 <= c.shi: n += 1
        if k == 'OCTET STRING': return bytes((0x41 + i + salt) & 255 for i in range(n))
        if k == 'BIT STRING': return ''.join('10'[(i + salt) % 3 % 2] for i in range(n))
        if k == 'ANY': return ANYS[salt % len(ANYS)]
        pool = charpool(r)
        return ''.join(pool[(i + salt) % min(len(pool), 8)] for i in range(n))

    def mk(self, r, full, depth, salt=0):
        k = r.kind
        if k in ('SEQUENCE', 'SET'):
            out = {}
            for i, f in enumerate(r.fields):
                if not f.opt or (full and depth < 3):
                    out[f.name] = self.fieldval(f, full, depth, salt + i if full else salt)
            self.fixwith(r, out)
            return out
        if k == 'CHOICE':
            best = None
            if full:
                # prefer a constructed alternative
                for f in r.fields:
                    if self.M.eff(f.type).kind in ('SEQUENCE', 'SET') and depth < 3:
                        best = f
                        break
            best = best or min(r.fields, key=lambda f: (self.weight(f.type), r.fields.index(f)))
            return (best.name, self.mk(self.M.eff(best.type), full, depth + 1, salt))
        if k in ('SEQUENCE OF', 'SET OF'):
            c = cons(r)
            n = int(c.slo)
            if full: n = int(min(max(n, 2 if depth < 2 else 1), c.shi))
            e = self.M.eff(r.elem)
            return [self.mk(e, full, depth + 1, salt + i) for i in range(n)]
        return self.scalar(r, salt)

    def fixwith(self, r, out):
        for c in r.cons:
            alts = c[1] if c[0] == 'or' else [c]
            if alts and all(a[0] == 'with' for a in alts) and not any(asn1ref.holds(r, a, out) for a in alts):
                for n, p in alts[0][1].items():
                    if p: out[n] = self.minimal(r.byname[n].type)
                    else: out.pop(n, None)
            if c[0] == 'size':   # SIZE on a SEQUENCE: number of components present
                for f in r.fields:       # pyasn1 leaves out empty lists: they do not count
                    if out.get(f.name) in ([], {}): out.pop(f.name)
                for f in r.fields:
                    if len(out) < c[1] and f.name not in out: out[f.name] = self.minimal(f.type)

    def weight(self, t, depth=0):
        r = self.M.eff(t)
        if depth > 6: return 50
        if r.kind in ('SEQUENCE', 'SET'):
            return 1 + sum(self.weight(f.type, depth + 1) for f in r.fields if not f.opt)
        if r.kind == 'CHOICE': return 1 + min(self.weight(f.type, depth + 1) for f in r.fields)
        if r.kind in ('SEQUENCE OF', 'SET OF'): return 1 + (self.weight(r.elem, depth + 1) if cons(r).slo else 0)
        return 1

    def fieldval(self, f, full, depth, salt=0):
        v = self.mk(self.M.eff(f.type), full, depth + 1, salt)
        if f.default is not None:
            v = self.nondefault(f, v)
        return v

    def nondefault(self, f, v):
        d = self.M.default(f)[0]
        if not self.M.same(f.type, d, v): return v
        for cand in self.directed(f.type, 1, inner=True):
            if not self.M.same(f.type, d, cand[1]): return cand[1]
        return v

    def maximal(self, t):
        return self.mk(self.M.eff(t), True, 0)

    # ----------------------------------------------------------- directed
    def scalars(self, r, full=True):
        """(label, value) covering a scalar's published value space"""
        k, c, out = r.kind, cons(r), []
        if c.values is not None: return [('value %r' % (v,), v) for v in c.values]
        if k == 'BOOLEAN': return [('TRUE', True), ('FALSE', False)]
        if k in ('INTEGER', 'ENUMERATED'):
            def ok(v): return all(asn1ref.holds(r, x, v) for x in r.cons)
            vs = []
            if r.named: vs += [('named %s' % n, v) for n, v in r.named.items()]
            if k == 'INTEGER':
                if c.ranges:
                    for lo, hi in c.ranges: vs += [('lower bound', int(lo)), ('upper bound', int(hi))]
                for lab, v in (('lower bound', c.lo), ('upper bound', c.hi)):
                    if abs(v) != INF: vs.append((lab, int(v)))
                vs += [('int', v) for v in (0, 1, 127, 128, 255, 256, 32768, 65535, 2 ** 31, 2 ** 32, 10 ** 9, 2 ** 53 + 1, 2 ** 61 - 1, -2, 2 ** 64 + 1, 2 ** 160 - 1, -1, -128, -129) + (NUMBERS if full else ())]
            seen = set()
            for lab, v in vs:
                if ok(v) and v not in seen:
                    seen.add(v)
                    out.append((lab, v))
            return out
        if k == 'NULL': return [('NULL', None)]
        if k == 'OBJECT IDENTIFIER':
            return [('oid', v) for v in ((1, 3, 6, 1, 4, 1, 99999, 7), (2, 5, 4, 3), (2, 999, 2 ** 40, 0), (0, 9, 2342), (0, 0), (1, 39), (2, 39), (2, 40, 127), (2, 47, 128), (2, 48, 16383), (2, 0, 16384, 0)) + ALIKE[:2]]
        if k in TIMES: return [('time', x) for x in TIMES[k] + (MORETIMES[k] if full else [])]
        if k == 'ANY': return [('any', a) for a in ANYS]
        if k == 'BIT STRING' and r.named:
            n = max(r.named.values()) + 1
            for nm, b in sorted(r.named.items(), key=lambda x: x[1]):
                s = '0' * b + '1'
                if c.slo > len(s): s = s.ljust(int(c.slo), '0')
                if c.slo <= len(s) <= c.shi: out.append(('bit %s' % nm, s))
            if c.slo <= n <= c.shi: out.append(('all bits', '1' * n))
        sizes = [('lower size', int(c.slo))]
        if c.shi != INF and c.shi <= SIZECAP: sizes.append(('upper size', int(c.shi)))
        for n in (1, 2, 7, 9, 32, 127, 128, 300) + (SIZES if full else ()):
            if c.slo <= n <= c.shi: sizes.append(('size', n))
        if c.sizes: sizes = [(l, int(n)) for p in c.sizes for l, n in zip(('lower size', 'upper size'), p)]
        seen = set()
        for lab, n in sizes:
            if n in seen: continue
            seen.add(n)
            if k == 'OCTET STRING': v = bytes((i * 37 + n) & 255 for i in range(n))
            elif k == 'BIT STRING': v = ''.join('1001'[(i + n) % 4] for i in range(n))
            else:
                pool = charpool(r)
                v = ''.join(pool[(i * 5 + n) % len(pool)] for i in range(n))
            out.append(('%s %d' % (lab, n), v))
        if k in asn1ref.CHARKINDS:
            pool = charpool(r)
            for i in range(0, len(pool), max(1, int(min(c.shi, 12)))):
                v = ''.join(pool[i:i + int(min(c.shi, 12))])
                if len(v) < c.slo: v = v * int(c.slo / max(1, len(v)) + 1)
                v = v[:int(min(c.shi, len(v)))]
                if c.slo <= len(v) <= c.shi: out.append(('alphabet', v))
        if k in asn1ref.CHARKINDS or k in ('OCTET STRING', 'BIT STRING'):
            known = [v for _, v in out]
            out += [('spelled %r' % v, v) for v in spellings(r) if v not in known and all(asn1ref.holds(r, x, v) for x in r.cons)][:None if full else 5]
        return out

    def directed(self, t, depth=2, biglists=True, inner=False):
        """(label, value) pairs exercising every published feature of t"""
        r = self.M.eff(t)
        k = r.kind
        if k not in ('SEQUENCE', 'SET', 'SEQUENCE OF', 'SET OF', 'CHOICE'): return self.scalars(r, not inner)
        out = []
        if k == 'CHOICE':
            for f in r.fields:
                sub = self.directed(f.type, depth - 1, biglists, True) if self.inline(f.type) or depth > 1 else self.brief(f.type)
                if not self.inline(f.type): sub = sub[:6]
                out += [('%s: %s' % (f.name, lab), (f.name, v)) for lab, v in sub]
        elif k in ('SEQUENCE', 'SET'):
            mn, mx = self.mk(r, False, 0), self.mk(r, True, 0)
            out.append(('minimal', mn))
            out.append(('maximal', mx))
            for f in r.fields:
                if f.opt:
                    a = dict(mn)
                    a[f.name] = self.fieldval(f, False, 1)
                    out.append(('only %s' % f.name, a))
                    a = dict(mx)
                    a.pop(f.name, None)
                    out.append(('without %s' % f.name, a))
                    if f.default is not None:
                        a = dict(mn)
                        a[f.name] = self.M.default(f)[0]
                        out.append(('default %s' % f.name, a))
                        for lab, v in self.near(f.type, self.M.default(f)[0]):
                            a = dict(mn)
                            a[f.name] = v
                            out.append(('near default %s: %s' % (f.name, lab), a))
                if depth > 0:
                    sub = self.directed(f.type, depth - 1, biglists, True) if self.inline(f.type) else self.brief(f.type)
                    for lab, v in sub:
                        a = dict(mn)
                        a[f.name] = v
                        out.append(('%s=%s' % (f.name, lab), a))
            out = [(l, v) for l, v in out if all(asn1ref.holds(r, c, v) for c in r.cons)]
        else:
            c = cons(r)
            ns = {int(c.slo)}
            if c.shi != INF and c.shi <= 600 and biglists: ns.add(int(c.shi))
            for n in (0, 1, 2, 3):
                if c.slo <= n <= c.shi: ns.add(n)
            subs = [v for _, v in (self.directed(r.elem, depth - 1, biglists, True) if depth > 0 and self.inline(r.elem) else self.brief(r.elem))]
            for n in sorted(ns):
                out.append(('%d elements' % n, [subs[i % len(subs)] if n < 20 else self.minimal(r.elem, i % 3) for i in range(n)]))
            for v in subs:
                if c.slo <= 1 <= c.shi: out.append(('one element', [v]))
            # the same element again, next to itself and later; many different ones
            for i, v in enumerate(subs[:3]):
                for same in ([v, v], [v, subs[i - 1], v], [subs[i - 1], v, v, v]):
                    if c.slo <= len(same) <= c.shi: out.append(('repeated elements', same))
            if biglists and 3 < len(subs) and c.slo <= len(subs[:24]) <= c.shi: out.append(('%d different elements' % len(subs[:24]), subs[:24][::-1]))
        res, seen = [], set()
        for lab, v in out:
            try:
                key = self.M.encode(r, v) + repr(sorted(v) if isinstance(v, dict) else '').encode()
            except asn1ref.RefError:
                continue
            if key in seen: continue
            seen.add(key)
            if self.M.valid(t, v): res.append((lab, v))
        return res

    # -------------------------------------------------------------- large
    def large(self, t, thorough=False, depth=3):
        """(label, value): long strings, big numbers, long identifiers, many elements"""
        r = self.M.eff(t)
        k, c = r.kind, cons(r)
        out = []
        if k in ('SEQUENCE', 'SET', 'CHOICE'):
            mn = self.mk(r, False, 0) if k != 'CHOICE' else None
            for f in r.fields:
                if depth <= 0 or not self.inline(f.type): continue
                for lab, v in self.large(f.type, thorough, depth - 1): out.append(('%s: %s' % (f.name, lab), (f.name, v) if mn is None else dict(mn, **{f.name: v})))
            out = [(l, v) for l, v in out if all(asn1ref.holds(r, x, v) for x in r.cons)]
        elif k in ('SEQUENCE OF', 'SET OF'):
            subs = [v for _, v in self.brief(r.elem)]
            small = self.weight(r.elem) < 4
            for n in (5, 17, 130) + ((300, 1100) if thorough else (300,) if small else ()):
                if c.slo <= n <= c.shi: out.append(('%d elements' % n, [subs[i % len(subs)] if n < 20 else self.minimal(r.elem, i % 5) for i in range(n)]))
            if depth > 0 and self.inline(r.elem) and c.slo <= 1 <= c.shi:
                for lab, v in self.large(r.elem, thorough, depth - 1): out.append(('element ' + lab, [v]))
        elif c.values is not None: pass
        elif k == 'INTEGER':
            for n in (2 ** 63, 2 ** 1024 + 1, 2 ** 4096 - 3, -2 ** 2048 + 5, 2 ** 8192 + 9):
                if all(asn1ref.holds(r, x, n) for x in r.cons): out.append(('number of %d bits' % n.bit_length(), n))
        elif k == 'OBJECT IDENTIFIER': out = [('long identifier', (1, 3) + tuple(range(120, 180))), ('long identifier', (2, 25, 2 ** 128 - 1)), ('long identifier', (2, 2 ** 70, 128, 16383, 16384))]
        elif k == 'ANY': out = [('long any', tlv((0, 4), False, bytes(i & 255 for i in range(n)))) for n in (1000, 70000)] + [('deep any', self.nest(20))]
        elif k in ('OCTET STRING', 'BIT STRING') or k in asn1ref.CHARKINDS:
            for n in (1000, 5000) + ((70000,) if k == 'OCTET STRING' or thorough else ()):
                if not c.slo <= n <= c.shi or c.sizes or (k == 'BIT STRING' and r.named): continue
                if k == 'OCTET STRING': v = bytes((i * 37 + n) & 255 for i in range(n))
                elif k == 'BIT STRING': v = ''.join('1001'[(i + n) % 4] for i in range(n + 3))
                else:
                    pool = charpool(r)
                    v = ''.join(pool[(i * 5 + n) % len(pool)] for i in range(n))
                out.append(('size %d' % n, v))
        return [(l, v) for l, v in out if self.M.valid(t, v)]

    def nest(self, n):
        b = b'\x05\x00'
        for _ in range(n): b = tlv((0, 16), True, b)
        return b

    def near(self, t, v):
        """values that differ from v in one place"""
        r = self.M.eff(t)
        if r.kind in ('SEQUENCE', 'SET'):
            for f in r.fields:
                if f.name in v:
                    if f.opt: yield 'without ' + f.name, {k: x for k, x in v.items() if k != f.name}
                    for lab, x in self.near(f.type, v[f.name]): yield f.name + ' ' + lab, dict(v, **{f.name: x})
                elif f.opt: yield 'with ' + f.name, dict(v, **{f.name: self.minimal(f.type)})
        elif r.kind == 'CHOICE':
            for lab, x in self.near(r.byname[v[0]].type, v[1]): yield lab, (v[0], x)
        elif r.kind in ('SEQUENCE OF', 'SET OF'):
            yield 'one more', v + [self.minimal(r.elem)]
            if v: yield 'one less', v[:-1]
        elif r.kind == 'OBJECT IDENTIFIER': yield 'longer', v + (1,)
        elif r.kind == 'INTEGER': yield 'next', v + 1
        elif r.kind == 'BOOLEAN': yield 'other', not v
        elif r.kind == 'ANY': yield 'other', ANYS[0] if v != ANYS[0] else ANYS[1]
        elif r.kind == 'BIT STRING':
            yield 'longer', v + '0'
            yield 'more', v + '1'
            if v.endswith('0'): yield 'shorter', v[:-1]
            if v: yield 'other bits', ''.join('10'[int(x)] for x in v)
        elif r.kind == 'OCTET STRING':
            yield 'longer', v + b'\0'
            yield 'other case', v.swapcase()
            if v: yield 'shorter', v[:-1]
        elif r.kind in asn1ref.CHARKINDS:
            yield 'longer', v + ' '
            yield 'other case', ''.join(x.swapcase() if x < '\x7f' else x for x in v)
            if v: yield 'shorter', v[:-1]
        elif r.kind == 'ENUMERATED':
            for x in r.named.values():
                if x != v: yield 'other', x

    def inline(self, t):
        """anonymous type, or a named one with extra constraints"""
        if t.ref is None: return True
        if t.cons: return True
        return self.M.eff(t).kind not in ('SEQUENCE', 'SET', 'SEQUENCE OF', 'SET OF', 'CHOICE')

    def brief(self, t):
        out = [('minimal', self.minimal(t))]
        r = self.M.eff(t)
        if r.kind == 'CHOICE':
            return [('alt ' + f.name, (f.name, self.mk(self.M.eff(f.type), False, 1))) for f in r.fields][:12]
        m = self.maximal(t)
        if m != out[0][1]: out.append(('maximal', m))
        return out

    # ------------------------------------------------------------ invalid
    def invalid_scalars(self, r):
        k, c, out = r.kind, cons(r), []
        def bad(v): return not all(asn1ref.holds(r, x, v) for x in r.cons)
        if not r.cons: return []
        if c.values is not None:
            v0 = c.values[0]
            if isinstance(v0, int):
                out += [('outside values', x) for x in (max(c.values) + 1, min(c.values) - 1) + tuple(v + 1 for v in c.values)]
            elif isinstance(v0, str): out += [('outside values', v0 + 'x'), ('outside values', v0.swapcase() + '0'), ('outside values', 'Q' * len(v0))]
            elif isinstance(v0, bytes): out += [('outside values', v0 + b'x'), ('outside values', b'Q' * len(v0))]
            elif isinstance(v0, tuple): out += [('outside values', v0 + (99,)), ('outside values', v0[:-1] + (v0[-1] + 77,)), ('outside values', v0[:-1])]
            return [(l, v) for l, v in out if bad(v)]
        if k in ('INTEGER', 'ENUMERATED'):
            if c.ranges:
                for lo, hi in c.ranges: out += [('below range', int(lo) - 1), ('above range', int(hi) + 1)]
            if c.lo != -INF: out += [('below lower bound', int(c.lo) - 1), ('below lower bound', int(c.lo) - 1000)]
            if c.hi != INF: out += [('above upper bound', int(c.hi) + 1), ('above upper bound', int(c.hi) + 1000)]
            return [(l, v) for l, v in out if bad(v)]
        if c.sized:
            ns = []
            if c.slo > 0: ns += [('below lower size', int(c.slo) - 1), ('below lower size', 0)]
            if c.shi != INF and c.shi <= SIZECAP: ns += [('above upper size', int(c.shi) + 1), ('above upper size', int(c.shi) + 9)]
            if c.sizes: ns = [('outside sizes', int(n) + d) for p in c.sizes for n in p for d in (-1, 1)]
            for lab, n in ns:
                if k == 'OCTET STRING': v = b'A' * n
                elif k == 'BIT STRING': v = '1' * n
                else: v = charpool(r)[5 % len(charpool(r))] * n
                out.append((lab, v))
        for x in r.cons:
            if x[0] == 'from':
                for ch in 'A\u00e9 :z':
                    if ch not in x[1]:
                        try: ch.encode(asn1ref.CHARSET[k])
                        except UnicodeError: continue
                        out.append(('outside alphabet', ch * max(1, int(c.slo))))
        return [(l, v) for l, v in out if bad(v)]

    def invalid(self, t, depth=3):
        """(label, value, where) - exactly one published constraint broken.
        where: 'scalar' (must be refused on decoding and on building) or 'list'
        (must be refused on encoding)"""
        r = self.M.eff(t)
        k = r.kind
        out = []
        if k in ('SEQUENCE', 'SET'):
            mn = self.mk(r, False, 0)
            for c in r.cons:
                if c[0] in ('with', 'or'):
                    for cand in ({}, {f.name: self.minimal(f.type) for f in r.fields}, mn):
                        cand = {f.name: cand.get(f.name, self.minimal(f.type)) for f in r.fields if f.name in cand or not f.opt}
                        if not asn1ref.holds(r, c, cand): out.append(('WITH COMPONENTS', cand, 'list'))
            for f in r.fields:
                if depth <= 0: break
                for lab, v, w in self.invalid(f.type, depth - 1) if self.inline(f.type) else self.invalid(f.type, 0):
                    a = dict(mn)
                    a[f.name] = v
                    if all(asn1ref.holds(r, c, a) for c in r.cons): out.append(('%s: %s' % (f.name, lab), a, w))
        elif k == 'CHOICE':
            for f in r.fields:
                for lab, v, w in self.invalid(f.type, depth - 1) if self.inline(f.type) else self.invalid(f.type, 0):
                    out.append(('%s: %s' % (f.name, lab), (f.name, v), w))
        elif k in ('SEQUENCE OF', 'SET OF'):
            c = cons(r)
            if c.sized:
                if c.slo > 0: out.append(('below lower size', [self.minimal(r.elem, i) for i in range(int(c.slo) - 1)], 'list'))
                if c.shi <= 600: out.append(('above upper size', [self.minimal(r.elem, i) for i in range(int(c.shi) + 1)], 'list'))
            n = max(1, int(c.slo))
            if n < 50 and depth > 0:
                for lab, v, w in self.invalid(r.elem, depth - 1) if self.inline(r.elem) else self.invalid(r.elem, 0):
                    out.append(('element: %s' % lab, [v] + [self.minimal(r.elem, i) for i in range(n - 1)], w))
        else:
            out = [(lab, v, 'scalar') for lab, v in self.invalid_scalars(r)]
        return out

    # --------------------------------------------------------- strategies
    def strategy(self, t, maxdepth=5):
        r = self.M.eff(t)

        @st.composite
        def s(draw):
            return self.draw(draw, r, maxdepth)
        return s().filter(lambda v: self.sound(t, v)) if self.touchy(t) else s()

    def touchy(self, t, seen=()):
        """a structure with WITH COMPONENTS or SIZE somewhere inside"""
        r = self.M.eff(t)
        key = id(r)
        if key in self._touchy: return self._touchy[key][1]
        if key in seen or len(seen) > 40: return False
        x = r.kind in ('SEQUENCE', 'SET') and bool(r.cons)
        subs = [r.elem] if r.elem is not None else [f.type for f in r.fields or ()]
        x = x or any(self.touchy(s, seen + (key,)) for s in subs)
        if x or not seen: self._touchy[key] = (r, x)
        return x

    def sound(self, t, v):
        """pyasn1 leaves out OPTIONAL components without content: what is left must be a valid value"""
        try: self.M.decode(t, self.M.encode_alt(t, v))
        except Reject: return False
        return True

    def draw(self, draw, r, depth):
        k = r.kind
        if k in ('SEQUENCE', 'SET'):
            out = {}
            opts = [f for f in r.fields if f.opt]
            mask = draw(st.integers(0, (1 << len(opts)) - 1)) if opts and depth > 0 else 0
            i = 0
            for f in r.fields:
                if f.opt:
                    on = mask >> i & 1
                    i += 1
                    if not on: continue
                    if f.default is not None and draw(st.integers(0, 3)) == 0:
                        out[f.name] = self.M.default(f)[0]
                        continue
                out[f.name] = self.draw(draw, self.M.eff(f.type), depth - 1)
            self.fixwith(r, out)
            return out
        if k == 'CHOICE':
            if depth <= 0:
                f = min(r.fields, key=lambda f: self.weight(f.type))
            else:
                f = r.fields[draw(st.integers(0, len(r.fields) - 1))]
            return (f.name, self.draw(draw, self.M.eff(f.type), depth - 1))
        if k in ('SEQUENCE OF', 'SET OF'):
            c = cons(r)
            lo = int(c.slo)
            hi = int(min(c.shi, lo + (3 if depth > 2 else 1)))
            if depth <= 0: hi = lo
            e = self.M.eff(r.elem)
            if hi == lo + 3 and self.weight(r.elem) < 8 and draw(st.integers(0, 11)) == 7: lo, hi = hi, int(min(c.shi, hi + 12))
            if hi > 20: return [self.minimal(r.elem, i) for i in range(lo)]
            return [self.draw(draw, e, depth - 1) for _ in range(draw(st.integers(lo, hi)))]
        return draw(self.scalar_strategy(r))

    _sc = None

    def scalar_strategy(self, r):
        if self._sc is None: self._sc = {}
        key = id(r)
        if key not in self._sc: self._sc[key] = (r, self._scalar_strategy(r))
        return self._sc[key][1]

    def _scalar_strategy(self, r):
        k, c = r.kind, cons(r)
        if c.values is not None: return st.sampled_from(c.values)
        if k == 'BOOLEAN': return st.booleans()
        if k in ('INTEGER', 'ENUMERATED'):
            if k == 'ENUMERATED' and r.named: return st.sampled_from(sorted(r.named.values()))
            if c.ranges: return st.one_of(*[st.integers(int(a), int(b)) for a, b in c.ranges])
            lo = None if c.lo == -INF else int(c.lo)
            hi = None if c.hi == INF else int(c.hi)
            s = st.integers(lo, hi)
            if lo is None and hi is None:
                s = st.one_of(s, st.integers(-(1 << 1030), 1 << 1030))
            if r.named:
                ok = [v for v in r.named.values() if c.lo <= v <= c.hi]
                if ok: s = st.one_of(s, st.sampled_from(ok))
            return s
        if k == 'NULL': return st.none()
        if k == 'OBJECT IDENTIFIER': return oids()
        if k == 'UTCTime':
            return st.datetimes(datetime.datetime(1950, 1, 1), datetime.datetime(2049, 12, 31)).map(lambda d: d.strftime('%y%m%d%H%M%SZ'))
        if k == 'GeneralizedTime':
            return st.datetimes(datetime.datetime(1600, 1, 1), datetime.datetime(9999, 12, 31)).map(lambda d: d.strftime('%Y%m%d%H%M%SZ').rjust(15, '0'))
        if k == 'ANY': return anys()
        lo = int(c.slo)
        hi = int(min(c.shi, lo + 40))
        if c.sizes: lo, hi = int(c.sizes[0][0]), int(c.sizes[0][1])
        spelled = [v for v in (spellings(r) if k in asn1ref.CHARKINDS or k in ('OCTET STRING', 'BIT STRING') else ()) if all(asn1ref.holds(r, x, v) for x in r.cons)]
        def often(s): return st.integers(0, 5).flatmap(lambda i: st.sampled_from(spelled) if i == 5 else s) if spelled else s
        if k == 'OCTET STRING': return often(st.binary(min_size=lo, max_size=hi))
        if k == 'BIT STRING': return often(st.text('01', min_size=lo, max_size=hi))
        alpha = {'NumericString': st.sampled_from(' 0123456789'),
                 'PrintableString': st.sampled_from(PRINTABLE),
                 'IA5String': st.characters(max_codepoint=127), 'VisibleString': st.characters(min_codepoint=32, max_codepoint=126),
                 'ISO646String': st.characters(min_codepoint=32, max_codepoint=126),
                 'UTF8String': st.characters(exclude_categories=['Cs']), 'BMPString': st.characters(max_codepoint=0xffff, exclude_categories=['Cs']),
                 'UniversalString': st.characters(exclude_categories=['Cs'])}.get(k, st.characters(max_codepoint=255))
        for x in r.cons:
            if x[0] == 'from': alpha = st.sampled_from(sorted(x[1]))
        return often(st.text(alpha, min_size=lo, max_size=hi))


def oids():
    arc = st.one_of(st.integers(0, 200), st.integers(0, 2 ** 35))
    return st.one_of(st.sampled_from(ALIKE),
        st.tuples(st.sampled_from([0, 1]), st.integers(0, 39)).flatmap(lambda a: st.lists(arc, max_size=8).map(lambda l: a + tuple(l))),
        st.tuples(st.just(2), st.integers(0, 2000)).flatmap(lambda a: st.lists(arc, max_size=8).map(lambda l: a + tuple(l))))


def anys():
    prim = st.one_of(st.integers(-2 ** 70, 2 ** 70).map(lambda n: tlv((0, 2), False, intbytes(n))),
                     st.binary(max_size=20).map(lambda b: tlv((0, 4), False, b)),
                     st.just(b'\x05\x00'), st.booleans().map(lambda b: b'\x01\x01' + (b'\xff' if b else b'\0')),
                     oids().map(asn1ref.oid_tlv),
                     st.tuples(st.integers(0, 40), st.binary(max_size=6)).map(lambda x: tlv((2, x[0]), False, x[1])))
    return st.one_of(prim, st.lists(prim, max_size=3).map(lambda l: tlv((0, 16), True, b''.join(l))))
