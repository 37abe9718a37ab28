"""Malformed input is refused with a pyasn1 error or read as published, never misread; nothing else is raised, nothing hangs."""
import random, signal
from checks.common import *
from checks import opens as O

PROPERTY = 'C10'
RULE = ('a case is one exported type and one octet string: a valid encoding disturbed by structural mutations (tag class, tag number, '
        'primitive/constructed bit, components deleted, repeated, reordered, nested, unwrapped, replaced by elements of other types), '
        'by octet mutations (flips, truncation, insertion, wrong lengths), the encoding of a value of another type, or random octets. '
        'The strict reference decoder says whether the octets still have a published meaning. Non-trivial: at least one whole element '
        'can be read from the octets.')
ASSUMPTIONS = ['octets that only break a rule about primitive contents (minimal INTEGER, character sets, BOOLEAN 01) are the codec\'s '
               'matter: they may be accepted or refused, but nothing other than a pyasn1 error may be raised',
               'nesting is at most 12 deeper than in a valid value (pyasn1 recurses)']
LIMIT = 20


class Hang(Exception): pass


def alarm(*a): raise Hang('no result within %d seconds' % LIMIT)


def shards(tier, seed):
    return stripe([k for k in typenames() if public(k) and k not in UNDECODABLE], 64)


_pool = []


def pool():
    """encodings of values of many types, to be put where they do not belong"""
    if not _pool:
        for k in sorted(typenames()):
            if not public(k): continue
            t = M.entries[k].type
            b = M.encode(t, G.minimal(t))
            if len(b) < 60: _pool.append(b)
    return _pool


PRIMS = [b'\x05\x00', b'\x02\x01\x05', b'\x04\x02ab', b'\x30\x00', b'\x31\x00', b'\x03\x02\x00\x01', b'\x06\x03\x2a\x03\x04', b'\x0c\x01a',
         b'\x13\x01a', b'\x16\x01a', b'\x1e\x02\x00a', b'\x17\x0d700101000000Z', b'\x18\x0f19700101000000Z', b'\x01\x01\xff', b'\x0a\x01\x00',
         b'\x80\x00', b'\xa0\x00', b'\x81\x01a', b'\xa1\x02\x05\x00', b'\xa0\x03\x02\x01\x00', b'\x82\x00', b'\x00\x00', b'\x41\x01\x00', b'\x60\x00', b'\xbf\x1f\x00',
         b'\x24\x04\x04\x02ab', b'\x09\x00', b'\x30\x03\x02\x01\x01', b'\xe0\x00']


def content(rnd, tr):
    """other contents in a primitive element"""
    leaves = []
    def walk(ts, path):
        for i, n in enumerate(ts):
            if n[1] is None: leaves.append(path + (i,))
            else: walk(n[1], path + (i,))
    walk(tr, ())
    if not leaves: return tr
    path = rnd.choice(leaves)
    kids = tr if len(path) == 1 else at(tr, path[:-1])[1]
    n, x = kids[path[-1]], rnd.random()
    if x < .35:
        c = rnd.choice(gen.OCTETS)
        if rnd.random() < .2: c += rnd.choice(gen.OCTETS)
    elif x < .7: c = bytes(rnd.choice((0, 0x20, 0x30, 0x41, 0x80, 0xff, rnd.randrange(256))) if rnd.random() < .3 else rnd.randrange(256) for _ in range(rnd.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 32, 33, 64, 130))))
    elif x < .85: c = n[2] + bytes([rnd.randrange(256)]) * rnd.choice((1, 1, 2, 9))
    else: c = n[2][:rnd.randrange(1 + len(n[2]))]
    kids = kids[:path[-1]] + [[n[0], None, c]] + kids[path[-1] + 1:]
    return kids if len(path) == 1 else withkids(tr, path[:-1], kids)


def structural(rnd, tr):
    """one structural mutation of a tree"""
    every = [()]
    def walk(ts, path):
        for i, n in enumerate(ts):
            every.append(path + (i,))
            if n[1] is not None: walk(n[1], path + (i,))
    walk(tr, ())
    path = rnd.choice(every[1:])
    def edit(ts, path, fn):
        i = path[0]
        if len(path) == 1: return ts[:i] + fn(ts[i], ts, i) + ts[i + 1:]
        n = ts[i]
        return ts[:i] + [[n[0], edit(n[1], path[1:], fn), n[2]]] + ts[i + 1:]
    def foreign():
        b = rnd.choice(PRIMS) if rnd.random() < .6 else rnd.choice(pool())
        if b[:1] == b'\0': return [[b'\0', None, b'']]
        return tree(b)
    op = rnd.choice(('tag', 'tag', 'class', 'form', 'drop', 'dup', 'swap', 'wrap', 'unwrap', 'foreign', 'foreign', 'insert', 'empty', 'reorder', 'graft', 'strip'))
    def fn(n, ts, i):
        ident = n[0]
        if op == 'tag':
            if ident[0] & 31 == 31:
                return [[ident[:-1] + bytes([ident[-1] ^ (1 << rnd.randrange(5))]), n[1], n[2]]]
            x = (ident[0] & 31) ^ (1 << rnd.randrange(5)) if rnd.random() < .4 else max(0, (ident[0] & 31) + rnd.choice((-1, 1, 2)))
            x &= 31
            if x == 31: return [[bytes([ident[0] | 31, 31]), n[1], n[2]]]
            return [[bytes([ident[0] & 0xe0 | x]), n[1], n[2]]]
        if op == 'class': return [[bytes([ident[0] ^ rnd.choice((0x40, 0x80, 0xc0))]) + ident[1:], n[1], n[2]]]
        if op == 'form':
            return [[bytes([ident[0] ^ 0x20]) + ident[1:], n[1], n[2]]]
        if op == 'drop': return []
        if op == 'dup': return [n, n]
        if op == 'wrap': return [[rnd.choice((b'\x30', b'\x31', b'\xa0', b'\xa1', b'\x24', ident[:1])), [n], b'']]
        if op == 'unwrap': return n[1] if n[1] is not None else []
        if op == 'foreign': return foreign()[:1]
        if op == 'insert': return [n] + foreign() if rnd.random() < .6 else foreign() + [n]
        if op == 'empty': return [[ident, None if n[1] is None else [], b'']]
        if op == 'reorder' and n[1]:
            k = list(n[1])
            rnd.shuffle(k)
            return [[ident, k, n[2]]]
        if op == 'strip' and n[1]: return [[ident, n[1][:rnd.randrange(len(n[1]))], n[2]]]
        if op == 'graft':
            p = rnd.choice(every[1:])
            return [at(tr, p)]
        return [n]
    if op == 'swap':
        def fn2(n, ts, i): return [n]
        parent = path[:-1]
        kids = tr if not parent else at(tr, parent)[1]
        i = path[-1]
        if i + 1 < len(kids):
            kids = kids[:i] + [kids[i + 1], kids[i]] + kids[i + 2:]
            return op, (kids if not parent else withkids(tr, parent, kids))
        return op, tr
    return op, edit(tr, path, fn)


def octetwise(rnd, b):
    op = rnd.choice(('flip', 'flip', 'byte', 'cut', 'insert', 'delete', 'length', 'tail', 'indefinite'))
    if not b: return op, bytes([rnd.randrange(256)])
    i = rnd.randrange(len(b)) if rnd.random() < .5 else min(len(b) - 1, int(rnd.expovariate(.2)))
    if op == 'flip': return op, b[:i] + bytes([b[i] ^ (1 << rnd.randrange(8))]) + b[i + 1:]
    if op == 'byte': return op, b[:i] + bytes([rnd.choice((0, 1, 0x7f, 0x80, 0x81, 0xff, 0x1f, 0x3f, rnd.randrange(256)))]) + b[i + 1:]
    if op == 'cut': return op, b[:i]
    if op == 'insert': return op, b[:i] + bytes(rnd.randrange(256) for _ in range(rnd.choice((1, 1, 2, 4)))) + b[i:]
    if op == 'delete': return op, b[:i] + b[i + rnd.choice((1, 1, 2, 4)):]
    if op == 'length': return op, b[:1] + rnd.choice((b'\x84\xff\xff\xff\xff', b'\x80', b'\x81\x00', b'\xff', b'\x82\x01\x00', b'\x88' + b'\xff' * 8)) + b[2:]
    if op == 'indefinite': return op, b[:1] + b'\x80' + b[2:] + b'\x00\x00'
    return op, b + rnd.choice(PRIMS)


def indefinite(b):
    """does an element of indefinite length occur anywhere (BER; not in the DER the reference reads)"""
    return b'\x80' in b


def crashes(key, b):
    """the same octets with open types resolved"""
    if not O.has_open(M.entries[key].type): return None
    try: der_dec.decode(b, asn1Spec=repo.spec(*key), decodeOpenTypes=True)
    except (PyAsn1Error, OverflowError): pass
    except Hang: raise
    except Exception as e:
        if str(e) not in BITS: return ('crash', 'decoding %s with open types: %s' % (hexs(b), short(e)))
    return None


def look(key, b):
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try: return verdict(key, b) or crashes(key, b)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def readable(b):
    try: asn1ref.readtlv(b)
    except asn1ref.Reject: return False
    return True


def shrink(key, b, op):
    """smaller octets that fail the same way"""
    budget = 400
    def bad(x):
        g = look(key, x)
        return g is not None and g[0] == op
    again = True
    while again and budget > 0:
        again = False
        try: tr = tree(b)
        except asn1ref.Reject: tr = None
        cands = []
        if tr:
            def walk(ts, path):
                for i, n in enumerate(ts):
                    yield path + (i,)
                    if n[1] is not None:
                        for p in walk(n[1], path + (i,)): yield p
            for p in walk(tr, ()):
                kids = tr if len(p) == 1 else at(tr, p[:-1])[1]
                new = kids[:p[-1]] + kids[p[-1] + 1:]
                cands.append(untree(new if len(p) == 1 else withkids(tr, p[:-1], new)))
                n = at(tr, p)
                if n[1] is None and len(n[2]) > 1:
                    new = kids[:p[-1]] + [[n[0], None, n[2][:1]]] + kids[p[-1] + 1:]
                    cands.append(untree(new if len(p) == 1 else withkids(tr, p[:-1], new)))
        else: cands = [b[:i] + b[i + 1:] for i in range(len(b))]
        for x in cands:
            if len(x) >= len(b): continue
            budget -= 1
            if budget <= 0: break
            if bad(x):
                b, again = x, True
                break
    return b


def run(item, ctx):
    for key in item:
        if exists(key): continue
        t = M.entries[key].type
        rnd = random.Random(seeded(ctx.seed, key))
        bases = []
        for v in [v for _, v in G.brief(t)][:20] + [G.minimal(t), G.maximal(t)]:
            b = M.encode(t, v)
            if b and b not in bases: bases.append(b)
        n = (150 if ctx.tier == 'quick' else 1500) * (1 if M.eff(t).kind in repo.SCALAR else 3)
        seen = set()

        def probe(cls, b):
            if b in seen or len(b) > 6000: return
            seen.add(b)
            ctx.case(tname(key) + b.hex(), readable(b), cls, '%s %s: %s' % (tname(key), cls, hexs(b)))
            try: got = look(key, b)
            except Hang as e: got = ('hang', '%s: %s' % (hexs(b), e))
            if got:
                g = '%s %s' % (tname(key), got[0])
                if g in ctx.failures: return
                if got[0] != 'hang':
                    b = shrink(key, b, got[0])
                    got = look(key, b)
                ctx.fail(g, got[1], {'type': tname(key), 'op': got[0], 'octets': b.hex(), 'error': errname(got[1])})
        for b in PRIMS: probe('element of another type', b)
        probe('nothing', b'')
        for i in range(n):
            b = rnd.choice(bases)
            x = rnd.random()
            if x < .2:
                try: tr = content(rnd, tree(b))
                except asn1ref.Reject: continue
                if rnd.random() < .3: tr = content(rnd, tr)
                probe('contents', untree(tr))
            elif x < .65:
                try: tr = tree(b)
                except asn1ref.Reject: continue
                for _ in range(rnd.choice((1, 1, 1, 2, 3))):
                    if not tr: break
                    op, tr = structural(rnd, tr)
                probe('structural ' + op, untree(tr))
            elif x < .87:
                for _ in range(rnd.choice((1, 1, 1, 2, 4))): op, b = octetwise(rnd, b)
                probe('octets ' + op, b)
            elif x < .95: probe('value of another type', rnd.choice(pool()))
            else: probe('random octets', bytes(rnd.choice((0x30, 0x31, 0xa0, 0xa1, 0x02, 0x04, 0x05, 0x80, 0, 1, 2, 3, rnd.randrange(256))) for _ in range(rnd.choice((1, 2, 3, 5, 8, 20)))))


def replay(c):
    got = look(tkey(c['type']), bytes.fromhex(c['octets']))
    return got and got[1]
