"""Types, registries and the PEM reader can be used from several threads at once."""
import io, os, pickle, random, sys, threading, importlib
from checks.common import *
from checks import opens as O, c08, c09
from hypothesis import strategies as st

PROPERTY = 'C20'
TASKS_PER_CHILD = 1
RULE = ('a case is one schedule: two to four threads that each decode, encode, build, print, convert or refuse values of a type (with types shared '
        'or not), or read PEM streams, in a fresh process in which the modules are imported but nothing has been used; a scheduler that hands one baton '
        'round switches between them after a generated number of calls in pyasn1 and lines in the package. Each operation must come out as it does alone. '
        'Or one set of threads that import modules at the same time in a fresh process; what is registered afterwards must be what is published. '
        'Non-trivial: at least two switches took place while both threads had work left, or two threads imported at once.')
ASSUMPTIONS = ['threads switch at calls inside pyasn1 and at lines inside the package, not between the bytecodes of one line',
               'interleavings of imports are those the interpreter happens to produce under a short switch interval']
STALL = .2


class Baton(object):
    """runs functions in threads of which one at a time makes progress"""
    def __init__(self, jobs, gaps, ours=False):
        self.jobs, self.gaps, self.ours = jobs, list(gaps), ours
        self.go = [threading.Semaphore(0) for _ in jobs]
        self.done = [False] * len(jobs)
        self.left = self.gaps.pop(0) if self.gaps else -1
        self.ticks = self.switches = 0
        self.free = False
        self.me = threading.local()
        self.results = [None] * len(jobs)

    def next(self, i):
        n = len(self.jobs)
        for k in range(1, n + 1):
            j = (i + k) % n
            if not self.done[j]: return j

    def wait(self, i):
        t, idle = self.ticks, 0
        while not self.free:
            if self.go[i].acquire(timeout=STALL): return
            idle = idle + 1 if self.ticks == t else 0
            t = self.ticks
            if idle > 3: self.free = True           # the holder is stuck on something a waiting thread has: let all go

    def tick(self):
        self.ticks += 1
        if self.free or self.left < 0: return
        self.left -= 1
        if self.left >= 0: return
        self.left = self.gaps.pop(0) if self.gaps else -1
        i = self.me.i
        j = self.next(i)
        if j is None or j == i: return
        self.switches += 1
        self.go[j].release()
        self.wait(i)

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(OURS):
            self.tick()
            return self.line
        if f.startswith(PYASN1) and not self.ours: self.tick()
        return None

    def line(self, frame, event, arg):
        if event == 'line': self.tick()
        return self.line

    def thread(self, i):
        self.me.i = i
        self.wait(i)
        sys.settrace(self.trace)
        try: self.results[i] = self.jobs[i]()
        except BaseException as e: self.results[i] = ['thread ends with ' + short(e)]
        finally:
            sys.settrace(None)
            self.done[i] = True
            j = self.next(i)
            if j is not None: self.go[j].release()

    def run(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in ts: t.start()
        self.go[0].release()
        for t in ts:
            t.join(60)
            if t.is_alive(): raise framework.Hang('a thread does not end')
        return self.results


OURS = os.path.join(repo.REPO, 'pyasn1_modules') + os.sep
PYASN1 = os.path.join(repo.VENV, 'pyasn1') + os.sep


# ------------------------------------------------------------------ operations
def outcome(op, specs):
    """op: (name, key, octets or value or text, salt)"""
    name, key, arg, salt = op
    try:
        if name == 'pem': return pems(arg, salt)
        if name == 'base64':
            from pyasn1_modules import pem
            return repr(pem.readBase64fromText(arg)) + repr(pem.readBase64FromFile(io.StringIO(arg)))
        t = M.entries[key].type
        if name == 'build': return der_enc.encode(A.build(t, arg, key, 'inplace' if salt % 2 else 'assign')).hex()
        spec = specs[key] if key in specs else repo.new(*key)
        w, rest = (ber_dec if name == 'ber' else der_dec).decode(arg, asn1Spec=spec, decodeOpenTypes=name in ('open', 'openprint'))
        out = [rest.hex()]
        if name in ('print', 'openprint'): out.append(w.prettyPrint())
        elif name == 'native':
            from pyasn1.codec.native import encoder
            out.append(repr(encoder.encode(w)))
        elif name != 'open': out.append(repr(A.extract(t, w)))
        out.append(der_enc.encode(w).hex())
        return '|'.join(out)
    except (Mismatch, Exception) as e: return 'raises ' + type(e).__name__


def pems(text, salt):
    from pyasn1_modules import pem
    f, out = io.StringIO(text), []
    ms = [('-----BEGIN %s-----' % x, '-----END %s-----' % x) for x in c09names(salt)]
    for _ in range(9):
        if salt % 3 == 2: got = pem.readPemFromFile(f, *ms[0])
        else: got = pem.readPemBlocksFromFile(f, *ms)
        out.append(got)
        if got in (b'', '', (-1, b''), (-1, '')): break
    return repr(out)


NAMES = ('CERTIFICATE', 'A', 'B', 'PRIVATE KEY')


def c09names(salt): return [NAMES[(salt + k) % 4] for k in range(1 + salt % 4)]


def alone(threads, shared):
    """outcomes, and how many lines of the package ran"""
    specs = {k: repo.new(*k) for k in shared}
    lines = [0]

    def line(frame, event, arg):
        lines[0] += event == 'line'
        return line
    sys.settrace(lambda frame, event, arg: line if frame.f_code.co_filename.startswith(OURS) else None)
    try: return [[outcome(op, specs) for op in ops] for ops in threads], lines[0]
    finally: sys.settrace(None)


def together(threads, gaps, shared, ours):
    specs = {k: repo.new(*k) for k in shared}

    def job(ops): return lambda: [outcome(op, specs) for op in ops]
    b = Baton([job(ops) for ops in threads], gaps, ours)
    return b.run(), b.switches, b.free


def child(fn, *args):
    """result of fn(*args) in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            framework.watch(framework.CPU)
            try: res = ('ok', fn(*args))
            except framework.Hang as e: res = ('hang', str(e))
            except BaseException as e: res = ('error', short(e))
            with os.fdopen(w, 'wb') as f: pickle.dump(res, f)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    os.waitpid(pid, 0)
    res = pickle.loads(data) if data else ('error', 'the process died')
    if res[0] == 'hang': raise framework.Hang(res[1])
    return res


def judge(threads, gaps, shared, ours=None):
    """(message or None, switches, gaps, ours); ours: switch at lines of the package only.  When lines of the package run at all,
    more schedules that switch there are tried"""
    a = child(alone, threads, shared)
    if a[0] != 'ok': raise RuntimeError(a[1])
    want, lines = a[1]
    plans = [(gaps, bool(ours))]
    if ours is None and lines:
        rnd = random.Random(repr((threads, gaps)))
        plans += [([rnd.randrange(1 + lines)] + [rnd.choice((0, 0, 1, 2, 3, 5, 9)) for _ in range(rnd.randrange(24))], True) for _ in range(16 if threads[0][0][1] else 4)]
    total = 0
    for g, o in plans:
        m, sw = compare(threads, g, shared, o, want)
        if m: return m, sw, g, o
        total = -1 if sw < 0 or total < 0 else total + sw
    return None, total, gaps, False


def compare(threads, gaps, shared, ours, want):
    b = child(together, threads, gaps, shared, ours)
    if b[0] != 'ok': return 'running the threads: ' + b[1], 0
    got, switches, free = b[1]
    for i, (x, y) in enumerate(zip(want, got)):
        for j, op in enumerate(threads[i]):
            p, q = x[j], y[j] if j < len(y) else y[-1]
            if p != q:
                arg = op[2].hex() if isinstance(op[2], bytes) else repr(op[2])
                k = next((n for n in range(min(len(p), len(q))) if p[n] != q[n]), 0)
                k = max(0, k - 30)
                return 'thread %d, %s %s %s: alone ...%s, beside %d other(s) ...%s' % (i, op[0], tname(op[1]) if op[1] else '', arg[:200], p[k:k + 200], len(threads) - 1, q[k:k + 200]), switches
    return None, -1 if free else switches


# ------------------------------------------------------------------ generation
KINDS = ('decode', 'decode', 'build', 'print', 'open', 'openprint', 'native', 'ber', 'bad', 'short')
gaps = st.lists(st.one_of(st.integers(0, 12), st.integers(0, 150), st.integers(0, 700)), min_size=1, max_size=24)


def op(key, v, kind, salt):
    t = M.entries[key].type
    if kind == 'build': return ('build', key, v, salt)
    b = M.encode(t, v)
    if kind == 'bad':
        b, kind = b[:-1] + bytes([b[-1] ^ 1 + salt % 255]) if salt % 2 else bytes([b[0] ^ 1]) + b[1:], 'decode'
    elif kind == 'short': b, kind = b[:-1 - salt % 3], 'decode'
    return (kind, key, b, salt)


def schedule(keys):
    @st.composite
    def s(draw):
        key = keys[0]
        n = draw(st.sampled_from((2, 2, 2, 3, 4)))
        threads, used = [], set()
        for _ in range(n):
            ops = []
            for _ in range(draw(st.sampled_from((1, 1, 2, 3)))):
                k = key if draw(st.integers(0, 3)) else draw(st.sampled_from(keys))
                used.add(k)
                ops.append(op(k, draw(G.strategy(M.entries[k].type)), draw(st.sampled_from(KINDS)), draw(st.integers(0, 7))))
            threads.append(ops)
        return threads, draw(gaps), sorted(used) if draw(st.booleans()) else []
    return s()


def block(name, octets, width):
    import base64
    x = base64.b64encode(octets).decode()
    return ['-----BEGIN %s-----' % name] + [x[i:i + width] for i in range(0, len(x), width)] + ['-----END %s-----' % name]


def text():
    @st.composite
    def s(draw):
        out = []
        for _ in range(draw(st.integers(1, 4))):
            k = draw(st.integers(0, 5))
            if k == 0: out.append('rubbish')
            b = block(draw(st.sampled_from(NAMES)), draw(st.binary(min_size=1, max_size=40)), draw(st.sampled_from((4, 16, 64))))
            out += b[:-1] if k == 1 else b
        return '\n'.join(out) + '\n'
    return s()


def pemschedule():
    one = st.one_of(st.tuples(st.just('pem'), st.none(), text(), st.integers(0, 11)),
                    st.tuples(st.just('base64'), st.none(), st.binary(max_size=30).map(lambda b: __import__('base64').b64encode(b).decode()), st.integers(0, 1)))
    return st.tuples(st.lists(st.lists(one, min_size=1, max_size=2), min_size=2, max_size=4), gaps, st.just([]))


# ------------------------------------------------------------------ imports
CONFLICT = {(mp, oid) for mp, d in c08.BYMAP.items() for oid, l in d.items() if len({O.typetext(t) for _, t in l}) > 1}


def importing(groups):
    """(problems, loaded, probes)"""
    import time
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    gate, errors = threading.Barrier(len(groups)), []

    def go(mods):
        gate.wait(30)
        for m in mods:
            try: importlib.import_module('pyasn1_modules.' + m)
            except Exception as e: errors.append(('import', m, (), 'importing %s beside others: %s' % (m, short(e))))
    ts = [threading.Thread(target=go, args=(g,), daemon=True) for g in groups]
    for t in ts: t.start()
    for t in ts:
        t.join(120)
        if t.is_alive(): return [('import', '', (), 'importing %s in threads does not end' % ' | '.join(' '.join(g) for g in groups))], [], 0
    sys.setswitchinterval(old)
    mods = c08.loaded()
    obs, n = c08.observe(mods)
    return errors + [p for p in c08.judge(mods, obs) if (p[1], p[2]) not in CONFLICT], sorted(mods), n


def imports(ctx, groups):
    assert not c08.loaded()
    r = child(importing, groups)
    if r[0] != 'ok': raise RuntimeError(r[1])
    problems, mods, n = r[1]
    ctx.case(repr(groups), len(groups) > 1, 'imports in %d threads' % len(groups), ' | '.join(' '.join(g) for g in groups))
    ctx.count('probes after imports', n)
    for kind, mp, oid, msg in problems:
        ctx.fail('%s %s %s' % (kind, mp, '.'.join(map(str, oid))), 'after importing in threads %s: %s' % (' | '.join(' '.join(g) for g in groups), msg), {'kind': 'imports', 'groups': groups})


def closure(m):
    importlib.import_module('pyasn1_modules.' + m)
    return sorted(c08.loaded())


def during(m, k, n):
    """import n in another thread after k lines of module m have run; (lines of m that ran, problems)"""
    import _thread
    path = os.path.join(OURS, m + '.py')
    count, errors = [0], []

    def other():
        try: importlib.import_module('pyasn1_modules.' + n)
        except Exception as e: errors.append(('import', n, (), 'importing %s while %s is: %s' % (n, m, short(e))))

    def line(frame, event, arg):
        if event != 'line': return line
        count[0] += 1
        if count[0] == k:
            t = threading.Thread(target=other, daemon=True)
            t.start()
            t.join(10)
            if t.is_alive(): errors.append(('import', n, (), 'importing %s while %s is does not end' % (n, m)))
        return line
    sys.settrace(lambda frame, event, arg: line if frame.f_code.co_filename == path else None)
    try: importlib.import_module('pyasn1_modules.' + m)
    except Exception as e: errors.append(('import', m, (), 'importing %s while %s is: %s' % (m, n, short(e))))
    finally: sys.settrace(None)
    if errors or not n: return count[0], errors, 0
    mods = c08.loaded()
    obs, probes = c08.observe(mods, (m, n))
    return count[0], [p for p in c08.judge(mods, obs) if (p[1], p[2]) not in CONFLICT], probes


def overlaps(m, n, seed, some):
    """[(k, problems, probes)] for some places k in module m"""
    a, b = child(closure, m), child(closure, n)
    if a[0] != 'ok' or b[0] != 'ok' or m in b[1] or n in a[1]: return []
    for x in a[1] + b[1]:
        if x not in (m, n): importlib.import_module('pyasn1_modules.' + x)
    c = child(during, m, 0, '')
    if c[0] != 'ok': return []
    lines = c[1][0]
    rnd = random.Random('%s %s %s' % (seed, m, n))
    out = []
    for k in sorted(set(range(max(1, lines - some), lines + 1)) | {rnd.randint(1, lines) for _ in range(some // 2)}):
        r = child(during, m, k, n)
        out.append((k, r[1][1] if r[0] == 'ok' else [('import', m, (), 'importing %s while %s is: %s' % (n, m, r[1]))], r[1][2] if r[0] == 'ok' else 0))
    return out


def overlap(ctx, m, n, some):
    r = child(overlaps, m, n, ctx.seed, some)
    if r[0] != 'ok': raise RuntimeError(r[1])
    for k, problems, probes in r[1]:
        ctx.case('%s %d %s' % (m, k, n), True, 'import during an import', '%s imported at line event %d of %s' % (n, k, m))
        ctx.count('probes after imports', probes)
        for kind, mp, oid, msg in problems:
            ctx.fail('%s %s %s' % (kind, mp, '.'.join(map(str, oid))), '%s imported by another thread at line event %d of %s: %s' % (n, k, m, msg), {'kind': 'overlap', 'm': m, 'n': n, 'k': k, 'some': some, 'seed': ctx.seed})


# ------------------------------------------------------------------ running
def shards(tier, seed):
    quick = tier == 'quick'
    ks = [k for k in typenames() if public(k) and k not in UNDECODABLE]
    rnd = random.Random(str(seed))
    tables = {m: {mp for x, mp, _, _ in M.regs if x == m} for m in M.mods}
    pairs = []
    for m in M.mods:
        ns = [x for x in c08.REGMODS if x != m]
        alike = [x for x in ns if tables[x] & tables[m]]
        pairs += [(m, n) for n in rnd.sample(alike, min(len(alike), 1 if quick else 5)) + rnd.sample(ns, 0 if quick and alike else 1)]
    return [('overlap', pairs[i::16], 8 if quick else 40) for i in range(16)] + [('types', s) for s in stripe(ks, 48)] + [('pem', i, 60 if quick else 900) for i in range(8)] + [('imports', i, 3 if quick else 30) for i in range(8)]


def jsonop(o):
    return [o[0], tname(o[1]) if o[1] else None, tojson(o[2]), o[3]]


def pyop(o):
    return (o[0], tkey(o[1]) if o[1] else None, fromjson(o[2]), o[3])


def load():
    """import everything and use nothing"""
    import pyasn1.codec.native.encoder, pyasn1.codec.native.decoder, pyasn1_modules.pem
    for m in M.mods:
        try: repo.module(m)
        except Exception: pass


def run(item, ctx):
    if item[0] == 'overlap':
        for m, n in item[1]: overlap(ctx, m, n, item[2])
        return
    if item[0] == 'imports':
        rnd = random.Random('%s imports %s' % (ctx.seed, item[1]))
        for _ in range(item[2]):
            ms = rnd.sample(M.mods, rnd.choice((4, 12, 40, len(M.mods))))
            n = rnd.choice((2, 3, 4, 8))
            groups = [ms[i::n] for i in range(n)]
            if rnd.random() < .4: groups = [rnd.sample(ms, len(ms)) for _ in range(min(n, 3))]        # the same ones at the same time
            imports(ctx, [g for g in groups if g])
        return
    load()

    def fn(x, label):
        threads, gs, shared = x
        m, sw, gs, ours = judge(threads, gs, shared)
        ctx.case(repr(x), sw >= 2 and len(threads) > 1, label, '%s gaps %s %s' % ([[(o[0], tname(o[1]) if o[1] else '') for o in ops] for ops in threads], gs, 'shared types' if shared else ''))
        if sw < 0: ctx.count('stalled schedules')
        else: ctx.count('switches', sw)
        for ops in threads:
            for o in ops: ctx.count('op ' + o[0])
        if m:
            why.append((gs, ours))
            raise Violation(m)
    why = []

    def failed(got, group):
        threads, _, shared = got[0]
        gs, ours = why[-1]
        ctx.fail(group, str(got[1]) + '; gaps %s' % gs, {'kind': 'schedule', 'threads': [[jsonop(o) for o in ops] for ops in threads], 'gaps': gs, 'ours': ours, 'shared': [tname(k) for k in shared]})
    if item[0] == 'pem':
        got = framework.hypo(pemschedule(), lambda x: fn(x, 'PEM'), seeded(ctx.seed, 'c20', item[1]), item[2])
        if got: failed(got, 'pem')
        return
    keys = [k for k in item[1] if k in M.entries and not exists_quiet(k)]
    rnd = random.Random('%s %s' % (ctx.seed, len(keys)))
    for key in keys:
        near = [k for k in keys if k[0] == key[0]][:4]
        calls = [0]

        def one(x):
            calls[0] += 1
            if calls[0] > 1: fn(x, 'types')          # Hypothesis starts with the dullest
        got = framework.hypo(schedule([key] + near + rnd.sample(keys, min(2, len(keys)))), one, seeded(ctx.seed, 'c20', key), 3 if ctx.tier == 'quick' else 20)
        if got: failed(got, tname(key))


def exists_quiet(key):
    """does the module lack the name?  (without using the type)"""
    try: return not hasattr(repo.module(key[0]), key[1])
    except Exception: return True


def replay(c):
    if c['kind'] == 'overlap':
        r = child(overlaps, c['m'], c['n'], c['seed'], c['some'])
        if r[0] != 'ok': return r[1]
        return next((p[0][3] for k, p, _ in r[1] if p), None)
    if c['kind'] == 'imports':
        for _ in range(10):
            r = child(importing, c['groups'])
            if r[0] != 'ok': return r[1]
            if r[1][0]: return r[1][0][0][3]
        return None
    load()
    return judge([[pyop(o) for o in ops] for ops in c['threads']], c['gaps'], [tkey(k) for k in c['shared']], bool(c.get('ours')))[0]
