"""Runs a check: shards work over processes, collects counts, shrunk failures,
known findings; writes evidence and replay files."""
import json, os, sys, time, traceback, importlib, multiprocessing, hashlib, resource, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ------------------------------------------------------------ JSON of values
def tojson(v):
    if isinstance(v, bytes): return {'hex': v.hex()}
    if isinstance(v, dict): return {'seq': {k: tojson(x) for k, x in v.items()}}
    if isinstance(v, tuple):
        if len(v) == 2 and isinstance(v[0], str): return {'alt': [v[0], tojson(v[1])]}
        return {'oid': list(v)}
    if isinstance(v, list): return [tojson(x) for x in v]
    return v


def fromjson(v):
    if isinstance(v, list): return [fromjson(x) for x in v]
    if isinstance(v, dict):
        if 'hex' in v: return bytes.fromhex(v['hex'])
        if 'seq' in v: return {k: fromjson(x) for k, x in v['seq'].items()}
        if 'alt' in v: return (v['alt'][0], fromjson(v['alt'][1]))
        if 'oid' in v: return tuple(v['oid'])
    return v


# ------------------------------------------------------------ cases that do not end
CPU = 25                 # seconds of processor time for one case; the slowest on the unchanged tree take under one
MEMORY = 3 << 30         # address space of a worker


class Hang(BaseException):
    """the case now running does not end"""


def _hang(*a): raise Hang('no end after %d s of processor time' % CPU)


def watch(seconds=CPU):
    """a case begins"""
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 5 if seconds else 0)


class Ctx(object):
    """collects what one shard did"""
    def __init__(self, tier, seed, known):
        self.tier, self.seed, self.known = tier, seed, known
        self.evaluations = 0
        self.nontrivial = set()
        self.classes = {}
        self.samples = []
        self.failures = {}
        self.knownhits = {}
        self.last = None

    def count(self, cls, n=1):
        self.classes[cls] = self.classes.get(cls, 0) + n

    def case(self, key, nontrivial=True, cls=None, sample=None):
        """one evaluated case.  key: bytes/str identifying the case"""
        self.evaluations += 1
        watch()
        self.last = sample if sample is not None else key
        if nontrivial:
            if isinstance(key, str): key = key.encode('utf-8', 'surrogatepass')
            self.nontrivial.add(hashlib.blake2b(key, digest_size=8).digest())
        if cls: self.count(cls)
        if sample is not None and len(self.samples) < 4: self.samples.append(str(sample)[:400])

    def fail(self, group, message, case):
        """a violation.  group: failures are reported once per group (smallest case wins)"""
        for k in self.known:
            if matches_known(k, group, case):
                self.knownhits.setdefault(k['id'], message)
                return
        size = len(json.dumps(case))
        old = self.failures.get(group)
        if old is None or size < old[0]: self.failures[group] = (size, message, case)


def matches_known(k, group, case):
    m = k['match']
    if m.get('group') not in (None, group): return False
    for key, want in m.items():
        if key == 'group': continue
        got = case.get(key)
        if isinstance(want, list):
            if got not in want: return False
        elif got != want: return False
    return True


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]


def seeded(seed, *parts):
    """deterministic integer for hypothesis.seed()"""
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:6], 'big')


_mod = None


def _init(name):
    global _mod
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    if hard == resource.RLIM_INFINITY or hard > MEMORY: resource.setrlimit(resource.RLIMIT_AS, (MEMORY, hard))
    _mod = importlib.import_module('checks.' + name)


def blame(e):
    """is the exception raised by the code under test (or by pyasn1 on its behalf), and not by the check itself?"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None: tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename if tb is not None else ''
    return '/pyasn1' in f or (isinstance(e, AttributeError) and 'pyasn1' in (getattr(getattr(e, 'obj', None), '__name__', None) or type(getattr(e, 'obj', None)).__module__ or ''))


def _work(arg):
    item, tier, seed, known = arg
    ctx = Ctx(tier, seed, known)
    signal.signal(signal.SIGVTALRM, _hang)
    watch(3 * CPU)
    try:
        try: _mod.run(item, ctx)
        finally: watch(0)
    except Hang as e:
        ctx.fail('hang', 'the code under test does not come to an end: %s; %s' % (e, str(getattr(e, 'value', None) or 'after %s' % ctx.last)[:400]), {'shard': item, 'tier': tier, 'seed': seed, 'hang': True})
    except Exception as e:
        if not blame(e): return ('error', 'shard %r\n%s' % (item, traceback.format_exc()))
        ctx.fail('shard %r' % (item,), 'the code under test stops the check: %s' % ' '.join(traceback.format_exception(e)[-3:]).replace('\n', ' ')[-500:],
                 {'shard': item, 'tier': tier, 'seed': seed})
    return ('ok', ctx.evaluations, ctx.nontrivial, ctx.classes, ctx.samples, ctx.failures, ctx.knownhits)


def hypo(strategy, fn, seedno, n, label=None):
    """run fn(value) on n generated values; returns (smallest failing value, exception) or None.
    fn raises AssertionError / repo.Mismatch to report a failure."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    last = {}

    @hypothesis.seed(seedno)
    @settings(max_examples=n, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
              print_blob=False, verbosity=hypothesis.Verbosity.quiet)
    @given(strategy)
    def test(v):
        try:
            watch()
            fn(v)
        except Violation as e:
            last['v'] = (v, e)
            raise
        except Hang as e:
            e.value = getattr(e, 'value', None) or 'given %r' % (v,)
            raise
    try:
        test()
    except Violation:
        return last['v']
    except BaseException as e:
        # hypothesis may wrap (Flaky etc.); a recorded violation is still one
        if 'v' in last and 'Flaky' in type(e).__name__: return last['v']
        raise
    return None


class Violation(Exception):
    """the property does not hold on this case.  case: replayable description"""
    def __init__(self, message, group=None, case=None):
        Exception.__init__(self, message)
        self.group, self.case = group, case


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--only', help='run only shards whose repr contains this')
    a = ap.parse_args(argv)
    t0 = time.time()
    name = a.check
    mod = importlib.import_module('checks.' + name)
    prop = mod.PROPERTY
    if a.replay:
        doc = json.load(open(a.replay))
        if 'shard' in doc['case']:
            c = doc['case']
            item = [i for i in mod.shards(c['tier'], c['seed']) if json.loads(json.dumps(i)) == c['shard']]
            _init(name)
            r = _work((item[0], c['tier'], c['seed'], load_known(prop))) if item else ('gone',)
            msg = r[0] == 'ok' and ['%s: %s' % (g, f[1]) for g, f in r[5].items() if 'shard' in f[2]]
        else:
            signal.signal(signal.SIGVTALRM, _hang)
            watch(3 * CPU)
            try: msg = mod.replay(doc['case'])
            except Hang as e: msg = str(e)
            watch(0)
        if msg:
            print('REPLAY property=%s still fails: %s' % (prop, msg))
            return 1
        print('REPLAY property=%s passes' % prop)
        return 0
    known = load_known(prop)
    items = list(mod.shards(a.tier, a.seed))
    if a.only: items = [i for i in items if a.only in repr(i)]
    ev, nt, classes, samples, fails, khits, errors = 0, set(), {}, [], {}, {}, []
    args = [(i, a.tier, a.seed, known) for i in items]
    if a.jobs == 1:
        _init(name)
        results = map(_work, args)
        pool = None
    else:
        pool = multiprocessing.get_context('fork').Pool(a.jobs, _init, (name,), maxtasksperchild=getattr(mod, 'TASKS_PER_CHILD', None))
        results = pool.imap_unordered(_work, args, chunksize=1)
    got = []
    for r in results:
        got.append(r)
        if r[0] == 'ok' and any(f[2].get('hang') for f in r[5].values()):           # more of the same would take for ever
            if pool: pool.terminate()
            break
    if pool:
        pool.close()
        pool.join()
    for r in got:
        if r[0] == 'error':
            errors.append(r[1])
            continue
        ev += r[1]
        nt |= r[2]
        for k, n in r[3].items(): classes[k] = classes.get(k, 0) + n
        samples += r[4]
        for g, f in r[5].items():
            if g not in fails or f[0] < fails[g][0] or (f[0] == fails[g][0] and f[1] < fails[g][1]): fails[g] = f
        khits.update(r[6])
    samples.sort(key=lambda s: hashlib.blake2b(s.encode('utf-8', 'replace')).digest())
    cov = {'evaluations': ev, 'distinct_nontrivial': len(nt), 'rule': mod.RULE, 'samples': samples[:12],
           'classes': dict(sorted(classes.items())), 'shards': len(items)}
    if hasattr(mod, 'extra_coverage'): cov.update(mod.extra_coverage(a.tier))
    doc = {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration', 'coverage': cov,
           'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
           'violations': len(fails), 'known_findings': sorted(khits)}
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(doc, f, indent=1)
    for k in known:
        if k['id'] in khits:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if errors:
        for e in errors[:5]: print('HARNESS ERROR %s' % e, file=sys.stderr)
        if not fails: return 2
    if fails:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for n, (g, (size, msg, case)) in enumerate(sorted(fails.items(), key=lambda x: (x[1][0], x[0]))):
            if n >= int(os.environ.get('VERIF_SHOW', '15')):
                print('... and %d more violations' % (len(fails) - n))
                break
            path = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.sha1(g.encode()).hexdigest()[:10]))
            with open(path, 'w') as f: json.dump({'property': prop, 'group': g, 'message': msg, 'case': case}, f, indent=1)
            print('  %s: %s' % (g, msg[:600]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('OK property=%s evaluations=%d nontrivial=%d wall=%.1fs' % (prop, ev, len(nt), time.time() - t0))
    return 0
