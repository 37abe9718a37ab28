"""What is registered does not depend on import history."""
from checks.common import *
from checks.opens import *
from hypothesis import strategies as st
import os, sys, pickle, random, importlib, traceback

PROPERTY = 'C08'
RULE = ('a case is one history of module imports (and re-imports) in a fresh process, checked after every split: for every identifier any published '
        'module registers, probe values of its syntax inside a structure of the table\'s module are decoded with open types on. Identifiers '
        'registered by a loaded module must resolve to a published syntax, all others must stay raw, and what decoded before further imports must '
        'decode to the same afterwards. Non-trivial: the history loads at least two modules that register something.')
ASSUMPTIONS = ['which modules a module loads itself is taken from the run (sys.modules), not from the reference']
REGMODS = sorted({m for m, _, _, _ in M.regs})
# map -> module, identifier -> [(registering module, Type)]
BYMAP = {}
for _m, _map, _oid, _t in M.regs: BYMAP.setdefault(ALIASES.get(_map, _map), {}).setdefault(_oid, []).append((_m, _t))


def containers():
    """map -> (container key, field name, governing field)"""
    out = {}
    for k, e in sorted(M.entries.items()):
        if e.what != 'TYPE' or not public(k): continue
        for f in (M.eff(e.type).fields or []):
            if not f.gov: continue
            m = mapname(f)
            score = (k[0] != m.split('.')[0], e.type.ref is not None, k)
            if m not in out or score < out[m][0]: out[m] = (score, (k, f.name, f.gov))
    return {m: x[1] for m, x in out.items()}


CONT = containers()
_probes = {}


def probes(mp, oid):
    """[(Type, content octets, container octets)] to try under an identifier"""
    if (mp, oid) in _probes: return _probes[mp, oid]
    if mp not in CONT:
        out = []
        for t in {typetext(t): t for _, t in BYMAP[mp][oid]}.values():
            if not usable(t): continue
            for _, v in G.brief(t):
                if not neardefault(t, v): out.append((t, M.encode(t, v), None))
        _probes[mp, oid] = out
        return out
    key, fname, gov = CONT[mp]
    ct = M.entries[key].type
    cr = M.eff(ct)
    f = cr.byname[fname]
    isoid = M.eff(cr.byname[gov].type).kind == 'OBJECT IDENTIFIER'
    base = dict(G.minimal(ct))
    out = []
    entries = BYMAP[mp][oid]
    dup = len({typetext(t) for _, t in entries}) > 1
    for t in {typetext(t): t for _, t in entries}.values():
        if not usable(t): continue
        vs = [v for _, v in (G.directed(t, 1, False)[:40] if dup else G.brief(t))]
        for v in vs:
            try: c = M.encode(t, v)
            except asn1ref.RefError: continue
            o = dict(base)
            o[gov] = oid if isoid else oid[0]
            o[fname] = [c] if M.eff(f.type).kind in ('SEQUENCE OF', 'SET OF') else c
            if M.valid(ct, o) and not neardefault(t, v): out.append((t, c, M.encode(ct, o)))
    _probes[mp, oid] = out
    return out


def loaded():
    return {n.split('.')[1] for n in sys.modules if n.startswith('pyasn1_modules.rfc')}


def read(ad, t, c, get):
    try:
        got = ad.extract(t, get())
        return 'ok' if M.encode(t, got) in (c, M.encode_alt(t, M.decode(t, c))) else 'reads as %r' % (got,)
    except Exception as e: return 'not a %s: %s' % (typetext(t), short(e)[:200])


def observe(mods, of=None):
    """(of: what these modules register only) {(map, oid, i): None raw | 'ok' | message} for every probe whose container is loaded"""
    reg = {}
    for mp, d in BYMAP.items():
        for oid, l in d.items():
            ts = [t for m, t in l if m in mods]
            if ts: reg[mp, oid] = ts
    ad = OpenAdapter(M)
    ad.lookup = lambda f, gov: reg.get((mapname(f), gov if isinstance(gov, tuple) else (gov,)), [])
    out, n = {}, 0
    for mp, d in sorted(BYMAP.items()):
        if mp.split('.')[0] in mods:
            for k in repo.lookup(*mp.split('.')):
                k = tuple(k) if isinstance(k, repo.univ.ObjectIdentifier) else (int(k),)
                if k not in d: out[mp, k, -1] = 'in the table'
        if mp not in CONT:
            # a table that no structure names: looked up by the user
            home, name = mp.split('.')
            if home not in mods: continue
            table = repo.lookup(home, name)
            for oid in [o for o in d if of is None or any(m in of for m, _ in d[o])]:
                s = table.get(repo.univ.ObjectIdentifier(oid))
                for i, (t, c, b) in enumerate(probes(mp, oid)):
                    n += 1
                    if s is None: out[mp, oid, i] = None
                    else: out[mp, oid, i] = read(ad, t, c, lambda: der_dec.decode(c, asn1Spec=s, decodeOpenTypes=True)[0])
            continue
        key, fname, gov = CONT[mp]
        if key[0] not in mods: continue
        ct = M.entries[key].type
        f = M.eff(ct).byname[fname]
        for oid in [o for o in d if of is None or any(m in of for m, _ in d[o])]:
            for i, (t, c, b) in enumerate(probes(mp, oid)):
                n += 1
                try: w = der_dec.decode(b, asn1Spec=repo.spec(*key), decodeOpenTypes=True)[0]
                except Exception as e:
                    out[mp, oid, i] = 'decoding fails: ' + short(e)[:200]
                    continue
                x = w.getComponentByName(fname)
                if M.eff(f.type).kind in ('SEQUENCE OF', 'SET OF'): x = x[0]
                e = M.eff(f.type)
                if e.elem is not None: e = M.eff(e.elem)
                raw = isinstance(x, repo.KIND[e.kind]) and x.asOctets() == c
                if raw: out[mp, oid, i] = None
                else: out[mp, oid, i] = read(ad, t, c, lambda: x)
    return out, n


def judge(mods, obs):
    """problems of one observation"""
    for (mp, oid, i), got in obs.items():
        if i < 0:
            yield 'extra', mp, oid, 'is not published by any module but is in the table'
            continue
        t, c, b = probes(mp, oid)[i]
        here = [x for m, x in BYMAP[mp][oid] if m in mods]
        if not here:
            if got is not None: yield 'extra', mp, oid, 'is not registered by a loaded module but content is resolved (%s)' % got
            continue
        if got is None:
            yield 'unresolved', mp, oid, 'is registered by %s but content %s stays raw' % (','.join(m for m, _ in BYMAP[mp][oid] if m in mods), hexs(c))
            continue
        if not any(typetext(x) == typetext(t) for x in here): continue
        if got == 'ok': continue
        # another loaded module's syntax may be in force
        if len({typetext(x) for x in here}) > 1: continue
        yield 'wrong', mp, oid, 'content %s: %s' % (hexs(c), got)


def step(ev):
    kind, mod = ev
    m = importlib.import_module('pyasn1_modules.' + mod)
    if kind == 'reload': importlib.reload(m)


def history(events, every):
    """runs in a fresh process: (problems, loaded, probes evaluated)"""
    problems, n = [], 0
    prev = {}
    for i, ev in enumerate(events):
        before = loaded()
        try: step(ev)
        except Exception as e:
            problems.append(('import', '', (), 'importing %s after %s: %s' % (ev[1], ','.join(x[1] for x in events[:i]), short(e))))
            break
        if not every and i < len(events) - 1 and i != len(events) // 2: continue
        repo.clear_cache()
        mods = loaded()
        obs, k = observe(mods)
        n += k
        past = ' '.join(('' if x[0] == 'import' else 're-') + x[1] for x in events[:i + 1])
        for kind, mp, oid, msg in judge(mods, obs): problems.append((kind, mp, oid, 'after importing %s: %s' % (past, msg)))
        for k2, was in prev.items():
            if was == 'ok' and obs.get(k2) != 'ok':
                t, c, b = probes(k2[0], k2[1])[k2[2]]
                problems.append(('changed', k2[0], k2[1], 'content %s, a %s before, after further importing %s: %s' % (hexs(c), typetext(t), past, obs.get(k2))))
        for k2, v in obs.items(): prev[k2] = v
    return problems, sorted(loaded()), n


def fresh(events, every=False):
    """history() in a forked process in which no module has been imported"""
    assert not loaded()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try: res = history(events, every)
            except BaseException: res = traceback.format_exc()
            with os.fdopen(w, 'wb') as f: pickle.dump(res, f)
            code = 0
        finally: os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f: data = f.read()
    os.waitpid(pid, 0)
    res = pickle.loads(data)
    if isinstance(res, str): raise RuntimeError(res)
    return res


def conflicts():
    """groups of modules that register the same identifier with different syntaxes"""
    out = set()
    for mp, d in BYMAP.items():
        for oid, l in d.items():
            if len({typetext(t) for _, t in l}) > 1:
                ms = sorted({m for m, _ in l})
                for a in ms:
                    for b in ms:
                        if a != b: out.add((a, b))
    return sorted(out)


def shards(tier, seed):
    out = [('fixed', [[('import', m)] for m in M.mods[i::12]]) for i in range(12)]
    out += [('fixed', [[('import', a), ('import', b)] for a, b in conflicts()[i::8]]) for i in range(8)]
    n = 56 if tier == 'quick' else 200
    out += [('random', i, 5 if tier == 'quick' else 12) for i in range(n)]
    out += [('all', i) for i in range(3 if tier == 'quick' else 60)]
    return [x for x in out if x[1] != []]


def record(ctx, events, problems):
    for kind, mp, oid, msg in problems:
        case = {'kind': kind, 'map': mp, 'oid': '.'.join(map(str, oid)), 'events': [list(e) for e in events]}
        if kind == 'import': case['module'] = msg.split()[1]
        ctx.fail('%s %s %s' % (kind, mp, case['oid'] or case.get('module')), msg, case)


def known(ctx, problems):
    return [p for p in problems if not any(framework.matches_known(k, None, {'kind': p[0], 'map': p[1], 'oid': '.'.join(map(str, p[2]))}) for k in ctx.known)]


def try_history(ctx, events, every=False, cls='random'):
    problems, mods, n = fresh(events, every)
    ctx.evaluations += n - 1
    regs = [m for m in mods if m in REGMODS]
    ctx.case(repr(events), len(regs) > 1, cls, ' '.join(('' if k == 'import' else 're-') + m for k, m in events))
    ctx.count('probes', n)
    return problems


def run(item, ctx):
    if item[0] == 'fixed':
        for ev in item[1]: record(ctx, ev, try_history(ctx, ev, True, 'single module' if len(ev) == 1 else 'conflicting pair'))
    elif item[0] == 'all':
        rnd = random.Random('%s all %s' % (ctx.seed, item[1]))
        ms = M.mods[:]
        rnd.shuffle(ms)
        ev = [('import', m) for m in ms]
        record(ctx, ev, try_history(ctx, ev, False, 'all modules'))
    else:
        mod = st.one_of(st.sampled_from(REGMODS), st.sampled_from(REGMODS), st.sampled_from(M.mods))
        home = {m.split('.')[0] for m in BYMAP} | {m.split('.')[0] for m in ALIASES}
        # re-executing a module that owns a table makes a new table: Python's doing, not a promise of this library
        ev = st.one_of(st.tuples(st.just('import'), mod), st.tuples(st.just('import'), mod), st.tuples(st.just('reload'), mod.filter(lambda m: m not in home)))

        def fn(events):
            ps = try_history(ctx, events)
            record(ctx, events, [p for p in ps if p not in known(ctx, ps)])
            ps = known(ctx, ps)
            if ps: raise Violation(ps[0][3], group=repr(ps[0][:3]))
        got = framework.hypo(st.lists(ev, min_size=2, max_size=7), fn, seeded(ctx.seed, 'c08', item[1]), item[2])
        if got:
            events, e = got
            record(ctx, events, known(ctx, fresh(events)[0]))


def replay(c):
    events = [tuple(e) for e in c['events']]
    for every in (False, True):
        problems, mods, n = fresh(events, every)
        for kind, mp, oid, msg in problems:
            if kind == c['kind'] and mp == c['map'] and '.'.join(map(str, oid)) == c['oid']: return msg
