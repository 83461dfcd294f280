"""Seeded search over scenarios, minimisation, replay files and evidence."""
import copy, hashlib, json, multiprocessing as mp, os, queue, random, shutil, subprocess, sys, time, traceback
from . import core
from .core import HarnessError

NPROC = min(8, os.cpu_count() or 1)


class Ctx:
    """per-worker context: memoised reference executions"""

    def __init__(self, seed, tier):
        self.seed, self.tier = seed, tier
        self.memo = {}
        self.nref = 0

    def ref(self, fs, run, watch=('/out',), pre=()):
        """the same command without faults, on the default schedule (run alone on a fresh file system)"""
        r = {'argv': run['argv'], 'cfg': {'seed': 1, 'mode': 'none', 'ncpu': run.get('cfg', {}).get('ncpu', 4), 'maxsteps': 4000000}}
        for k in ('servers', 'routes'):
            if k in run:
                r[k] = run[k]
        if 'cwd' in run.get('cfg', {}):
            r['cfg']['cwd'] = run['cfg']['cwd']
        sc = {'fs': fs, 'steps': list(pre) + [{'run': r}], 'watch': list(watch)}
        key = json.dumps(sc, sort_keys=True)
        if key not in self.memo:
            self.nref += 1
            if len(self.memo) > 4000:
                self.memo.clear()
            self.memo[key] = core.execute(sc)
        return self.memo[key]


def sched(rng, cfg=None, threads=True):
    """a random scheduling policy"""
    c = dict(cfg or {})
    c['seed'] = rng.randrange(1, 1 << 40)
    k = rng.randrange(10)
    if not threads or k == 0:
        c['mode'] = 'none'
    elif k < 6:
        c['mode'] = 'rand'
        c['pa'] = rng.choice([0, 3, 10, 30, 100, 400])
        c['pio'] = rng.choice([1, 2, 4, 10])
    else:
        c['mode'] = 'pct'
        c['pctd'] = rng.choice([1, 2, 3, 5, 8])
        c['pctlen'] = rng.choice([300, 1000, 3000, 10000, 30000])
    # the runs of a scenario soon after each other, or with the clock set anew
    c['clock0'] = 17 * 10 ** 17 + rng.randrange(10 ** 12) if rng.random() < 0.6 else rng.randrange(10 ** 18, 2 * 10 ** 18)
    c['eseed'] = rng.randrange(1, 1 << 30)
    c['maxsteps'] = 2000000
    return c


def rng_for(seed, prop, i):
    return random.Random('%d/%s/%d' % (seed, prop, i))


def skey(sc, ex):
    """identity of an execution: interleaving hashes and fired faults of all its processes"""
    h = hashlib.sha1()
    for p, c in sc['fs']:
        if c.startswith('dmg:'):
            h.update(c.encode())
    for r in ex.results:
        h.update(r.stats.get('hash', '?').encode())
        for f in r.faults:
            h.update(' '.join(f).encode())
        h.update(b'%d' % (r.rc if r.rc is not None else -1))
    return h.hexdigest()[:16]


def evaluate(prop, ctx, sc):
    ex = core.execute(sc)
    v = prop.judge(ctx, sc, ex)
    return ex, v


# ------------------------------------------------------------------ worker processes
def _worker(prop, idx, base, tools, seed, tier, directed, nxt, stop, deadline, limit, outq):
    try:
        core.W = core.Worker(base, idx, tools)
        ctx = Ctx(seed, tier)
        while not stop.is_set() and time.time() < deadline:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= limit:
                break
            rep = {'i': i, 'viol': None, 'harness': None, 'skip': False}
            sc = None
            try:
                r0 = core.W.runs
                sc = directed[i] if i < len(directed) else prop.gen(rng_for(seed, prop.id, i), ctx)
                if sc is None:
                    rep['skip'] = True
                else:
                    ex, v = evaluate(prop, ctx, sc)
                    if v == 'skip':
                        rep['skip'] = True
                        v = None
                    rep['runs'] = core.W.runs - r0
                    rep['key'] = skey(sc, ex)
                    rep['nontrivial'] = bool(prop.nontrivial(sc, ex))
                    rep['tags'] = prop.tags(sc, ex)
                    st = {'steps': 0, 'time': 0, 'switches': 0, 'preempts': 0}
                    fk = {}
                    hs = []
                    for r in ex.results:
                        for k in st:
                            st[k] += int(r.stats.get(k, 0))
                        hs.append(r.stats.get('hash', '-'))
                        for f in r.faults:
                            k = f[0] + ':' + (f[3] if len(f) > 3 else '?')
                            if f[0] == 'net':
                                k = 'net:' + f[3]
                            elif len(f) > 4 and f[3] == 'err':
                                k += ':' + f[4]
                            fk[k] = fk.get(k, 0) + 1
                        if r.stats.get('aslr'):
                            rep['aslr'] = 1
                    for p, c in sc['fs']:
                        if c.startswith(('dmg:', 'cut:')):
                            k = 'storage:' + ('damaged file' if c[0] == 'd' else 'file cut off')
                            fk[k] = fk.get(k, 0) + 1
                    rep['st'], rep['fk'], rep['hs'] = st, fk, hs
                    rep['max'] = max([int(r.stats.get('steps', 0)) for r in ex.results] or [0])
                    rep['ends'] = [r.why if r.why != 'exit' else 'exit%d' % r.rc for r in ex.results]
                    if v:
                        rep['viol'] = {'cls': v[0], 'msg': v[1], 'sc': sc}
                    if i % 97 == 0 or i < 2:
                        rep['sample'] = describe(sc, ex)
            except HarnessError as e:
                rep['harness'] = str(e)[:500]
            except Exception:
                rep['harness'] = traceback.format_exc()[-1500:]
            outq.put(rep)
    finally:
        outq.put(None)


def describe(sc, ex):
    out = []
    it = iter(ex.results)
    for r in core.runs_of(sc):
        x = next(it)
        out.append({'argv': ' '.join(r['argv']), 'schedule': {k: v for k, v in r.get('cfg', {}).items() if k in ('mode', 'pa', 'pio', 'pctd', 'pctlen', 'seed')},
                    'fired': [' '.join(f) for f in x.faults[:6]], 'end': x.brief(), 'steps': x.stats.get('steps'), 'interleaving': x.stats.get('hash')})
    return out


# ------------------------------------------------------------------ minimisation
def explicit(sc, ex):
    """the same execution with every scheduling decision, fault and process switch written out"""
    s = copy.deepcopy(sc)
    it = iter(ex.results)
    for r in core.runs_of(s):
        x = next(it)
        if len(x.decs) > 30000:
            return None
        if r.get('cfg', {}).get('mode', 'none') in ('rand', 'pct'):
            r['cfg']['mode'] = 'replay'
            for k in ('pa', 'pio', 'pctd', 'pctlen'):
                r['cfg'].pop(k, None)
            r['decs'] = [list(d) for d in x.decs]
        if r.get('frand'):
            r['frand'] = []
            r['faults'] = [[f[0], f[1], int(f[2]), f[3], int(f[4])] for f in x.faults if f[0] != 'net' and f[3] != 'quota']
    it = iter(ex.choices)
    k = 0
    for st in s['steps']:
        if 'run' in st or 'par' in st:
            c = ex.choices[k]
            k += 1
            if 'par' in st:
                st['choices'] = c
                st.pop('seed', None)
    return s


def minimise(prop, ctx, sc, cls, budget):
    t_end = time.time() + budget
    tried = [0]

    def fails(s):
        if time.time() > t_end:
            return False
        tried[0] += 1
        try:
            ex, v = evaluate(prop, ctx, s)
        except Exception:
            return False
        return bool(v) and v != 'skip' and v[0] == cls

    ex = core.execute(sc)
    e = explicit(sc, ex)
    if e is not None and fails(e):
        sc = e
    # property specific simplification (drop inputs, options, steps)
    progress = True
    while progress and time.time() < t_end:
        progress = False
        for cand in prop.shrink(sc):
            if fails(cand):
                sc = cand
                progress = True
                break

    def ddmin(get, put):
        nonlocal sc
        items = get(sc)
        n = 2
        if items:
            c = copy.deepcopy(sc)
            put(c, [])
            if fails(c):
                sc = c
                return
        while len(items) >= 2 and time.time() < t_end:
            size = max(1, len(items) // n)
            done = False
            for i in range(0, len(items), size):
                rest = items[:i] + items[i + size:]
                c = copy.deepcopy(sc)
                put(c, rest)
                if fails(c):
                    sc, items, done = c, rest, True
                    n = max(2, n - 1)
                    break
            if not done:
                if size == 1:
                    break
                n = min(len(items), n * 2)

    nr = len(list(core.runs_of(sc)))
    for i in range(nr):
        for field in ('faults', 'decs', 'quota'):
            if list(core.runs_of(sc))[i].get(field):
                ddmin(lambda s: list(list(core.runs_of(s))[i].get(field, [])),
                      lambda s, v: list(core.runs_of(s))[i].__setitem__(field, v))
    for k, st in enumerate(sc['steps']):
        if st.get('choices'):
            ddmin(lambda s: list(s['steps'][k]['choices']), lambda s, v: s['steps'][k].__setitem__('choices', v))
    return sc, tried[0]


# ------------------------------------------------------------------ known findings
def known_findings():
    out = []
    p = os.path.join(core.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'known':
                    out.append(d)
    return out


# ------------------------------------------------------------------ a check
def run_check(prop, tier, seed):
    t0 = time.time()
    tools = core.build()
    t_build = time.time() - t0
    base = os.path.join(core.scratch_base(), 'dsv-%d' % os.getpid())
    os.makedirs(base)
    try:
        return _run_check(prop, tier, seed, tools, base, t0, t_build)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _run_check(prop, tier, seed, tools, base, t0, t_build):
    core.W = core.Worker(base, 99, tools)
    ctx = Ctx(seed, tier)
    quick = tier == 'quick'
    limit = prop.n_quick if quick else prop.n_thorough
    secs = prop.s_quick if quick else prop.s_thorough
    ts = time.time()
    directed = list(prop.directed(random.Random('%d/%s/directed' % (seed, prop.id)), ctx))
    t_plan = time.time() - ts
    deadline = time.time() + secs
    nxt = mp.Value('i', 0)
    stop = mp.Event()
    outq = mp.Queue()
    limit = max(limit, len(directed))
    procs = [mp.Process(target=_worker, args=(prop, i, base, tools, seed, tier, directed, nxt, stop, deadline, limit, outq), daemon=True)
             for i in range(NPROC)]
    for p in procs:
        p.start()
    agg = {'evaluations': 0, 'runs': core.W.runs, 'skipped': 0}
    tot = {'steps': 0, 'time': 0, 'switches': 0, 'preempts': 0}
    fk, tags, ends = {}, {}, {}
    keys, ikeys, samples, viols, harness = set(), set(), [], [], []
    alive = NPROC
    known = [k for k in known_findings() if k['property'] == prop.id]
    knownhit = {}
    hard_deadline = deadline + 240
    aslr = longest = 0
    while alive:
        try:
            rep = outq.get(timeout=5)
        except queue.Empty:
            if time.time() > hard_deadline:
                break
            if not any(p.is_alive() for p in procs) and outq.empty():
                break
            continue
        if rep is None:
            alive -= 1
            continue
        if rep['harness']:
            harness.append(rep['harness'])
            if len(harness) > 60:
                stop.set()
            continue
        if rep['skip']:
            agg['skipped'] += 1
            if 'key' not in rep:
                continue
        agg['evaluations'] += 1
        agg['runs'] += rep['runs']
        aslr |= rep.get('aslr', 0)
        for k in tot:
            tot[k] += rep['st'][k]
        for k, n in rep['fk'].items():
            fk[k] = fk.get(k, 0) + n
        for t in rep['tags']:
            tags[t] = tags.get(t, 0) + 1
        for e in rep['ends']:
            ends[e] = ends.get(e, 0) + 1
        ikeys.update(rep['hs'])
        longest = max(longest, rep['max'])
        if rep['nontrivial'] and not rep['skip']:
            keys.add(rep['key'])
        if 'sample' in rep and len(samples) < 6:
            samples.append(rep['sample'])
        if rep['viol']:
            v = rep['viol']
            kf = next((k for k in known if k['class'] == v['cls'] and k.get('match', '') in v['msg']), None)
            if kf:
                knownhit.setdefault(kf['id'], kf)
            else:
                v['i'] = rep['i']
                viols.append(v)
                stop.set()
    for p in procs:
        p.join(timeout=10)
        if p.is_alive():
            p.kill()
    wall_search = time.time() - ts
    replay = None
    msg = None
    if viols:
        viols.sort(key=lambda v: v['i'])
        v = viols[0]
        ctx = Ctx(seed, tier)
        small, tried = minimise(prop, ctx, v['sc'], v['cls'], 25 if quick else 120)
        try:
            ex, v2 = evaluate(prop, ctx, small)
        except HarnessError:
            v2 = None
        if not v2 or v2 == 'skip':
            small, v2 = v['sc'], (v['cls'], v['msg'])
            ex = core.execute(small)
        d = os.path.join(core.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        body = {'property': prop.id, 'class': v2[0], 'violation': v2[1], 'seed': seed, 'index': v['i'],
                'trace': describe(small, ex), 'minimisation_runs': tried, 'scenario': small}
        replay = os.path.join(d, '%s-%s-%s.json' % (prop.id, v2[0], hashlib.sha1(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump(body, open(replay, 'w'), indent=1)
        msg = v2
        r = subprocess.run([sys.executable, os.path.join(core.VERIF, 'check.py'), '--replay', replay], stdout=subprocess.PIPE, text=True)
        body['replayed_in_fresh_process'] = r.returncode == 1
        json.dump(body, open(replay, 'w'), indent=1)
    wall = time.time() - t0
    fired = sum(fk.values())
    cov = {
        'evaluations': agg['evaluations'],
        'distinct_nontrivial': len(keys),
        'rule': prop.rule,
        'samples': samples or [{'note': 'no scenario completed'}],
        'simulated_processes': agg['runs'],
        'runs_per_hour': int(agg['runs'] / max(wall_search, 0.001) * 3600),
        'seeds_per_hour': int(agg['evaluations'] / max(wall_search, 0.001) * 3600),
        'simulated_seconds': round(tot['time'] / 1e9, 3),
        'scheduling_points': tot['steps'], 'context_switches': tot['switches'], 'preemptions': tot['preempts'], 'longest_process_steps': longest,
        'distinct_interleavings': len(ikeys),
        'interleaving_measure': 'hash over (switching thread, its step, target thread, I/O operation kinds) of one simulated process',
        'fault_kinds_fired': dict(sorted(fk.items(), key=lambda x: -x[1])[:40]), 'faults_fired': fired,
        'process_ends': ends, 'probes': dict(sorted(tags.items())),
        'directed_scenarios': len(directed), 'skipped_vacuous': agg['skipped'], 'harness_errors': len(harness),
        'real_code': 'the whole dump_syms program built from /repo (all of src/, std, crossbeam, tokio, hyper, reqwest, symbolic)',
        'stubbed': 'kernel: thread scheduling, futex, clock, entropy, cpu count, sockets/epoll/eventfd, DNS, HTTP servers; file system calls run on a real scratch tree through the fault injector; TLS not exercised (http only)',
        'address_randomisation_off': not aslr,
        'build_s': round(t_build, 1), 'plan_s': round(t_plan, 1), 'search_s': round(wall_search, 1),
    }
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': prop.level, 'coverage': cov, 'assumptions': prop.assumptions,
          'wall_s': round(wall, 2), 'violations': len(viols)}
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(core.VERIF, 'evidence', prop.id + '.json'), 'w'), indent=1)
    print('%s: %d scenarios (%d distinct non-trivial), %d simulated processes, %d interleavings, %d faults fired, %d skipped, %d harness errors, %.1f s' % (
        prop.id, agg['evaluations'], len(keys), agg['runs'], len(ikeys), fired, agg['skipped'], len(harness), wall))
    for k in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop.id, k['what']))
    if viols:
        print(' '.join(('%s: %s' % msg).split()))
        print('VIOLATION property=%s replay=%s' % (prop.id, replay))
        return 1
    if harness and (len(harness) > max(3, agg['evaluations'] // 50) or not agg['evaluations']):
        print('HARNESS ERROR (%d): %s' % (len(harness), harness[0]))
        return 2
    if not keys:
        print('HARNESS ERROR: nothing non-trivial was explored')
        return 2
    return 0


def replay(props, path):
    body = json.load(open(path))
    prop = props[body['property']]
    tools = core.build(verbose=False)
    base = os.path.join(core.scratch_base(), 'dsv-%d' % os.getpid())
    os.makedirs(base)
    try:
        core.W = core.Worker(base, 0, tools)
        ctx = Ctx(1, 'quick')
        ex = core.execute(body['scenario'], keep_log=True)
        v = prop.judge(ctx, body['scenario'], ex)
        if os.environ.get('SIM_LOG'):
            for r in ex.results:
                print('\n'.join(r.log))
                print(r.err)
        for d in describe(body['scenario'], ex):
            print(json.dumps(d))
        if v and v != 'skip':
            print(' '.join(('%s: %s' % v).split()))
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
            return 1
        print('no violation')
        return 0
    finally:
        shutil.rmtree(base, ignore_errors=True)
