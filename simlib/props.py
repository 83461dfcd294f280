"""The properties: what is generated, injected and judged for each of C01..C14."""
import copy, hashlib, json, posixpath, random, re
from urllib.parse import unquote
from . import core
from .core import HarnessError
from .engine import sched
from .symfile import attribution, parse, fkey, blocks, validate
from .world import *

HANG = ('deadlock', 'livelock', 'timelimit', 'cpuhang')
BASE_ASSUME = [
    'the kernel behaves as the simulated one: a crash ends the process and keeps what was written (no power loss, no reordering of completed writes)',
    'scheduling points are the atomic operations, futex calls, file and network calls; plain memory accesses between them are not interleaved (safe Rust has no data races there)',
    'http without TLS; server answers are HTTP/1.1',
]


def treediff(a, b, names=('got', 'expected')):
    """first difference of two file trees, or None"""
    for p in sorted(set(a) | set(b)):
        if p not in a:
            return '%s is missing' % p
        if p not in b:
            return '%s should not exist (%d bytes)' % (p, len(a[p]))
        if a[p] != b[p]:
            i = next((i for i, (x, y) in enumerate(zip(a[p], b[p])) if x != y), min(len(a[p]), len(b[p])))
            return '%s differs at byte %d (%s %d bytes, %s %d bytes): %r / %r' % (
                p, i, names[0], len(a[p]), names[1], len(b[p]), a[p][i:i + 50], b[p][i:i + 50])
    return None


def sub(t, pre):
    return {p: d for p, d in t.items() if p == pre or p.startswith(pre + '/')}


def ended(r):
    return r.why == 'exit' and r.rc >= 0


def then(rng, fs, r, pre, kinds, errs, watch=()):
    """a second fault on one of the operations that follow the first one in this very execution (clean-up, retry, fall-back)"""
    res = core.execute({'fs': fs, 'steps': [{'run': r}], 'watch': list(watch)}).results[0]
    f = r['faults'][-1]
    at = next((i for i, x in enumerate(res.ops) if (x[0], x[1], x[2]) == (f[0], f[1], f[2])), None)
    if at is None:
        return
    xs = [x for x in res.ops[at + 1:] if x[1].startswith(pre) and x[0] not in ('readlink',)]
    if not xs:
        return
    x = rng.choice(xs[:12])
    kd = rng.choice([k for k in kinds if k != 'crash_part' or x[0] == 'write' and x[3] > 1])
    r['faults'].append([x[0], x[1], x[2], kd, rng.choice(errs) if kd == 'err' else rng.choice([1, max(1, x[3] - 1), rng.randrange(1, max(2, x[3]))]) if kd == 'crash_part' else 0])


class Prop:
    id = None
    level = 'exploration'
    n_quick, n_thorough = 10 ** 6, 10 ** 7
    s_quick, s_thorough = 40, 600
    rule = 'two scenarios differ if the interleaving hash, the fired faults, the damage done to inputs or the exit status of any of their processes differ'
    assumptions = BASE_ASSUME
    drop_ok = True

    def directed(self, rng, ctx):
        return []

    def nontrivial(self, sc, ex):
        return any(r.faults or int(r.stats.get('switches', 0)) > 0 for r in ex.results)

    def tags(self, sc, ex):
        t = ['runs:%d' % len(ex.results)]
        t += ['dest:' + sc['o']['dest']] if 'dest' in sc.get('o', {}) else []
        t += sc.get('o', {}).get('tags', [])
        if any(int(r.stats.get('threads', 1)) > 1 for r in ex.results):
            t.append('multithreaded')
        return t

    def shrink(self, sc):
        """fewer inputs, fewer random faults, simpler schedule"""
        fl = sc.get('o', {}).get('files')
        if self.drop_ok and fl and len(fl) > 1:
            for f in fl:
                c = copy.deepcopy(sc)
                c['o']['files'].remove(f)
                if f not in c['o']['files']:
                    keep = layout(c['o']['files'])
                    c['fs'] = [e for e in c['fs'] if e in keep or e not in layout([f])]
                for r in core.runs_of(c):
                    for a in [a for a in r['argv'] if same_path(a) == vpath(f)][:1]:
                        r['argv'].remove(a)
                yield c
        for i, r in enumerate(list(core.runs_of(sc))):
            for k in range(len(r.get('frand', []))):
                c = copy.deepcopy(sc)
                del list(core.runs_of(c))[i]['frand'][k]
                yield c
            if r['cfg'].get('mode') not in ('none', 'replay', None):
                c = copy.deepcopy(sc)
                list(core.runs_of(c))[i]['cfg'] = {'seed': 1, 'mode': 'none', 'maxsteps': r['cfg'].get('maxsteps', 2000000),
                                                   **{k: v for k, v in r['cfg'].items() if k in ('pid', 'ncpu', 'cwd')}}
                yield c


# ================================================================= batches (several inputs, no servers)
MAPS = [
    [],
    ['--mapping-var', 'rev=abc', '--mapping-src', '/src/(.*)', '--mapping-dest', 'git:r:{1}:{rev}'],
    ['--mapping-src', '/src/inc/(.*)', '--mapping-dest', 's3:{digest}/{1}', '--mapping-src', '/src/([^/]*)/(.*)', '--mapping-dest', 'hg:{2}:{1}'],
]


def batch(rng, kinds='emwx', n=None, dests=('store', 'store', 'store', 'both', 'file', 'stdout', 'dash', 'dashstore'), bad=0, maps=0.25, inlines=0.6, big=0.15,
          threads=True, jobs=JOBS, one=False, dmg=0, many=0, dup=0.05):
    """-> (o, fs, argv)"""
    if rng.random() < many:
        # many small modules
        files = ['%d=%s' % (i + 1, rng.choice(SINGLES[:5])) for i in range(rng.choice([9, 12, 17, 20, 33, 40, 70, 130]))] + shuffle_in(rng, pick_groups(rng, rng.randint(0, 2), kinds, 0))
        rng.shuffle(files)
        jobs = jobs + [16, 32]
    else:
        n = n or rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
        files = shuffle_in(rng, pick_groups(rng, n, kinds, big))
    if files and not one and rng.random() < dup:
        # the same file twice
        files.insert(rng.randint(0, len(files)), rng.choice(files))
    if not one and len(files) < 2 and rng.random() < 0.8:
        files.append(rng.choice([s for s in SINGLES if s not in files]))
    for _ in range(bad):
        files.insert(rng.randint(0, len(files)), rng.choice(BAD))
    if rng.random() < dmg:
        for _ in range(rng.choice([1, 1, 2])):
            files.insert(rng.randint(0, len(files)), '%d~%s' % (rng.randrange(1 << 30), rng.choice([f for f in DAMAGE if group(f) not in [group(x) for x in files]])))
    dest = rng.choice(dests)
    opts = []
    if rng.random() < inlines:
        opts.append('--inlines')
    if rng.random() < 0.05:
        opts += ['--verbose', rng.choice(['trace', 'debug', 'info', 'off'])]
    if rng.random() < 0.03:
        opts.append('--no-generator')
    mp = rng.choice(MAPS[1:]) if rng.random() < maps else []
    opts += mp
    if any(f.startswith('x') for f in files) and rng.random() < 0.6:
        opts += ['-a', rng.choice(['x86_64', 'arm64'])]
    j = rng.choice(jobs)
    fs = layout(files)
    if mp:
        fs.append(['/src', 'srcs'])
    o = {'files': files, 'dest': dest, 'opts': opts, 'j': j, 'map': bool(mp)}
    da, fa = dest_args(dest), [vpath(f) for f in files]
    if rng.random() < 0.1:
        # other spellings of the same paths: relative, with dots, through a link
        fa = [spell(rng, p) if rng.random() < 0.6 else p for p in fa]
        da = [rng.choice([spell(rng, x), x + '/' if x == '/out/store' else x]) if x.startswith('/out/') else x for x in da]
        fs.append(['/lnk', 'sym:.'])
        o['tags'] = ['other-spellings']
    return o, fs, opts + da + jobs_args(j) + fa


def stale(rng, fs, o, ctx=None):
    """sometimes the destination already holds older files: longer, cut off, as long but different, continued"""
    if rng.random() < 0.25:
        was = STALE
        path = None
        if ctx and rng.random() < 0.6:
            refs, _ = module_refs(ctx, o)
            c = [x for x in (refs or {}).values() if len(x[1]) < 40000]
            if c:
                path, d = rng.choice(c)
                k = rng.randrange(len(d))
                was = 'hex:' + rng.choice([d[:k], d[:-1], d + d[k:], d + b'STACK CFI 0 .cfa: $rsp 8 +\n', bytes(k % 10 + 48 if 48 <= x < 58 else x for x in d), d[:k] + b'#' + d[k + 1:], b'x' * len(d)]).hex()
        if '-o' in dest_args(o['dest']) and o['dest'] in ('file', 'both'):
            fs.append(['/out/o.sym', was])
        if 'store' in o['dest'] or o['dest'] == 'both':
            f = base(rng.choice(o['files']))
            if path:
                fs.append([path, was])
            elif f in META:
                n, i = META[f]['name'], META[f]['id']
                sym = n[:-4] + '.sym' if n.endswith('.pdb') else n + '.sym'
                fs.append(['/out/store/%s/%s/%s' % (n, i, sym), STALE])
        o['stale'] = True


def alone(ctx, o, fl, dest='store', extra=()):
    """reference: only these files of one module, same options, default schedule"""
    fs = layout(companions(o['files'], fl))
    if o.get('map'):
        fs.append(['/src', 'srcs'])
    fs += o.get('fs', [])
    return ctx.ref(fs, {'argv': o['opts'] + dest_args(dest) + list(extra) + [vpath(f) for f in fl]}).results[0]


def companions(files, fl):
    """a file's neighbours matter for PE and PDB: keep those of the same stem"""
    g = group(fl[0])
    return [f for f in files if group(f) == g]


def module_refs(ctx, o):
    """group -> bytes of its symbol file, or None with the failing group"""
    out = {}
    for g, fl in by_group(o['files']).items():
        r = alone(ctx, o, fl)
        t = sub(r.tree, '/out/store')
        if not r.ok or len(t) != 1:
            return None, g
        out[g] = next(iter(t.items()))
    return out, None


def check_dest(o, refs, r, tree):
    """all modules present and complete at the destination -> None or message"""
    blk = [d for _, d in refs.values()]
    want = {}
    if o['dest'] in ('store', 'both', 'dashstore'):
        want.update(dict(refs.values()))
    got = dict(tree)
    of = got.pop('/out/o.sym', None)
    extra = [p for p in got if p not in want and got[p] and not (o.get('stale') and got[p] == core.content_c(STALE))]
    if extra:
        return '%s should not exist' % extra[0]
    for p in want:
        if p not in got:
            return '%s is missing' % p
        if got[p] != want[p]:
            return treediff({p: got[p]}, {p: want[p]})
    if o['dest'] in ('file', 'both'):
        if of is None:
            return '/out/o.sym is missing'
        if of not in blk:
            return '/out/o.sym (%d bytes) is not the complete symbol data of any one module%s' % (len(of), mixture(of, blk))
    elif of is not None and not o.get('stale'):
        return '/out/o.sym should not exist'
    if o['dest'] in ('stdout', 'dash', 'dashstore'):
        b = blocks(r.out)
        if b is None or sorted(b) != sorted(blk):
            return 'standard output (%d bytes) is not the modules\' symbol data (%d bytes) in some order%s' % (len(r.out), sum(map(len, blk)), mixture(r.out, blk))
    elif r.out:
        return 'unexpected bytes on standard output: %r' % r.out[:60]
    return None


def mixture(data, blk):
    b = blocks(data)
    if b is None:
        return ': starts in the middle of a module'
    for x in b:
        if x not in blk:
            return ': block starting %r has %d bytes' % (x.split(b'\n')[0][:60], len(x))
    return ': %d blocks' % len(b)


class C01(Prop):
    id = 'C01'

    def gen(self, rng, ctx):
        if rng.random() < 0.07:
            return self.gen_net(rng)
        o, fs, argv = batch(rng, kinds=rng.choice(['e', 'e', 'em', 'em', 'emwx']), bad=rng.choice([0, 0, 0, 1, 1, 2, 3]), maps=0.08, big=0.03,
                            jobs=[None, 0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 9], inlines=0.3, dmg=0.15, many=0.04)
        if len(o['files']) == 1:
            f = rng.choice(SINGLES)
            o['files'].append(f)
            argv.append(vpath(f))
            fs += [x for x in layout([f]) if x not in fs]
        if rng.random() < 0.1:
            argv.append('--check-cfi')
        cfg = sched(rng, {'ncpu': rng.choice([1, 2, 3, 4, 8])})
        r = run_of(argv, cfg)
        k = rng.random()
        fr = []
        if k < 0.45:
            for _ in range(rng.choice([1, 1, 2])):
                op, pre = rng.choice([('read', '/in'), ('open', '/in'), ('stat', '/in'), ('write', '/out'), ('create', '/out'), ('mkdir', '/out'),
                                      ('write', '<stdout>'), ('thread', ''), ('stat', '/out'), ('close', '/'), ('write', '<stderr>'), ('realpath', '/src')])
                fr.append([op, pre or '-', 'err', rng.choice([EIO, EACCES, ENOSPC, ENOMEM, EMFILE, EPIPE, EAGAIN]), rng.choice([1, 2, 4, 10]), rng.choice([1, 1, 2, -1])])
            r['frand'] = [f for f in fr if not (f[0] == 'write' and f[3] == EAGAIN)]
        elif k < 0.5:
            r['quota'] = [['/out', rng.randrange(0, 60000)]]
        return {'fs': fs, 'steps': [{'run': r}], 'watch': [], 'o': o}

    def gen_net(self, rng):
        ws = rng.sample(['w0', 'w1', 'w2', 'w3'], rng.choice([1, 2, 3]))
        files = [Lookup('pe', w).pe for w in ws] + rng.sample(SINGLES, rng.randint(1, 2))
        rng.shuffle(files)
        servers, routes, ent = [], [], []
        for i in range(rng.randint(1, 3)):
            kind = rng.choice(BAD_SERVER)
            conn = 0
            for w in ws:
                L = Lookup('pe', w)
                conn, rt = bad_server(rng, kind, i, L.name, L.id, L.fix)
                routes += rt
            servers.append([i + 1, 80, conn, 10 ** 6])
            ent.append(('/cache' if rng.random() < 0.5 else None, 's%d.sim' % (i + 1) if kind != 'nohost' else 'nohost.invalid'))
        j = rng.choice([None, 1, 2, 4])
        o = {'files': files, 'dest': 'store', 'opts': [], 'tags': ['servers']}
        argv = ['--symbol-server', sympath(ent)] + dest_args('store') + jobs_args(j) + [vpath(f) for f in files]
        return {'fs': layout(files), 'steps': [{'run': run_of(argv, sched(rng, {'ncpu': 4}), servers=servers, routes=routes)}], 'watch': [], 'o': o}

    def directed(self, rng, ctx):
        # known finding: cyclic type records
        files = ['387852860~dump_syms_regtest64.pdb', 'm0.so']
        out = [{'fs': layout(files), 'steps': [{'run': run_of(dest_args('store') + [vpath(f) for f in files], sched(rng), cpu=5)}], 'watch': [], 'o': {'files': files, 'dest': 'store', 'opts': []}}]
        for n in (2, 3, 5):
            for j in (0, 1, 2, 3, 9):
                for pol in range(4):
                    files = [SINGLES[(i + pol) % len(SINGLES)] for i in range(n)]
                    o = {'files': files, 'dest': 'store', 'opts': []}
                    out.append({'fs': layout(files), 'steps': [{'run': run_of(dest_args('store') + jobs_args(j) + [vpath(f) for f in files], sched(rng))}], 'watch': [], 'o': o})
        return out

    def judge(self, ctx, sc, ex):
        for r in ex.results:
            if r.why in HANG:
                return ('hang', 'the command never ends (%s) after %s scheduling steps, %s threads: %s' % (
                    r.why, r.stats.get('steps'), r.stats.get('threads'), 'in ' + r.where if r.where else r.err[-200:]))
        return None

    def nontrivial(self, sc, ex):
        return int(ex.results[0].stats.get('threads', 1)) > 1 or ex.results[0].rc != 0


class C02(Prop):
    id = 'C02'

    def gen(self, rng, ctx):
        if rng.random() < 0.12:
            return self.gen_net(rng)
        o, fs, argv = batch(rng, kinds=rng.choice(['e', 'em', 'mm', 'm', 'emwx', 'wx', 'mw', 'eW', 'mW']), maps=0.3, big=0.08, dmg=0.25, many=0.04)
        if rng.random() < 0.15:
            o['opts'] += ['--extra-info', 'KEY v%d' % rng.randrange(9)]
            argv = ['--extra-info', o['opts'][-1]] + argv
        stale(rng, fs, o, ctx)
        return {'fs': fs, 'steps': [{'run': run_of(argv, sched(rng, {'ncpu': rng.choice([1, 2, 3, 4, 8])}))}], 'o': o}

    def gen_net(self, rng):
        """PE inputs whose pdb has to come from a server, in one batch with others"""
        ws = rng.sample(['w0', 'w1', 'w2', 'w3'], rng.choice([1, 2, 2, 3, 4]))
        files = [Lookup('pe', w).pe for w in ws] + rng.sample(SINGLES, rng.randint(0, 2))
        rng.shuffle(files)
        ns = rng.randint(1, 2)
        routes = []
        gone = [w for w in ws if rng.random() < 0.15]       # not on the servers
        for i in range(ns):
            for w in ws:
                L = Lookup('pe', w)
                if w not in gone:
                    routes += healthy(rng, i, L.name, L.id, L.fix)
        ent = [(rng.choice([None, '/cache']), 's%d.sim' % (i + 1)) for i in range(ns)]
        j = rng.choice(JOBS)
        o = {'files': files, 'dest': 'store', 'opts': ['--inlines', '--symbol-server', sympath(ent)], 'j': j, 'tags': ['servers'], 'gone': gone}
        # other builds of the same modules, which the servers don't know
        o['old'] = [['/in/old%d/%s' % (i, Lookup('pe', w).pe), 'rsds:%s:%d' % (Lookup('pe', w).pe, i + 7)] for i, w in enumerate(rng.choices(ws, k=rng.choice([0, 0, 1, 2])))]
        servers = [[i + 1, 80, 0, 10 ** 5] for i in range(ns)]
        o['net'] = {'servers': servers, 'routes': routes}
        paths = [vpath(f) for f in files]
        for x, _ in o['old']:
            paths.insert(rng.randint(0, len(paths)), x)
        argv = o['opts'] + dest_args('store') + jobs_args(j) + paths
        return {'fs': layout(files) + o['old'], 'steps': [{'run': run_of(argv, sched(rng, {'ncpu': 4}), servers=servers, routes=routes)}], 'o': o}

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        run = sc['steps'][0]['run']
        refs = {}
        for g, fl in by_group(o['files']).items():
            if 'net' in o:
                # same options on just that module's files, with the pdb beside the PE instead of on a server
                fs = layout(fl) + [[vpath(f[:-3] + 'pdb'), 'bin:' + f[:-3] + 'pdb'] for f in fl if f.endswith(('.dll', '.exe')) and f[:-4] not in o.get('gone', [])]
                a = ctx.ref(fs, {'argv': ['--inlines'] + dest_args('store') + [vpath(f) for f in fl]}).results[0]
            else:
                a = alone(ctx, o, fl)
            t = sub(a.tree, '/out/store')
            if not a.ok or len(t) != 1:
                return 'skip'
            refs[g] = next(iter(t.items()))
        for x in o.get('old', []):
            a = ctx.ref([x], {'argv': ['--inlines'] + dest_args('store') + [x[0]]}).results[0]
            t = sub(a.tree, '/out/store')
            if not a.ok or len(t) != 1:
                return 'skip'
            refs[x[0]] = next(iter(t.items()))
        if any('~' in f for f in o['files']) and len(set(p.split('/')[-2] for p, _ in refs.values())) < len(refs):
            return 'skip'       # damage gave two files one debug id: one module
        if not ended(r) or r.rc:
            return ('status', 'the modules can be dumped one by one but this run ends with %s: %s' % (r.brief(), r.err[-200:]))
        m = check_dest(o, refs, r, ex.final)
        if m:
            return ('output', m)
        return None

    def nontrivial(self, sc, ex):
        return int(ex.results[0].stats.get('threads', 1)) > 1


class C03(Prop):
    id = 'C03'
    level = 'fault_enumeration'
    ERR = [ENOSPC, EIO, EDQUOT, EACCES, EROFS, EFBIG, ESTALE, EPIPE]

    def gen(self, rng, ctx):
        o, fs, argv = batch(rng, kinds=rng.choice(['e', 'e', 'em', 'emwx']), maps=0.03, big=0.25, one=rng.random() < 0.35, inlines=0.4)
        if o['dest'] == 'file' and len(by_group(o['files'])) > 1:
            o['dest'] = 'both'
            argv = o['opts'] + dest_args('both') + jobs_args(o['j']) + [vpath(f) for f in o['files']]
        stale(rng, fs, o, ctx)
        if o['dest'] in ('stdout', 'file', 'dash') and rng.random() < 0.08:
            argv = ['-s', ''] + argv        # an empty store is none
        cfg = sched(rng, {'ncpu': rng.choice([1, 2, 4])})
        r = run_of(argv, cfg)
        sc = {'fs': fs, 'steps': [{'run': r}], 'o': o}
        k = rng.random()
        if k < 0.06:
            # something else lies where the output should go
            w = []
            if o['dest'] in ('file', 'both'):
                w.append(['/out/o.sym', 'dir'])
            if o['dest'] in ('store', 'both', 'dashstore'):
                f = rng.choice(o['files'])
                if f not in META:
                    return None
                n, i = META[f]['name'], META[f]['id']
                q = '/out/store/%s/%s/' % (n, i)
                w += [['/out/store', 'text:x\n'], ['/out/store/' + n, 'text:x\n'], [q[:-1], 'text:x\n'], [q + (n[:-4] if n.endswith('.pdb') else n) + '.sym', 'dir']]
            if w and not o.get('stale'):
                fs.append(rng.choice(w))
                o['obst'] = fs[-1][0]
        elif k < 0.25:
            refs, bad = module_refs(ctx, o)
            if refs is None:
                return None
            tot = sum(len(d) for _, d in refs.values())
            pre = rng.choice(['/out', '<stdout>']) if 'dash' in o['dest'] else '<stdout>' if o['dest'] == 'stdout' else '/out'
            r['quota'] = [[pre, rng.choice([0, 1, tot - 1, tot - rng.randrange(1, 9000), rng.randrange(0, tot), rng.randrange(0, tot)])]]
            r['quota'][0][1] = max(0, r['quota'][0][1])
        elif k < 0.8:
            # fail exactly one output operation of this very execution
            plan = core.execute(sc).results[0]
            ops = [x for x in plan.ops if (x[1].startswith('/out') or x[1] == '<stdout>') and x[0] in ('write', 'create', 'open', 'mkdir', 'rename', 'close', 'fsync')
                   and not (x[0] == 'open')]
            ops = [x for x in ops if x[0] != 'close'] or ops
            if not ops:
                return None
            w = [x for x in ops if x[0] == 'write']
            op = rng.choice(w[-3:]) if w and rng.random() < 0.3 else rng.choice(ops)
            r['faults'] = [[op[0], op[1], op[2], 'err', rng.choice(self.ERR)]]
            if op[0] == 'write' and rng.random() < 0.3 and op[3] > 1:
                # a short write, then the error
                r['faults'] = [[op[0], op[1], op[2], 'short', rng.randrange(1, op[3])], [op[0], op[1], op[2] + 1, 'err', rng.choice(self.ERR)]]
            elif rng.random() < 0.15:
                then(rng, fs, r, ('/out', '<stdout>'), ['err'], self.ERR)
            elif op[0] == 'write' and rng.random() < 0.06:
                r['faults'] = [[op[0], op[1], op[2], 'short', 0]]
        else:
            r['frand'] = [[rng.choice(['write', 'write', 'create', 'mkdir']), rng.choice(['/out', '<stdout>']), 'err', rng.choice(self.ERR), rng.choice([2, 4, 10, 30]), rng.choice([1, 2, -1])]]
            if rng.random() < 0.4:
                r['frand'] = [['thread', '-', 'err', EAGAIN, rng.choice([1, 1, 2, 3]), rng.choice([1, 2, -1])]]
        return sc

    def directed(self, rng, ctx):
        """every output operation of a few small runs fails once"""
        out = []
        for files, dest in ((['m0.so'], 'store'), (['mid.so'], 'file'), (['m1.so'], 'stdout'), (['m0.so', 'm4.so'], 'store'), (['m0.so', 'm1.so', 'mid.so'], 'stdout'),
                            (['p0.so', 'p0.dbg'], 'both')):
            o = {'files': files, 'dest': dest, 'opts': [], 'j': 2}
            sc = {'fs': layout(files), 'steps': [{'run': run_of(dest_args(dest) + jobs_args(2) + [vpath(f) for f in files], {'seed': 1, 'mode': 'none', 'maxsteps': 2000000})}], 'o': o}
            plan = core.execute(sc).results[0]
            for x in plan.ops:
                if (x[1].startswith('/out') or x[1] == '<stdout>') and x[0] in ('write', 'create', 'mkdir', 'rename'):
                    for e in (ENOSPC, EIO):
                        c = copy.deepcopy(sc)
                        c['steps'][0]['run']['faults'] = [[x[0], x[1], x[2], 'err', e]]
                        out.append(c)
        return out

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        if r.why in HANG:
            return ('hang', 'no exit status: %s' % r.why)
        if not (ended(r) and r.rc == 0):
            return None if r.faults or 'obst' in o else 'skip'
        refs, bad = module_refs(ctx, o)
        if refs is None:
            return 'skip'
        m = check_dest(o, refs, r, {p: d for p, d in ex.final.items() if p != o.get('obst') or p in dict(refs.values())})
        if m:
            return ('incomplete', 'exit status 0 but ' + m + (' after ' + ' '.join(r.faults[0]) if r.faults else ''))
        return None

    def nontrivial(self, sc, ex):
        return bool(ex.results[0].faults)


class C04(Prop):
    id = 'C04'

    def gen(self, rng, ctx):
        k = rng.random()
        if k < 0.25:
            sc = self.gen_net(rng)
        else:
            o, fs, argv = batch(rng, kinds=rng.choice(['e', 'em', 'w', 'w', 'emwx', 'x']), maps=0.35, big=0.2, one=rng.random() < 0.5)
            if o['dest'] == 'file' and len(by_group(o['files'])) > 1:
                o['dest'] = 'store'
                argv = o['opts'] + dest_args('store') + jobs_args(o['j']) + [vpath(f) for f in o['files']]
            if rng.random() < 0.3:
                m = {'variables': {'rev': 'r1'}, 'mappings': [{'source': '/src/inc/(.*)', 'destination': 's3:{DIGEST}/{1}', 'files': []},
                                                             {'source': '/src/(.*)', 'destination': 'git:{rev}:{1}', 'files': []}]}
                o['fs'] = [['/cfg/map.json', 'text:' + json.dumps(m, indent=rng.choice([None, 2]))]]
                if not o['map']:
                    fs.append(['/src', 'srcs'])
                    o['map'] = True
                fs += o['fs']
                o['opts'] = o['opts'] + ['--mapping-file', '/cfg/map.json']
                argv = ['--mapping-file', '/cfg/map.json'] + argv
            sc = {'fs': fs, 'steps': [{'run': run_of(argv, sched(rng, {'ncpu': 4}))}], 'o': o}
        r = sc['steps'][0]['run']
        r['cfg']['fseed'] = rng.randrange(1 << 30)
        fr = []
        style = rng.randrange(4)
        for op in ('read', 'write'):
            if style == 1 and op == 'write' or style == 2 and op == 'read':
                continue
            for pre in rng.choice([['/'], ['/in', '/src', '/cfg', '/home', '/cache'], ['/in'], ['/out', '<stdout>', '/cache']]):
                one = rng.choice([1, 2, 2, 5, 20])
                mx = rng.choice([1, 5, 40, 200])
                kk = rng.randrange(3)
                if kk != 1:
                    fr.append([op, pre, 'short', rng.choice([-1, -1, 1]), max(one, 2), mx])
                if kk != 0:
                    fr.append([op, pre, 'err', EINTR, max(one, 2), mx])
            if op == 'write' and rng.random() < 0.6:
                fr.append([op, '<stdout>', 'short', -1, rng.choice([1, 2, 5]), 60])
                fr.append([op, '<stdout>', 'err', EINTR, rng.choice([2, 5]), 60])
        r['frand'] = fr
        return sc

    def gen_net(self, rng):
        L = Lookup(rng.choice(['pdb', 'dll', 'pe']), rng.choice(['w0', 'w1', 'w2', 'w3']))
        o = {'dest': 'store', 'opts': rng.choice([[], ['--inlines']]), 'look': L.spec, 'tags': ['servers']}
        fs = list(L.fs)
        if rng.random() < 0.4:
            # already in the cache
            form = rng.choice(['plain', 'cab'])
            fs.append(['/cache/%s/%s/%s' % (L.name, L.id, L.name), L.cached(form)])
            o['tags'].append('cache-hit')
        ent = sympath([('/cache', 's1.sim')])
        argv = list(o['opts'])
        if rng.random() < 0.5:
            fs.append(['/home/.dump_syms/config', 'text:' + ent])
        else:
            argv += ['--symbol-server', ent]
        argv += dest_args('store') + L.argv
        routes = healthy(rng, 0, L.name, L.id, L.fix, slow=False)
        return {'fs': fs, 'steps': [{'run': run_of(argv, sched(rng, {'ncpu': 2}), servers=[[1, 80, 0, 10 ** 5]], routes=routes)}], 'o': o, 'watch': ['/out', '/cache']}

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        if not r.faults:
            return 'skip'
        if 'look' in o:
            L = Lookup(*o['look'])
            d = L.disk(ctx, o['opts'] + dest_args('store'))
            if not d.ok:
                return 'skip'
            if not (ended(r) and r.rc == 0):
                return ('status', 'partial or interrupted transfers turn success into %s: %s' % (r.brief(), r.err[-200:]))
            m = treediff(sub(ex.final, '/out'), d.tree)
            if not m:
                c = sub(ex.final, '/cache')
                fin = '/cache/%s/%s/%s' % (L.name, L.id, L.name)
                ok = [core.content_c(L.cached()), core.content_c(L.cached('cab'))]
                if fin in c and c[fin] not in ok:
                    m = 'cached file %s has %d bytes, none of the served ones' % (fin, len(c[fin]))
            return ('output', m) if m else None
        refs, bad = module_refs(ctx, o)
        if refs is None:
            return 'skip'
        if not (ended(r) and r.rc == 0):
            return ('status', 'partial or interrupted transfers turn success into %s: %s' % (r.brief(), r.err[-200:]))
        m = check_dest(o, refs, r, ex.final)
        return ('output', m) if m else None

    def nontrivial(self, sc, ex):
        return bool(ex.results[0].faults)


class C05(Prop):
    id = 'C05'
    drop_ok = False

    def gen(self, rng, ctx):
        k = rng.random()
        cfg = sched(rng, {'ncpu': rng.choice([1, 2, 4])})
        o, fs, argv = batch(rng, kinds=rng.choice(['e', 'e', 'em', 'ex', 'emwx']), maps=0.03, big=0.05, one=rng.random() < 0.2, jobs=[None, 0, 1, 2, 3, 4, 8])
        jobs_opts = dest_args(o['dest']) + jobs_args(o['j'])

        def rebuild():
            return layout(o['files']) + ([['/src', 'srcs']] if o['map'] else []), o['opts'] + jobs_opts + [vpath(f) for f in o['files']]
        r = {'cfg': cfg}
        if k < 0.35:        # a bad input somewhere
            if rng.random() < 0.3:
                o['files'] = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                b = rng.choice(BAD)
                if b not in o['files']:
                    o['files'].insert(rng.randint(0, len(o['files'])), b)
            o['expect'] = 'fail'
        elif k < 0.45:      # a cut copy of a good file: bad if it cannot be dumped alone
            f = rng.choice(SINGLES + ['w0.pdb', 'w1.dll', 'w1.pd_', 'x0.dylib', 'p0.dbg'])
            n = len(core.content_c('bin:' + f))
            c = '%s@%d' % (f, rng.choice([rng.randrange(n), rng.randrange(64), n - 1 - rng.randrange(200)]))
            if rng.random() < 0.4:
                c = '%d~%s' % (rng.randrange(1 << 30), f)
            o['files'].insert(rng.randint(0, len(o['files'])), c)
            o['expect'] = 'iffail'
            o['cut'] = c
        elif k < 0.52:      # missing architecture
            o['opts'] = [x for x in o['opts'] if x not in ('-a', 'x86_64', 'arm64')] + ['-a', rng.choice(['ppc', 'x86', 'armv7', 'arm64e', 'x86_64h', 'arm64_32', 'arm'])]
            f = rng.choice(['x0.dylib', 'x1.dylib', 'x0.dSYM', 'x1.dSYM'])
            if f not in o['files']:
                o['files'].insert(rng.randint(0, len(o['files'])), f)
            o['expect'] = 'fail'
        elif k < 0.67:      # no CFI although required
            o['opts'] = o['opts'] + ['--check-cfi']
            o['files'] = [f for f in o['files'] if f in SINGLES or f in ('mid.so', 'big.so') or f.startswith('m')]
            b = rng.choice(['nocfi.so', 'nocfi.so', 'p1.dbg', 'x1.dSYM', 'badcfi.so', 'nosym.so'])
            o['files'].insert(rng.randint(0, len(o['files'])), b)
            o['nocfi'] = b
            o['expect'] = 'nocfi'
        elif k < 0.72:      # CFI is required, and every module has it in one of its files
            o['opts'] = o['opts'] + ['--check-cfi']
            gs = [rng.choice([['p0.so', 'p0.dbg'], ['p0.dbg', 'p0.full'], ['hc.dbg', 'hc.so'], ['ge.so', 'ga.so'], ['ge.so', 'gc.so', 'gd.so'], ['x0.dSYM', 'x0.dylib'], ['basic.dbg', 'basic.stripped'], ['w0.pdb', 'w0.dll'], ['w1.dl_', 'w1.pdb'],
                              ['a!w0.dll', 'w0.pdb'], ['w4.dll']])]
            gs += [[f] for f in rng.sample(SINGLES, rng.randint(0, 3))]
            o['files'] = shuffle_in(rng, gs)
            o['expect'] = 'cfi'
        else:               # an operation on an input fails
            if rng.random() < 0.4:
                # a PE or PDB without companions: it is only read as an input
                f = rng.choice(['w0.dll', 'w1.dll', 'w2.exe', 'w3.dll', 'w0.pdb', 'w3.pdb', 'w1.pd_', 'w2.ex_', 'basic64-dwarf.dll', 'mozwer.dll', 'dump_syms_regtest64.exe', 'basic32-min.dll'])
                o['files'] = [x for x in o['files'] if group(x) != group(f)] if rng.random() < 0.7 else []
                o['files'].insert(rng.randint(0, len(o['files'])), f)
            else:
                c = [f for f in o['files'] if f.endswith(('.so', '.dbg', '.full', '.dylib'))]
                if not c:
                    return None
                f = rng.choice(c)
            op = rng.choice(['stat', 'open', 'read', 'read'])
            nth = 1
            if op == 'read':
                nth = rng.choice([1, 2, 2])
            r['faults'] = [[op, vpath(f), nth, 'err', rng.choice([EIO, EACCES, ENOENT, ENOMEM, EMFILE, ESTALE] if op != 'read' else [EIO, ESTALE, EIO])]]
            if op == 'read' and nth == 2:
                n = len(core.content_c('bin:' + f))
                r['faults'].insert(0, ['read', vpath(f), 1, 'short', rng.choice([1, 100, 4000, rng.randrange(1, n), n - 1, n])])
            o['expect'] = 'fault'
        fs, argv = rebuild()
        r['argv'] = argv
        return {'fs': fs, 'steps': [{'run': r}], 'o': o}

    def directed(self, rng, ctx):
        out = []
        for b in BAD:
            for pos in (0, 1, 2):
                for j in (1, 2, 4):
                    files = ['m0.so', 'm1.so']
                    files.insert(pos, b)
                    for dest in ('store', 'stdout'):
                        o = {'files': files, 'dest': dest, 'opts': [], 'j': j, 'map': False, 'expect': 'fail'}
                        out.append({'fs': layout(files), 'steps': [{'run': run_of(dest_args(dest) + jobs_args(j) + [vpath(f) for f in files], sched(rng))}], 'o': o})
        return out

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        if r.why in HANG:
            return ('hang', 'a failing input and no exit status: %s' % r.why)
        e = o['expect']
        if e == 'fault' and not any(f[3] == 'err' for f in r.faults):
            return 'skip'
        if e == 'iffail':
            c = o['cut']
            a = ctx.ref(layout([c]), {'argv': o['opts'] + dest_args('store') + [vpath(c)]}).results[0]
            if a.rc == 0 or not ended(a):
                return 'skip'
        if e == 'cfi':
            refs, g = module_refs(ctx, dict(o, opts=[x for x in o['opts'] if x != '--check-cfi']))
            if refs is None or not all(re.search(rb'^STACK ', d, re.M) for _, d in refs.values()):
                return 'skip'
            if r.rc:
                return ('cfi', 'call-frame data is required and every module has some, but the run ends with %s: %s' % (r.brief(), r.err[-200:]))
            m = check_dest(o, refs, r, ex.final)
            return m and ('cfi', m)
        if e == 'nocfi':
            opts = [x for x in o['opts'] if x != '--check-cfi']
            a = ctx.ref(layout([o['nocfi']]), {'argv': opts + dest_args('store') + [vpath(o['nocfi'])]}).results[0]
            if not a.ok or len(a.tree) != 1 or re.search(rb'^STACK ', list(a.tree.values())[0], re.M):
                return 'skip'
            mod = list(a.tree.values())[0].split(b' ')[3].decode()
        what = ' '.join(f for f in o['files'] if f in BAD or '@' in f or '~' in f) or o.get('nocfi') or (' '.join(r.faults[-1]) if r.faults else '')
        if r.rc == 0:
            return ('status', 'exit status 0 although an input failed: ' + what)
        if e == 'nocfi':
            for p, d in list(ex.final.items()) + [('standard output', r.out)]:
                if mod and d and (mod in p or re.search(rb'^MODULE \S+ \S+ %s ' % mod.encode(), d, re.M)):
                    return ('published', 'a module without CFI was written to %s' % p)
            return None
        for p, d in ex.final.items():
            if d:
                return ('published', 'symbol output was written (%s, %d bytes) although an input failed: %s' % (p, len(d), what))
        if r.out:
            return ('published', '%d bytes on standard output although an input failed: %s' % (len(r.out), what))
        return None

    def nontrivial(self, sc, ex):
        return True


class C06(Prop):
    id = 'C06'

    def gen(self, rng, ctx):
        o, fs, argv = batch(rng, kinds=rng.choice(['e', 'e', 'em', 'emwx']), n=rng.randint(2, 6), maps=0.02, big=0.35,
                            dests=('stdout', 'dash', 'dash', 'file', 'file', 'both', 'dashstore'), jobs=[2, 2, 3, 4, 6, 8, None], inlines=0.4, many=0.03)
        if o['dest'] in ('file', 'both'):
            stale(rng, fs, o, ctx)
        r = run_of(argv, sched(rng, {'ncpu': rng.choice([2, 4, 8])}))
        if rng.random() < 0.5:
            r['frand'] = [['write', '<stdout>', 'short', -1, rng.choice([2, 5, 20]), 100], ['write', '/out', 'short', -1, rng.choice([2, 5, 20]), 100]]
        if rng.random() < 0.25:
            pre = rng.choice(['<stdout>', '/out']) if o['dest'] == 'dashstore' else '<stdout>' if o['dest'] in ('stdout', 'dash') else '/out'
            if rng.random() < 0.3:
                r['quota'] = [[pre, rng.randrange(100000)]]
            else:
                r.setdefault('frand', []).append([rng.choice(['write', 'write', 'create']), pre, 'err', rng.choice([EIO, ENOSPC, EPIPE]), rng.choice([3, 10, 30]), rng.choice([1, 1, 2])])
        return {'fs': fs, 'steps': [{'run': r}], 'o': o}

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        refs, bad = module_refs(ctx, o)
        if refs is None:
            return 'skip'
        if any(f[3] in ('err', 'quota') for f in r.faults) and ended(r) and r.rc:
            # a write failed (std may try the rest of its buffer again): no module may be there twice, no two in one file
            for where, d, n in [('standard output', r.out, 1)] + [(p, d, 0) for p, d in ex.final.items() if not o.get('stale')]:
                l = re.findall(rb'^MODULE .*\n', d, re.M)
                if len(set(l)) != len(l) or not n and len(l) > 1:
                    return ('mixed', 'after a failed write %s has %d modules, %d of them different' % (where, len(l), len(set(l))))
            return None
        if not (ended(r) and r.rc == 0):
            return ('status', 'the run ends with %s: %s' % (r.brief(), r.err[-200:]))
        m = check_dest(o, refs, r, ex.final)
        return ('mixed', m) if m else None

    def nontrivial(self, sc, ex):
        return len(by_group(sc['o']['files'])) > 1 and int(ex.results[0].stats.get('switches', 0)) > 0


# ================================================================= symbol servers and caches
def out_dest(k):
    return ['-s', '/out/%s' % k]


def retree(t, k):
    """/out/store/... of a reference -> /out/<k>/..."""
    return {p.replace('/out/store', '/out/%s' % k, 1): d for p, d in t.items()}


def some_alias(rng, kind, p):
    return rng.choice(Lookup.ALIAS[kind]) if kind in Lookup.ALIAS and rng.random() < p else None


def some_big(rng, w, p):
    """mostly w, sometimes a module whose PDB is as large as real ones"""
    return '%s^%d' % (w, rng.choice([70000, 300000, 1 << 20, 3 << 20, 9 << 20, 17 << 20])) if rng.random() < p else w


class Net(Prop):
    drop_ok = False
    KINDS = ['pdb', 'pdb', 'dll', 'pe', 'pe']

    def look(self, rng):
        k = rng.choice(self.KINDS)
        return Lookup(k, some_big(rng, rng.choice(['w0', 'w0', 'w1', 'w2', 'w3']), 0.04), some_alias(rng, k, 0.15))

    def runs(self, L, opts, k, cfg, ent, via, **kw):
        argv = list(opts) + out_dest(k)
        if via == 'arg':
            argv += ['--symbol-server', ent]
        return run_of(argv + L.argv, cfg, **kw)

    def shrink(self, sc):
        for c in Prop.shrink(self, sc):
            yield c
        for i, r in enumerate(list(core.runs_of(sc))):
            for k in range(len(r.get('routes', []))):
                if len(r['routes']) > 2:
                    c = copy.deepcopy(sc)
                    q = list(core.runs_of(c))[i]
                    rt = q['routes'][k]
                    if rt.get('seg', 1460) != 1460 or rt.get('lat', 10 ** 6) != 10 ** 6 and rt.get('lat', 0) <= 10 ** 9:
                        rt['seg'] = 1460
                        rt['lat'] = 10 ** 6
                        yield c

    def good(self, ctx, o):
        L = Lookup(*o['look'])
        d = L.disk(ctx, o['opts'] + dest_args('store'))
        w = L.without(ctx, o['opts'] + dest_args('store'))
        if not d.ok or (w is not None and not w.ok):
            return None, None
        return d, w

    def is_full(self, r, d, k, final):
        return ended(r) and r.rc == 0 and treediff(sub(final, '/out/%s' % k), retree(d.tree, k)) is None

    def is_absent(self, r, w, k, final):
        """a clean 'not available': failure without output, or the PE alone"""
        t = {p: x for p, x in sub(final, '/out/%s' % k).items() if x}
        if w is not None:
            return ended(r) and r.rc == 0 and treediff(t, retree(w.tree, k)) is None
        return ended(r) and r.rc != 0 and not t


DOWN = [[1, 80, 1, 1000], [2, 80, 1, 1000], [3, 80, 1, 1000], [4, 80, 1, 1000]]


class C07(Net):
    id = 'C07'
    level = 'fault_enumeration'

    def base(self, rng, L=None):
        L = L or self.look(rng)
        opts = rng.choice([[], ['--inlines']])
        ent = sympath([('/cache', 's1.sim')] + ([('/cache2', 's2.sim')] if rng.random() < 0.2 else []))
        via = rng.choice(['arg', 'arg', 'conf'])
        fs = list(L.fs) + ([['/home/.dump_syms/config', 'text:' + ent]] if via == 'conf' else [])
        routes = healthy(rng, 0, L.name, L.id, L.fix, slow=False)
        o = {'look': L.spec, 'opts': opts, 'tags': ['lookup:' + L.kind]}
        sv = [[1, 80, 0, 10 ** 5], [2, 80, 1, 1000]]
        mk = lambda k, cfg, **kw: self.runs(L, opts, k, cfg, ent, via, **kw)
        return L, o, fs, mk, sv, routes

    def plan(self, rng, L=None):
        L, o, fs, mk, sv, routes = self.base(rng, L)
        r1 = mk('1', sched(rng, {'ncpu': 2, 'pid': 101}), servers=sv, routes=routes)
        sc = {'fs': fs, 'steps': [{'run': r1}], 'watch': ['/out', '/cache', '/cache2'], 'o': o}
        ex = core.execute(sc)
        return L, o, fs, mk, sv, routes, r1, ex.results[0]

    def points(self, res):
        return [x for x in res.ops if x[1].startswith('/cache')]

    def finish(self, rng, o, fs, mk, sv, routes, firsts):
        steps = [{'run': r} for r in firsts]
        k = len(firsts) + 1
        steps.append({'run': mk(str(k), {'seed': 1, 'mode': 'none', 'pid': 200}, servers=DOWN)})
        steps.append({'run': mk(str(k + 1), {'seed': 2, 'mode': 'none', 'pid': 201}, servers=sv, routes=routes)})
        steps.append({'run': mk(str(k + 2), {'seed': 3, 'mode': 'none', 'pid': 202}, servers=DOWN)})
        o['nf'] = len(firsts)
        return {'fs': fs, 'steps': steps, 'watch': ['/out', '/cache', '/cache2'], 'o': o}

    def gen(self, rng, ctx):
        L, o, fs, mk, sv, routes, r1, res = self.plan(rng)
        pts = self.points(res)
        if not pts:
            return None
        r1 = copy.deepcopy(r1)
        k = rng.random()
        if k < 0.7:
            x = rng.choice(pts)
            kinds = ['crash_before', 'crash_after', 'err']
            if x[0] == 'write':
                kinds += ['crash_part', 'crash_part', 'short']
            kd = rng.choice(kinds)
            arg = rng.choice([EIO, ENOSPC, EACCES, EDQUOT]) if kd == 'err' else rng.choice([1, max(1, x[3] - 1), rng.randrange(1, max(2, x[3]))]) if kd in ('crash_part', 'short') else 0
            r1['faults'] = [[x[0], x[1], x[2], kd, arg]]
            if kd == 'short':
                r1['faults'].append([x[0], x[1], x[2] + 1, rng.choice(['crash_before', 'err']), EIO])
            elif kd == 'err' and rng.random() < 0.6:
                then(rng, fs, r1, '/cache', ['crash_before', 'crash_after', 'crash_part', 'err'], [EIO, ENOSPC])
        elif k < 0.85:
            tot = len(core.content_c('bin:' + L.fix))
            r1['quota'] = [['/cache', rng.choice([0, 1, rng.randrange(tot), max(0, tot - rng.randrange(1, 9000))])]]
        else:
            r1['frand'] = [['*', '/cache', rng.choice(['err', 'crash_before', 'crash_after']), EIO, rng.choice([2, 4, 8]), 1],
                           ['write', '/cache', 'short', -1, 2, 20]]
        firsts = [r1]
        if rng.random() < 0.25:
            r2 = mk('2', sched(rng, {'ncpu': 2, 'pid': rng.choice([101, 102])}), servers=sv, routes=routes)
            r2['frand'] = [['*', '/cache', rng.choice(['err', 'crash_before', 'crash_after']), EIO, rng.choice([2, 5]), 1]]
            firsts.append(r2)
        return self.finish(rng, o, fs, mk, sv, routes, firsts)

    def directed(self, rng, ctx):
        out = []
        for kind, w in (('pdb', 'w0'), ('pe', 'w1'), ('dll', 'w2')):
            L, o, fs, mk, sv, routes, r1, res = self.plan(rng, Lookup(kind, w))
            for x in self.points(res):
                if x[0] in ('read', 'readlink'):
                    continue
                for kd, arg in [('crash_before', 0), ('crash_after', 0), ('err', EIO), ('err', ENOSPC)] + ([('crash_part', 1), ('crash_part', max(1, x[3] // 2)), ('crash_part', max(1, x[3] - 1))] if x[0] == 'write' else []):
                    r = copy.deepcopy(r1)
                    r['faults'] = [[x[0], x[1], x[2], kd, arg]]
                    out.append(self.finish(rng, copy.deepcopy(o), fs, mk, sv, routes, [r]))
        rng.shuffle(out)
        return out

    def judge(self, ctx, sc, ex):
        o = sc['o']
        d, w = self.good(ctx, o)
        if d is None:
            return 'skip'
        nf = o['nf']
        for i, r in enumerate(ex.results):
            k = str(i + 1)
            if r.why == 'crash' and i < nf:
                continue
            if r.why in HANG:
                return ('hang', 'run %s: %s' % (k, r.why))
            full = self.is_full(r, d, k, ex.final)
            if i < nf:
                if r.rc == 0 and not full and not (r.faults and w is not None and self.is_absent(r, w, k, ex.final)):
                    return ('wrong', 'the disturbed run %s itself succeeds with wrong output' % k)
            elif i == nf:
                if not full and not self.is_absent(r, w, k, ex.final):
                    return ('partial', 'run %s with all servers down after the disturbed download: %s and neither the served file\'s output nor a clean failure%s' % (k, r.brief(), r.err[-160:]))
            elif i == nf + 1:
                if not full:
                    return ('blocked', 'run %s with the server healthy again: %s, expected the served file\'s output; %s' % (k, r.brief(), r.err[-160:]))
            else:
                if not full:
                    return ('lost', 'run %s (servers down, after a successful retrieval): %s; %s' % (k, r.brief(), r.err[-160:]))
        return None

    def nontrivial(self, sc, ex):
        return bool(ex.results[0].faults)


GETBAD = [k for k in BAD_SERVER if k.startswith('get') or k == 'headonly']


class C08(Net):
    id = 'C08'

    def gen(self, rng, ctx, kind=None):
        L = self.look(rng)
        opts = rng.choice([[], ['--inlines']])
        n = rng.choice([1, 1, 1, 2])
        caches = [rng.choice(['/cache', '/cache', None, '/cache2']) for _ in range(n)]
        ent = sympath([(c, 's%d.sim' % (i + 1)) for i, c in enumerate(caches)])
        via = rng.choice(['arg', 'arg', 'conf'])
        routes, tags = [], ['lookup:' + L.kind]
        for i in range(n):
            kd = kind or rng.choice(GETBAD)
            tags.append('answer:' + kd)
            routes += bad_server(rng, kd, i, L.name, L.id, L.fix)[1]
        sv = [[i + 1, 80, 0, 10 ** 5] for i in range(n)]
        fs = list(L.fs) + ([['/home/.dump_syms/config', 'text:' + ent]] if via == 'conf' else [])
        mk = lambda k, cfg, **kw: self.runs(L, opts, k, cfg, ent, via, **kw)
        good = healthy(rng, 0, L.name, L.id, L.fix, slow=False)
        steps = [{'run': mk('1', sched(rng, {'ncpu': 2}), servers=sv, routes=routes)},
                 {'run': mk('2', {'seed': 1, 'mode': 'none'}, servers=DOWN)},
                 {'run': mk('3', {'seed': 1, 'mode': 'none'}, servers=[[1, 80, 0, 10 ** 5], [2, 80, 1, 1000]], routes=good)}]
        return {'fs': fs, 'steps': steps, 'watch': ['/out', '/cache', '/cache2'],
                'o': {'look': L.spec, 'opts': opts, 'caches': caches, 'tags': tags}}

    def directed(self, rng, ctx):
        return [self.gen(rng, ctx, k) for k in GETBAD for _ in range(4)]

    def judge(self, ctx, sc, ex):
        o = sc['o']
        L = Lookup(*o['look'])
        d, w = self.good(ctx, o)
        if d is None:
            return 'skip'
        r1, r2, r3 = ex.results
        if not any(' GET ' in n for n in r1.net):
            return 'skip'
        what = ' '.join(t for t in o['tags'] if t.startswith('answer:'))
        if r1.why in HANG:
            return ('hang', '%s: %s' % (what, r1.why))
        if not self.is_absent(r1, w, '1', ex.final):
            return ('used', '%s: the run ends with %s and the bad answer was used; %s' % (what, r1.brief(), r1.err[-160:]))
        for c in o['caches']:
            p = '%s/%s/%s/%s' % (c, L.name, L.id, L.name)
            if c and p in r1.tree:
                return ('cached', '%s: the bad answer was put in the cache (%d bytes)' % (what, len(r1.tree[p])))
        if not self.is_absent(r2, w, '2', ex.final):
            return ('cached', '%s: with the servers down the next run ends with %s; %s' % (what, r2.brief(), r2.err[-160:]))
        if not self.is_full(r3, d, '3', ex.final):
            return ('blocked', '%s: with a healthy server the next run ends with %s; %s' % (what, r3.brief(), r3.err[-160:]))
        return None

    def nontrivial(self, sc, ex):
        return any(' GET ' in n for n in ex.results[0].net)


class C09(Net):
    id = 'C09'
    KINDS = ['pdb', 'pdb', 'dll', 'pe', 'pe', 'both']

    def gen(self, rng, ctx):
        L = self.look(rng)
        opts = rng.choice([[], ['--inlines']])
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        good = rng.randrange(n)
        servers, routes, ent, tags = [], [], [], ['lookup:' + L.kind]
        shared = rng.random() < 0.5
        hit = rng.random() < 0.25 and L.kind != 'both'
        want = [(L.name, L.id, L.fix)] + ([(L.w + '.pdb', L.fid, L.w + '.pdb')] if L.kind == 'both' else [])
        for i in range(n):
            c = rng.choice([None, '/cache' if shared else '/cache%d' % i])
            rt = []
            if i == good and not hit:
                conn, host = 0, 's%d.sim' % (i + 1)
                for w in want:
                    if rng.random() < 0.25:
                        # one form is fine, the other is not
                        a = rng.choice(['plain', 'cab'])
                        kd = rng.choice([k for k in BAD_SERVER if k.startswith(('get', 'head'))])
                        rt += healthy(rng, i, *w, forms=[a]) + bad_server(rng, kd, i, *w, forms=['cab' if a == 'plain' else 'plain'])[1]
                        tags.append('half:' + kd)
                    else:
                        rt += healthy(rng, i, *w)
                tags.append('healthy-at:%d/%d' % (i + 1, n))
                if rng.random() < 0.2:
                    rt = redirected(rt, i, n, 's9.sim')
                    tags.append('redirect')
            else:
                kd = rng.choice(BAD_SERVER)
                for w in want:
                    conn, x = bad_server(rng, kd, i, *w)
                    rt += x
                host = 's%d.sim' % (i + 1) if kd != 'nohost' else 'nohost.invalid'
                tags.append('bad:' + kd)
            if rng.random() < 0.2:
                pre = rng.choice(['/', '/sub', '/a/b/'])
                host += pre
                rt = [dict(x, path=pre + x['path']) if x['srv'] == i else x for x in rt]
            routes += rt
            servers.append([i + 1, 80, conn, rng.choice([10 ** 5, 10 ** 7, 10 ** 9])])
            ent.append((c, host))
        servers.append([9, 80, 0, 10 ** 5])
        fs = list(L.fs)
        o = {'look': L.spec, 'opts': opts, 'tags': tags}
        if hit:
            k = rng.randrange(n)
            c = ent[k][0] or '/cache%d' % k
            ent[k] = (c, ent[k][1])
            if rng.random() < 0.2 and n > 1:
                ent[(k + 1) % n] = (None, ent[k][1])
                tags.append('server-twice')
            form = rng.choice(['plain', 'cab'])
            fs.append(['%s/%s/%s/%s' % (c, L.name, L.id, L.name), L.cached(form)])
            o['hit'] = True
            tags.append('cache-hit')
        via = rng.choice(['arg', 'arg', 'conf'])
        es = sympath(ent)
        if rng.random() < 0.2:
            es = decorate(rng, es)
            tags.append('odd-config')
        if via == 'conf':
            fs.append(['/home/.dump_syms/config', 'text:' + es.replace(';', rng.choice([';', '\n']))])
        r = self.runs(L, opts, '1', sched(rng, {'ncpu': rng.choice([1, 2, 4])}), es, via, servers=servers, routes=routes)
        return {'fs': fs, 'steps': [{'run': r}], 'watch': ['/out'], 'o': o}

    def directed(self, rng, ctx):
        """every bad behaviour in front of and behind one healthy server"""
        out = []
        for kd in BAD_SERVER:
            for pos in (0, 1):
                for kind, w in (('pdb', 'w0'), ('pe', 'w1')):
                    L = Lookup(kind, w)
                    conn, rt = bad_server(rng, kd, pos, L.name, L.id, L.fix, ['plain', 'cab'])
                    routes = rt + healthy(rng, 1 - pos, L.name, L.id, L.fix)
                    servers = [None, None]
                    servers[pos] = [pos + 1, 80, conn, 10 ** 5]
                    servers[1 - pos] = [2 - pos, 80, 0, 10 ** 6]
                    ent = [('/cache', 's1.sim'), (None, 's2.sim')]
                    if kd == 'nohost':
                        ent[pos] = (ent[pos][0], 'nohost.invalid')
                    r = self.runs(L, [], '1', sched(rng), sympath(ent), 'arg', servers=servers, routes=routes)
                    out.append({'fs': list(L.fs), 'steps': [{'run': r}], 'watch': ['/out'], 'o': {'look': [kind, w], 'opts': [], 'tags': ['bad:' + kd, 'directed']}})
        return out

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        d, w = self.good(ctx, o)
        if d is None:
            return 'skip'
        if r.why in HANG:
            return ('hang', 'the lookup never ends: %s' % r.why)
        t = int(r.stats.get('time', 0)) / 1e9
        L = Lookup(*o['look'])
        if not self.is_full(r, d, '1', ex.final):
            return ('notfound', '%s although %s; %s' % (r.brief(), 'the cache holds the file' if o.get('hit') else 'a healthy server has the file', ' '.join(o['tags'])))
        if o.get('hit'):
            # a PE found in the cache still needs its PDB, which may be looked for on the servers
            used = [x for x in r.net if L.kind != 'dll' or x.startswith('R ') and ' /%s/' % quote(L.name) in x]
            if used:
                return ('network', 'the cache holds the file but the network is used: %s' % used[0])
            if t > 5 and L.kind != 'dll':
                return ('slow', 'a cache hit takes %.0f simulated seconds' % t)
        elif t > 900:
            return ('slow', 'the lookup takes %.0f simulated seconds' % t)
        return None

    def nontrivial(self, sc, ex):
        return bool(ex.results[0].net) or sc['o'].get('hit')


class C10(Net):
    """histories of lookups against a map model; a key is one (file name, id)"""
    id = 'C10'

    def gen(self, rng, ctx):
        ncache = rng.choice([1, 2, 2])
        caches = ['/cache%d' % i for i in range(ncache)]
        nsrv = rng.choice([1, 2, 3])
        looks = []
        dll = rng.random() < 0.3    # a PE by code id makes a second lookup for its pdb: keep that one's name free
        for _ in range(rng.choice([1, 2, 2, 3, 3])):
            w = some_big(rng, rng.choice(['w0', 'w1', 'w2', 'w3']), 0.02)
            kind = rng.choice(['dll', 'pdb']) if dll else rng.choice(['pdb', 'pdb', 'pe'])
            alias = some_alias(rng, kind, 0.25)
            L = Lookup(kind, w, alias)
            fid = L.id
            if kind == 'pdb' and dll:
                fid = L.id[:-1] + '7'
            elif kind != 'pe' and rng.random() < 0.5:
                fid = rng.choice([L.id[:-1] + '2', 'ABCDEF01', L.id.lower(), '5'])
            if [kind, w, fid, alias] not in looks:
                looks.append([kind, w, fid, alias])
            if alias and rng.random() < 0.3:        # another file, under nearly the same name
                q = rng.choice([alias.lower(), alias.upper(), alias.replace(' ', ''), alias.replace(' ', '_')])
                if q != alias and [kind, w, fid, q] not in looks:
                    looks.append([kind, w, fid, q])
        keys = sorted(set((look_name(l), l[2]) for l in looks))
        fixof = {look_name(l): Lookup(l[0], l[1]).fix for l in looks}
        opts = rng.choice([[], ['--inlines']])
        steps, orc, fs = [], [], []
        for k, w, i, n_ in looks:
            for e in Lookup(k, w).fs:
                if e not in fs:
                    fs.append(e)
        # decoys: the same file under other ids, other names under the same id
        if rng.random() < 0.5:
            nm, fid = rng.choice(keys)
            fs.append([rng.choice(['%s/%s/%s/%s' % (caches[0], nm, fid + '9', nm), '%s/%s/%s/other.%s' % (caches[0], nm, fid, nm[-3:]), '%s/%s/%s' % (caches[0], nm, nm),
                                   '%s/other/%s/%s' % (caches[0], fid, nm), '%s/%s/%s' % (caches[0], fid, nm)]), 'bin:w1.' + ('pdb' if nm.endswith('pdb') else 'dll')])
        world = {}
        n = rng.randint(3, 7)
        cfix = {i: rng.choice(caches + [None]) for i in range(nsrv)}
        home = rng.random() < 0.2
        pre = '/home' if home else ''
        fs = [[pre + p if p.startswith('/cache') else p, c] for p, c in fs]
        for step in range(n):
            for s in range(nsrv):
                for key in keys:
                    if rng.random() < 0.4 or step == 0:
                        fixes = [fixof[key[0]]]
                        w, ext = fixes[0][:2], fixes[0][3:]
                        if ext == 'pdb' and not any(l[0] == 'pe' and look_name(l) == key[0] for l in looks):
                            fixes += [x + '.pdb' for x in ('w0', 'w1', 'w2', 'w3')]
                        if ext == 'dll':
                            fixes += ['w0.dll', 'w1.dll', 'w3.dll']
                        world[s, key] = None if rng.random() < 0.3 else (rng.choice(fixes), rng.choice([['plain'], ['cab'], ['plain', 'cab']]))
            kind, w, fid, alias = rng.choice(looks)
            L = Lookup(kind, w, alias)
            key = (L.name, fid)
            if kind != 'pe':
                L.argv[1] = fid
            srvs = rng.sample(range(nsrv), rng.randint(1, nsrv))
            ent = [(cfix[s] if rng.random() < 0.8 else rng.choice(caches + [None]), s) for s in srvs]
            if rng.random() < 0.15:     # a server once more, with another cache or none
                ent.insert(rng.randint(0, len(ent)), (rng.choice(caches + [None]), rng.choice(srvs)))
            down = rng.random() < 0.35
            servers, routes, serve = [], [], []
            for s in range(nsrv):
                servers.append([s + 1, 80, 1 if down or rng.random() < 0.15 else 0, 10 ** 5])
                for k2 in keys:
                    wv = world[s, k2]
                    if wv:
                        # the cabinet member carries the requested name
                        routes += healthy(rng, s, k2[0], k2[1], wv[0], forms=wv[1], slow=False, bodies={'cab': 'cabof:%s:%s' % (wv[0], k2[0])})
                        if k2 == key and not servers[s][2]:
                            serve.append([s, wv[0]])
            es = sympath([(('~' if home else '') + c if c else None, 's%d.sim' % (s + 1)) for c, s in ent])
            steps.append({'run': self.runs(L, opts, str(step + 1), sched(rng, {'ncpu': 2, 'pid': 100 + step}), es, 'arg', servers=servers, routes=routes)})
            orc.append({'look': [kind, w, fid, alias], 'ent': [[c, s] for c, s in ent], 'serve': serve})
        return {'fs': fs, 'steps': steps, 'watch': ['/out'] + [pre + c for c in caches], 'o': {'opts': opts, 'steps': orc}}

    def judge(self, ctx, sc, ex):
        o = sc['o']
        model = {}  # (cache, name, id) -> content spec stored there by the first retrieval
        for i, (st, r) in enumerate(zip(o['steps'], ex.results)):
            k = str(i + 1)
            kind, w, fid, alias = st['look']
            L = Lookup(kind, w, alias)
            so = o['opts'] + dest_args('store')
            hit = next((model[c, L.name, fid] for c, s in st['ent'] if (c, L.name, fid) in model), None)
            where = 'run %s (%s %s)' % (k, L.name, fid)
            if r.why in HANG:
                return ('hang', where + ': ' + r.why)
            if hit is not None:
                d = L.disk(ctx, so, hit)
                if not d.ok:
                    return 'skip'
                if not self.is_full(r, d, k, ex.final):
                    return ('changed', '%s: the file is in the cache but the run ends with %s or other output than the first retrieval; %s' % (where, r.brief(), r.err[-160:]))
                if kind != 'dll' and r.net:
                    return ('network', '%s: the file is in the cache but the network is used' % where)
                continue
            srv = [[s, f] for s, f in st['serve'] if s in [e[1] for e in st['ent']]]
            if not srv:
                wo = L.without(ctx, so)
                if wo is not None and not wo.ok:
                    return 'skip'
                if not self.is_absent(r, wo, k, ex.final):
                    return ('phantom', '%s: nobody has this file but the run ends with %s and output %s' % (where, r.brief(), sorted(sub(ex.final, '/out/' + k))))
                continue
            # who delivered it
            gets = [n.split(' ') for n in r.net if n.startswith('R ') and ' GET ' in n]
            gets = [g for g in gets if g[3].startswith('/%s/%s/' % (quote(L.name), fid)) and g[4] == '200' and g[5] == '0']
            if not gets:
                return ('notfound', '%s: a server has the file but it was not downloaded; %s' % (where, r.err[-160:]))
            g = gets[-1]
            fix = next((f for s, f in srv if s == int(g[1])), None)
            if fix is None:
                return ('notfound', '%s: downloaded from a server that is not configured' % where)
            d = L.disk(ctx, so, 'bin:' + fix)
            if not d.ok:
                return 'skip'
            if not self.is_full(r, d, k, ex.final):
                return ('output', '%s: retrieved, but ends with %s or other output than dumping the served file; %s' % (where, r.brief(), r.err[-160:]))
            cs = set(c for c, s in st['ent'] if s == int(g[1]))
            if len(cs) > 1:     # the server is given twice: which entry it is taken from is open
                pre = next(x for x in sc['watch'] if x.endswith('/cache0'))[:-7]
                cs = set(c for c in cs if c and '%s%s/%s/%s/%s' % (pre, c, L.name, fid, L.name) in r.tree) or cs & {None}
                if not cs:
                    return ('notkept', '%s: downloaded, but it is in no cache of the server' % where)
            for c in cs:
                if c:
                    model[c, L.name, fid] = 'bin:' + fix if not g[3].endswith('_') else 'cabof:%s:%s' % (fix, L.name)
        return None

    def tags(self, sc, ex):
        n = sum(1 for r in ex.results if r.rc == 0)
        return ['history:%d' % len(ex.results), 'retrieved-or-hit:%d' % n]

    def nontrivial(self, sc, ex):
        return any(r.net for r in ex.results)


def look_name(l):
    return Lookup(l[0], l[1], l[3]).name


# ================================================================= path mapping
class C11(Prop):
    id = 'C11'

    def gen(self, rng, ctx):
        gs = pick_groups(rng, rng.choice([1, 2, 3, 3, 4, 6]), rng.choice(['e', 'e', 'em', 'emwx']), 0.1)
        if rng.random() < 0.2 and ['u.so'] not in gs:
            gs.append(['u.so'])
        if rng.random() < 0.2 and ['cs.so'] not in gs:
            gs.append(['cs.so'])
        files = shuffle_in(rng, gs)
        rules, opts, fs = [], [], [['/src', 'srcs']]
        dig = lambda: rng.choice(['{digest}', '{DIGEST}', '{digest}', '{digest}', '{DIGEST}.{digest}', '{{digest}}'])
        shapes = [
            (r'/src/inc/(.*)', lambda: 's3:gen:%s/{1}:' % dig()),
            (r'/src/([^/]*)/(.*)', lambda: 'git:{rev}:{2}:{1}'),
            (r'/src/(.*)\.cpp', lambda: 'https://x.y/{rev}/%s/{1}.cpp' % dig()),
            (r'/src/m([0-9])/s([0-9])\.(cpp|h)', lambda: '{1}-{2}-{3}-{rev}-{branch}'),
            (r'src/(p0|g[a-e]|h[a-c])/(.*)', lambda: 'part/{2}?' + dig()),
            (r'/src/(x[0-9]|w[0-9])/(s0)?(.*)', lambda: rng.choice(['', dig()]) + 'opt:{2}:{3}'),
            (r'/nowhere/(.*)', lambda: '{1}'),
            (r'/src/u/(.)/(common|main)\.(h|c)', lambda: 'u:{1}:{2}.{3}:' + dig()),
            (r'/src/cs/(.*)', lambda: 'cs:%s:{1}' % dig()),
            (r'/src/inc/(deep|util)\.h', lambda: dig() + '{1}{rev}'),
            (r'(.*)', lambda: 'all:{1}:%s' % dig()),
        ]
        vs = {'rev': rng.choice(['r%d' % rng.randrange(1000)] * 5 + ['', 'a=b', '=', 'x==y=', 'with space', '{1}', '/src/inc/', 'caf\u00e9']), 'branch': 'b'}
        if rng.random() < 0.05:
            vs['1'] = 'one'     # a variable hides a group
        fvars = {}
        if rng.random() < 0.5:
            fr = []
            for _ in range(rng.randint(1, 3)):
                s, dd = rng.choice(shapes)
                fl = []
                if rng.random() < 0.4:
                    fl = rng.sample(['/src/inc/util.h', '/src/inc/deep.h', '/src/inc/only_inl.h', '/src/m0/s0.cpp', '/src/m1/s0.cpp', '/src/m3/s0.cpp', '/src/m4/s1.cpp', '/src/ga/s0.cpp',
                                     'util.h', '/inc/deep.h', 's0.cpp', 'src/m0/s0.cpp', '/src/inc', '/src/inc/UTIL.H', '/src/m1/s0.cp', '/src/cs/dir/x.c', '/src/cs/Dir/x.c'], rng.randint(1, 6))
                fr.append({'source': s, 'destination': dd(), 'files': fl})
            fvars = {'rev': 'file', 'branch': 'fb'}
            fs.append(['/cfg/map.json', 'text:' + json.dumps({'variables': fvars, 'mappings': fr})])
            opts += ['--mapping-file', '/cfg/map.json']
            rules += [[x['source'], x['destination'], x['files']] for x in fr if x['files']] + [[x['source'], x['destination'], []] for x in fr if not x['files']]
        cl = []
        if rng.random() < 0.75 or not rules:
            for _ in range(rng.randint(1, 3)):
                s, dd = rng.choice(shapes)
                cl.append([s, dd(), []])
            for s, d, _ in cl:
                opts += ['--mapping-src=' + s, '--mapping-dest=' + d]
        setv = bool(cl) or rng.random() < 0.6
        if setv:
            for k, v in vs.items():
                opts += ['--mapping-var', '%s=%s' % (k, v)]
        var = dict(fvars)
        if setv:
            var.update(vs)
        rules += cl
        if rng.random() < 0.3:
            # a source file that does not fit in one buffer
            p = rng.choice(['/src/inc/util.h', '/src/inc/deep.h', '/src/m0/s0.cpp', '/src/m4/s0.cpp'])
            fs.append([p, rng.choice(['rep:%d:line %d of a long file\n' % (rng.choice([9000, 100000, 500000]), rng.randrange(99)), 'rep:%d:line\r\n' % rng.choice([70, 20000]), 'rep:%d:abc\r\n' % rng.choice([1100000, 2500000, 5000000]),
                                      'hex:' + bytes(rng.randrange(256) for _ in range(300)).hex(), 'hex:efbbbf2f2f200a0a0d0a00', 'zeros:4096'])])
        if rng.random() < 0.15:
            fs.append(['/src/inc/only_inl.h', 'text:'])
        fs += layout(files)
        if rng.random() < 0.5:
            opts.append('--inlines')
        j = rng.choice([None, 1, 2, 3, 4, 8])
        r = run_of(opts + dest_args('store') + jobs_args(j) + [vpath(f) for f in files], sched(rng, {'ncpu': 4}))
        fr = []
        k = rng.random()
        if k < 0.35:
            fr = [['read', '/src', 'short', -1, rng.choice([2, 3]), 60], ['read', '/src', 'err', EINTR, 4, 60]]
        elif k < 0.65:
            p = rng.choice(['/src/inc', '/src', '/src/m', '/src/inc/util.h'])
            fr = [[rng.choice(['stat', 'stat', 'read', 'open']), p, 'err', rng.choice([EIO, EACCES, ENOENT]), rng.choice([1, 2, 4]), rng.choice([1, 2, 5])]]
            if rng.random() < 0.4:
                fr.append(['read', '/src', 'short', -1, 2, 60])
        if rng.random() < 0.2:
            fr.append(['realpath', '/src', 'err', rng.choice([EIO, EACCES, ENOENT, ENOMEM]), rng.choice([1, 2, 4]), rng.choice([1, 3, -1])])
        r['frand'] = fr
        gone = []
        steps = [{'run': r}]
        if rng.random() < 0.15:
            g = rng.choice(['/src/inc/util.h', '/src/m0/s0.cpp', '/src/m1/s0.cpp', '/src/inc'])
            gone.append(g)
            steps.insert(0, {'rm': g})
        return {'fs': fs, 'steps': steps, 'o': {'files': files, 'rules': rules, 'vars': var, 'opts': opts, 'gone': gone, 'inl': '--inlines' in opts}}

    def model(self, o, contents, path, readable=True):
        """mapping of one path -> new path, or None if no rule applies, or 'ERR' if a digest is needed of an unreadable file"""
        for src, dst, files in o['rules']:
            if files and path not in files:
                continue
            m = re.search(src, path)
            if not m:
                continue
            out, ok = '', True
            pos = 0
            for a in re.finditer(r'\{([^{}]*)\}', dst):
                out += dst[pos:a.start()]
                pos = a.end()
                v = a.group(1)
                if v in ('digest', 'DIGEST'):
                    real = posixpath.normpath(path)
                    if real not in contents or not readable:
                        return 'ERR'
                    h = hashlib.sha512(contents[real]).hexdigest()
                    out += h if v == 'digest' else h.upper()
                elif v in o['vars']:
                    out += o['vars'][v]
                else:
                    g = m.group(int(v))
                    if g is None:
                        ok = False
                        break
                    out += g
            if not ok:
                continue
            return out + dst[pos:]
        return None

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        hard = [f for f in r.faults if f[3] == 'err' and int(f[4]) != EINTR and f[0] != 'realpath']
        if not (ended(r) and r.rc == 0):
            if r.why in HANG:
                return ('hang', r.why)
            if hard or o['gone']:
                return None
            return ('status', 'the run ends with %s although every file can be read: %s' % (r.brief(), r.err[-200:]))
        # the sources as they were
        contents = {}
        import os
        for d, dn, fn in os.walk(os.path.join(core.FIX, 'srcs')):
            for f in fn:
                q = os.path.join(d, f)
                contents['/src' + q[len(os.path.join(core.FIX, 'srcs')):]] = q
        contents = {k: open(v, 'rb').read() for k, v in contents.items()}
        for p, c in sc['fs']:
            if p.startswith('/src/'):
                contents[p] = core.content_c(c)
        for g in o['gone']:
            for p in [p for p in contents if p == g or p.startswith(g + '/')]:
                del contents[p]
        faulty = {}     # real path -> failed operations on it: each can spoil the mapping of one path once
        for f in hard:
            q = unquote(f[1])
            faulty[q] = faulty.get(q, 0) + 1
        spoiled = {}
        bymod = {}
        for p, d in ex.final.items():
            try:
                s = parse(d)
            except ValueError as e:
                return ('malformed', '%s: %s' % (p, e))
            bymod[s.module.split(' ')[3]] = (p, s)
        for g, fl in by_group(o['files']).items():
            pre = [x for x in sc['fs'] if x[0] == '/src' or x[0].startswith('/src/')] + layout(companions(o['files'], fl))
            # the paths do not depend on whether the files are there
            u = ctx.ref(pre, {'argv': (['--inlines'] if o['inl'] else []) + dest_args('store') + [vpath(f) for f in fl]}).results[-1]
            t = list(u.tree.values())
            if not u.ok or len(t) != 1:
                return 'skip'
            us = parse(t[0])
            if len(fl) == 1 and fl[0] in PATHS and sorted(us.files.values()) != PATHS[fl[0]][o['inl']]:
                return ('paths', '%s: the unmapped paths are not those of the debug information: %s' % (fl[0], sorted(set(us.files.values()) ^ set(PATHS[fl[0]][o['inl']]))))
            if len(fl) == 1 and fl[0] in PATHS and attribution(us) != PATHS[fl[0]][2][o['inl']]:
                return ('paths', '%s: the lines are not attributed to the files the debug information says' % fl[0])
            mid = us.module.split(' ')[3]
            if mid not in bymod:
                return ('missing', 'module %s was not written' % mid)
            p, s = bymod[mid]
            want = {}
            for n, path in us.files.items():
                m = self.model(o, contents, path)
                if m == 'ERR':
                    ok = {path}
                elif m is None:
                    ok = {path}
                else:
                    ok = {m}
                    if posixpath.normpath(path) in faulty and self.model(o, contents, path, False) == 'ERR':
                        ok.add(path)
                want[n] = (path, ok)
            for path, ok in want.values():
                if len(ok) > 1 and path in s.files.values():
                    real = posixpath.normpath(path)
                    spoiled[real] = spoiled.get(real, 0) + 1
                    if spoiled[real] > faulty[real]:
                        return ('unmapped', '%s: %r is not mapped although the file can be read (%d failed operations on it, %d unmapped uses)' % (
                            p, path, faulty[real], spoiled[real]))
            if len(fl) == 1:
                if sorted(s.files) != sorted(want):
                    return ('files', '%s has %d FILE records, expected %d' % (p, len(s.files), len(want)))
                for n, (path, ok) in want.items():
                    if s.files[n] not in ok:
                        return ('mapping', '%s: FILE %d is %r; %r maps to %s' % (p, n, s.files[n], path, sorted(ok)))
            else:
                allok = set().union(*[ok for _, ok in want.values()]) if want else set()
                for f in s.files.values():
                    if f not in allok:
                        return ('mapping', '%s: FILE %r is not the mapping of any source path of this module' % (p, f))
                for path, ok in want.values():
                    if not ok & set(s.files.values()):
                        return ('mapping', '%s: no FILE for %r (expected %s)' % (p, path, sorted(ok)))
        return None

    def nontrivial(self, sc, ex):
        return True


# ================================================================= merging
class C12(Prop):
    id = 'C12'
    drop_ok = True

    def gen(self, rng, ctx):
        g = rng.choice(['g', 'g', 'h', 'h', 'p0', 'p1', 'm2', 'q', 'y', 'b', 'x0', 'x1', 'w', 'w', 'z', 'z', 'j', 'j'])
        if g == 'w':
            fl = list(rng.choice([s for s in PE_SETS if len(s) > 1] + PE_SPLIT))
        elif g in ('x0', 'x1'):
            fl = [g + '.dylib', g + '.dSYM']
        else:
            c = MULTI[g]
            fl = rng.sample(c, rng.randint(2, min(4, len(c))))
        gs = [fl]
        if rng.random() < 0.5:
            for x in pick_groups(rng, rng.randint(1, 3), 'em', 0.02):
                if group(x[0]) != group(fl[0]):
                    gs.append(x)
        files = shuffle_in(rng, gs)
        opts = ['--inlines'] if rng.random() < 0.7 else []
        if any(f.startswith('x') for f in files) and rng.random() < 0.5:
            opts += ['-a', rng.choice(['x86_64', 'arm64'])]
        if rng.random() < 0.3:
            s, d = rng.choice([('/src/(.*)', 'git:{1}'), ('/src/([^/]*)/(.*)', '{2}:{1}'), ('/src/[^/]*/(.*)', 'x:{1}'), ('(.*)\\.h$', '{1}.hh'), ('.*', 'one')])
            opts += ['--mapping-src=' + s, '--mapping-dest=' + d]
        j = rng.choice([None, 1, 2, 2, 3, 4, 8])
        argv = opts + dest_args('store') + jobs_args(j) + [vpath(f) for f in files]
        return {'fs': layout(files), 'steps': [{'run': run_of(argv, sched(rng, {'ncpu': 4}))}], 'o': {'files': files, 'opts': opts, 'dest': 'store', 'j': j}}

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        if not (ended(r) and r.rc == 0):
            return ('status', 'combining ends with %s: %s' % (r.brief(), r.err[-300:]))
        outs = {}
        for p, d in ex.final.items():
            try:
                s = parse(d)
            except ValueError as e:
                return ('malformed', '%s: %s' % (p, e))
            outs.setdefault(s.module.split(' ')[3], []).append((p, s))
        for g, fl in by_group(o['files']).items():
            ins = []
            for f in fl:
                a = ctx.ref(layout(companions(o['files'], fl)), {'argv': o['opts'] + dest_args('store') + [vpath(f)]}).results[0]
                t = list(a.tree.values())
                if not a.ok or len(t) != 1:
                    return 'skip'
                try:
                    ins.append((f, parse(t[0])))
                except ValueError as e:
                    return ('malformed', '%s alone: %s' % (f, e))
            mid = ins[0][1].module.split(' ')[3]
            if any(s.module.split(' ')[3] != mid for _, s in ins):
                raise HarnessError('group %s has several ids' % g)
            got = outs.pop(mid, [])
            if len(got) != 1:
                return ('modules', '%d symbol files for module %s' % (len(got), mid))
            p, m = got[0]
            v = self.conserve(p, m, ins)
            if v:
                return v
        if outs:
            return ('modules', 'unexpected module %s' % list(outs))
        return None

    def conserve(self, p, m, ins):
        names = '+'.join(f for f, _ in ins)
        if len(ins) == 1:
            return None
        addrs = set()
        for f, s in ins:
            addrs.update(s.funcs)
        for a in sorted(addrs):
            c = [fkey(s.funcs[a]) for _, s in ins if a in s.funcs]
            if a not in m.funcs:
                return ('lostfunc', '%s: no FUNC at %x (%s) although an input has one' % (names, a, c[0][3]))
            k = fkey(m.funcs[a])
            if k not in c:
                i = next((i for i in range(6) if not any(k[i] == x[i] for x in c)), None)
                what = ['address', 'size', 'parameter size', 'name', 'lines', 'inline calls'][i] if i is not None else 'mixture of inputs'
                got = k[i] if i is not None else ''
                if i is not None and i >= 4:
                    got = [x for x in k[i] if x not in c[0][i]][:2] or 'records missing'
                return ('func', '%s: FUNC %x %s: its %s match(es) no input: %s' % (names, a, k[3], what, str(got)[:200]))
        for a in m.funcs:
            if a not in addrs:
                return ('newfunc', '%s: FUNC at %x is in no input' % (names, a))
        for what, of in (('FILE', lambda s: list(s.files.values())), ):
            l = of(m)
            if len(set(l)) != len(l) and all(len(set(of(s))) == len(of(s)) for _, s in ins):
                return ('twice', '%s: the same %s is listed twice' % (names, what))
        pub = set()
        for f, s in ins:
            pub.update(s.publics)
        cover = sorted((a, a + x['size']) for a, x in m.funcs.items())
        psz = {}
        for f, s in ins:
            if f.endswith(('.so', '.dbg', '.full')):
                for a, z in elf_sizes(f).items():
                    psz[a] = max(psz.get(a, 0), z)
        cover += [(a, a + psz.get(a, 0)) for a in m.publics]
        for a in sorted(pub):
            if a in m.funcs or a in m.publics or any(b <= a < e for b, e in cover):
                continue
            return ('lostpublic', '%s: nothing at or around %x where an input has a PUBLIC' % (names, a))
        for a, x in m.publics.items():
            c = [s.publics[a]['name'] for _, s in ins if a in s.publics]
            if x['name'] not in c:
                return ('public', '%s: PUBLIC %x %s matches no input' % (names, a, x['name']))
        want = set()
        for f, s in ins:
            want.update(s.stack)
        if set(m.stack) != want:
            return ('stack', '%s: %d unwind records missing, %d new' % (names, len(want - set(m.stack)), len(set(m.stack) - want)))
        for f, s in ins:
            if not subseq(s.stack, m.stack):
                return ('stack', '%s: the unwind records of %s are not all there in their order' % (names, f))
        ci = [s.code_id for _, s in ins if s.code_id]
        if ci and m.code_id not in ci:
            return ('codeid', '%s: code id %s, inputs have %s' % (names, m.code_id, ci))
        mods = [s.module for _, s in ins]
        if m.module not in mods:
            return ('module', '%s: %s is the module line of no input' % (names, m.module))
        return None

    def nontrivial(self, sc, ex):
        return any(len(x) > 1 for x in by_group(sc['o']['files']).values())


def subseq(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


# ================================================================= crash and repeat
class C13(Prop):
    id = 'C13'
    level = 'fault_enumeration'

    def plan(self, rng, o, fs, argv):
        r = run_of(argv, sched(rng, {'ncpu': 4, 'pid': 100}))
        sc = {'fs': fs, 'steps': [{'run': r}], 'o': o}
        res = core.execute(sc).results[0]
        return r, res

    def crash(self, rng, r, x, kd=None, arg=None):
        r = copy.deepcopy(r)
        if kd is None:
            kinds = ['crash_before', 'crash_after'] + (['crash_part'] * 3 if x[0] == 'write' and x[3] > 1 else [])
            kd = rng.choice(kinds)
        if arg is None:
            arg = rng.choice([1, max(1, x[3] - 1), rng.randrange(1, max(2, x[3]))])
        r['faults'] = [[x[0], x[1], x[2], kd, arg if kd == 'crash_part' else 0]]
        return r

    def final(self, rng, o, fs, argv, firsts):
        last = run_of(argv, sched(rng, {'ncpu': 4, 'pid': rng.choice([100, 200])}), **{k: firsts[0][k] for k in ('servers', 'routes') if k in firsts[0]})
        return {'fs': fs, 'steps': [{'run': x} for x in firsts] + [{'run': last}], 'o': o}

    def gen_net(self, rng):
        L = Lookup(rng.choice(['pdb', 'dll', 'pe']), rng.choice(['w0', 'w1', 'w2', 'w3']))
        o = {'look': L.spec, 'opts': rng.choice([[], ['--inlines']]), 'dest': 'store', 'tags': ['servers', 'lookup:' + L.kind], 'files': []}
        argv = o['opts'] + dest_args('store') + ['--symbol-server', sympath([(rng.choice(['/cache', '/cache', None]), 's1.sim')])] + L.argv
        routes = healthy(rng, 0, L.name, L.id, L.fix, slow=False)
        sv = [[1, 80, 0, 10 ** 5]]
        r = run_of(argv, sched(rng, {'ncpu': 2, 'pid': 100}), servers=sv, routes=routes)
        res = core.execute({'fs': L.fs, 'steps': [{'run': r}], 'watch': []}).results[0]
        pts = [x for x in res.ops if x[1].startswith(('/out', '/cache'))]
        if not res.ok or not pts:
            return None
        w = [x for x in pts if x[0] in ('write', 'create', 'mkdir', 'rename')]
        return self.final(rng, o, list(L.fs), argv, [self.crash(rng, r, rng.choice(w if rng.random() < 0.7 else pts))])

    def gen(self, rng, ctx):
        if rng.random() < 0.12:
            return self.gen_net(rng)
        o, fs, argv = batch(rng, kinds=rng.choice(['e', 'e', 'em', 'emwx']), maps=0.05, big=0.2, one=rng.random() < 0.4,
                            dests=('store', 'store', 'both', 'file', 'dashstore'), inlines=0.4)
        if len(by_group(o['files'])) > 1 and o['dest'] in ('file', 'both'):
            o['dest'] = 'store'
            argv = o['opts'] + dest_args('store') + jobs_args(o['j']) + [vpath(f) for f in o['files']]
        if rng.random() < 0.3:
            stale(rng, fs, o, ctx)
        r, res = self.plan(rng, o, fs, argv)
        pts = [x for x in res.ops if x[1].startswith('/out')]
        if not pts or not res.ok:
            return None
        w = [x for x in pts if x[0] in ('write', 'create', 'mkdir', 'rename')]
        firsts = [self.crash(rng, r, rng.choice(w if w and rng.random() < 0.7 else pts))]
        if rng.random() < 0.3:
            r2 = run_of(argv, sched(rng, {'ncpu': 4, 'pid': 101}))
            r2['frand'] = [['*', '/out', rng.choice(['crash_before', 'crash_after', 'crash_part']), -1, rng.choice([3, 10, 30]), 1]]
            firsts.append(r2)
        return self.final(rng, o, fs, argv, firsts)

    def directed(self, rng, ctx):
        out = []
        for files, dest, j in ((['m0.so'], 'store', 1), (['mid.so'], 'file', 1), (['m1.so'], 'both', 1), (['m0.so', 'm3.so'], 'store', 2), (['p0.so', 'p0.dbg', 'm4.so'], 'store', 3),
                               (['w0.pdb', 'm0.so'], 'store', 2)):
            o = {'files': files, 'dest': dest, 'opts': [], 'j': j, 'map': False}
            fs = layout(files)
            argv = dest_args(dest) + jobs_args(j) + [vpath(f) for f in files]
            r, res = self.plan(rng, o, fs, argv)
            for x in res.ops:
                if not x[1].startswith('/out'):
                    continue
                for kd, a in [('crash_before', 0), ('crash_after', 0)] + ([('crash_part', 1), ('crash_part', x[3] // 2), ('crash_part', x[3] - 1)] if x[0] == 'write' and x[3] > 3 else []):
                    out.append(self.final(rng, copy.deepcopy(o), fs, argv, [self.crash(rng, r, x, kd, a)]))
        rng.shuffle(out)
        return out

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[-1]
        if not any(x.why == 'crash' for x in ex.results[:-1]):
            return 'skip'
        if 'look' in o:
            d = Lookup(*o['look']).disk(ctx, o['opts'] + dest_args('store'))
            if not d.ok:
                return 'skip'
            if not (ended(r) and r.rc == 0):
                return ('status', 'the repeated run ends with %s: %s' % (r.brief(), r.err[-200:]))
            m = treediff({p: x for p, x in ex.final.items() if p in d.tree or p.endswith('.sym')}, d.tree)
            return ('output', 'after the repeated run ' + m) if m else None
        refs, bad = module_refs(ctx, o)
        if refs is None:
            return 'skip'
        if not (ended(r) and r.rc == 0):
            return ('status', 'the repeated run ends with %s: %s' % (r.brief(), r.err[-200:]))
        want = dict(refs.values()) if o['dest'] in ('store', 'both', 'dashstore') else {}
        if o['dest'] in ('file', 'both'):
            want['/out/o.sym'] = next(iter(refs.values()))[1]
        for p, d in want.items():
            if p not in ex.final:
                return ('missing', 'after the repeated run %s is missing' % p)
            if ex.final[p] != d:
                return ('output', 'after the repeated run ' + treediff({p: ex.final[p]}, {p: d}))
        for p, d in ex.final.items():
            if p not in want and p.endswith('.sym') and not (o.get('stale') and d == core.content_c(STALE)):
                return ('extra', '%s was left behind' % p)
        if o['dest'] == 'dashstore':
            b = blocks(r.out)
            if b is None or sorted(b) != sorted(d for _, d in refs.values()):
                return ('output', 'standard output of the repeated run is wrong')
        return None

    def nontrivial(self, sc, ex):
        return any(x.why == 'crash' for x in ex.results[:-1])


# ================================================================= two invocations at once
class C14(Prop):
    id = 'C14'
    drop_ok = False

    def pauses(self, rng, prefixes):
        out = []
        for pre in prefixes:
            out.append(['*', pre, rng.choice(['pause_before', 'pause_before', 'pause_after']), 0, rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 6, 20])])
            out.append(['write', pre, 'pause_part', -1, rng.choice([1, 2, 4]), rng.choice([1, 3])])
        return out

    def gen(self, rng, ctx):
        return self.gen_net(rng) if rng.random() < 0.6 else self.gen_store(rng)

    def gen_store(self, rng):
        pool = [f for g in pick_groups(rng, rng.randint(1, 3), rng.choice(['e', 'em', 'emwx']), 0.25) for f in g]
        opts = ['--inlines'] if rng.random() < 0.4 else []
        runs, os_ = [], []
        n = rng.choice([2, 2, 3])
        for i in range(n):
            # whole modules only, so that equal paths mean equal bytes
            gs = by_group(pool)
            pick = rng.sample(sorted(gs), rng.randint(1, len(gs)))
            files = [f for g in pick for f in gs[g]]
            j = rng.choice([None, 1, 2, 4])
            own = rng.random() < 0.4 and len(pick) == 1
            argv = opts + ['-s', '/out/store'] + (['-o', '/out/own%d.sym' % i] if own else []) + jobs_args(j) + [vpath(f) for f in files]
            r = run_of(argv, sched(rng, {'ncpu': 4, 'pid': 100 + i}))
            r['frand'] = self.pauses(rng, ['/out'])
            runs.append(r)
            os_.append({'files': files, 'own': own})
        return {'fs': layout(pool), 'steps': [{'par': runs, 'seed': rng.randrange(1 << 30)}], 'o': {'kind': 'store', 'opts': opts, 'runs': os_, 'files': pool, 'tags': ['shared-store']}}

    def gen_net(self, rng):
        L = Lookup(rng.choice(['pdb', 'pdb', 'pe', 'dll']), rng.choice(['w0', 'w1', 'w2', 'w3']))
        same = rng.random() < 0.8
        opts = ['--inlines'] if rng.random() < 0.4 else []
        form = rng.choice(['plain', 'cab'])
        warm = rng.random() < 0.15
        fs = list(L.fs)
        final = '/cache/%s/%s/%s' % (L.name, L.id, L.name)
        body = L.cached(form)
        if warm:
            fs.append([final, body])
        runs, os_ = [], []
        shared = rng.random() < 0.3
        for i in range(rng.choice([2, 2, 3])):
            Li = L
            if not same and i:
                Li = Lookup(L.kind, rng.choice(['w0', 'w1', 'w3']))
                fs += [e for e in Li.fs if e not in fs]
            routes = healthy(rng, 0, Li.name, Li.id, Li.fix, forms=[form], slow=False)
            argv = opts + ['-s', '/out/%s' % ('store' if shared else 'r%d' % i), '--symbol-server', sympath([('/cache', 's1.sim')])] + Li.argv
            down = i and rng.random() < 0.25
            r = run_of(argv, sched(rng, {'ncpu': 2, 'pid': 100 + i}), servers=DOWN if down else [[1, 80, 0, 10 ** 5]], routes=routes)
            r['frand'] = self.pauses(rng, ['/cache'] + (['/out'] if rng.random() < 0.3 else []))
            runs.append(r)
            os_.append({'look': [Li.kind, Li.w], 'down': bool(down)})
        st = {'par': runs, 'seed': rng.randrange(1 << 30)}
        tags = ['shared-cache', 'warm' if warm else 'cold']
        if not shared and rng.random() < 0.2:
            st['kill'] = rng.choice([2, 4, 8])
            tags.append('killed-neighbour')
        return {'fs': fs, 'steps': [st], 'watch': ['/out', '/cache'],
                'o': {'kind': 'net', 'opts': opts, 'runs': os_, 'shared': shared, 'form': form, 'warm': warm, 'tags': tags}}

    def judge(self, ctx, sc, ex):
        o = sc['o']
        if sum(r.pauses for r in ex.results) == 0:
            return 'skip'
        if o['kind'] == 'store':
            want = {}
            for i, (q, r) in enumerate(zip(o['runs'], ex.results)):
                oo = {'files': q['files'], 'opts': o['opts'], 'dest': 'store'}
                refs, bad = module_refs(ctx, oo)
                if refs is None:
                    return 'skip'
                if not (ended(r) and r.rc == 0):
                    return ('status', 'invocation %d ends with %s next to another one: %s' % (i, r.brief(), r.err[-200:]))
                want.update(dict(refs.values()))
                if q['own']:
                    want['/out/own%d.sym' % i] = next(iter(refs.values()))[1]
            fin = {p: d for p, d in ex.final.items() if p in want or p.endswith('.sym')}
            m = treediff(fin, want)
            return ('store', m) if m else None
        want = {}
        for i, (q, r) in enumerate(zip(o['runs'], ex.results)):
            L = Lookup(*q['look'])
            so = o['opts'] + dest_args('store')
            d = L.disk(ctx, so)
            w = L.without(ctx, so)
            if not d.ok:
                return 'skip'
            k = 'store' if o['shared'] else 'r%d' % i
            if r.why == 'crash':
                continue        # killed by the driver while suspended
            if r.why in HANG:
                return ('hang', 'invocation %d: %s' % (i, r.why))
            if q['down']:
                # alone and offline: the full output if the file was in the cache before, else a clean failure
                if o['shared'] and w is not None:
                    return 'skip'
                full = ended(r) and r.rc == 0
                if full and o['shared']:
                    want.update(retree(d.tree, k))
                    continue
                t = {p: x for p, x in sub(ex.final, '/out/%s' % k).items() if x}
                if full and not treediff(t, retree(d.tree, k)):
                    continue
                if full and w is not None and not treediff(t, retree(w.tree, k)):
                    continue
                if ended(r) and r.rc and w is None and (not t or o['shared']):
                    # the same failure as alone, offline and with an empty cache
                    a = ctx.ref(L.fs, {'argv': sc['steps'][0]['par'][i]['argv'], 'servers': DOWN}).results[0]
                    if ended(a) and a.rc == r.rc and re.sub(r'\d+', '0', a.err) == re.sub(r'\d+', '0', r.err):
                        continue
                if ended(r) and r.rc and w is None and (not t or o['shared']) and not any(x[0] in ('open', 'read') and x[1].startswith('/cache') for x in r.ops):
                    continue
                return ('partial', 'invocation %d (servers down) next to a downloading one: %s, neither the full output nor a clean "not found": %s' % (i, r.brief(), r.err[-200:]))
            if not (ended(r) and r.rc == 0):
                return ('status', 'invocation %d ends with %s next to another one: %s' % (i, r.brief(), r.err[-200:]))
            if o['shared']:
                want.update(retree(d.tree, k))
            else:
                m = treediff(sub(ex.final, '/out/%s' % k), retree(d.tree, k))
                if m:
                    return ('output', 'invocation %d: %s' % (i, m))
            p = '/cache/%s/%s/%s' % (L.name, L.id, L.name)
            body = core.content_c(L.cached(o['form']))
            if ex.final.get(p) != body:
                return ('cache', 'after both invocations %s %s' % (p, 'is missing' if p not in ex.final else 'has %d bytes, served were %d' % (len(ex.final[p]), len(body))))
        if o['shared']:
            m = treediff({p: d for p, d in sub(ex.final, '/out/store').items() if p in want or p.endswith('.sym')}, want)
            if m:
                return ('output', m)
        return None

    def nontrivial(self, sc, ex):
        return sum(r.pauses for r in ex.results) > 0


# ================================================================= effects
class C22(Prop):
    """nothing but the destinations changes"""
    id = 'C22'
    drop_ok = False

    def own(self, files):
        """where the symbol files of these inputs go"""
        out = set()
        for f in files:
            if f in META:
                n, i = META[f]['name'], META[f]['id']
                out.add('/out/store/%s/%s/%s.sym' % (n, i, n[:-4] if n.endswith('.pdb') else n))
        return out

    @staticmethod
    def placed(p, d):
        """is this a symbol file in its place in the store?"""
        m = re.match(rb'MODULE \S+ \S+ (\S+) (.+)\n', d)
        if not m:
            return False
        i, n = m.group(1).decode(), m.group(2).decode('utf-8', 'replace')
        base = n[:-1] + {'d': 'b', 'x': 'e', 'l': 'l'}[n[-2].lower()] if re.search(r'\.(pd|ex|dl)_$', n, re.I) else n
        return p == '/out/store/%s/%s/%s.sym' % (base, i, n[:-4] if n.lower().endswith('.pdb') else n)

    def decoys(self, rng, files, look=None):
        out = [['/out/keep.sym', 'text:keep\n'], ['/out/o.sym.bak', 'text:keep\n'], ['/w/notes.txt', 'text:keep\n'], ['/home/notes.txt', 'text:keep\n'], ['/tmp/x', 'text:keep\n']]
        ids = [(META[f]['name'], META[f]['id']) for f in files if f in META]
        for n, i in ids:
            q = '/out/store/%s' % n
            out += [[q + '/%s/notes' % i, 'text:keep\n'], [q + '/%s/other.sym' % i, STALE], [q + '/%s/.%s.sym' % (i, n), 'text:keep\n'], [q + '/%s0/%s.sym' % (i, n), STALE], [q + '/%s/x.sym' % i[:-1], 'text:keep\n'], [q + '/%s/%s.sym.bak' % (i, n), 'text:keep\n']]
        out += [['/out/store/other/123/other.sym', 'text:keep\n'], ['/out/store/top.txt', 'text:keep\n'], ['/in/neighbour.so', 'bin:m4.so'], ['/in/m0.so.sym', 'text:keep\n']]
        if look:
            q = '/cache/%s' % look.name
            out += [[q + '/%s0/%s' % (look.id, look.name), 'text:keep\n'], [q + '/%s/notes' % look.id, 'text:keep\n'], [q + '/refs', 'text:keep\n'], ['/cache/pingme.txt', 'text:'],
                    ['/cache/other.pdb/1/other.pdb', 'text:keep\n'], ['/cache/%s.tmp' % look.name, 'text:keep\n'], [q + '/%s/%s.77.0.tmp' % (look.id, look.name), 'text:keep\n'], [q + '/%s/x.tmp' % look.id, 'text:'], [q + '/%s/%s.part' % (look.id, look.name), 'text:keep\n'],
                    [q + '/%s/%s_' % (look.id, look.name[:-1]), 'text:keep\n']]
        out = rng.sample(out, rng.randint(len(out) // 2, len(out)))
        if rng.random() < 0.2:      # a new store, a new cache
            new = ('/out', '/out', '/out/store', '/cache')[:rng.randint(1, 4)]
            return [e for e in out if not e[0].startswith(new)]
        if rng.random() < 0.4:      # directories that are there already, not open to everyone
            ds = ['/out', '/out/store'] + ['/out/store/' + n for n, i in ids] + ['/out/store/%s/%s' % x for x in ids]
            ds += ['/cache', '/cache/' + look.name, '/cache/%s/%s' % (look.name, look.id)] if look else []
            out += [[x, 'dir:' + rng.choice(['700', '711', '750', '2775'])] for x in rng.sample(ds, rng.randint(1, len(ds)))]
        return out

    def faults(self, rng, r, pres):
        k = rng.random()
        if k < 0.2:
            return
        if k < 0.3:
            r['quota'] = [[rng.choice(pres), rng.choice([0, rng.randrange(60000)])]]
            return
        r['frand'] = []
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(['write', 'write', 'create', 'mkdir', 'open', 'read', 'stat', 'rename', 'close', '*'])
            kd = rng.choice(['err', 'err', 'err', 'crash_before', 'crash_after'])
            r['frand'].append([op, rng.choice(pres + ['/']), kd, rng.choice([EIO, ENOSPC, EACCES, EEXIST, ENOENT]), rng.choice([1, 2, 4, 10, 30]), rng.choice([1, 1, 3])])

    def gen(self, rng, ctx):
        if rng.random() < 0.4:
            return self.gen_net(rng)
        bad = rng.choice([0, 0, 0, 1])
        o, fs, argv = batch(rng, kinds=rng.choice(['e', 'e', 'em', 'emwx', 'w']), maps=0.15, big=0.1, one=rng.random() < 0.4, bad=bad)
        if bad and o['files'] and o['files'][0] in BAD and len(o['files']) == 1 and o['map']:
            return None
        if bad and rng.random() < 0.4 or rng.random() < 0.04:
            # nothing but one input that cannot be dumped
            f = rng.choice(BAD + ['nocfi.so', 'badcfi.so', 'nosym.so'])
            bad = 1
            o['files'] = [f]
            o['opts'] = [x for x in o['opts'] if x == '--inlines'] + (['--check-cfi'] if f not in BAD else [])
            o['dest'] = rng.choice(['file', 'file', 'both', 'store'])
            o['map'] = False
            fs = layout([f])
            argv = o['opts'] + dest_args(o['dest']) + [vpath(f)]
        o['badin'] = bool(bad)
        if rng.random() < 0.15 and not bad:
            o['files'].append('nocfi.so')
            argv += ['--check-cfi', vpath('nocfi.so')]
            fs += layout(['nocfi.so'])
            o['nocfi'] = True
        fs += [e for e in self.decoys(rng, o['files']) if e[0] not in [x[0] for x in fs]]
        if rng.random() < 0.6:
            own = sorted(self.own(o['files']))
            fs += [[p, STALE] for p in own if rng.random() < 0.6]
            if o['dest'] in ('file', 'both'):
                fs.append(['/out/o.sym', STALE])
        if '/out/o.sym' in argv and rng.random() < 0.08:      # in a directory that is not there
            argv[argv.index('/out/o.sym')] = rng.choice(['/out/new/o.sym', '/out/new/er/o.sym'])
        r = run_of(argv, sched(rng, {'ncpu': rng.choice([1, 2, 4])}))
        if not bad:
            self.faults(rng, r, ['/out', '/out', '/in'])
        o['net'] = []
        return {'fs': fs, 'steps': [{'run': r}], 'watch': ['/'], 'snap': 1, 'o': o}

    def gen_net(self, rng):
        kind = rng.choice(['pdb', 'pdb', 'dll', 'pe', 'both'])
        L = Lookup(kind, rng.choice(['w0', 'w1', 'w2', 'w3']), some_alias(rng, kind, 0.1))
        n = rng.choice([1, 1, 2, 3])
        want = [(L.name, L.id, L.fix)] + ([(L.w + '.pdb', L.fid, L.w + '.pdb')] if L.kind in ('both', 'dll') else [])
        servers, routes, ent, tags = [], [], [], ['lookup:' + L.kind]
        hosts = []
        for i in range(n):
            kd = rng.choice(BAD_SERVER) if rng.random() < 0.5 else None
            conn = 0
            for w in want:
                if kd:
                    conn, x = bad_server(rng, kd, i, *w)
                    routes += x
                else:
                    routes += healthy(rng, i, *w, slow=False)
            host = 'nohost.invalid' if kd == 'nohost' else 's%d.sim' % (i + 1)
            hosts.append(host)
            servers.append([i + 1, 80, conn, 10 ** 5])
            ent.append((rng.choice(['/cache', '/cache', None]), host))
            tags.append('bad:' + kd if kd else 'healthy')
        servers.append([9, 80, 0, 10 ** 5])
        tilde = rng.random() < 0.2
        o = {'files': [L.pe] if L.kind == 'pe' else [], 'dest': 'store', 'look': L.spec, 'tags': tags, 'net': hosts, 'cached': any(c for c, h in ent)}
        fs = list(L.fs) + self.decoys(rng, [L.w + '.pdb', L.pe], L)
        cached = any(c for c, h in ent) and rng.random() < 0.2
        if cached:
            # what is in the cache is used or not, but left alone
            fs.append(['/cache/%s/%s/%s' % (L.name, L.id, L.name), rng.choice(['bin:' + L.fix, L.cached('cab'), 'text:garbage', 'text:', 'cut:%s:%d' % (L.fix, rng.randrange(1, 3000)), 'bin:m0.so', 'dmg:%s:%d' % (L.fix, rng.randrange(1 << 20)), 'bin:v0.pdb'])])
        if tilde:
            fs = [['/home' + p if p.startswith('/cache') else p, c] for p, c in fs]
            o['home'] = '/home'
            fs.append(['/home', 'dir'])
        es = sympath([('~' + c if c and tilde else c, h) for c, h in ent])
        argv = dest_args('store') + L.argv
        if rng.random() < 0.4:
            fs.append(['/home/.dump_syms/config', 'text:' + es])
        else:
            argv = ['--symbol-server', es] + argv
            if rng.random() < 0.3:
                # the servers given on the command line replace those of the configuration file
                fs.append(['/home/.dump_syms/config', 'text:srv*/other*http://elsewhere.sim'])
                if rng.random() < 0.3:  # even when they come to nothing
                    argv[1] = rng.choice(['', ' ', ';', 'none', 's1.sim', 'http://s1.sim', 'cache*/cache', 'srv*/a*/b*/c*http://s1.sim'])
                    o['net'], o['cached'] = [], False
        r = run_of(argv, sched(rng, {'ncpu': 2, 'cwd': rng.choice(['/w', '/in', '/home', '/cache'])}), servers=servers, routes=routes)
        if r['cfg']['cwd'] in ('/in', '/cache'):
            fs.append([r['cfg']['cwd'] + '/here.txt', 'text:keep\n'])
        self.faults(rng, r, ['/cache', '/cache', '/out'])
        return {'fs': fs, 'steps': [{'run': r}], 'watch': ['/'], 'snap': 1, 'o': o}

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        a, b = ex.initial, ex.final
        crash = r.why == 'crash'
        if r.why in HANG:
            return 'skip'       # C01
        untouched = o.get('badin')
        cp = o.get('home', '') + '/cache/'
        own = set() if untouched else self.own(o['files'])
        if 'look' in o:
            L = Lookup(*o['look'])
            own |= self.own([L.w + '.pdb', L.pe])
            if len(o['look']) > 2:      # under another name
                own |= set(L.disk(ctx, dest_args('store')).tree)
            mine = cp + '%s/%s/%s' % (L.name, L.id, L.name)   # downloaded again if it could not be looked up
            if mine in a and r.faults and b.get(mine) in (core.content_c(L.cached()), core.content_c(L.cached('cab'))):
                a = dict(a)
                a[mine] = b[mine]
        if o.get('nocfi'):
            own -= self.own(['nocfi.so'])
        dest = o['dest']
        dirs = [x for x, t in (('/out/store/', 'store' in dest or dest == 'both'), ) if t and not untouched]
        if o.get('cached'):
            dirs.append(cp)
        ofile = '/out/o.sym' if dest in ('file', 'both') and not untouched else None
        entries = set()      # what may be downloaded
        if o.get('cached') and 'healthy' in o['tags']:
            entries = {cp + '%s/%s/%s' % (x, i, x) for x, i in ((L.name, L.id), (L.w + '.pdb', L.fid), (L.pe, L.cid))}
        calm = not crash and not r.faults
        for p in sorted(set(a) | set(b)):
            if a.get(p) == b.get(p) or p in own and p.startswith('/out/store/') or p == ofile:
                continue
            if p.endswith('\0mode'):
                f = p[:-5]
                if f in a and f in b and f not in own and f != ofile and f not in entries:
                    return ('mode', 'the mode of %s was changed from %s to %s' % (f, a[p].decode(), b[p].decode()))
                continue
            if p not in a:
                if any(p.startswith(x) or p == x for x in dirs):
                    if not p.startswith(cp):
                        if self.placed(p, b[p]) or p == '/out/store/':
                            continue
                        if p.endswith('/') and any(x.startswith(p) and (x in own or self.placed(x, b[x])) for x in b):
                            continue
                        if not calm and (p.count('/') <= 5 if p.endswith('/') else p.count('/') == 5 and p.endswith('.sym') and not b[p]):
                            continue
                        return ('created', '%s was created in the store; the run ended with %s' % (p, r.brief()))
                    if p in entries or p.endswith('/') and any(x.startswith(p) for x in entries):
                        continue
                    if not calm and any(p.startswith(posixpath.dirname(x) + '/') for x in entries):
                        continue        # what could not be tidied up
                if crash and posixpath.dirname(p) == '/out':
                    continue
                return ('created', '%s was created; the run ended with %s' % (p, r.brief()))
            if p not in b:
                return ('removed', '%s existed before and was removed; the run ended with %s' % (p, r.brief()))
            return ('changed', '%s existed before (%d bytes) and was changed (%d bytes); the run ended with %s' % (p, len(a[p]), len(b[p]), r.brief()))
        for x in r.net:
            if x.startswith('D ') and x[2:].split(' ')[0] not in o['net'] + ['s9.sim']:
                return ('network', 'a host that is not configured is looked up: ' + x[2:])
            if x[0] in 'CR' and not o['net']:
                return ('network', 'the network is used although no server is configured: ' + x)
        return None

    def nontrivial(self, sc, ex):
        return True


class C23(Prop):
    """threads and open files are bounded by the number of jobs"""
    id = 'C23'
    drop_ok = True

    def gen(self, rng, ctx):
        j = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, None])
        o, fs, argv = batch(rng, kinds=rng.choice(['e', 'em', 'emwx']), n=rng.choice([2, 4, 6]), maps=0.25, big=0.05, jobs=[j], many=0.5, dests=('store', 'store', 'stdout', 'both'))
        ncpu = rng.choice([1, 2, 4, 8])
        o['ncpu'] = ncpu
        if len(o['files']) < 2:
            return None
        i = argv.index('-j') if '-j' in argv else None
        o['j'] = int(argv[i + 1]) if i is not None else None
        r = run_of(argv, sched(rng, {'ncpu': ncpu}))
        return {'fs': fs, 'steps': [{'run': r}], 'watch': ['/out'], 'o': o}

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        if not ended(r) or r.rc:
            return 'skip'
        n = max(1, o['ncpu'] if o['j'] is None else o['j'])
        # a thread is at work from its first to its last operation on an input or an output
        span = {}
        for i, (op, path, nth, ln, tid) in enumerate(r.ops):
            if op in ('read', 'open') and path.startswith('/in/') or op in ('write', 'create') and (path.startswith('/out/') or path == '<stdout>'):
                span.setdefault(tid, [i, i])[1] = i
        ev = sorted([(a, 0) for a, b in span.values()] + [(b, 1) for a, b in span.values()])
        cur, most = 0, 0
        for _, e in ev:
            cur += 1 - 2 * e
            most = max(most, cur)
        if most > n:
            return ('threads', '%d threads read inputs or write symbols at the same time although %s jobs are asked for' % (most, o['j'] if o['j'] is not None else 'as many as the %d processors' % o['ncpu']))
        cur, top = 0, 0
        for op, path, nth, ln, tid in r.ops:
            if op in ('open', 'create'):
                cur += 1
                top = max(top, cur)
            elif op == 'close':
                cur -= 1
        if top > 2 * n + 4:
            return ('files', '%d files open at the same time with %d jobs and %d inputs' % (top, n, len(o['files'])))
        return None

    def nontrivial(self, sc, ex):
        return int(ex.results[0].stats.get('threads', 1)) > 1


# ================================================================= listings and messages
class C24(Prop):
    """--list-arch"""
    id = 'C24'
    drop_ok = False
    FAT = ['x0.dylib', 'x1.dylib', 'x0.dSYM', 'x1.dSYM']
    POOL = SINGLES + ODD + ['big.so', 'mid.so', 'p0.dbg', 'basic.full', 'w0.dll', 'w0.pdb', 'w1.pd_', 'w2.ex_', 'basic32-min.dll', 'basic32-min.pdb', 'v0.pdb', 'mozwer.dll']

    @staticmethod
    def archs(f):
        return ['x86_64', 'arm64'] if f in C24.FAT else ['x86'] if f.startswith('basic32') else ['x86_64']

    def gen(self, rng, ctx):
        files = [rng.choice(self.FAT if rng.random() < 0.5 else self.POOL) for _ in range(rng.choice([1, 1, 2, 3, 4, 6]))]
        o = {'files': files, 'bad': [], 'tags': []}
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                b = rng.choice([x for x in BAD if x not in ('pair.dSYM', )])
                files.insert(rng.randint(0, len(files)), b)
                o['bad'].append(b)
        argv = ['--list-arch'] + rng.choice([[], [], dest_args('store'), dest_args('both'), ['-a', rng.choice(['arm64', 'ppc', 'x86'])], ['--inlines', '--check-cfi']]) + jobs_args(rng.choice([None, None, 1, 4])) \
            + (['--verbose', 'trace'] if rng.random() < 0.1 else [])
        fs = layout(files) + ([['/out/o.sym', STALE]] if rng.random() < 0.3 else [])
        if rng.random() < 0.2:
            fs.append(['/home/.dump_syms/config', 'text:srv*/cache*http://s1.sim'])
        fa = [vpath(f) for f in files]
        if rng.random() < 0.1:
            fa = [spell(rng, p) for p in fa]
            fs.append(['/lnk', 'sym:.'])
        r = run_of(argv + fa, sched(rng, {'ncpu': 2}), servers=[[1, 80, 0, 1000]], routes=[])
        k = rng.random()
        fr = []
        if k < 0.7:
            for op, pre in (('read', '/'), ('write', '<stdout>')):
                fr += [[op, pre, 'short', rng.choice([-1, 1]), rng.choice([2, 3]), rng.choice([5, 100])], [op, pre, 'err', EINTR, rng.choice([2, 4]), rng.choice([3, 50])]]
            fr = rng.sample(fr, rng.randint(1, 4))
        if 0.5 < k < 0.8:
            fr.append(['write', '<stdout>', 'err', rng.choice([EIO, ENOSPC, EPIPE]), rng.choice([1, 2, 4]), rng.choice([1, 1, 3])])
        elif 0.8 <= k < 0.9:
            r['quota'] = [['<stdout>', rng.choice([0, rng.randrange(60 * len(files))])]]
        elif 0.9 <= k:
            fr.append([rng.choice(['open', 'read', 'read']), '/in', 'err', rng.choice([EIO, EACCES, ENOENT, EMFILE, ESTALE]), rng.choice([1, 2, 4]), 1])
        if fr:
            r['frand'] = fr
        return {'fs': fs, 'steps': [{'run': r}], 'watch': ['/'], 'snap': 1, 'o': o}

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        if r.why in HANG:
            return ('hang', 'no exit status: %s' % r.why)
        if treediff(ex.final, ex.initial):
            return ('changed', 'a listing changed the file system: ' + treediff(ex.final, ex.initial))
        if r.net:
            return ('network', 'a listing used the network: ' + r.net[0])
        real = [f for f in r.faults if f[3] in ('err', 'quota') and f[4] != str(EINTR)]
        lost = [f for f in real if f[0] == 'write' and f[1] == '<stdout>' or f[0] in ('open', 'read') and f[1].startswith('/in/') and '.dSYM' not in f[1]]
        want = b''
        for f in o['files']:
            if f in o['bad']:
                break
            a = ctx.ref(layout([f]), {'argv': ['--list-arch', vpath(f)]}).results[0]
            if not a.ok:
                return ('status', '%s cannot be listed: %s' % (f, a.err[-200:]))
            words = re.findall(rb'[\w.-]+', a.out.split(b'\n', 1)[1])
            if base(f).encode() not in a.out.split(b'\n')[0] or sorted(words) != sorted(x.encode() for x in self.archs(f)):
                return ('listing', '%s contains %s but the listing is %r' % (f, ', '.join(self.archs(f)), a.out[:200]))
            want += a.out
        if not real:
            if r.out != want:
                return ('listing', 'the listing is %r instead of %r' % (r.out[-300:], want[-300:]))
            if bool(r.rc) != bool(o['bad']):
                return ('status', 'the listing ends with %s although %s' % (r.brief(), 'a file cannot be listed: %s' % o['bad'][0] if o['bad'] else 'every file can be listed'))
            return None
        if (lost or o['bad']) and not r.rc:
            return ('status', 'exit status 0 although %s' % ('a file cannot be listed: %s' % o['bad'][0] if o['bad'] else ' '.join(lost[0])))
        if not r.rc and r.out != want:
            return ('listing', 'exit status 0 but the listing is %r instead of %r' % (r.out[-300:], want[-300:]))
        if not want.startswith(r.out):
            return ('listing', 'the listing %r is not part of %r' % (r.out[-300:], want[-300:]))
        return None

    def nontrivial(self, sc, ex):
        return True


class C25(Prop):
    """messages and what happens to them"""
    id = 'C25'
    drop_ok = True

    def gen(self, rng, ctx):
        bad = rng.choice([0, 0, 0, 1])
        o, fs, argv = batch(rng, kinds=rng.choice(['e', 'em', 'emwx', 'w']), maps=0.25, big=0.1, one=rng.random() < 0.3, bad=bad, many=0.03)
        for k in range(len(o['opts'])):
            if o['opts'][k] == '--verbose':
                o['opts'] = o['opts'][:k] + o['opts'][k + 2:]
                k = argv.index('--verbose')
                argv = argv[:k] + argv[k + 2:]
                break
        if rng.random() < 0.3 and not o['map']:
            # sources that cannot be read are reported
            m = ['--mapping-src', '/src/(.*)', '--mapping-dest', 's3:{digest}/{1}']
            o['opts'] = o['opts'] + m
            argv = m + argv
        if rng.random() < 0.2 and not bad:
            x = rng.choice(['badcfi.so', 'trunc.dll', 'w6.dll'])
            if group(x) not in [group(f) for f in o['files']]:
                o['files'].append(x)
                argv.append(vpath(x))
                fs += layout([x])
        if rng.random() < 0.85:
            argv = ['--verbose', rng.choice(['trace', 'trace', 'debug', 'info', 'warn', 'off', 'error'])] + argv
        r = run_of(argv, sched(rng, {'ncpu': rng.choice([1, 2, 4])}))
        k = rng.random()
        if k < 0.5:
            r['frand'] = [['write', '<stderr>', 'err', rng.choice([EIO, ENOSPC, EPIPE, EPIPE, EAGAIN, 9]), rng.choice([1, 1, 2, 5]), rng.choice([1, 3, 10000])]]
        elif k < 0.7:
            r['quota'] = [['<stderr>', rng.choice([0, 1, rng.randrange(3000)])]]
        elif k < 0.9:
            r['frand'] = [['write', '<stderr>', 'short', rng.choice([-1, 1]), rng.choice([1, 2]), 200], ['write', '<stderr>', 'err', EINTR, 2, 100]]
        return {'fs': fs, 'steps': [{'run': r}], 'watch': ['/out'], 'o': o}

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        if r.why in HANG:
            return ('hang', 'no exit status: %s' % r.why)
        refs, g = module_refs(ctx, o)
        if refs is None:
            if ended(r) and r.rc == 0:
                return ('status', 'exit status 0 although an input of %s fails without messages' % g)
            if r.out or any(ex.final.values()):
                return ('published', 'output although an input of %s fails without messages' % g)
            return None
        if not ended(r) or r.rc:
            return ('status', 'without messages all goes well, but with them the run ends with %s: %s; %s' % (r.brief(), ' '.join(r.faults[0]) if r.faults else 'they could be written', r.err[-200:]))
        m = check_dest(o, refs, r, ex.final)
        return m and ('output', m)

    def nontrivial(self, sc, ex):
        return bool(ex.results[0].faults) or bool(ex.results[0].err)


class C26(Prop):
    """options and configuration files that cannot be read or understood"""
    id = 'C26'
    drop_ok = False
    GOODMAP = {'variables': {'rev': 'r1'}, 'mappings': [{'source': '/src/inc/(.*)', 'destination': 's3:{DIGEST}/{1}', 'files': []}, {'source': '/src/(.*)', 'destination': 'git:{rev}:{1}', 'files': ['/src/m0/s0.cpp']}]}

    def gen(self, rng, ctx):
        o, fs, argv = batch(rng, kinds=rng.choice(['e', 'e', 'em', 'emwx']), maps=0.1, big=0.05, one=rng.random() < 0.4)
        o['fault'] = None
        k = rng.random()
        tag, extra = None, []
        good = json.dumps(self.GOODMAP, indent=rng.choice([None, 2]))
        M = '/cfg/map.json'
        if k < 0.3:         # the mapping file cannot be read
            extra = ['--mapping-file', M]
            kind = rng.choice(['missing', 'dir', 'dangling', 'read', 'read', 'open', 'read2', 'read2'])
            fs += {'missing': [], 'dir': [[M, 'dir']], 'dangling': [[M, 'sym:nowhere']]}.get(kind, [[M, 'text:' + good]])
            if kind in ('read', 'open', 'read2'):
                o['fault'] = M
            tag = 'mapping-file-' + kind
        elif k < 0.55:      # or makes no sense
            extra = ['--mapping-file', M]
            m = copy.deepcopy(self.GOODMAP)
            c = rng.choice(['cut', 'cut', 'cut', 'empty', 'text', 'regex', 'variable', 'nofield', 'type', 'trailing', 'bytes', 'zero'])
            if c == 'regex':
                m['mappings'][rng.randrange(2)]['source'] = rng.choice(['/src/(.*', '[', '(?P<x', '*', '/src/(?<!a)'])
            elif c == 'variable':
                m['mappings'][rng.randrange(2)]['destination'] = rng.choice(['{nope}', 'git:{rev}:{}', '{Digest}', '{-1}', 'x{ 1}'])
            elif c == 'nofield':
                del m['mappings'][rng.randrange(2)][rng.choice(['source', 'destination'])]
            elif c == 'type':
                m['mappings'] = rng.choice([{}, 'x', 1, [1]])
            t = json.dumps(m)
            t = {'cut': good[:rng.randrange(1, len(good) - 1)], 'empty': '', 'text': 'not json', 'trailing': good + rng.choice(['}', ' x', good])}.get(c, t)
            fs.append([M, 'hex:' + (good.encode().replace(b'git', b'g\xff\xfe')).hex() if c == 'bytes' else 'hex:' + (good[:80].encode() + bytes(len(good) - 80)).hex() if c == 'zero' else 'text:' + t])
            tag = 'mapping-file-' + c
        elif k < 0.8:       # options
            extra = rng.choice([['--mapping-src=/src/(.*', '--mapping-dest=x{1}'], ['--mapping-src=/src/(.*)'], ['--mapping-dest=x'], ['--mapping-src=/src/(.*)', '--mapping-dest=x{nope}'],
                                ['--mapping-src=/a/(.*)', '--mapping-src=/b/(.*)', '--mapping-dest=x{1}'], ['--mapping-var', 'rev', '--mapping-src=/src/(.*)', '--mapping-dest=x{1}'],
                                ['--mapping-src=/src/(.*)', '--mapping-dest=x{1}', '--mapping-dest=y'], ['--extra-info', 'lower case'], ['--extra-info', 'OK fine', '--extra-info', 'NOVALUE'],
                                ['-a', 'nonsense'], ['-a', ''], ['--mapping-var', 'rev'], ['--mapping-src=/src/(.*)', '--mapping-dest={rev}']])
            if extra[0] == '-a':
                o['opts'] = [x for x in o['opts'] if x not in ('-a', 'x86_64', 'arm64')]
                argv = [x for x in argv if x not in ('-a', 'x86_64', 'arm64')]
            if '--mapping-src=/src/(.*)' in extra and '--mapping-dest=x{nope}' not in extra and '--mapping-dest={rev}' not in extra and o['map']:
                return None
            if '--mapping-dest={rev}' in extra and o['map']:
                return None
            tag = 'option:' + extra[0].split('=')[0]
        else:               # the servers' configuration file is there but cannot be read
            f = rng.choice(['w0.dll', 'w1.dll', 'w2.exe', 'w3.dll'])
            o['files'] = [x for x in o['files'] if group(x) != group(f)] if rng.random() < 0.5 else []
            o['files'].insert(rng.randint(0, len(o['files'])), f)
            fs = layout(o['files']) + ([['/src', 'srcs']] if o['map'] else [])
            argv = o['opts'] + dest_args(o['dest']) + jobs_args(o['j']) + [vpath(x) for x in o['files']]
            H = '/home/.dump_syms/config'
            kind = rng.choice(['open', 'read', 'read2', 'bytes', 'dir'])
            fs.append([H, 'dir' if kind == 'dir' else 'hex:7372762a687474703a2f2f73312e73696d3bff' if kind == 'bytes' else 'text:srv*/cache*http://s1.sim' + ';' * 50])
            if kind in ('open', 'read', 'read2'):
                o['fault'] = H
            tag = 'servers-' + kind
        o['tags'] = [tag]
        stale(rng, fs, o, ctx)
        r = run_of(extra + argv, sched(rng, {'ncpu': 2}), servers=[[1, 80, 1, 1000]], routes=[])
        if o['fault']:
            e = rng.choice([EIO, EACCES, ESTALE, EMFILE, ENOMEM, EIO])
            if 'open' in tag:
                r['faults'] = [['open', o['fault'], 1, 'err', e]]
            elif tag.endswith('read'):
                r['faults'] = [['read', o['fault'], 1, 'err', EIO]]
            else:
                r['faults'] = [['read', o['fault'], 1, 'short', rng.choice([1, 10, 27, 29, 40])], ['read', o['fault'], 2, 'err', rng.choice([EIO, ESTALE])]]
        return {'fs': fs, 'steps': [{'run': r}], 'watch': ['/'], 'snap': 1, 'o': o}

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        if r.why in HANG:
            return ('hang', 'no exit status: %s' % r.why)
        if o['fault'] and not any(f[3] == 'err' for f in r.faults):
            return 'skip'
        if not ended(r) or r.rc == 0:
            return ('ignored', 'the run ends with %s although its configuration cannot be used (%s)' % (r.brief(), o['tags'][0]))
        m = treediff(ex.final, ex.initial)
        if m:
            return ('changed', 'the configuration cannot be used (%s) but %s' % (o['tags'][0], m))
        if r.out:
            return ('published', 'the configuration cannot be used (%s) but there are %d bytes of output' % (o['tags'][0], len(r.out)))
        return None

    def nontrivial(self, sc, ex):
        return True


# ================================================================= damaged input
def sym_path(module_line):
    """where the store keeps the module with this MODULE line"""
    _, _, _, fid, name = module_line.split(' ', 4)
    b = name
    for x, y in (('.pd_', '.pdb'), ('.ex_', '.exe'), ('.dl_', '.dll')):
        if name.lower().endswith(x) and len(name) > 4:
            b = name[:-4] + y
    return '%s/%s/%s.sym' % (b, fid, name[:-4] if name.lower().endswith('.pdb') else name)


class C15(Prop):
    id = 'C15'
    NAMED = ['w0.pdb', 'w3.pdb', 'w1.dll', 'w2.exe', 'w1.pd_', 'w1.dl_', 'n0.so', 'm0.so', 'x1.dylib', 'basic.dbg', 'basic.stripped', 'mozwer.dll', 'basic64-dwarf.dll', 'v0.pdb']
    NAMES = ['.pdb', 'a.', '..x', '...', '.so', 'x.PDB', 'x.Pdb', 'a.pdb.', 'x..pdb', 'a.sym', 'a.pdb.pdb', 'a b.pdb', ' a', 'a ', '\u00fcn\u00ef', 'a\\b.pdb', 'C:', 'a.pd_', 'a.Dl_', 'a.EX_',
             'q\tz.pdb', 'l\nf', 'k\rr.pdb', 'MODULE', 'x' * 120, '%41', '*', 'a.exe.pdb', '.pd_', 'a._', 'a.pdbx', '\u2028.pdb', '.', '-', '']
    drop_ok = False

    def gen(self, rng, ctx):
        opts = [x for x in ('--inlines', '--check-cfi') if rng.random() < (0.8 if x == '--inlines' else 0.05)]
        dest = rng.choice(['store', 'store', 'store', 'both', 'stdout', 'file'])
        files, fs, tags = [], [], []
        k = rng.random()
        sd = lambda: rng.randrange(1 << 30)
        if k < 0.12:        # good files under odd names
            for f in rng.sample(self.NAMED, rng.choice([1, 1, 2, 3])):
                n = rng.choice(self.NAMES)
                if rng.random() < 0.5:
                    n += f[f.rfind('.'):]
                if rng.random() < 0.2:
                    n = n.upper()
                if n in files or n.strip('.') == '' and len(n) < 3:
                    continue
                fs.append(['/in/' + n, 'bin:' + f])
                files.append(n)
            tags = ['names']
        elif k < 0.5:       # one damaged file
            files = ['%d~%s' % (sd(), rng.choice(DAMAGE))]
            tags = ['single']
        elif k < 0.7:       # a module's files, some damaged
            g = rng.choice(sorted(MULTI))
            files = rng.sample(MULTI[g], 2)
            files = ['%d~%s' % (sd(), f) if rng.random() < 0.7 else f for f in files]
            tags = ['one-module']
        elif k < 0.85:      # PE next to a PDB, either damaged
            w = rng.choice(['w0', 'w1', 'w2', 'w3'])
            L = Lookup('pe', w)
            for f in (L.pe, w + '.pdb'):
                if rng.random() < 0.2:
                    f = f[:-1] + '_'
                fs.append(['/in/' + f, 'dmg:%s:%d' % (f, sd()) if rng.random() < 0.7 else 'bin:' + f])
            files = [rng.choice(fs)[0][4:]]
            tags = ['companion']
        else:
            n = rng.randint(2, 5)
            files = ['%d~%s' % (sd(), f) if rng.random() < 0.6 else f for f in rng.sample(DAMAGE, n)]
            tags = ['batch']
        if rng.random() < 0.15:
            opts += rng.choice(MAPS[1:])
            fs.append(['/src', 'srcs'])
        if tags not in (['companion'], ['names']):
            fs += layout(files)
        if any('x0' in f or 'x1' in f for f in files):
            opts += ['-a', rng.choice(['x86_64', 'arm64'])]
        j = rng.choice([None, 1, 2, 4])
        argv = opts + dest_args(dest) + jobs_args(j) + [vpath(f) for f in files]
        return {'fs': fs, 'steps': [{'run': run_of(argv, sched(rng, {'ncpu': 2}, threads=len(files) > 1))}], 'o': {'dest': dest, 'tags': tags, 'n': len(files)}}

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        if r.why != 'exit':
            return 'skip'       # out of memory or time on absurd sizes in the damaged data: a failure (C01 is about ending)
        out = []
        for p, d in ex.final.items():
            out.append((p, d))
            if o['dest'] in ('store', 'both') and p != '/out/o.sym':
                if not p.startswith('/out/store/'):
                    return ('outside', '%s was written outside the store' % p)
                want = '/out/store/' + sym_path(d.split(b'\n')[0].decode('utf8', 'replace')) if d.count(b' ', 0, d.find(b'\n')) >= 4 else None
                if want != p:
                    return ('place', '%s holds the module %r' % (p, d.split(b'\n')[0][:100]))
        if r.out:
            b = blocks(r.out)
            if b is None:
                return ('malformed', 'standard output does not start with a module')
            out += [('standard output', x) for x in b]
        for p, d in out:
            m = validate(d) if d else 'empty'
            if m:
                return ('malformed', '%s (exit status %d): %s' % (p, r.rc, m))
        if r.rc == 0 and not out:
            return ('nothing', 'exit status 0 and no symbol file')
        return None

    def tags(self, sc, ex):
        return Prop.tags(self, sc, ex) + ['wrote-symbols' if ex.final or ex.results[0].out else 'refused']

    def nontrivial(self, sc, ex):
        return bool(ex.final or ex.results[0].out)


# ================================================================= PE and PDB belong together
class C21(Prop):
    """a PDB among PE files, or a PE among PDB files (in its directory, a cache, on a server), right and wrong ones"""
    id = 'C21'
    drop_ok = False
    PES = ['w0.dll', 'w1.dll', 'w2.exe', 'w3.dll']

    def other(self, rng, w, kind, near=False):
        """a neighbour that does not belong to w"""
        o = rng.choice([x for x in ('w0', 'w1', 'w2', 'w3') if x != w])
        if near and rng.random() < 0.12:      # a cabinet with something else inside
            f = o + ('.pdb' if kind == 'pdb' else '.exe' if o == 'w2' else '.dll')
            return rng.choice(['cabof:%s:%s' % (f, f), 'cabof:%s:readme.txt' % f, 'cab2:%s:m0.so' % f])
        if kind == 'pdb':
            return rng.choice(['bin:%s.pdb' % o, 'bin:%s.pdb' % o] + (['bin:v0.pdb'] * 4 if w == 'w0' else []) + ['bin:dump_syms_regtest64.pdb', 'bin:basic32-min.pdb', 'text:not a pdb\n', 'text:', 'cut:%s.pdb:%d' % (w, rng.randrange(100)), 'bin:m0.so', 'bin:%s.dll' % (w if w != 'w2' else 'w1')])
        pe = o + ('.exe' if o == 'w2' else '.dll')
        return rng.choice(['bin:' + pe, 'bin:' + pe, 'bin:' + pe, 'text:MZ', 'text:', 'bin:%s.pdb' % w, 'bin:m0.so', 'bin:basic64-dwarf.dll', 'bin:mozwer.dll', 'bin:dump_syms_regtest64.exe', 'cut:%s:%d' % (pe, rng.randrange(300))])

    def gen(self, rng, ctx):
        w = rng.choice(['w0', 'w0', 'w1', 'w2', 'w3', 'w4', 'w5'])
        pe = w + ('.exe' if w == 'w2' else '.dll')
        opts = ['--inlines'] if rng.random() < 0.5 else []
        o = {'w': w, 'opts': opts, 'dest': 'store', 'cand': [], 'tags': []}
        fs, faults = [], []
        sv, routes, argv, more = [], [], [], []
        if rng.random() < 0.5:
            o['dir'] = 'pdb'
            o['main'] = rng.choice([w + '.pdb', w + '.pdb', w + '.pd_'])
            o['cont'] = 'bin:' + o['main']
            if o['main'].endswith('_') and rng.random() < 0.4:
                o['cont'] = 'cab2:%s.pdb:%s.pdb' % (w, rng.choice([x for x in ('w0', 'w1', 'w3') if x != w]))     # not alone in its cabinet
            if w == 'w0' and rng.random() < 0.4:
                # the PDB of a later link: same GUID, another age; w0.dll does not belong to it
                o['main'], o['cont'] = 'w0.pdb', 'bin:v0.pdb'
                o['tags'].append('other-age')
            fs.append(['/in/' + o['main'], o['cont']])
            for e in ('dll', 'dl_', 'exe', 'ex_'):
                k = rng.random()
                c = None
                if k < 0.25:
                    c = 'bin:' + pe
                    if e == pe[-3:-1] + '_' and rng.random() < 0.5:
                        c = 'cab2:%s:%s' % (pe, 'w1.dll' if w != 'w1' else 'w3.dll') if pe.endswith('dll') else 'cab2:%s:w0.dll' % pe
                    if o['cont'] != 'bin:v0.pdb':
                        o['cand'].append(e)
                elif k < 0.65:
                    c = self.other(rng, w, 'pe', True)
                elif k < 0.7:
                    c = 'dir'
                if c and c != 'dir' and rng.random() < 0.15:     # it lies elsewhere
                    fs += [['/in/%s.%s' % (w, e), 'sym:elsewhere/%s.%s' % (w, e)], ['/in/elsewhere/%s.%s' % (w, e), c]]
                elif c:
                    fs.append(['/in/%s.%s' % (w, e), c])
            pre = ['/in/%s.%s' % (w, e) for e in ('dll', 'dl_', 'exe', 'ex_')]
        else:
            o['dir'] = 'pe'
            o['main'] = pe
            fs.append(['/in/' + pe, 'bin:' + pe])
            rec = {'w4': '/w/c:/bld/out/w4.pdb', 'w5': '/bld/w5.pdb'}.get(w, '/w/%s.pdb' % w)     # the path recorded in the PE
            places = [('/in/%s.pdb' % w, 'local'), ('/in/%s.pd_' % w, 'local'), ('/w/%s.pdb' % w, 'cwd')] + ([(rec, 'recorded')] if w in ('w4', 'w5') else [])
            ncand = 0
            for p, where in places:
                k = rng.random()
                if k < 0.65:
                    if k < 0.3:
                        c = 'cab2:%s.pdb:%s.pdb' % (w, 'w1' if w != 'w1' else 'w3') if p.endswith('_') and rng.random() < 0.5 else 'bin:' + w + '.pdb'
                        o['cand'].append(where)
                    else:
                        c = self.other(rng, w, 'pdb', True)
                    if rng.random() < 0.15:
                        q = posixpath.dirname(p) + '/elsewhere/%d.pdb' % len(fs)
                        fs += [[p, 'sym:elsewhere/%d.pdb' % len(fs)], [q, c]]
                    else:
                        fs.append([p, c])
                elif k < 0.7:
                    fs.append([p, 'dir'])
            if rng.random() < 0.5:
                L = Lookup('pe', w)
                ent = sympath([('/cache', 's1.sim')])
                argv = ['--symbol-server', ent]
                k = rng.random()
                if k < 0.4:
                    good = rng.random() < 0.5
                    fs.append(['/cache/%s/%s/%s' % (L.name, L.id, L.name), 'bin:' + L.name if good else self.other(rng, w, 'pdb')])
                    if good:
                        o['cand'].append('cache')
                sv = [[1, 80, 0, 10 ** 5]]
                k = rng.random()
                if k < 0.6:
                    good = rng.random() < 0.5
                    b = 'bin:' + L.name if good else self.other(rng, w, 'pdb')
                    routes = healthy(rng, 0, L.name, L.id, L.fix, forms=['plain'], slow=False, bodies={'plain': b})
                    if good:
                        o['cand'].append('server')
                else:
                    sv = [[1, 80, 1, 10 ** 5]]
                if sv[0][2] == 0 and rng.random() < 0.4:
                    # more PE files that need the same server, and builds it does not know
                    for x in rng.sample([x for x in ('w0', 'w1', 'w2', 'w3') if x != w], rng.randint(1, 3)):
                        K = Lookup('pe', x)
                        more.append([x, ['/in/' + K.pe, 'bin:' + K.pe]])
                        routes += healthy(rng, 0, K.name, K.id, K.fix, slow=False)
                        if rng.random() < 0.3:
                            more.append([x, ['/in/old/' + K.pe, 'rsds:%s:9' % K.pe]])
                    o['tags'].append('several-pe')
                o['tags'].append('servers')
            pre = ['/in/%s.pdb' % w, '/in/%s.pd_' % w, '/w/%s.pdb' % w, rec, '/cache']
            if rng.random() < 0.1:
                fs.append(['/%s.pdb' % w, self.other(rng, w, 'pdb')])
        files = [o['main']]
        if rng.random() < 0.4:
            for x in rng.sample(SINGLES, rng.randint(1, 2)):
                files.insert(rng.randint(0, len(files)), x)
                fs += layout([x])
        o['others'] = [f for f in files if f != o['main']]
        o['more'] = more
        fs += [e for _, e in more]
        paths = [vpath(f) for f in files]
        for _, e in more:
            paths.insert(rng.randint(0, len(paths)), e[0])
        j = rng.choice([None, 1, 2, 4])
        r = run_of(opts + argv + dest_args('store') + jobs_args(j) + paths, sched(rng, {'ncpu': 2}, threads=len(paths) > 1 or bool(argv)), servers=sv, routes=routes)
        k = rng.random()
        if k < 0.3:         # something about the neighbours fails
            r['frand'] = [[rng.choice(['stat', 'open', 'read', '*']), rng.choice(pre), 'err', rng.choice([EIO, EACCES, ENOENT, EMFILE, ESTALE]), rng.choice([1, 2, 3]), rng.choice([1, 1, 2])]]
        elif k < 0.5:
            r['frand'] = [['read', '/', 'short', -1, 2, 30], ['read', '/', 'err', EINTR, 3, 20]]
        o['tags'] += [o['dir'] + '-input', 'belonging:%d' % len(o['cand'])]
        return {'fs': fs, 'steps': [{'run': r}], 'o': o}

    def judge(self, ctx, sc, ex):
        o, r = sc['o'], ex.results[0]
        w = o['w']
        so = o['opts'] + dest_args('store')
        main = ['/in/' + o['main'], o.get('cont', 'bin:' + o['main'])]
        alone_ = ctx.ref([main], {'argv': so + [main[0]]}).results[0]
        pe = w + ('.exe' if w == 'w2' else '.dll')
        full = []
        if o['dir'] == 'pdb':
            for e in ('dll', 'exe'):
                full.append(ctx.ref([main, ['/in/%s.%s' % (w, e), 'bin:' + pe]], {'argv': so + [main[0]]}).results[0])
        else:
            full.append(ctx.ref([main, ['/in/%s.pdb' % w, 'bin:%s.pdb' % w]], {'argv': so + [main[0]]}).results[0])
        if main[1] == 'bin:v0.pdb':
            full = []
        if not alone_.ok or not all(x.ok for x in full) or any(x.tree == alone_.tree for x in full):
            return 'skip'
        if r.why in HANG:
            return ('hang', 'no exit status: %s' % r.why)
        real = [f for f in r.faults if f[3] == 'err' and int(f[4]) != EINTR]
        t = {p: d for p, d in ex.final.items() if ('/%s.' % w) in p}
        if not (ended(r) and r.rc == 0):
            if real or any(c.startswith(('cut:', 'dmg:')) for _, c in sc['fs']):
                if t:
                    return ('published', 'a failing run wrote %s' % list(t)[0])
                return None
            return ('status', 'neighbours that do not belong make the run end with %s: %s' % (r.brief(), r.err[-200:]))
        is_full = any(t == x.tree for x in full)
        if not is_full and t != alone_.tree:
            m = min((treediff(t, x.tree) for x in full + [alone_]), key=len)
            return ('mixed', 'the module is neither %s alone nor %s with what belongs to it: %s; %s' % (o['main'], o['main'], m, json.dumps([e for e in sc['fs'] if ('/%s.' % w) in e[0]])))
        if is_full and not o['cand']:
            return ('invented', 'nothing that belongs to %s is there, yet the output is the combined one' % o['main'])
        if not is_full and o['cand'] and not real:
            # which of several PDB candidates is tried is open, except when there is only one place to look
            if o['dir'] == 'pdb' or len([1 for p, c in sc['fs'] if p != main[0] and ('/%s.' % w) in p and '/elsewhere/' not in p]) + bool(sc['steps'][0]['run'].get('routes')) <= 1:
                return ('missed', 'the matching file is there (%s) but was not used: %s' % (o['cand'], json.dumps([e for e in sc['fs'] if ('/%s.' % w) in e[0]])))
        for x in sorted(set(x for x, _ in o.get('more', []))):
            want = {}
            for y, e in o['more']:
                if y == x:
                    a = ctx.ref([e] + ([['/in/%s.pdb' % x, 'bin:%s.pdb' % x]] if not e[1].startswith('rsds:') else []), {'argv': so + [e[0]]}).results[0]
                    if not a.ok:
                        return 'skip'
                    want.update(a.tree)
            t = {p: d for p, d in ex.final.items() if ('/%s.' % x) in p}
            if t != want and not real:
                return ('other', 'of several PE files whose PDB is on the server, that of %s was not used: %s' % (x, treediff(t, want)))
        return None

    def nontrivial(self, sc, ex):
        return len(sc['fs']) > 1


ALL = {c.id: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C21, C22, C23, C24, C25, C26)}
