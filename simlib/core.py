"""Build, launch and observe simulated dump_syms processes.

One *scenario* is a JSON-able dict that fully determines an execution:
  fs     : [[virtual path, content]]   content: bin:NAME | repo:PATH | text:... | hex:... | stale:N | dir | sym:TARGET | src:NAME
                                       | cut:NAME:N (first N bytes of a fixture) | dmg:NAME:SEED (damaged copy) | bid:NAME:K (other build id)
  steps  : list of steps, executed in order
             {"run": RUN}                          one process, to its end
             {"par": [RUN, RUN..], "seed": n | "choices": [...]}   several processes, one running at a time
             {"put": [path, content]} {"rm": path} driver actions between processes
  oracle : property specific parameters
RUN: argv, cfg (simulator settings), faults [[op,path,nth,kind,arg]], frand [[op,prefix,kind,arg,one_in,max]],
     quota [[prefix,bytes]], servers [[octet,port,conn,lat]], routes [{...}], decs [[tid,lstep,target]]
"""
import fcntl, hashlib, json, os, random, re, select, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
FIX = os.path.join(VERIF, 'fixtures')
TARGET = 'x86_64-unknown-linux-gnu'
RUSTFLAGS = ' '.join([
    '-Zsanitizer=thread', '-Zexternal-clangrt', '-Cunsafe-allow-abi-mismatch=sanitizer',
    '-Cllvm-args=-tsan-instrument-memory-accesses=0', '-Cllvm-args=-tsan-instrument-func-entry-exit=0',
    '-Cllvm-args=-tsan-instrument-memintrinsics=0', '-Clink-arg=-Wl,--unresolved-symbols=ignore-all'])


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ build
def _tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, dn, fn in os.walk(p):
                dn.sort()
                for f in sorted(fn):
                    q = os.path.join(d, f)
                    h.update(q.encode() + b'\0')
                    h.update(open(q, 'rb').read() + b'\0')
        elif os.path.exists(p):
            h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()


def build(verbose=True):
    """Instrumented dump_syms of /repo's working tree + the simulator. Returns (program, lib, launcher)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        lib = os.path.join(BUILD, 'libsim.so')
        run = os.path.join(BUILD, 'simrun')
        key = _tree_hash([os.path.join(VERIF, 'sim')])
        stamp = os.path.join(BUILD, 'sim.key')
        if not (os.path.exists(lib) and os.path.exists(run) and os.path.exists(stamp) and open(stamp).read() == key):
            subprocess.run(['gcc', '-O2', '-w', '-fno-delete-null-pointer-checks', '-fPIC', '-shared', '-fvisibility=hidden',
                            '-o', lib, os.path.join(VERIF, 'sim/libsim.c'), '-ldl'], check=True)
            subprocess.run(['gcc', '-O2', '-w', '-o', run, os.path.join(VERIF, 'sim/simrun.c')], check=True)
            open(stamp, 'w').write(key)
        prog = os.path.join(BUILD, 'dump_syms')
        key = _tree_hash([os.path.join(REPO, x) for x in ('src', 'Cargo.toml', 'Cargo.lock', 'build.rs', '.cargo')]) + RUSTFLAGS
        stamp = os.path.join(BUILD, 'prog.key')
        if not (os.path.exists(prog) and os.path.exists(stamp) and open(stamp).read() == key):
            env = dict(os.environ)
            for k in list(env):
                if k.startswith('CARGO_') and k not in ('CARGO_HOME',):
                    del env[k]
            env.update(RUSTC_BOOTSTRAP='1', RUSTFLAGS=RUSTFLAGS, CARGO_TARGET_DIR=os.path.join(BUILD, 'target'),
                       CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_OPT_LEVEL='1',
                       CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false',
                       CARGO_PROFILE_DEV_OVERFLOW_CHECKS='false', CARGO_TERM_COLOR='never')
            # the decision to rebuild is made by content, not by time stamps
            fp = os.path.join(BUILD, 'target', TARGET, 'debug', '.fingerprint')
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith('dump_syms-'):
                        shutil.rmtree(os.path.join(fp, d))
            r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--bin', 'dump_syms', '--target', TARGET],
                               cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise HarnessError('cannot build /repo:\n' + r.stdout[-4000:])
            shutil.copy(os.path.join(BUILD, 'target', TARGET, 'debug', 'dump_syms'), prog + '.new')
            os.replace(prog + '.new', prog)     # a left-over process may still run the old one
            open(stamp, 'w').write(key)
            if verbose:
                print('built the instrumented program in %.1f s' % (time.time() - t0), flush=True)
        return prog, lib, run


# ------------------------------------------------------------------ scratch
def scratch_base():
    for b in ('/dev/shm', '/tmp'):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            return b
    raise HarnessError('no scratch directory')


def cabinet(member, data, first=None):
    """first: (member, data) of a file that comes before it"""
    import struct, zlib
    blocks, prev = [], b''
    files = ([first] if first else []) + [(member, data)]
    data = b''.join(d for _, d in files)
    for o in range(0, len(data), 32768):
        blk = data[o:o + 32768]
        c = zlib.compressobj(6, zlib.DEFLATED, -15, 9, zlib.Z_DEFAULT_STRATEGY, *([prev] if prev else []))
        blocks.append((b'CK' + c.compress(blk) + c.flush(), len(blk)))
        prev = blk
    off_files = 44
    entries, pos = b'', 0
    for m, d in files:
        entries += struct.pack('<IIHHHH', len(d), pos, 0, 0x5a21, 0x6000, 0x20) + m.encode() + b'\0'
        pos += len(d)
    off_data = off_files + len(entries)
    body = b''.join(struct.pack('<IHH', 0, len(z), n) + z for z, n in blocks)
    out = b'MSCF' + struct.pack('<IIIIIBBHHHHH', 0, off_data + len(body), 0, off_files, 0, 3, 1, 1, len(files), 0, 1, 0)
    out += struct.pack('<IHH', off_data, len(blocks), 1)
    out += entries + body
    return out


def damage(data, seed):
    """what storage does to a file: flipped bits, wrong bytes, zeroed or misplaced sectors, a lost tail, bytes of names replaced"""
    rng = random.Random('damage/%d' % seed)
    d = bytearray(data)
    style = rng.randrange(8)
    if style == 7:                      # strings get odd characters
        runs = [m.span() for m in re.finditer(rb'[\x21-\x7e]{4,}\0', data)]
        for _ in range(rng.choice([1, 2, 8, 40, 200]) if runs else 0):
            a, b = rng.choice(runs)
            if rng.random() < 0.15:         # nothing but blanks is left
                ws, n = rng.choice([b' ', b' ', b'\t', b'\n', b'\r', b'\xc2\xa0', b'\xe2\x80\x83']), b - 1 - a
                d[a:b - 1] = (ws * (n // len(ws))).ljust(n)
                continue
            for _ in range(rng.choice([1, 1, 2, b - a - 1])):
                d[rng.randrange(a, b - 1)] = rng.choice([10, 10, 13, 9, 0, 127, 27, 32, 47, 46, 92, 133, 255, rng.randrange(256)])
        return bytes(d)
    lo, hi = (0, min(len(d), 512)) if style == 0 else (0, len(d))
    for _ in range(rng.choice([1, 1, 2, 4, 16, 64])):
        o = rng.randrange(lo, hi)
        m = rng.randrange(5)
        if m == 0:
            d[o] ^= 1 << rng.randrange(8)
        elif m == 1:
            d[o] = rng.choice([0, 255, 127, 128, 10, 32])
        elif m == 2:
            l = rng.choice([4, 64, 512])
            d[o:o + l] = bytes(len(d[o:o + l]))
        elif m == 3:
            d[o] = rng.randrange(256)
        else:                           # a sector holds what belongs elsewhere
            l = rng.choice([16, 512])
            o -= o % l
            q = rng.randrange(0, len(d), l)
            n = min(l, len(d) - o, len(d) - q)
            d[o:o + n] = d[q:q + n]
    if style == 1:
        del d[rng.randrange(len(d) // 2, len(d)):]
    return bytes(d)


def fixture(n):
    """NAME, or NAME^N: padded with N zeros (a PDB means the same then)"""
    n, _, pad = n.partition('^')
    return open(os.path.join(FIX, 'bin', n), 'rb').read() + b'\0' * int(pad or 0)


def content(spec):
    k, _, v = spec.partition(':')
    if k == 'bin':
        return fixture(v)
    if k == 'src':
        return open(os.path.join(FIX, 'srcs', v), 'rb').read()
    if k == 'cut':
        n, _, c = v.rpartition(':')
        return fixture(n)[:int(c)]
    if k == 'dmg':      # dmg:NAME:SEED  a damaged copy
        n, _, sd = v.rpartition(':')
        return damage(fixture(n), int(sd))
    if k == 'bid':      # bid:NAME:K  the same file with another build id: another module
        n, _, i = v.rpartition(':')
        d = fixture(n)
        a = d.index(b'\x14\0\0\0\x03\0\0\0GNU\0') + 12
        return d[:a] + int(i).to_bytes(4, 'little') + d[a + 4:]
    if k == 'rsds':     # rsds:NAME:K  the same PE with another debug id: a build whose PDB is not there
        n, _, i = v.rpartition(':')
        d = fixture(n)
        a = d.index(b'RSDS') + 4
        return d[:a] + int(i).to_bytes(4, 'little') + d[a + 4:]
    if k == 'text':
        return v.encode()
    if k == 'stale':    # a long old symbol file
        return b'MODULE stale left over from another version\n' * int(v)
    if k == 'hex':
        return bytes.fromhex(v)
    if k == 'cabof':  # cabinet holding fixture NAME under another member name
        n, _, m = v.partition(':')
        return cabinet(m, fixture(n))
    if k == 'cab2':   # cab2:NAME:OTHER  cabinet holding the fixture OTHER, under its own name, and then NAME
        n, _, m = v.partition(':')
        return cabinet(n, fixture(n), (m, fixture(m)))
    if k == 'rep':    # rep:N:TEXT  the text, again and again, N bytes
        n, _, m = v.partition(':')
        return (m.encode() * (int(n) // len(m) + 1))[:int(n)]
    if k == 'zeros':
        return b'\0' * int(v)
    raise HarnessError('bad content ' + spec)


_cc = {}


def content_c(spec):
    if spec.startswith(('dmg:', 'cut:', 'hex:')):
        return content(spec)
    if spec not in _cc:
        _cc[spec] = content(spec)
    return _cc[spec]


def mtime(vp, seed):
    """the times of the files that are there: around the time of the runs, or any"""
    h = int.from_bytes(hashlib.sha1(('%s %s' % (vp, seed)).encode()).digest()[:8], 'little')
    return 10 ** 18 + h % 10 ** 18 if h >> 62 == 0 else 17 * 10 ** 17 + (h % 4 - 1) * 10 ** 12 + h % 10 ** 11


def put(root, vp, spec, seed=0):
    p = root + vp
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if spec == 'dir':
        os.makedirs(p, exist_ok=True)
    elif spec.startswith('dir:'):       # with this mode
        os.makedirs(p, exist_ok=True)
        os.chmod(p, int(spec[4:], 8))
    elif spec == 'srcs':
        shutil.copytree(os.path.join(FIX, 'srcs'), p, dirs_exist_ok=True, copy_function=lambda a, b: (shutil.copyfile(a, b), os.utime(b, ns=(16 * 10 ** 17, 16 * 10 ** 17))))
    elif spec.startswith('sym:'):
        os.symlink(spec[4:], p)
    else:
        with open(p, 'wb') as f:
            f.write(content_c(spec))
        t = mtime(vp, seed)
        os.utime(p, ns=(t, t))


def tree(root, *prefixes):
    """regular files below the virtual prefixes -> bytes"""
    out = {}
    for pre in prefixes:
        b = root + pre
        if os.path.isfile(b):
            out[pre] = open(b, 'rb').read()
            continue
        for d, dn, fn in os.walk(b):
            if pre == '/':
                for f in dn:
                    q = os.path.join(d, f)
                    out[q[len(root):] + '/'] = b'->' + os.readlink(q).encode() if os.path.islink(q) else b''
                    if not os.path.islink(q):
                        out[q[len(root):] + '/\0mode'] = b'%o' % os.stat(q).st_mode
            for f in fn:
                q = os.path.join(d, f)
                if os.path.islink(q):
                    out[q[len(root):]] = b'->' + os.readlink(q).encode()
                else:
                    out[q[len(root):]] = open(q, 'rb').read()
                    if pre == '/':
                        out[q[len(root):] + '\0mode'] = b'%o' % os.stat(q).st_mode
    return out


# ------------------------------------------------------------------ one process
SIMCODES = {94: 'cpuhang', 95: 'timelimit', 96: 'deadlock', 97: 'livelock', 98: 'harness', 137: 'crash'}


class Res:
    """what one simulated process did"""
    __slots__ = ('rc', 'why', 'out', 'err', 'log', 'stats', 'tree', 'faults', 'decs', 'ops', 'net', 'pauses', 'where')

    @property
    def ok(self):
        return self.rc == 0

    def brief(self):
        return 'rc=%s%s' % (self.rc, ' (%s)' % self.why if self.why != 'exit' else '')


def cfg_text(r):
    c = r.get('cfg', {})
    o = ['seed %d' % c.get('seed', 1)]
    for k, v in c.items():
        if k != 'seed':
            o.append('%s %s' % (k, v))
    if any(x[i] == '<stderr>' for k, i in (('faults', 1), ('frand', 1), ('quota', 0)) for x in r.get(k, [])):
        o.append('errfaults 1')
    for f in r.get('faults', []):
        o.append('fault %s %s %d %s %d' % tuple(f))
    for f in r.get('frand', []):
        o.append('frand %s %s %s %d %d %d' % tuple(f))
    for q in r.get('quota', []):
        o.append('quota %s %d' % tuple(q))
    for s in r.get('servers', []):
        o.append('server %d %d %d %d' % tuple(s))
    for t in r.get('routes', []):
        body = t.get('body')
        if body:
            body = os.path.join(FIX, 'bin', body[4:]) if body.startswith('bin:') and '^' not in body else body_file(body)
        o.append('route %d %s %s %d %d %d %d %d %d %d %d %d %s %s' % (
            t['srv'], t['m'], t['path'], t.get('status', 200), t.get('mode', 0), t.get('fault', 0), t.get('at', 0),
            t.get('lat', 1000000), t.get('seg', 1460), t.get('segdelay', 1000), t.get('keep', 1), t.get('nth', 0),
            body or '-', t.get('loc') or '-'))
    for d in r.get('decs', []):
        o.append('dec %d %d %d' % tuple(d))
    return '\n'.join(o) + '\n'


_bodies = {}


def body_file(spec):
    """bodies that are not fixtures are materialised once per worker"""
    if spec not in _bodies:
        d = os.path.join(W.dir, 'bodies')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, hashlib.sha1(spec.encode()).hexdigest())
        with open(p, 'wb') as f:
            f.write(content_c(spec))
        _bodies[spec] = p
    return _bodies[spec]


class Worker:
    """scratch space of one OS process of the driver"""

    def __init__(self, base, idx, tools):
        self.dir = os.path.join(base, 'w%d' % idx)
        os.makedirs(self.dir, exist_ok=True)
        self.prog, self.lib, self.run = tools
        self.n = 0
        self.runs = 0


W = None


_syms = None


def where(addrs):
    """code addresses of the program -> its functions, innermost first"""
    global _syms
    if _syms is None:
        t = subprocess.run(['nm', W.prog], stdout=subprocess.PIPE, text=True).stdout
        _syms = sorted((int(a, 16), n) for a, k, n in (l.split() for l in t.splitlines() if len(l.split()) == 3) if k in 'tTwW')
    import bisect
    out = []
    for a in addrs:
        i = bisect.bisect(_syms, (a, '~')) - 1
        if i < 0:
            continue
        if a > _syms[-1][0] + 100000:
            continue
        n = re.sub(r'Cs[0-9a-zA-Z]+_', 'C', _syms[i][1])
        ids, pos = [], 2
        while True:
            m = re.compile(r'([1-9]\d?)_?').search(n, pos)
            if not m:
                break
            s = n[m.end():m.end() + int(m.group(1))]
            if len(s) == int(m.group(1)) > 1 and re.fullmatch(r'[A-Za-z_]\w*', s):
                ids.append(s)
                pos = m.end() + len(s)
            else:
                pos = m.end()
        n = '::'.join(ids[:4]) or n
        if not out or out[-1] != n:
            out.append(n)
    return ' < '.join(out[:10])


class Proc:
    def __init__(self, root, r, tag):
        d = W.dir
        self.cfgp, self.logp, self.outp, self.errp = [os.path.join(d, '%s.%s' % (tag, x)) for x in ('cfg', 'log', 'out', 'err')]
        with open(self.cfgp, 'w') as f:
            f.write(cfg_text(r))
        self.pausable = any(f[3].startswith('pause') for f in r.get('faults', [])) or any(f[2].startswith('pause') for f in r.get('frand', []))
        ctl_r = note_w = -1
        if self.pausable:
            ctl_r, self.ctl_w = os.pipe()
            self.note_r, note_w = os.pipe()
            os.set_inheritable(ctl_r, True)
            os.set_inheritable(note_w, True)
        self.p = subprocess.Popen(
            [W.run, W.lib, self.cfgp, self.logp, root, self.outp, self.errp, str(ctl_r), str(note_w),
             str(r.get('cpu', 20)), '300', W.prog] + r['argv'],
            close_fds=False, stdin=subprocess.DEVNULL)
        if self.pausable:
            os.close(ctl_r)
            os.close(note_w)
        self.npause = 0
        W.runs += 1

    def go(self):
        """wait until paused ('paused') or ended ('ended')"""
        if not self.pausable:
            self.p.wait()
            return 'ended'
        b = os.read(self.note_r, 1)
        if b:
            self.npause += 1
            return 'paused'
        self.p.wait()
        return 'ended'

    def resume(self):
        os.write(self.ctl_w, b'g')

    def kill(self):
        os.close(self.ctl_w)
        self.ctl_w = -1
        self.p.wait()

    def result(self, keep_log=False):
        rc = self.p.wait()
        if self.pausable:
            os.close(self.note_r)
            if self.ctl_w >= 0:
                os.close(self.ctl_w)
        r = Res()
        r.rc = rc
        r.out = open(self.outp, 'rb').read()
        r.err = open(self.errp, 'rb').read()[:4000].decode('utf8', 'replace')
        log = open(self.logp, 'rb').read().decode('utf8', 'replace').split('\n')
        r.pauses = self.npause
        r.tree = None
        r.stats = {}
        r.why = 'exit'
        r.faults, r.decs, r.ops, r.net = [], [], [], []
        bt = []
        for l in log:
            if not l:
                continue
            t = l[0]
            if t == 'O':
                a = l.split(' ')
                r.ops.append((a[2], a[3], int(a[4]), int(a[5]), int(a[1])))
            elif t == 'S':
                a = l.split(' ')
                r.decs.append((int(a[1]), int(a[2]), int(a[3])))
            elif t == 'F':
                r.faults.append(l[2:].split(' '))
            elif t in 'RCD':
                r.net.append(l)
            elif t == 'U':
                raise HarnessError('unhandled operation: ' + l)
            elif t == 'E':
                a = l.split(' ')
                r.why = a[1]
                r.stats = dict(x.split('=') for x in a[2:])
            elif t == 'W':
                r.stats['aslr'] = 1
            elif t == 'B':
                bt.append(int(l[2:], 16))
        r.log = log if keep_log else None
        r.where = where(bt) if bt else ''
        if rc == 98:
            raise HarnessError('simulator error: %s %s' % (r.why, r.err[:300]))
        if rc in (-signal.SIGXCPU, -signal.SIGKILL) and r.why == 'exit':
            r.why = 'cpuhang'
        elif rc == -signal.SIGALRM:
            raise HarnessError('wall clock limit')
        elif rc < 0 and r.why == 'exit':
            r.why = 'signal'
        if not r.stats and rc >= 0 and r.why == 'exit' and rc in SIMCODES:
            r.why = SIMCODES[rc]
        return r

    def cleanup(self):
        for p in (self.cfgp, self.logp, self.outp, self.errp):
            try:
                os.unlink(p)
            except OSError:
                pass


def run_one(root, r, watch, tag='r', keep_log=False):
    p = Proc(root, r, tag)
    p.go() if not p.pausable else None
    if p.pausable:
        while p.go() == 'paused':
            p.resume()
    x = p.result(keep_log)
    x.tree = tree(root, *watch) if watch else {}
    p.cleanup()
    return x


def run_par(root, step, watch, keep_log=False):
    """several processes; exactly one runs at a time; every switch is decided here.
    choice 2*i: run process i (start or resume) until its next pause; 2*i+1: kill it while paused"""
    runs = step['par']
    st = ['new'] * len(runs)
    procs = [None] * len(runs)
    res = [None] * len(runs)
    rng = random.Random(step.get('seed', 1))
    fixed = list(step['choices']) if 'choices' in step else None
    made = []
    order = []
    n = 0
    while any(s != 'ended' for s in st):
        live = [i for i, s in enumerate(st) if s != 'ended']
        c = None
        if fixed is not None:
            while fixed and c is None:
                c = fixed.pop(0)
                if c // 2 >= len(runs) or st[c // 2] == 'ended' or (c & 1 and st[c // 2] != 'paused'):
                    c = None
            if c is None:
                c = 2 * live[0]
        else:
            c = 2 * rng.choice(live)
            if step.get('kill') and st[c // 2] == 'paused' and rng.randrange(step['kill']) == 0:
                c += 1
            n += 1
            if n > 400:
                c = 2 * live[0]
        made.append(c)
        i = c // 2
        if c & 1:
            procs[i].kill()
            st[i] = 'ended'
        else:
            if st[i] == 'new':
                procs[i] = Proc(root, runs[i], 'p%d' % i)
            else:
                procs[i].resume()
            st[i] = procs[i].go()
        if st[i] == 'ended':
            res[i] = procs[i].result(keep_log)
            res[i].tree = tree(root, *watch) if watch else {}
            order.append(i)
    for p in procs:
        p.cleanup()
    return res, made, order


class Exec:
    __slots__ = ('results', 'final', 'choices', 'orders', 'initial')


def execute(sc, keep_log=False):
    """run a scenario; results: flat list of Res in scenario order"""
    W.n += 1
    root = os.path.join(W.dir, 'root')
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + '/w')
    os.makedirs(root + '/out')
    ex = Exec()
    ex.results, ex.choices, ex.orders = [], [], []
    watch = sc.get('watch', ['/out'])
    try:
        seed = next((r.get('cfg', {}).get('seed', 0) for r in runs_of(sc)), 0)
        for vp, spec in sc['fs']:
            put(root, vp, spec, seed)
        ex.initial = tree(root, *watch) if sc.get('snap') else None
        for st in sc['steps']:
            if 'run' in st:
                ex.results.append(run_one(root, st['run'], watch, keep_log=keep_log))
                ex.choices.append(None)
            elif 'par' in st:
                rs, made, order = run_par(root, st, watch, keep_log)
                ex.results.extend(rs)
                ex.choices.append(made)
                ex.orders.append(order)
            elif 'put' in st:
                put(root, *st['put'], seed)
            elif 'rm' in st:
                p = root + st['rm']
                shutil.rmtree(p) if os.path.isdir(p) else (os.path.exists(p) and os.unlink(p))
        ex.final = tree(root, *watch)
    finally:
        for d, dn, fn in os.walk(root):
            try:
                os.chmod(d, 0o755)
            except OSError:
                pass
        shutil.rmtree(root, ignore_errors=True)
    return ex


def runs_of(sc):
    for st in sc['steps']:
        if 'run' in st:
            yield st['run']
        elif 'par' in st:
            yield from st['par']
