"""Workload vocabulary shared by the properties: fixtures, groups, batches, symbol servers."""
import json, os, random, struct, urllib.parse
from . import core
from .engine import sched

META = json.load(open(os.path.join(core.FIX, 'meta.json')))
PATHS = json.load(open(os.path.join(core.FIX, 'files.json')))     # the source paths in the debug information, without and with inlined ones

# fixtures by the module (debug id) they belong to
GROUP = {}
for _g, _fs in {
    'm2': ['m2.so', 'k1.so', 'k2.so'], 'p0': ['p0.so', 'p0.dbg', 'p0.full'], 'p1': ['p1.so', 'p1.dbg', 'p1.full'],
    'g': ['ga.so', 'gb.so', 'gc.so', 'gd.so', 'ge.so'], 'h': ['ha.so', 'hb.so', 'hc.so', 'hc.dbg'],
    'x0': ['x0.dylib', 'x0.dSYM'], 'x1': ['x1.dylib', 'x1.dSYM'], 'q': ['qa.so', 'qb.so'], 'y': ['ya.so', 'yb.so'], 'z': ['za.so', 'zb.so', 'zc.so'], 'j': ['ja.so', 'jb.so', 'jc.so'], 'v0': ['v0.pdb'],
    # real-life files, from the repository's test data
    'b': ['basic.full', 'basic.dbg', 'basic.dwz', 'basic.minidebuginfo', 'basic.stripped'],
    'r': ['dump_syms_regtest64.exe', 'dump_syms_regtest64.pdb'], 'bm': ['basic32-min.dll', 'basic32-min.pdb'],
}.items():
    for _f in _fs:
        GROUP[_f] = _g
for _w in ('w0', 'w1', 'w2', 'w3', 'w4', 'w5', 'w6'):
    for _e in ('pdb', 'dll', 'exe', 'pd_', 'dl_', 'ex_'):
        GROUP['%s.%s' % (_w, _e)] = _w
SINGLES = ['m0.so', 'm1.so', 'm3.so', 'm4.so', 'm5.so', 'n0.so']
ODD = ['lat.so', 'same1.so', 'same2.so', 'ta.so', 'tb.so', 'u.so', 'cs.so', 'deep.so', 'badcfi.so', 'nosym.so']     # latin-1 names, one SONAME with two ids, equal layouts, equal names
MULTI = {g: [f for f in GROUP if GROUP[f] == g] for g in ('m2', 'p0', 'p1', 'g', 'h', 'q', 'y', 'z', 'j', 'b')}
BAD = ['empty.bin', 'text.txt', 'trunc.so', 'trunc.pdb', 'trunc.pd_', 'trunc.dll', 'none.so', 'adir', 'hollow.dSYM', 'bare.dSYM', 'pair.dSYM', 'loop.so', 'dangling.so', 'odd.pd_', 'odd.cab', 'under/m0.so']
EIO, EINTR, ENOMEM, EACCES, ENOENT, EMFILE, ENOSPC, EDQUOT, EPIPE, EROFS, EFBIG, ESTALE, EAGAIN, EEXIST = \
    5, 4, 12, 13, 2, 24, 28, 122, 32, 30, 27, 116, 11, 17
STALE = 'stale:9000'
DAMAGE = ['m0.so', 'm3.so', 'm2.so', 'p0.dbg', 'n0.so', 'lat.so', 'w0.pdb', 'v0.pdb', 'w1.dll', 'w3.pdb', 'w1.pd_', 'x0.dylib', 'x1.dylib', 'basic.full', 'basic.dwz',
          'basic.minidebuginfo', 'basic64-dwarf.dll', 'mozwer.dll', 'dump_syms_regtest64.pdb', 'qa.so', 'ga.so', 'hc.dbg']


def base(f):
    """D!NAME lies in the directory D of its own"""
    return f.rpartition('!')[2]


def group(f):
    return GROUP.get(base(f), base(f))


def vpath(f):
    return '/in/' + f.replace('!', '/')


def spell(rng, p):
    """another way to write the path p, for a process that runs in a directory of the root"""
    return rng.choice(['..' + p, '/.' + p, p.replace('/', '//'), '/w/..' + p, p.rpartition('/')[0] + '/./' + p.rpartition('/')[2], '/lnk' + p])


def same_path(a):
    """undo spell"""
    p = os.path.normpath('/w/' + a)
    return p[4:] if p.startswith('/lnk/') else '/' + p.lstrip('/')


ODD_BAD = {
    'hollow.dSYM': [['/in/hollow.dSYM/Contents/Resources/DWARF', 'dir']],      # no file in the bundle
    'bare.dSYM': [['/in/bare.dSYM/Contents', 'dir']],
    'pair.dSYM': [['/in/pair.dSYM/Contents/Resources/DWARF/x0', 'bin:x0.dwarf'], ['/in/pair.dSYM/Contents/Resources/DWARF/x1', 'bin:x1.dwarf']],
    'loop.so': [['/in/loop.so', 'sym:loop.so']],
    'dangling.so': [['/in/dangling.so', 'sym:nowhere']],
    'odd.pd_': [['/in/odd.pd_', 'cabof:w0.pdb:other.pdb']],     # the cabinet holds another file
    'odd.cab': [['/in/odd.cab', 'cabof:m0.so:x']],
    'under/m0.so': [['/in/under', 'bin:m0.so']],                # a directory of the path is a file
}


def fs_of(f):
    """files to lay out so that the input f exists"""
    if f in ODD_BAD:
        return ODD_BAD[f]
    if f.endswith('.dSYM'):
        b = f[:-5]
        return [['/in/%s/Contents/Resources/DWARF/%s' % (f, b), 'bin:%s.dwarf' % b]]
    if f == 'none.so':
        return []
    if f == 'adir':
        return [['/in/adir', 'dir']]
    if '~' in f:  # SEED~NAME: a damaged copy
        sd, n = f.split('~')
        return [['/in/' + f, 'dmg:%s:%s' % (n, sd)]]
    if '=' in f:  # K=NAME: a copy with another build id, a module of its own
        i, n = f.split('=')
        return [['/in/' + f, 'bid:%s:%s' % (n, i)]]
    if '@' in f:  # NAME@N: a cut copy, laid out under a name of its own
        n, c = f.split('@')
        return [['/in/' + f, 'cut:%s:%s' % (n, c)]]
    return [[vpath(f), 'bin:' + base(f)]]


def layout(files):
    out = []
    for f in files:
        for e in fs_of(f):
            if e not in out:
                out.append(e)
    return out


PE_SETS = [['w0.dll', 'w0.pdb'], ['w0.pdb'], ['w0.dll'], ['w1.pd_'], ['w1.dl_'], ['w1.pdb', 'w1.dl_'], ['w2.exe', 'w2.pd_'],
           ['w2.ex_', 'w2.pdb'], ['w2.pd_'], ['w3.dll'], ['w3.pdb', 'w3.dll'], ['w3.pd_', 'w3.dl_'], ['w0.pd_', 'w0.dll'], ['v0.pdb'],
           ['dump_syms_regtest64.exe'], ['dump_syms_regtest64.pdb'], ['dump_syms_regtest64.exe', 'dump_syms_regtest64.pdb'], ['basic32-min.pdb'],
           ['basic32-min.dll', 'basic32-min.pdb'], ['mozwer.dll'], ['basic64-dwarf.dll'],
           ['w4.dll'], ['w4.dll', 'w4.pdb'], ['w5.dl_', 'w5.pdb'], ['w6.dll'], ['w6.pdb', 'w6.dll']]
# a PE and a PDB of one module that do not lie side by side
PE_SPLIT = [['a!w0.dll', 'w0.pdb'], ['a!w1.pdb', 'b!w1.dll'], ['w2.exe', 'a!w2.pdb'], ['a!w3.dl_', 'b!w3.pd_'], ['a!w3.pdb', 'b!w3.pdb', 'w3.dll'], ['w0.dll', 'a!w0.dll'], ['a!w0.pdb', 'b!w0.dll', 'b!w0.pdb'], ['a!w4.dll', 'w4.pdb'], ['a!w6.dll', 'b!w6.pdb']]
MAC_SETS = [['x0.dylib'], ['x0.dSYM'], ['x0.dylib', 'x0.dSYM'], ['x1.dSYM'], ['x1.dylib'], ['x1.dSYM', 'x1.dylib']]


def pick_groups(rng, n, kinds='emwx', big=0.15):
    """n modules -> list of file lists (each list: the given files of one module).
    e: ELF singles, m: several ELF files per module, w: windows, x: mac"""
    out, used = [], set()
    tries = 0
    while len(out) < n and tries < 60:
        tries += 1
        k = rng.choice(kinds)
        if k == 'e':
            fl = [rng.choice(SINGLES + ODD)] if rng.random() > big else [rng.choice(['mid.so', 'big.so'])]
        elif k == 'm':
            g = rng.choice(sorted(MULTI))
            c = MULTI[g]
            fl = rng.sample(c, rng.randint(2, min(4, len(c)))) if rng.random() < 0.8 else [rng.choice(c)]
        elif k == 'w':
            fl = list(rng.choice(PE_SETS))
        elif k == 'W':
            fl = list(rng.choice(PE_SPLIT))
        else:
            fl = list(rng.choice(MAC_SETS))
        g = group(fl[0])
        if g in used:
            continue
        used.add(g)
        out.append(fl)
    return out


def shuffle_in(rng, groups):
    files = [f for g in groups for f in g]
    rng.shuffle(files)
    return files


def by_group(files):
    out = {}
    for f in files:
        out.setdefault(group(f), []).append(f)
    return out


JOBS = [None, 0, 1, 2, 2, 3, 4, 5, 8, 9]


def dest_args(dest):
    return {'store': ['-s', '/out/store'], 'file': ['-o', '/out/o.sym'], 'both': ['-o', '/out/o.sym', '-s', '/out/store'],
            'stdout': [], 'dash': ['-o', '-'], 'dashstore': ['-o', '-', '-s', '/out/store']}[dest]


def run_of(argv, cfg, **kw):
    r = {'argv': argv, 'cfg': cfg}
    r.update(kw)
    return r


def jobs_args(j):
    return [] if j is None else ['-j', str(j)]


# ---------------------------------------------------------------- symbol servers
def quote(name):
    return urllib.parse.quote(name, safe="+&'()!,~@$=;")


def url(name, fid, form):
    f = name if form == 'plain' else name[:-1] + '_'
    return '/%s/%s/%s' % (quote(name), fid, quote(f))


def cabname(fix):
    return fix[:-1] + '_'


def cab_of(fix, name):
    """a cabinet with fix as the file name"""
    return 'bin:' + cabname(fix) if name == fix and '^' not in fix else 'cabof:%s:%s' % (fix, name)


def healthy(rng, srv, name, fid, fix, forms=None, slow=True, bodies=None):
    """routes of a server that serves fixture fix as name/fid"""
    forms = forms or rng.choice([['plain'], ['cab'], ['plain', 'cab']])
    out = []
    for f in forms:
        p = url(name, fid, f)
        body = (bodies or {}).get(f) or ('bin:' + fix if f == 'plain' else cab_of(fix, name))
        out.append({'srv': srv, 'm': 'HEAD', 'path': p, 'status': 200, 'body': body, 'keep': rng.randrange(2),
                    'lat': rng.choice([10 ** 5, 10 ** 7, 10 ** 9, 6 * 10 ** 9] if slow else [10 ** 5, 10 ** 6])})
        out.append({'srv': srv, 'm': 'GET', 'path': p, 'status': 200, 'body': body, 'mode': rng.choice([0, 0, 1, 2]),
                    'keep': rng.randrange(2), 'seg': rng.choice([200, 1460, 9000, 65536]), 'segdelay': rng.choice([1, 1000, 10 ** 6]),
                    'lat': rng.choice([10 ** 5, 10 ** 7, 10 ** 9, 4 * 10 ** 9] if slow else [10 ** 5, 10 ** 6])})
    return paced(out)


def paced(routes):
    """large bodies come in large pieces"""
    for r in routes:
        if '^' in (r.get('body') or '') and r['body'].startswith('bin:'):   # a cabinet of zeros is small
            r['seg'] = max(r.get('seg', 0), 9000)
            if r.get('segdelay', 0) > 10 ** 9:
                r['segdelay'] = 60 * 10 ** 9
    return routes


# behaviours of a server that does not deliver. kind -> (conn mode, promises the file?)
BAD_SERVER = ['refuse', 'blackhole', 'reset', 'nohost', '404', '403', '500', 'headstall', 'headclose', 'headreset', 'headtrickle', 'headlate',
              'get404', 'get500', 'get503page', 'get206', 'gettrunc', 'gettrunc1', 'getchunktrunc', 'getreset', 'getstall', 'getempty', 'getnotfound',
              'getredirect404', 'gettrickle', 'headonly', 'getclose', 'gethdrstall', 'getredirectloop', 'getgarbage', 'headgarbage', 'get204', 'get202', 'get304', 'getnoloc']


def bad_server(rng, kind, srv, name, fid, fix, forms=None):
    """-> (conn, routes)"""
    conn = {'refuse': 1, 'blackhole': 2, 'reset': 3}.get(kind, 0)
    if conn or kind == 'nohost':
        return conn, []
    forms = forms or rng.choice([['plain'], ['cab'], ['plain', 'cab']])
    out = []
    for f in forms:
        p = url(name, fid, f)
        body = 'bin:' + fix if f == 'plain' else cab_of(fix, name)
        h = {'srv': srv, 'm': 'HEAD', 'path': p, 'status': 200, 'body': body, 'lat': rng.choice([10 ** 4, 10 ** 6, 10 ** 8])}
        g = {'srv': srv, 'm': 'GET', 'path': p, 'status': 200, 'body': body, 'lat': rng.choice([10 ** 4, 10 ** 6, 10 ** 9]),
             'seg': rng.choice([200, 1460, 65536]), 'mode': 0, 'keep': rng.randrange(2)}
        if kind in ('404', '403', '500'):
            h['status'] = int(kind)
            h['body'] = None
            g['status'] = int(kind)
            g['body'] = None
        elif kind == 'headstall':
            h.update(fault=3, at=rng.choice([0, 0, 20]))
        elif kind == 'headclose':
            h.update(fault=1, at=rng.choice([0, 10]))
        elif kind == 'headreset':
            h.update(fault=2, at=rng.choice([0, 10]))
        elif kind == 'headtrickle':
            h.update(seg=1, segdelay=7 * 10 ** 9)
        elif kind == 'headlate':
            h.update(lat=rng.choice([100, 2000]) * 10 ** 9)
            g.update(status=404, body=None)
        elif kind == 'get404':
            g.update(status=404, body=rng.choice([None, body]))
        elif kind == 'get500':
            g.update(status=500, body=rng.choice([None, body, 'text:internal error\n']))
        elif kind == 'get503page':
            g.update(status=503, body='text:<html>try later</html>\n', mode=rng.choice([0, 1, 2]))
        elif kind == 'get206':
            g.update(status=206)
        elif kind == 'gettrunc':
            g.update(fault=rng.choice([1, 2]), at=-rng.randint(5, 990))
        elif kind == 'gettrunc1':
            g.update(fault=1, at=10 ** 9)
        elif kind == 'getchunktrunc':
            g.update(fault=rng.choice([1, 2]), at=-rng.randint(50, 950), mode=1)
        elif kind == 'getreset':
            g.update(fault=2, at=rng.choice([0, 50, 1000]))
        elif kind == 'getclose':
            g.update(fault=1, at=rng.choice([0, 20]))
        elif kind == 'getstall':
            g.update(fault=3, at=rng.choice([0, -300, -900]))
        elif kind == 'gethdrstall':
            g.update(fault=3, at=rng.choice([5, 60]))
        elif kind == 'getempty':
            g.update(body='text:', mode=rng.choice([0, 1, 2]))
        elif kind == 'getnotfound':
            g.update(body='text:Symbol Not Found' + rng.choice(['', '\n', ' in this store\r\n']), mode=rng.choice([0, 1, 2]))
        elif kind == 'getredirect404':
            g.update(status=302, body=None, loc='http://s9.sim/gone')
        elif kind == 'getredirectloop':
            g.update(status=302, body=None, loc=p)
        elif kind == 'getnoloc':
            g.update(status=rng.choice([301, 302, 307]), body=rng.choice([None, body]))
        elif kind in ('get204', 'get202', 'get304'):
            g.update(status=int(kind[3:]), body=body if kind == 'get202' else 'text:', mode=rng.choice([0, 1]) if kind == 'get202' else 0)
        elif kind == 'getgarbage':
            g.update(body=rng.choice([body, 'text:220 smtp ready\r\n', 'text:\r\n\r\n']), mode=3)
        elif kind == 'headgarbage':
            h.update(body=rng.choice([body, 'text:220 smtp ready\r\n', 'text:HTTP/9.9 abc\r\n\r\n']), mode=3)
            g.update(status=404, body=None)
        elif kind == 'gettrickle':
            g.update(seg=1, segdelay=11 * 10 ** 9)
        elif kind == 'headonly':
            g = None
        else:
            raise core.HarnessError('bad server kind ' + kind)
        out.append(h)
        if g:
            out.append(g)
    return 0, paced(out)


class Lookup:
    """one thing that can be asked of symbol servers; alias: under another name than its own"""
    ALIAS = {'pdb': ['W0.PDB', 'My App.pdb', 'Pr\xe9nom.pdb', 'a.b-c_d+1.pdb', 'app.exe.pdb', 'x.pdb', 'pdb.pdb', 'MiXed.Pdb', "it's (1).pdb", 'app'],
             'dll': ['W0.DLL', 'My App.dll', 'Pr\xe9nom.dll', 'a.b-c_d+1.dll', 'x.exe', 'dll.dll', 'MiXed.Dll', "it's (1).exe", 'firefox']}

    def __init__(self, kind, w, alias=None):
        self.spec = [kind, w] + ([alias] if alias else [])
        w, big, pad = w.partition('^')      # w0^N: a PDB with N more bytes
        self.kind, self.w = kind, w
        ext = 'exe' if w == 'w2' else 'dll'
        self.pe = '%s.%s' % (w, ext)
        self.fid = META[w + '.pdb']['id']
        self.cid = META[self.pe]['code'] or 'C0DE' + w.upper()
        if kind == 'pdb':       # the pdb by debug id
            self.name, self.id, self.fix = w + '.pdb', self.fid, w + '.pdb'
            self.argv, self.fs = ['--debug-id', self.fid, w + '.pdb'], []
        elif kind == 'dll':     # the PE by code id
            self.name, self.id, self.fix = self.pe, self.cid, self.pe
            self.argv, self.fs = ['--code-id', self.cid, self.pe], []
        elif kind == 'pe':      # a local PE whose pdb must be found
            self.name, self.id, self.fix = w + '.pdb', self.fid, w + '.pdb'
            self.argv, self.fs = ['/in/' + self.pe], [['/in/' + self.pe, 'bin:' + self.pe]]
        elif kind == 'both':    # the PE by code id, and then its pdb
            self.name, self.id, self.fix = self.pe, self.cid, self.pe
            self.argv, self.fs = ['--code-id', self.cid, self.pe], []
        else:
            raise core.HarnessError(kind)
        if alias:
            self.name = self.argv[2] = alias
        if big and kind in ('pdb', 'pe'):
            self.fix += big + pad

    def cached(self, form='plain'):
        """what is in the cache after it was served in this form"""
        return 'bin:' + self.fix if form == 'plain' else cab_of(self.fix, self.name)

    def disk(self, ctx, opts, content=None):
        """what dumping the served file from disk gives (tree of /out)"""
        c = content or 'bin:' + self.fix
        if self.kind == 'both':
            fs = [['/ref/' + self.pe, c], ['/ref/' + self.w + '.pdb', 'bin:' + self.w + '.pdb']]
            a = ['/ref/' + self.pe]
        elif self.kind == 'pe':
            fs = [['/ref/' + self.pe, 'bin:' + self.pe], ['/ref/' + self.name, c]]
            a = ['/ref/' + self.pe]
        else:
            fs = [['/ref/' + self.name, c]]
            a = ['/ref/' + self.name]
        return ctx.ref(fs, {'argv': opts + a}).results[0]

    def without(self, ctx, opts):
        """what is allowed to come out when the lookup fails: None, or the PE alone"""
        if self.kind != 'pe':
            return None
        return ctx.ref([['/ref/' + self.pe, 'bin:' + self.pe]], {'argv': opts + ['/ref/' + self.pe]}).results[0]


def decorate(rng, s):
    """another way to write the same configuration"""
    es = s.split(';')
    out = []
    for e in es:
        if rng.random() < 0.3:
            e = rng.choice(['SRV', 'Srv', ' srv ']) + e[3:]
        if rng.random() < 0.2:
            e = e.replace('*', ' * ')
        if rng.random() < 0.2:
            out.append(rng.choice(['', 'cache*/elsewhere', '/local/dir', 'srv*a*b*c*d', 'symsrv*x*y']))
        out.append(e)
    return ';'.join(out) + rng.choice(['', '', ';'])


def redirected(routes, srv, idx, host):
    """these routes, answered with a redirection to another server (servers[idx], named host)"""
    out = []
    for r in routes:
        out.append({'srv': srv, 'm': r['m'], 'path': r['path'], 'status': 302, 'body': None, 'loc': 'http://%s/blob%s' % (host, r['path']), 'keep': r.get('keep', 1), 'lat': r['lat']})
        out.append(dict(r, srv=idx, path='/blob' + r['path']))
    return out


def sympath(entries):
    """[(cache or None, host)] -> configuration string"""
    return ';'.join('srv*%s%s' % (c + '*' if c else '', 'http://%s' % h) for c, h in entries)


# ---------------------------------------------------------------- ELF symbol sizes (for enclosing ranges of publics)
_sz = {}


def elf_sizes(fix):
    if fix in _sz:
        return _sz[fix]
    d = core.content_c('bin:' + fix)
    out = {}
    if d[:4] == b'\x7fELF':
        shoff, = struct.unpack_from('<Q', d, 0x28)
        n, = struct.unpack_from('<H', d, 0x3c)
        for i in range(n):
            ty, = struct.unpack_from('<I', d, shoff + i * 64 + 4)
            if ty in (2, 11):
                off, size = struct.unpack_from('<QQ', d, shoff + i * 64 + 24)
                for o in range(off, off + size, 24):
                    val, sz = struct.unpack_from('<QQ', d, o + 8)
                    if val:
                        out[val] = max(sz, out.get(val, 0))
    _sz[fix] = out
    return out
