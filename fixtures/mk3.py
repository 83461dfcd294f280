#!/usr/bin/env python3
"""Further fixtures, added without touching those of mk.py and mk2.py:
ya/yb.so     two files of one module; yb has publics directly behind (not inside) functions of ya, which has no symbol there
u.so         files of the same name in several directories, named by shared strings
Then adds them to meta.json with the program given as argument, and the source paths of all single fixtures to files.json."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from simlib.core import cabinet
from simlib.symfile import attribution, parse
BIN = os.path.join(HERE, 'bin'); SRC = os.path.join(HERE, 'srcs')

def sh(*a, **k): subprocess.run(a, check=True, **k)
def w(rel, text):
    p = os.path.join(SRC, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(text); return p

with tempfile.TemporaryDirectory() as td:
    t = 'volatile int g;\n'
    for i in range(6):
        t += 'int yy%d(int a) {\n  g += a * %d;\n  return g;\n}\n' % (i, i + 3)
        if i in (1, 3):
            t += '__asm__(".globl behind%d\\n.type behind%d,@function\\nbehind%d: ret\\nnop\\n.size behind%d,2\\n");\n' % (i, i, i, i)
    s = w('y/y.c', t)
    vs = os.path.join(td, 'map')
    open(vs, 'w').write('{ local: *; };')       # no dynamic symbols
    for f, g, names in (('ya', '-g', ['yy%d' % i for i in range(6)]), ('yb', '-g0', ['yy0', 'behind1', 'behind3'])):
        o, l = os.path.join(td, f + '.o'), os.path.join(td, f + '.so')
        sh('gcc', g, '-O1', '-fPIC', '-falign-functions=1', '-fno-toplevel-reorder', '-ffile-prefix-map=%s=/src' % SRC, '-fdebug-prefix-map=%s=/src/y' % td, '-c', s, '-o', o, cwd=td)
        sh('clang-18', '-shared', '-nostdlib', '-fuse-ld=lld', '-Wl,--version-script=' + vs, '-Wl,--build-id=0x0e0102030405060708090a0b0c0d0e0f10111213', '-o', l, o)
        drop = [n for n in ['yy%d' % i for i in range(6)] + ['behind1', 'behind3'] if n not in names]
        sh('objcopy', *['--strip-symbol=' + n for n in drop], l, os.path.join(BIN, f + '.so'))
    # u
    objs = []
    for d in 'abc':
        w('u/%s/common.h' % d, 'static inline __attribute__((always_inline)) int com_%s(int a) {\n%s  return a ^ %d;\n}\n' % (d, '  a += 3;\n' * (ord(d) - 96), ord(d)))
    for d in 'abc':
        s = w('u/%s/main.c' % d, '#include "common.h"\n#include "../%s/common.h"\nvolatile int g_%s;\nint u_%s(int a) {\n  g_%s = com_%s(a);\n  return com_%s(g_%s) * 3;\n}\n' % (
            {'a': 'b', 'b': 'c', 'c': 'a'}[d], d, d, d, d, {'a': 'b', 'b': 'c', 'c': 'a'}[d], d))
        o = os.path.join(td, 'u%s.o' % d)
        sh('clang-18', '-g', '-gdwarf-5', '-O1', '-fPIC', '-ffile-prefix-map=%s=/src' % SRC, '-fdebug-compilation-dir=/src/u/' + d, '-c', s, '-o', o, cwd=os.path.join(SRC, 'u', d))
        objs.append(o)
    sh('clang-18', '-shared', '-nostdlib', '-fuse-ld=lld', '-Wl,--build-id=0x0f0102030405060708090a0b0c0d0e0f10111213', '-o', os.path.join(BIN, 'u.so'), *objs)

# source files whose paths differ only in the case of letters, or only at the end
with tempfile.TemporaryDirectory() as td:
    objs = []
    for i, p in enumerate(('Dir/x.c', 'dir/x.c', 'dir/X.c', 'dir/x.c.in', 'dir/x.cc', 'dir 2/x.c', 'dir/y\u00e9.c')):
        s = w('cs/' + p, 'volatile int g%d;\nint cs_%d(int a) {\n%s  return g%d;\n}\n' % (i, i, '  g%d += a;\n' % i * (i + 1), i))
        o = os.path.join(td, 'o%d.o' % i)
        sh('clang-18', '-x', 'c', '-g', '-O1', '-fPIC', '-ffile-prefix-map=%s=/src' % SRC, '-fdebug-compilation-dir=/src/cs', '-c', s, '-o', o)
        objs.append(o)
    sh('clang-18', '-shared', '-nostdlib', '-fuse-ld=lld', '-Wl,--build-id=0x1d0102030405060708090a0b0c0d0e0f10111213', '-o', os.path.join(BIN, 'cs.so'), *objs)
# PE files which record where their PDB was: a Windows path, a Unix path, no usable name
for i, (n, alt) in enumerate((('w4', 'c:\\bld\\out\\w4.pdb'), ('w5', '/bld/w5.pdb'), ('w6', 'c:\\bld\\..'))):
    s = w(n + '/s.c', ''.join('volatile int %s_g%d;\nstatic __inline int %s_i%d(int a) {\n  return a * %d + %s_g%d;\n}\n__declspec(dllexport) int %s_f%d(int a) {\n%s  return %s_i%d(a);\n}\n' % (
        n, k, n, k, k + 3 + i, n, k, n, k, '  %s_g%d += a;\n' % (n, k) * (k + 1), n, k) for k in range(4 + i)))
    td = '/tmp/mk3.pe'     # the path is part of the file
    os.makedirs(td)
    try:
        sh('clang-18', '-target', 'x86_64-pc-windows-msvc', '-g', '-gcodeview', '-O2', '-c', s, '-o', td + '/o.obj', '-ffile-prefix-map=%s=/src' % SRC, '-fdebug-compilation-dir=/src/' + n, cwd=os.path.join(SRC, n))
        sh('lld-link-18', '/nodefaultlib', '/debug:full', '/dll', '/noentry', '/out:%s/%s.dll' % (td, n), '/pdb:%s/%s.pdb' % (td, n), '/pdbaltpath:' + alt, '/brepro', '/force:unresolved', td + '/o.obj')
        for e in ('dll', 'pdb'):
            d = open('%s/%s.%s' % (td, n, e), 'rb').read()
            open(os.path.join(BIN, '%s.%s' % (n, e)), 'wb').write(d)
            open(os.path.join(BIN, '%s.%s_' % (n, e[:2])), 'wb').write(cabinet('%s.%s' % (n, e), d))
    finally:
        shutil.rmtree(td)

if len(sys.argv) > 1:
    meta = json.load(open(os.path.join(HERE, 'meta.json')))
    for f in ['ya.so', 'yb.so', 'u.so', 'cs.so'] + [n + e for n in ('w4', 'w5', 'w6') for e in ('.pdb', '.pd_', '.dll', '.dl_')]:
        o = subprocess.run([sys.argv[1], os.path.join(BIN, f)], stdout=subprocess.PIPE, check=True).stdout.decode('utf-8', 'replace').split('\n')
        m = o[0].split(' ')
        meta[f] = {'name': m[4], 'id': m[3], 'code': o[1].split(' ')[2] if o[1].startswith('INFO CODE_ID') else None}
        print('\n'.join(o))
    json.dump(meta, open(os.path.join(HERE, 'meta.json'), 'w'), indent=1, sort_keys=True)
    files = {}
    for f in sorted(meta):
        if not f.endswith(('.so', '.full', '.dbg')) or f == 'lat.so':
            continue
        files[f] = []
        for opt in ([], ['--inlines']):
            o = subprocess.run([sys.argv[1], *opt, os.path.join(BIN, f)], stdout=subprocess.PIPE).stdout.decode('utf-8', 'replace').split('\n')
            files[f].append(sorted(l.split(' ', 2)[2] for l in o if l.startswith('FILE ')))
        files[f].append([attribution(parse(subprocess.run([sys.argv[1], *opt, os.path.join(BIN, f)], stdout=subprocess.PIPE).stdout)) for opt in ([], ['--inlines'])])
    json.dump(files, open(os.path.join(HERE, 'files.json'), 'w'), indent=1, sort_keys=True)
