#!/usr/bin/env python3
"""Further fixtures, added without touching those of mk.py to mk3.py:
za/zb/zc.so  three files of one module, each with debug information for two functions of which the others have only publics; overloaded
             functions of several headers inlined into one another, so that files and inline origins are numbered differently in each
deep.so      a function with 150 levels of inlined calls
Then adds them to meta.json and files.json with the program given as argument."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from simlib.symfile import attribution, parse
BIN = os.path.join(HERE, 'bin'); SRC = os.path.join(HERE, 'srcs')

def sh(*a, **k): subprocess.run(a, check=True, **k)
def w(rel, text):
    p = os.path.join(SRC, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(text); return p

A = 'static inline __attribute__((always_inline)) '
TY = ['int', 'long', 'char', 'short', 'unsigned']
for i in range(4):
    t = '#pragma once\nextern volatile int g;\n'
    if i:
        t += '#include "n%d.h"\n' % (i - 1)
    for k, ty in enumerate(TY):
        t += A + 'int lvl%d(%s a) {\n' % (i, ty) + '  g += a * %d;\n' % (k + 2 + i)
        if i:
            t += '  g ^= lvl%d((%s)(a + %d));\n' % (i - 1, TY[(k + i) % 5], i)
        t += '  return g;\n}\n'
    w('z/n%d.h' % i, t)
src = {}
for i, (n, hs) in enumerate((('f0', (0,)), ('f1', (3, 1)), ('f2', (1, 0)), ('f3', (2, 3)), ('f4', (0, 2)), ('f5', (3, 0, 1)))):
    t = '%s\n' % ''.join('#include "n%d.h"\n' % h for h in hs)
    if i == 0:
        t += 'volatile int g;\n'
    t += 'extern "C" int %s(int a) {\n' % n
    for k, h in enumerate(hs):
        t += '  g -= a + %d;\n  a += lvl%d((%s)a);\n' % (k, h, TY[(i + k) % 5])
    src[n] = t + '  return a;\n}\n'
with tempfile.TemporaryDirectory() as td:
    for n, t in src.items():
        s = w('z/%s.cpp' % n, t)
        for g in ('-g', '-g0'):
            sh('clang++-18', g, '-O1', '-fno-exceptions', '-fPIC', '-ffile-prefix-map=%s=/src' % SRC, '-fdebug-compilation-dir=/src/z', '-c', s, '-o', '%s/%s%s.o' % (td, n, g))
    for x, dbg in (('za', ('f0', 'f3')), ('zb', ('f1', 'f4')), ('zc', ('f2', 'f5'))):
        sh('clang-18', '-shared', '-nostdlib', '-fuse-ld=lld', '-Wl,--build-id=0x1e0102030405060708090a0b0c0d0e0f10111213', '-o', os.path.join(BIN, x + '.so'),
           *['%s/%s%s.o' % (td, n, '-g' if n in dbg else '-g0') for n in src])
    t = 'volatile int g;\n' + A + 'int d0(int a) {\n  g += a;\n  return g;\n}\n'
    for i in range(1, 151):
        t += A + 'int d%d(int a) {\n  g += d%d(a + %d);\n  return g;\n}\n' % (i, i - 1, i)
    s = w('deep/d.c', t + 'int deep(int a) {\n  return d150(a);\n}\n')
    sh('clang-18', '-g', '-O1', '-fPIC', '-shared', '-nostdlib', '-fuse-ld=lld', '-ffile-prefix-map=%s=/src' % SRC, '-fdebug-compilation-dir=/src/deep',
       '-Wl,--build-id=0x1f0102030405060708090a0b0c0d0e0f10111213', '-o', os.path.join(BIN, 'deep.so'), s)

if len(sys.argv) > 1:
    meta = json.load(open(os.path.join(HERE, 'meta.json')))
    files = json.load(open(os.path.join(HERE, 'files.json')))
    for f in ('za.so', 'zb.so', 'zc.so', 'deep.so'):
        outs = [subprocess.run([sys.argv[1], *opt, os.path.join(BIN, f)], stdout=subprocess.PIPE, check=True).stdout for opt in ([], ['--inlines'])]
        o = outs[0].decode('utf-8', 'replace').split('\n')
        m = o[0].split(' ')
        meta[f] = {'name': m[4], 'id': m[3], 'code': o[1].split(' ')[2] if o[1].startswith('INFO CODE_ID') else None}
        files[f] = [sorted(l.split(' ', 2)[2] for l in x.decode('utf-8', 'replace').split('\n') if l.startswith('FILE ')) for x in outs] + [[attribution(parse(x)) for x in outs]]
        print(f, meta[f])
        print(outs[1].decode())
    json.dump(meta, open(os.path.join(HERE, 'meta.json'), 'w'), indent=1, sort_keys=True)
    json.dump(files, open(os.path.join(HERE, 'files.json'), 'w'), indent=1, sort_keys=True)
