#!/usr/bin/env python3
"""Further fixtures, added without touching those of mk.py:
lat.so       sixty source files whose names are not UTF-8 (old DWARF is latin-1), all of one length
same1/2.so   two modules with one SONAME and different ids
v0.pdb       w0.pdb with another age (same GUID, another debug id)
ta/tb.so     two modules with the same layout, so names lie at the same offsets
qa/qb.so     two files of one module; each has debug information for the functions of which the other has only publics
Then rewrites meta.json with the program given as argument."""
import json, os, shutil, struct, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
BIN = os.path.join(HERE, 'bin'); SRC = os.path.join(HERE, 'srcs')

def sh(*a, **k): subprocess.run(a, check=True, **k)
def w(rel, text):
    p = os.path.join(SRC, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(text); return p
CC = ['clang-18', '-g', '-O1', '-fPIC', '-shared', '-nostdlib', '-fuse-ld=lld', '-ffile-prefix-map=%s=/src' % SRC]

with tempfile.TemporaryDirectory() as td:
    b = td.encode(); os.makedirs(b + b'/lat'); srcs = []
    for i in range(60):
        n = b'/lat/\xe9%02d.c' % i
        open(b + n, 'w').write('int f%d(int a){return a*%d+1;}\nint g%d(int a){\n if(a>3)\nreturn a*%d+1;\n return f%d(a)+1;}\n' % (i, i + 2, i, i + 2, i))
        srcs.append(b + n)
    sh(b'clang-18', b'-g', b'-O1', b'-fPIC', b'-shared', b'-nostdlib', b'-fuse-ld=lld', b'-Wl,--build-id=0x0a0102030405060708090a0b0c0d0e0f10111213',
       b'-ffile-prefix-map=' + b + b'=/src', b'-fdebug-compilation-dir=/src/lat', b'-o', os.path.join(BIN, 'lat.so').encode(), *srcs)
for i in (1, 2):
    s = w('same%d/only.c' % i, 'volatile int g;\nint same_fun(int a) {\n  g += a;\n%s  return g;\n}\n' % ('  g ^= 5;\n' * i))
    sh(*CC, '-Wl,-soname,libsame.so', '-Wl,--build-id=0x0b%02d02030405060708090a0b0c0d0e0f10111213' % i, '-fdebug-compilation-dir=/src/same%d' % i, '-o', os.path.join(BIN, 'same%d.so' % i), s)
for i, x in enumerate('ab'):
    s = w('t%s/%s1.c' % (x, x), 'volatile int g;\nint one(int a) {\n  g += a;\n  return g * 3;\n}\n')
    sh(*CC, '-Wl,--build-id=0x0c%02d02030405060708090a0b0c0d0e0f10111213' % i, '-fdebug-compilation-dir=/src/t%s' % x, '-o', os.path.join(BIN, 't%s.so' % x), s)
q = {'f': 'volatile int g;\nint f(int a) {\n  g += a;\n  return g;\n}\n', 'k': '#include "q.h"\nextern volatile int g;\nint k(int a) {\n  g ^= inl(a);\n  return g + 2;\n}\n',
     'h': '#include "q.h"\nextern volatile int g;\nint h(int a) {\n  g -= a;\n  return inl(g) + inl(a);\n}\n', 'm': 'extern volatile int g;\nint m(int a) {\n  g |= a;\n  return g;\n}\n'}
w('q/q.h', 'static inline __attribute__((always_inline)) int inl(int a) {\n  a *= 3;\n  return a ^ 5;\n}\n')
with tempfile.TemporaryDirectory() as td:
    for n, t in q.items():
        s = w('q/%s.c' % n, t)
        for g in ('-g', '-g0'):
            sh('clang-18', g, '-O1', '-fPIC', '-ffile-prefix-map=%s=/src' % SRC, '-fdebug-compilation-dir=/src/q', '-c', s, '-o', '%s/%s%s.o' % (td, n, g))
    for x, dbg in (('qa', 'fk'), ('qb', 'hm')):
        sh('clang-18', '-shared', '-nostdlib', '-fuse-ld=lld', '-Wl,--build-id=0x0d0102030405060708090a0b0c0d0e0f10111213', '-o', os.path.join(BIN, x + '.so'),
           *['%s/%s%s.o' % (td, n, '-g' if n in dbg else '-g0') for n in 'fkhm'])
d = bytearray(open(os.path.join(BIN, 'w0.pdb'), 'rb').read())
k = d.find(b'\xff\xff\xff\xff' + struct.pack('<I', 19990903))
assert k > 0 and d.find(b'\xff\xff\xff\xff' + struct.pack('<I', 19990903), k + 1) < 0
assert struct.unpack_from('<I', d, k + 8)[0] == 1
struct.pack_into('<I', d, k + 8, 2)
open(os.path.join(BIN, 'v0.pdb'), 'wb').write(d)

if len(sys.argv) > 1:
    meta = json.load(open(os.path.join(HERE, 'meta.json')))
    for f in ('lat.so', 'same1.so', 'same2.so', 'v0.pdb', 'ta.so', 'tb.so', 'qa.so', 'qb.so'):
        o = subprocess.run([sys.argv[1], os.path.join(BIN, f)], stdout=subprocess.PIPE, check=True).stdout.decode('utf-8', 'replace').split('\n')
        m = o[0].split(' ')
        meta[f] = {'name': m[4], 'id': m[3], 'code': o[1].split(' ')[2] if o[1].startswith('INFO CODE_ID') else None}
        print(f, meta[f])
    json.dump(meta, open(os.path.join(HERE, 'meta.json'), 'w'), indent=1, sort_keys=True)
