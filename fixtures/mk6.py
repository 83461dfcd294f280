#!/usr/bin/env python3
"""Further fixtures, added without touching those of mk.py to mk5.py:
ja.so jb.so jc.so  one module, three builds of the same code; in each of them other functions have no lines
Then adds them to meta.json and files.json with the program given as argument."""
import json, os, re, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
BIN = os.path.join(HERE, 'bin')

def sh(*a, **k): subprocess.run(a, check=True, **k)

SRC = 'volatile int g;\n'
for i in range(1, 7):
    SRC += '''#line 3 "/src/j/h%d.h"
static inline __attribute__((always_inline)) int help%d(int a) {
  g += a * %d;
  return g ^ a;
}
#line 10 "/src/j/f%d.cpp"
extern "C" int t%d(int a) {
  g -= %d;
  int b = help%d(a + g);
  g = b;
  return g + %d;
}
''' % (i, i, i + 3, i, i, i, i, i)
    if i in (2, 3, 5):      # without the call there is nothing left when the lines are gone
        SRC = SRC.replace('int b = help%d(a + g);' % i, 'int b = a * g;')

with tempfile.TemporaryDirectory() as td:
    s = os.path.join(td, 'a.cpp')
    open(s, 'w').write(SRC)
    asm = os.path.join(td, 'a.s')
    sh('clang++-18', '-S', '-g', '-O1', '-fPIC', '-fasynchronous-unwind-tables', '-ffile-prefix-map=%s=/src/j' % td, '-fdebug-compilation-dir=/src/j', '-o', asm, s)
    text = open(asm).read()
    for name, drop in (('ja', (1, 3)), ('jb', (2, 4)), ('jc', (1, 2, 3, 5))):
        out, cur = [], None
        for l in text.split('\n'):
            m = re.match(r't(\d):', l)
            if m:
                cur = int(m.group(1))
            if l.startswith('.Lfunc_end'):
                cur = None
            if cur in drop and re.match(r'\s*\.loc\b', l):
                continue
            out.append(l)
        b = os.path.join(td, name + '.s')
        open(b, 'w').write('\n'.join(out))
        sh('clang-18', '-fPIC', '-shared', '-nostdlib', '-fuse-ld=lld', '-Wl,--build-id=0x220102030405060708090a0b0c0d0e0f10111213', '-Wl,-soname,libj.so', '-o', os.path.join(BIN, name + '.so'), b)

if len(sys.argv) > 1:
    from simlib.symfile import attribution, parse
    meta = json.load(open(os.path.join(HERE, 'meta.json')))
    files = json.load(open(os.path.join(HERE, 'files.json')))
    for f in ('ja.so', 'jb.so', 'jc.so'):
        outs = [subprocess.run([sys.argv[1], *opt, os.path.join(BIN, f)], stdout=subprocess.PIPE, check=True).stdout for opt in ([], ['--inlines'])]
        o = outs[0].decode('utf-8', 'replace').split('\n')
        m = o[0].split(' ')
        meta[f] = {'name': m[4], 'id': m[3], 'code': o[1].split(' ')[2] if o[1].startswith('INFO CODE_ID') else None}
        files[f] = [sorted(l.split(' ', 2)[2] for l in x.decode('utf-8', 'replace').split('\n') if l.startswith('FILE ')) for x in outs] + [[attribution(parse(x)) for x in outs]]
        print(f, meta[f])
        print(outs[1].decode()[:500])
    json.dump(meta, open(os.path.join(HERE, 'meta.json'), 'w'), indent=1, sort_keys=True)
    json.dump(files, open(os.path.join(HERE, 'files.json'), 'w'), indent=1, sort_keys=True)
