#!/usr/bin/env python3
"""Further fixtures, added without touching those of mk.py to mk4.py:
badcfi.so  its call-frame data cannot be decoded: there is a section, but no record
nosym.so   a library with neither symbols nor call-frame data
Then adds them to meta.json and files.json with the program given as argument."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
BIN = os.path.join(HERE, 'bin'); SRC = os.path.join(HERE, 'srcs')

def sh(*a, **k): subprocess.run(a, check=True, **k)

with tempfile.TemporaryDirectory() as td:
    s = os.path.join(td, 'a.c')
    open(s, 'w').write('volatile int g;\nint bad1(int a) {\n  g += a;\n  return g;\n}\nint bad2(int a) {\n  return bad1(a) * 3;\n}\n')
    o = os.path.join(BIN, 'badcfi.so')
    sh('clang-18', '-g', '-O1', '-fPIC', '-shared', '-nostdlib', '-fuse-ld=lld', '-fasynchronous-unwind-tables', '-ffile-prefix-map=%s=/src/bad' % td, '-fdebug-compilation-dir=/src/bad',
       '-Wl,--build-id=0x200102030405060708090a0b0c0d0e0f10111213', '-o', o, s)
    l = [x.split() for x in subprocess.run(['objdump', '-h', o], stdout=subprocess.PIPE, check=True, text=True).stdout.split('\n') if ' .eh_frame ' in x][0]
    d = bytearray(open(o, 'rb').read())
    off = int(l[5], 16)
    d[off + 8] = 9      # the version of the first CIE
    open(o, 'wb').write(d)
    s = os.path.join(td, 'b.c')
    open(s, 'w').write('static int x[4] __attribute__((used)) = {1, 2, 3, 4};\n')
    o = os.path.join(BIN, 'nosym.so')
    sh('clang-18', '-O1', '-fPIC', '-shared', '-nostdlib', '-fuse-ld=lld', '-Wl,-s', '-Wl,--build-id=0x210102030405060708090a0b0c0d0e0f10111213', '-o', o, s)
    sh('objcopy', '-R', '.text', o)

if len(sys.argv) > 1:
    from simlib.symfile import attribution, parse
    meta = json.load(open(os.path.join(HERE, 'meta.json')))
    files = json.load(open(os.path.join(HERE, 'files.json')))
    for f in ('badcfi.so', 'nosym.so'):
        outs = [subprocess.run([sys.argv[1], *opt, os.path.join(BIN, f)], stdout=subprocess.PIPE, check=True).stdout for opt in ([], ['--inlines'])]
        o = outs[0].decode('utf-8', 'replace').split('\n')
        m = o[0].split(' ')
        meta[f] = {'name': m[4], 'id': m[3], 'code': o[1].split(' ')[2] if o[1].startswith('INFO CODE_ID') else None}
        files[f] = [sorted(l.split(' ', 2)[2] for l in x.decode('utf-8', 'replace').split('\n') if l.startswith('FILE ')) for x in outs] + [[attribution(parse(x)) for x in outs]]
        print(f, meta[f])
        print(outs[1].decode())
    json.dump(meta, open(os.path.join(HERE, 'meta.json'), 'w'), indent=1, sort_keys=True)
    json.dump(files, open(os.path.join(HERE, 'files.json'), 'w'), indent=1, sort_keys=True)
