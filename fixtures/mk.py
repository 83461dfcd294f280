#!/usr/bin/env python3
"""Builds the binary fixtures used by the simulated workloads (committed; run again only to change them).
Needs clang-18, lld-18, llvm-lipo, objcopy.  Output: fixtures/bin/*, fixtures/srcs/* (the sources that the
debug information names as /src/..., laid out in the simulated file system so they can be hashed)."""
import os, shutil, struct, subprocess, sys, tempfile, zlib, random
HERE = os.path.dirname(os.path.abspath(__file__))
BIN = os.path.join(HERE, 'bin'); SRC = os.path.join(HERE, 'srcs')
LL = '/usr/lib/llvm-18/bin/'
for d in (BIN, SRC): shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
rnd = random.Random(7)

def sh(*a, **k): subprocess.run(a, check=True, **k)
def w(rel, text):
    p = os.path.join(SRC, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(text); return p

w('inc/util.h', '''#pragma once
__attribute__((always_inline)) inline int util_mix(int a, int b) {
  int r = a * 31 + b;
  for (int i = 0; i < b; i++) r ^= (r << 3) + i;
  return r;
}
''')
w('inc/deep.h', '''#pragma once
#include "util.h"
__attribute__((always_inline)) inline int deep_two(volatile int *p, int a) {
  *p = util_mix(a, *p);
  return *p + 1;
}
__attribute__((always_inline)) inline int deep_one(volatile int *p, int a) {
  int x = deep_two(p, a + 1);
  *p = x;
  return deep_two(p, x);
}
''')
# a header from which only inlined code comes
w('inc/only_inl.h', '''#pragma once
__attribute__((always_inline)) inline int only_inl(volatile int *p) { return *p + *p * 3; }
''')

def module_src(mod, nfun, nfiles=2, salt=0, ns=None, hdr=True, big=False):
    ns = ns or mod
    out = []
    for fi in range(nfiles):
        t = ''
        if hdr:
            t += '#include "../inc/deep.h"\n'
            if fi % 2: t += '#include "../inc/only_inl.h"\n'
        t += 'namespace %s {\nextern volatile int g%d;\nvolatile int g%d;\n' % (ns, fi, fi)
        for k in range(nfun):
            n = 'f%d_%d_%d' % (fi, k, salt) + ('_with_a_rather_long_name_to_fill_the_output' if big else '')
            body = '  g%d += a + %d;\n' % (fi, k * 7 + salt)
            if hdr and k % 3 == 0: body += '  if (a > %d)\n    return deep_one(&g%d, a);\n' % (k, fi)
            if hdr and fi % 2 and k % 3 == 1: body += '  g%d = only_inl(&g%d);\n' % (fi, fi)
            for j in range((k * 5 + salt) % 4): body += '  g%d ^= a << %d;\n' % (fi, j + 1)
            t += '__attribute__((noinline)) int %s(int a) {\n%s  return g%d;\n}\n' % (n, body, fi)
        t += '}\nextern "C" int %s_c%d(int a) { return %s::f%d_0_%d%s(a) + 1; }\n' % (ns, fi, ns, fi, salt,
             '_with_a_rather_long_name_to_fill_the_output' if big else '')
        out.append(w('%s/s%d.cpp' % (mod, fi), t))
    return out

def elf(name, srcs, mod, bid=None, soname=None, extra=(), opt='-O2', cc='clang++-18'):
    out = os.path.join(BIN, name)
    ext = '0x' + bid if bid else 'sha1'
    a = [cc, '-g', opt, '-fPIC', '-shared', '-nostdlib', '-fno-exceptions', '-ffile-prefix-map=%s=/src' % SRC,
         '-fdebug-compilation-dir=/src/' + mod, '-fuse-ld=lld', '-Wl,--build-id=' + ext, '-o', out]
    if soname: a.append('-Wl,-soname,' + soname)
    sh(*a, *extra, *srcs, cwd=os.path.join(SRC, mod))
    return out
def strip(src, dst, *fl): sh('strip', *(fl or ('--strip-all',)), '-o', os.path.join(BIN, dst), os.path.join(BIN, src))
def dbg(src, dst): sh('objcopy', '--only-keep-debug', os.path.join(BIN, src), os.path.join(BIN, dst))

for i in range(6):
    elf('m%d.so' % i, module_src('m%d' % i, 2 + i, 1 + i % 3, salt=i), 'm%d' % i, soname=('libm%d.so' % i if i % 2 else None))
elf('mid.so', module_src('mid', 40, 3, salt=3, big=True), 'mid')
elf('big.so', module_src('big', 260, 3, salt=1, big=True), 'big')
elf('nocfi.so', module_src('nocfi', 3, 1, salt=4), 'nocfi', extra=('-fno-asynchronous-unwind-tables', '-fno-unwind-tables'))
sh('objcopy', '-R', '.debug_frame', '-R', '.eh_frame', '-R', '.eh_frame_hdr', os.path.join(BIN, 'nocfi.so'))
# stripped binary + separate debug file
for i in range(2):
    n = 'p%d' % i
    elf(n + '.full', module_src(n, 4 + 5 * i, 2, salt=i), n, soname='lib%s.so' % n)
    strip(n + '.full', n + '.so'); dbg(n + '.full', n + '.dbg')
# same build id, different contents: parts of one module
GID = '11223344556677889900aabbccddeeff01020304'
elf('ga.so', module_src('ga', 4, 2, salt=0), 'ga', bid=GID)
elf('gb.so', module_src('gb', 4, 2, salt=1), 'gb', bid=GID)       # as many symbols as ga
elf('gc.full', module_src('gc', 6, 3, salt=2), 'gc', bid=GID); strip('gc.full', 'gc.so')
elf('gd.full', module_src('gd', 3, 1, salt=5), 'gd', bid=GID, soname='libgd.so'); strip('gd.full', 'gd.so')
elf('ge.so', module_src('ge', 7, 3, salt=3), 'ge', bid=GID, extra=('-fno-asynchronous-unwind-tables', '-fno-unwind-tables'))
sh('objcopy', '-R', '.debug_frame', os.path.join(BIN, 'ge.so'))
os.unlink(os.path.join(BIN, 'gc.full')); os.unlink(os.path.join(BIN, 'gd.full'))
HID = 'deadbeef00112233445566778899aabbccddeeff'
elf('ha.so', module_src('ha', 5, 2, salt=0), 'ha', bid=HID, soname='libh.so')
elf('hb.so', module_src('hb', 3, 3, salt=2), 'hb', bid=HID, soname='libh.so')
elf('hc.full', module_src('hc', 5, 2, salt=4), 'hc', bid=HID, soname='libhc.so')
strip('hc.full', 'hc.so'); dbg('hc.full', 'hc.dbg'); os.unlink(os.path.join(BIN, 'hc.full'))
# identical stripped copies under different names
strip('m2.so', 'k1.so'); shutil.copy(os.path.join(BIN, 'k1.so'), os.path.join(BIN, 'k2.so'))
# a module whose code is compiled at -O0 with another compiler
elf('n0.so', module_src('n0', 3, 2, salt=9), 'n0', opt='-O0')

# ---- PE + PDB
def pe(name, nfun, salt, ext='dll', pdbpath=None):
    srcs = module_src(name, nfun, 2, salt=salt)
    objs = []
    with tempfile.TemporaryDirectory() as td:
        for i, s in enumerate(srcs):
            o = os.path.join(td, 'o%d.obj' % i)
            sh('clang++-18', '-target', 'x86_64-pc-windows-msvc', '-g', '-gcodeview', '-O2', '-fno-exceptions', '-c', s, '-o', o,
               '-ffile-prefix-map=%s=/src' % SRC, '-fdebug-compilation-dir=/src/' + name, cwd=os.path.join(SRC, name))
            objs.append(o)
        a = ['lld-link-18', '/nodefaultlib', '/debug:full', '/out:' + os.path.join(BIN, name + '.' + ext),
             '/pdb:' + os.path.join(BIN, name + '.pdb'), '/pdbaltpath:' + (pdbpath or name + '.pdb'), '/brepro', '/force:unresolved']
        a += ['/dll', '/noentry'] if ext == 'dll' else ['/entry:%s_c0' % name, '/subsystem:console']
        a += ['/export:%s_c0' % name, '/export:%s_c1' % name]
        sh(*a, *objs)
    for junk in (name + '.lib',):
        p = os.path.join(BIN, junk)
        if os.path.exists(p): os.unlink(p)
pe('w0', 4, 0); pe('w1', 9, 3); pe('w2', 3, 5, ext='exe'); pe('w3', 70, 2)

# ---- cabinets (MSZIP), for .pd_ / .dl_
def cab(dst, member, data):
    blocks = []
    prev = b''
    for o in range(0, len(data), 32768):
        blk = data[o:o + 32768]
        c = zlib.compressobj(9, zlib.DEFLATED, -15, 9, zlib.Z_DEFAULT_STRATEGY, *( [prev] if prev else [] ))
        z = b'CK' + c.compress(blk) + c.flush()
        blocks.append((z, len(blk))); prev = blk
    name = member.encode() + b'\0'
    hdr = 36; fold = 8; fil = 16 + len(name)
    off_files = hdr + fold; off_data = off_files + fil
    body = b''.join(struct.pack('<IHH', 0, len(z), n) + z for z, n in blocks)
    total = off_data + len(body)
    out = b'MSCF' + struct.pack('<IIIIIBBHHHHH', 0, total, 0, off_files, 0, 3, 1, 1, 1, 0, 1, 0)
    out += struct.pack('<IHH', off_data, len(blocks), 1)
    out += struct.pack('<IIHHHH', len(data), 0, 0, 0x5a21, 0x6000, 0x20) + name + body
    open(os.path.join(BIN, dst), 'wb').write(out)
def rd(n): return open(os.path.join(BIN, n), 'rb').read()
for n in ('w0', 'w1', 'w3'):
    cab(n + '.pd_', n + '.pdb', rd(n + '.pdb')); cab(n + '.dl_', n + '.dll', rd(n + '.dll'))
cab('w2.pd_', 'w2.pdb', rd('w2.pdb')); cab('w2.ex_', 'w2.exe', rd('w2.exe'))

# ---- Mach-O: fat dylib and a dSYM bundle
def macho(name, nfun, salt):
    srcs = module_src(name, nfun, 2, salt=salt)
    with tempfile.TemporaryDirectory() as td:
        slices = []; dsyms = []
        for arch in ('x86_64', 'arm64'):
            objs = []
            for i, s in enumerate(srcs):
                o = os.path.join(td, '%s%d.o' % (arch, i))
                sh('clang++-18', '-target', arch + '-apple-macos11', '-g', '-O2', '-fno-exceptions', '-c', s, '-o', o,
                   '-ffile-prefix-map=%s=/src' % SRC, '-fdebug-compilation-dir=/src/' + name, cwd=os.path.join(SRC, name))
                objs.append(o)
            out = os.path.join(td, name + '.' + arch)
            sh('ld64.lld-18', '-dylib', '-arch', arch, '-platform_version', 'macos', '11.0', '11.0', '-o', out,
               '-install_name', '/usr/lib/' + name + '.dylib', '-undefined', 'dynamic_lookup', *objs)
            d = os.path.join(td, name + '.' + arch + '.dwarf')
            sh(LL + 'dsymutil', '-f', '-o', d, out)
            slices.append(out); dsyms.append(d)
        sh(LL + 'llvm-lipo', '-create', *slices, '-output', os.path.join(BIN, name + '.dylib'))
        sh(LL + 'llvm-lipo', '-create', *dsyms, '-output', os.path.join(BIN, name + '.dwarf'))
macho('x0', 3, 1); macho('x1', 5, 2)

# ---- malformed inputs
open(os.path.join(BIN, 'empty.bin'), 'wb').write(b'')
open(os.path.join(BIN, 'text.txt'), 'wb').write(b'this is not an object file\n' * 20)
open(os.path.join(BIN, 'trunc.so'), 'wb').write(rd('m3.so')[:700])
open(os.path.join(BIN, 'trunc.pdb'), 'wb').write(rd('w0.pdb')[:5000])
open(os.path.join(BIN, 'trunc.pd_'), 'wb').write(rd('w1.pd_')[:3000])
open(os.path.join(BIN, 'trunc.dll'), 'wb').write(rd('w0.dll')[:300])
sh('bash', '-c', 'ls -la %s; du -sh %s %s' % (BIN, BIN, SRC))
