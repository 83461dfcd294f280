#!/usr/bin/env python3
"""Definitions of the planted bugs: writes /verif/seeded/<id>/ and confirms each one in a scratch copy of /repo.
plants.py SCRATCH [id...]: SCRATCH is a 'cp -a' of /repo.  For each bug: apply, build, run the stable tests,
run the demo with and without the patch; keep it only if everything is as required."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''#!/bin/bash
# exit 0: the property holds; anything else: it is broken
D=$(cd "$(dirname "$0")" && pwd); B=$PWD/target/debug/dump_syms; L=$PWD/test_data/linux; W=$PWD/test_data/windows
T=$(mktemp -d) || exit 9
PIDS=""
fin() { [ -n "$PIDS" ] && kill $PIDS 2>/dev/null; rm -rf "$T"; }
trap fin EXIT
export HOME=$T/home; mkdir -p "$HOME"; unset http_proxy HTTP_PROXY all_proxy ALL_PROXY; export NO_PROXY=127.0.0.1
'''
FI = 'gcc -shared -fPIC -O1 -w -o "$T/fi.so" "$D/fi.c" -ldl || exit 9\n'
SRV = '''start() { # start NAME ROUTES-JSON: a server on a free port, its address in the variable NAME
  printf '%s' "$2" > "$T/$1.json"; python3 "$D/srv.py" "$T/$1.port" "$T/$1.json" & PIDS="$PIDS $!"
  for i in $(seq 100); do [ -s "$T/$1.port" ] && break; sleep 0.1; done
  eval "$1=http://127.0.0.1:$(cat "$T/$1.port")"; }
'''
BUGS = {}


def bug(id, prop, edits, needs, breaks, demo, files=()):
    BUGS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, files=list(files))


exec(open(os.path.join(V, 'tools', 'plant', 'bugs.py')).read())
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', shell=isinstance(cmd, str), timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def main():
    S = sys.argv[1]
    ids = sys.argv[2:] or list(BUGS)
    env = {'CARGO_TARGET_DIR': S + '/target', 'CARGO_NET_OFFLINE': 'true', 'CARGO_INCREMENTAL': '1', 'CARGO_PROFILE_DEV_DEBUG': 'line-tables-only', 'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu'}
    head = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], stdout=subprocess.PIPE, text=True).stdout.strip()
    sh('git fetch -q /repo && git checkout -qf %s' % head, S)
    for id in ids:
        b = BUGS[id]
        d = os.path.join(V, 'seeded', id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sh('git checkout -q -- .', S)
        for p, a, c in b['edits']:
            s = open(os.path.join(S, p)).read()
            if s.count(a) != 1:
                print(id, 'EDIT DOES NOT MATCH', s.count(a), repr(a[:80]))
                break
            open(os.path.join(S, p), 'w').write(s.replace(a, c))
        else:
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', S)[1])
            open(os.path.join(d, 'demo.sh'), 'w').write(PRE + (FI if 'fi.c' in b['files'] else '') + (SRV if 'srv.py' in b['files'] else '') + b['demo'])
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            for f in b['files']:
                src = os.path.join(V, 'tools', 'plant', f)
                if not os.path.exists(src):
                    src = os.path.join(V, 'fixtures', 'bin', f)
                shutil.copy(src, d)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            touch = 'touch -c src/lib.rs src/main.rs; '
            rc, out = sh(touch + 'cargo build --workspace --offline', S, env)
            if rc:
                print(id, 'DOES NOT BUILD\n' + out[-1500:])
                continue
            rcd, outd = sh(['bash', os.path.join(d, 'demo.sh')], S, t=300)
            rct, outt = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/plant.log 2>&1; python3 /opt/vp/results.py /tmp/plant.json cargo:/tmp/plant.log', S, env)
            passed = set(json.load(open('/tmp/plant.json'))['passed'])
            sh('git checkout -q -- .', S)
            rc, out = sh(touch + 'cargo build --workspace --offline', S, env)
            rc0, out0 = sh(['bash', os.path.join(d, 'demo.sh')], S, t=300)
            ok = rcd != 0 and rc0 == 0 and STABLE <= passed
            print(id, b['prop'], 'OK' if ok else 'NOT OK', 'demo with patch: %d, without: %d, stable tests lost: %s' % (rcd, rc0, sorted(STABLE - passed)))
            if not ok:
                print('--- with\n' + outd[-1500:] + '\n--- without\n' + out0[-1500:])
    sh('git checkout -q -- .', S)


main()
