#!/usr/bin/env python3
"""check.py C01            run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
check.py --build          build the simulator and the instrumented program
check.py --replay FILE    re-execute a replay file: exit 1 and the VIOLATION line if it reproduces
check.py --selftest [N]   determinism: N seeds, each executed twice, event logs compared"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    from simlib import core, engine, props
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == '--build':
        core.build()
        return 0
    if a[0] == '--replay':
        return engine.replay(props.ALL, a[1])
    if a[0] == '--selftest':
        from simlib import selftest
        return selftest.main(int(a[1]) if len(a) > 1 else 200)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(a) > 1:
        tier = a[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return engine.run_check(props.ALL[a[0]], 'thorough' if tier == 'thorough' else 'quick', seed)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
