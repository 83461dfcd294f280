#!/usr/bin/env python3
import json, os
LEVEL = 'Seeded search over simulated executions of the real program (all of src/, std, crossbeam, tokio, reqwest); no exhaustiveness claimed. Trusted: the simulated kernel (sim/libsim.c), sequentially consistent atomics, the fixture set, the oracle in simlib/props.py.'
FE = 'Seeded search over simulated executions of the real program, preceded by a systematic pass with a fault or crash at each I/O operation of recorded reference runs. Trusted: the simulated kernel (sim/libsim.c), process-crash (not power-loss) durability, the fixture set, the oracle in simlib/props.py.'
T = 'deterministic simulation: '
C = {
 'C01': ('seeded thread interleavings x I/O and thread-creation faults; deadlock detection and step/time bound', 'exploration', LEVEL),
 'C02': ('seeded interleavings, job counts and hash seeds; differential against isolated reference runs', 'exploration', LEVEL),
 'C03': ('seeded output faults (full disk at every offset, failing open/mkdir/write) x interleavings; status versus delivered bytes', 'fault_enumeration', FE),
 'C04': ('seeded short and interrupted reads/writes on every descriptor; differential against the fault-free run', 'exploration', LEVEL),
 'C05': ('seeded bad inputs and input faults x interleavings; status and absence of output', 'exploration', LEVEL),
 'C06': ('seeded interleavings of writers to one destination; block decomposition of the result', 'exploration', LEVEL),
 'C07': ('crash/fault at each I/O operation of a download, then further runs over the surviving cache; refinement against a small cache model', 'fault_enumeration', FE),
 'C08': ('simulated servers with seeded misbehaviour; used and cached bytes checked against what was served', 'exploration', LEVEL),
 'C09': ('simulated servers with seeded misbehaviour next to one healthy one; success within bounded simulated time', 'exploration', LEVEL),
 'C10': ('seeded histories of runs sharing caches with servers going up and down; refinement against a cache model', 'exploration', LEVEL),
 'C11': ('seeded interleavings and source-file read faults; every path checked against an independent mapping model', 'exploration', LEVEL),
 'C12': ('seeded arrival orders of the files of one module; conservation checked record by record against the separate dumps', 'exploration', LEVEL),
 'C13': ('process killed at each I/O operation, the command repeated; differential against the uninterrupted run', 'fault_enumeration', FE),
 'C15': ('seeded storage damage to inputs and companions (bit rot, bad sectors, truncation, odd names) x interleavings; every written line and location validated', 'exploration', LEVEL),
 'C21': ('seeded neighbours, caches and servers holding right and wrong companions x faults on them; differential against the two allowed combinations', 'exploration', LEVEL),
 'C22': ('seeded faults and crashes in runs over populated stores and caches; whole file tree and contacted hosts compared before and after', 'exploration', LEVEL),
 'C23': ('seeded interleavings of runs with many inputs; per-thread and open-file accounting over the recorded operations', 'exploration', LEVEL),
 'C24': ('seeded short, interrupted and failing reads and writes of listings; differential against fault-free single listings and known architectures, whole file tree compared', 'exploration', LEVEL),
 'C25': ('seeded failures of standard error x verbosity x interleavings; differential against quiet reference runs', 'exploration', LEVEL),
 'C26': ('seeded invalid, cut-off and unreadable configuration files and options x batches; status and unchanged file tree', 'exploration', LEVEL),
 'C14': ('two or three simulated processes paused and switched at seeded I/O operations on a shared tree; differential against runs alone', 'exploration', LEVEL),
}
pure = 'A pure function of the input bytes and options: no schedule, clock, I/O fault, crash point or multi-party behaviour for it to depend on, so the simulator has nothing to vary; deciding it needs an independent reader of the debug formats.'
NA = {
 'C16': pure, 'C17': pure, 'C18': pure, 'C19': pure, 'C20': pure,
}
m = {'version': 1, 'setup_cmd': 'python3 check.py --build',
 'checks': [{'property': k, 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + k, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + k,
             'evidence_file': 'evidence/%s.json' % k, 'technique': T + t, 'level': l, 'level_note': n} for k, (t, l, n) in sorted(C.items())],
 'not_applicable': [{'property': k, 'reason': r} for k, r in NA.items()],
 'notes': 'No hooks in /repo: the seam is below the program (atomics instrumented by the compiler, libc/syscalls replaced by sim/libsim.c). Replay: python3 check.py --replay <file>. Determinism: python3 check.py --selftest 400.'}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
