"""Determinism of the simulator: every scenario executed twice must give the same event logs, outputs and ends."""
import hashlib, os, random, shutil, time
from . import core, engine, props


def digest(ex):
    h = hashlib.sha1()
    for r in ex.results:
        h.update(('%s %s %s' % (r.why, r.rc, sorted(r.stats.items()))).encode())
        h.update('\n'.join(r.log).encode())
        h.update(r.out)
    for p in sorted(ex.final):
        h.update(p.encode() + b'\0' + ex.final[p])
    return h.hexdigest()


def main(n):
    tools = core.build()
    base = os.path.join(core.scratch_base(), 'dsv-%d' % os.getpid())
    os.makedirs(base)
    bad = done = 0
    t = time.time()
    try:
        core.W = core.Worker(base, 0, tools)
        ctx = engine.Ctx(1, 'quick')
        ids = sorted(props.ALL)
        for i in range(n):
            p = props.ALL[ids[i % len(ids)]]
            sc = p.gen(engine.rng_for(int(os.environ.get('VERIF_SEED', '1')) + 7000, p.id, i), ctx)
            if sc is None:
                continue
            a = digest(core.execute(sc, keep_log=True))
            b = digest(core.execute(sc, keep_log=True))
            done += 1
            if a != b:
                bad += 1
                print('NOT DETERMINISTIC: %s index %d' % (p.id, i))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print('%d scenarios executed twice, %d differed, %.1f s' % (done, bad, time.time() - t))
    return 1 if bad else 0
