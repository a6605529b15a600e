"""Encoding into every buffer size."""

from .. import bigsize, glue, rt, values, wire, work

MIN_CASES = 2000


def job(log, spec):
    u = work.unit(log, spec)
    rng = log.rng('job', spec)
    cases = []
    for i, m, v in work.messages(log, u, spec, log.scale(14, 40), boundary=log.scale(25, None)):
        n = len(wire.encode(m, v))
        limit = log.scale(260, 1500)
        if 'sizes' in spec:
            windows = [(max(0, n - 2), n + 2)]
        elif n <= limit:
            windows = [(0, n + 40)]
        else:
            a = rng.randrange(n)
            windows = [(0, 25), (max(0, n - 40), n + 40), (a, a + 20)]
        for lo, hi in windows:
            cases.append((i, m, v, n, lo, hi))
    ops = [rt.op_encsweep(i, glue.value_ops(m, v, rng), lo, hi, ws=work.room(m, v), cap=n + 64)
           for i, m, v, n, lo, hi in cases]
    for (i, m, v, n, lo, hi), raw in zip(cases, u.execute(ops)):
        if work.crashed(log, u, m, raw, v=v, sizes=(lo, hi)):
            continue
        r = rt.EncSweep(raw, lo)
        ctx = work.context(u, m, v, r.bytes)
        if not r.new or r.ops != 0:
            log.violation(f'{m.full}: building failed ({r.ops})', **ctx)
            continue
        if r.rc != n:
            log.violation(f'{m.full}: encode into {n + 64} bytes returned {r.rc}, expected {n}', **ctx)
            continue
        for size, rc in r.codes.items():
            log.evaluations += 1
            want = n if size >= n else -4
            if rc != want:
                log.violation(f'{m.full}: encode of {n} bytes into {size} returned {rc}, expected {want}',
                              **dict(ctx, size=size))
                break
            log.count('successes' if rc >= 0 else 'buffer full reports')
        log.case((m.full, repr(v), lo), {'message': m.full, 'encoded size': n, 'buffer sizes': [lo, hi],
                                         'value': repr(v)[:200]} if 3 < n < 30 else None)
        work.watch(log, u, m, r.mon, v=v)


def main(run):
    run.rule = ('one case per message value and buffer size; distinct by message type, value and range of sizes; '
                'result and bytes as predicted, sanitizers and guard bytes silent')
    run.assumptions = []
    run.jobs(bigsize.observe, [('buffer', 'bytes'), ('strings',)])
    run.jobs(job, work.specs(run, run.scale(28, 160)) + work.sizes())
