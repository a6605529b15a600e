"""Threads on separate messages and on one shared message that is read."""

from .. import glue, rt, values, wire, work

MIN_CASES = 40


def job(log, spec):
    spec, flavor = spec
    u = work.unit(log, spec)
    rng = log.rng('job', spec, flavor)
    ops, metas = [], []

    def some(limit):
        while True:
            i = rng.randrange(len(u.entries))
            m = u.entries[i]
            # Rich messages, so that most of the code runs concurrently.
            v = values.gen(rng, m, depth=3, budget=60, big=False, density=0.95)
            data = wire.Alt(rng, wide=0).message(m, v) if rng.random() < 0.5 else wire.encode(m, v)
            if len(data) < limit and 16 * len(data) + work.room(m, v) < 1 << 18:
                return i, data, glue.value_ops(m, v, rng)
    for k in range(log.scale(8, 40)):
        n = rng.choice([2, 4, 8])
        shared = some(3000)
        # All on one type, or each on its own.
        jobs = [some(3000) for _ in range(n)]
        if k % 3 == 0:
            jobs = [shared] * n
        elif k % 3 == 1:
            jobs = [shared if i == shared[0] else (i, d, b) for i, d, b in jobs]
        rounds = log.scale(60, 250) if flavor == 'tsan' else log.scale(1500, 6000)
        ops.append(rt.op_threads(shared, jobs, rounds))
        metas.append((shared, jobs, rounds))
    for (shared, jobs, rounds), raw in zip(metas, u.execute(ops, flavor, cpu=300)):
        m = u.entries[shared[0]]
        ctx = dict(jobs=[(u.entries[i].full, d.hex()[:3000]) for i, d, _ in jobs], flavor=flavor)
        log.case((spec, flavor, repr(shared), repr(jobs)))
        if work.crashed(log, u, m, raw, data=shared[1], **ctx):
            continue
        r = rt.R(raw)
        mon, done = r.u32(), r.u32()
        log.count(f'thread rounds ({flavor})', done)
        log.count('threads', len(jobs))
        if mon:
            log.violation(f'threads: {rt.mon_text(mon)}', **work.context(u, m, data=shared[1], **ctx))
        elif done != rounds * len(jobs):
            log.violation(f'threads: only {done} rounds of {rounds * len(jobs)}', **work.context(u, m, **ctx))
        if len(shared[1]) < 60:
            log.sample({'shared message': m.full, 'shared bytes': shared[1].hex(),
                        'threads on': [u.entries[i].full for i, _, _ in jobs], 'rounds': done})


def main(run):
    run.rule = ('one case per set of threads (2 to 8) on own and shared messages, with injected delays; ThreadSanitizer '
                'silent and every result equal to the sequential one')
    run.assumptions = ['schedules are those the machine produces, with random pauses']
    specs = work.specs(run, run.scale(8, 30))
    run.jobs(job, [(s, f) for s in specs for f in ('tsan', 'gcc-O2')])
