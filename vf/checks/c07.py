"""Workspaces of every size, address and content."""

import struct

from .. import bigsize, glue, rt, values, wire, work

MIN_CASES = 2000
HUGE = [1 << 20, (1 << 28) + 1, 1 << 29, (1 << 29) + 1, (1 << 30) - 1, 1 << 30, (1 << 31) - 1]


def judge(log, u, m, v, kind, want, rows, state, ctx):
    """Checks one sweep; sizes ascend over all sweeps of one state."""
    for size, new, rc, h in rows:
        log.evaluations += 1
        if not new:
            if state['new']:
                log.violation(f'{m.full}: creation fails with {size} bytes but not with {state["new"]}', **ctx)
                return False
            log.count('creations refused')
            continue
        state['new'] = state['new'] or size
        if rc == want:
            if state['ok'] is None:
                state['ok'], state['hash'] = size, h
            elif state['hash'] != h:
                log.violation(f'{m.full}: {kind} with {size} bytes gives other content than with {state["ok"]}', **ctx)
                return False
            log.count(f'{kind} successes')
            continue
        if state['ok'] is not None:
            log.violation(f'{m.full}: {kind} succeeds with {state["ok"]} bytes but gives {rc} with {size}', **ctx)
            return False
        if rc >= 0 or (kind == 'decode' and rc != -3):
            log.violation(f'{m.full}: {kind} with {size} bytes gave {rc}', **ctx)
            return False
        log.count(f'{kind} out of memory')
    return True


def job(log, spec):
    u = work.unit(log, spec)
    rng = log.rng('job', spec)
    plans = []
    for i, m, v in work.messages(log, u, spec, log.scale(5, 16), boundary=log.scale(8, None), most=300, big=False):
        if 'sizes' in spec and rng.random() > (0.5 if len(wire.encode(m, v)) < 60 else 0.05):
            continue
        room = work.room(m, v)
        if room > log.scale(20000, 60000):
            continue
        data = wire.encode(m, v) if rng.random() < 0.6 else wire.Alt(rng, dup=0, wide=0).message(m, v)
        off, poison = rng.randrange(16), rng.choice([0xff, 0x5a, 0x41, 0])
        for kind in ('decode', 'build'):
            payload = data if kind == 'decode' else glue.value_ops(m, v, rng)
            plans.append((i, m, v, kind, payload, room + (16 * len(data) if kind == 'decode' else 0), off, poison))
    # First a coarse sweep over everything, then every size near the
    # smallest one that suffices.
    ops = []
    for i, m, v, kind, payload, room, off, poison in plans:
        step = max(1, room // 150)
        ops.append(rt.op_wssweep(i, kind == 'build', payload, 0, room + step, step, off, poison))
    fine, fops = [], []
    for (i, m, v, kind, payload, room, off, poison), raw in zip(plans, u.execute(ops)):
        step = max(1, room // 150)
        ctx = work.context(u, m, v, payload, kind=kind, offset=off)
        if work.crashed(log, u, m, raw, v=v, data=payload, kind=kind, offset=off):
            continue
        r = rt.WsSweep(raw, 0, step)
        want = len(payload) if kind == 'decode' else 0
        state = {'new': None, 'ok': None, 'hash': None}
        if not judge(log, u, m, v, kind, want, r.rows, state, ctx):
            continue
        work.watch(log, u, m, r.mon, v=v, kind=kind, offset=off)
        log.case((m.full, kind, payload, off), {'message': m.full, 'kind': kind, 'created from': state['new'],
                                                'enough from': state['ok'], 'value': repr(v)[:200]}
                 if kind == 'decode' and 5 < len(payload) < 30 else None)
        if state['ok'] is None:
            log.violation(f'{m.full}: {kind} does not succeed with {room} bytes', **ctx)
            continue
        lo = max(0, state['ok'] - min(step + 2, 60))
        fine.append((i, m, v, kind, payload, off, poison, lo))
        fops.append(rt.op_wssweep(i, kind == 'build', payload, lo, state['ok'] + 34, 1, off, poison))
    last, lops = [], []
    for (i, m, v, kind, payload, off, poison, lo), raw in zip(fine, u.execute(fops)):
        ctx = work.context(u, m, v, payload, kind=kind, offset=off)
        if work.crashed(log, u, m, raw, v=v, data=payload, kind=kind, offset=off):
            continue
        r = rt.WsSweep(raw, lo, 1)
        want = len(payload) if kind == 'decode' else 0
        state = {'new': None, 'ok': None, 'hash': None}
        if not judge(log, u, m, v, kind, want, r.rows, state, ctx):
            continue
        work.watch(log, u, m, r.mon, v=v, kind=kind, offset=off)
        last.append((i, m, v, kind, payload))
        if kind == 'decode':
            lops.append(rt.op_decode(i, payload, ws=state['ok'], cap=len(payload) + len(wire.encode(m, v)),
                                     off=off, poison=poison))
        else:
            lops.append(rt.op_build(i, [payload], ws=state['ok'], ws2=0, cap=len(wire.encode(m, v)), off=off,
                                    poison=poison))
    # Contents when the workspace just suffices.
    for (i, m, v, kind, payload), raw in zip(last, u.execute(lops)):
        if work.crashed(log, u, m, raw, v=v, data=payload, kind=kind):
            continue
        if kind == 'decode':
            r = rt.Decoded(raw)
            dump, mon = r.dump, r.mon
        else:
            b = rt.Built(raw, 1)
            dump, mon = b.chunks[0].dump, b.mon
        got = work.parse(log, u, m, dump, v=v)
        if got is None:
            continue
        d = values.diff(m, got, v)
        if d:
            log.violation(f'{m.full}: {kind} in a workspace that just suffices: {d}', **work.context(u, m, v, payload))
        work.watch(log, u, m, mon, v=v, kind=kind)
        log.count('contents compared at the smallest sufficient size')
    # Allocation of lists that cannot fit.
    big = [(i, m, f) for i, m in enumerate(u.entries) for f in m.fields if f.repeated]
    big = [(i, m, f, n) for i, m, f in big for n in rng.sample(HUGE, 3)]
    ops = [rt.op_build(i, [glue.ops_list([glue.op(glue.field_index(m, f.name), glue.ALLOC, struct.pack('<I', n))])],
                       ws=rng.choice([1000, 4096, 65536]), ws2=0) for i, m, f, n in big]
    for (i, m, f, n), raw in zip(big, u.execute(ops)):
        log.case((m.full, f.name, n))
        if work.crashed(log, u, m, raw, field=f.name, length=n):
            continue
        b = rt.Built(raw, 1)
        # A message too big for the workspace is refused already.
        if b.new and b.chunks[0].ops >= 0:
            log.violation(f'{m.full}: allocation of {n} items of {f.name} succeeds', **work.context(u, m))
        work.watch(log, u, m, b.mon)
        log.count('huge allocations refused')


def main(run):
    run.rule = ('one case per message value (decoded or built) and workspace size; result, content, alignment, '
                'disjointness, guard bytes and heap use watched')
    run.assumptions = ['list lengths are not negative',
                       'after a failed allocation the content of that field is not specified']
    run.jobs(bigsize.observe, [('workspace',)])
    run.jobs(job, work.specs(run, run.scale(32, 160)) + work.sizes())
