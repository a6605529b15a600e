"""Round trip: build through the API, encode, decode, compare."""

from .. import glue, rt, values, wire, work

MIN_CASES = 500


def job(log, spec):
    u = work.unit(log, spec)
    rng = log.rng('job', spec)
    cases = work.messages(log, u, spec, log.scale(25, 60), boundary=log.scale(60, None))
    ops = []
    for i, m, v in cases:
        ws = work.room(m, v)
        ops.append(rt.op_build(i, [glue.value_ops(m, v, rng)], ws=ws, ws2=ws, off=rng.randrange(8),
                               cap=len(wire.encode(m, v)) + rng.choice([0, 1, 40, 5000]),
                               poison=rng.choice([0, 0xff, 0xaa, 0x5a])))
    for (i, m, v), raw in zip(cases, u.execute(ops)):
        log.case((spec, m.full, repr(v)), {'message': m.full, 'value': repr(v)[:300]}
                 if values.count_set(m, v) in (2, 3, 4) else None)
        if work.crashed(log, u, m, raw, v=v):
            continue
        one(log, u, m, v, rt.Built(raw, 1))


def one(log, u, m, v, b):
    c = b.chunks[0]
    ctx = work.context(u, m, v, c.bytes)
    if not b.new or c.ops != 0:
        log.violation(f'{m.full}: building failed (new {b.new}, result {c.ops})', **ctx)
        return
    got = work.parse(log, u, m, c.dump, v=v)
    if got is None:
        return
    d = values.diff(m, got, v)
    if d:
        log.violation(f'{m.full}: built message reads back wrong: {d}', **ctx)
        return
    if c.enc < 0:
        log.violation(f'{m.full}: encode failed: {c.enc}', **ctx)
        return
    if c.dec != c.enc:
        log.violation(f'{m.full}: encode returned {c.enc}, decode of it {c.dec}', **ctx)
        return
    got = work.parse(log, u, m, c.dump2, v=v)
    if got is None:
        return
    d = values.diff(m, got, values.strip_nul(m, v))
    if d:
        log.violation(f'{m.full}: decoded message differs: {d}', **ctx)
        return
    if c.reenc != c.enc:
        log.violation(f'{m.full}: encoding the decoded message gave {c.reenc}, not {c.enc}', **ctx)
        return
    work.watch(log, u, m, b.mon, v=v)
    log.count('round trips')
    log.count('encoded bytes', c.enc)
    log.count('field values compared', values.count_set(m, v))


def main(run):
    run.rule = ('one case per built message; distinct by schema, message type and value; fields set, encoded, '
                'decoded and compared under gcc ASan+UBSan')
    run.assumptions = ['strings hold no NUL', 'workspaces suffice (small ones are in C07)']
    run.jobs(job, work.specs(run, run.scale(30, 220)) + work.sizes())
