"""Canonical encoding: bytes against a reference encoder written from the
specification and against libprotobuf."""

from .. import glue, pbref, rt, values, wire, work

MIN_CASES = 500


def job(log, spec):
    spec, exe = spec
    u = work.unit(log, spec)
    rng = log.rng('job', spec)
    cases = work.messages(log, u, spec, log.scale(25, 60), boundary=log.scale(80, None))
    ops = []
    for i, m, v in cases:
        ops.append(rt.op_build(i, [glue.value_ops(m, v, rng)], ws=work.room(m, v), ws2=0,
                               cap=len(wire.encode(m, v)) + 40))
    seen = []
    for (i, m, v), raw in zip(cases, u.execute(ops)):
        log.case((spec, m.full, repr(v)))
        if work.crashed(log, u, m, raw, v=v):
            continue
        b = rt.Built(raw, 1)
        c = b.chunks[0]
        if not b.new or c.ops != 0:
            log.violation(f'{m.full}: building failed ({c.ops})', **work.context(u, m, v))
            continue
        ref = wire.encode(m, v)
        if c.enc != len(ref):
            log.violation(f'{m.full}: encoded to {c.enc} bytes, expected {len(ref)}',
                          **work.context(u, m, v, c.bytes, expected=ref.hex()[:4000]))
            continue
        try:
            same = c.bytes == ref or wire.normalize(m, c.bytes) == wire.normalize(m, ref)
        except (wire.Malformed, wire.Ambiguous):
            same = False
        if not same:
            log.violation(f'{m.full}: not the canonical encoding',
                          **work.context(u, m, v, c.bytes, expected=ref.hex()[:4000]))
            continue
        seen.append((m, v, c.bytes, ref))
        log.count('encodings equal to the reference')
        log.count('encoded bytes', c.enc)
        log.count('records', len(wire.split_records(c.bytes)))
        if 4 < c.enc < 30:
            log.sample({'message': m.full, 'value': repr(v)[:200], 'bytes': c.bytes.hex()})
    if exe is None:
        return
    for (m, v, data, ref), a in zip(seen, pbref.run(log, exe, u.files, [(m, d) for m, _, d, _ in seen])):
        ctx = work.context(u, m, v, data)
        if not a.ok:
            log.violation(f'{m.full}: libprotobuf cannot decode the encoding', **ctx)
            continue
        if a.unknown:
            log.violation(f'{m.full}: libprotobuf finds {a.unknown} unknown fields', **ctx)
            continue
        d = values.diff(m, glue.parse_dump(m, a.dump), v)
        if d:
            log.violation(f'{m.full}: libprotobuf decodes other content: {d}', **ctx)
            continue
        if wire.normalize(m, a.data) != wire.normalize(m, data):
            log.violation(f'{m.full}: libprotobuf encodes the message differently',
                          **dict(ctx, libprotobuf=a.data.hex()[:4000]))
            continue
        log.count('encodings confirmed by libprotobuf')


def main(run):
    run.rule = ('one case per built message; distinct by schema, message type and value; bytes equal to the '
                'reference encoding up to the order of different fields, and content equal in libprotobuf')
    run.assumptions = ['fields may be written in any order', 'map entries are compared as repeated entry messages']
    exe = pbref.compile_tool(run) if pbref.available() else None
    if exe is None:
        run.assumptions.append('libprotobuf not installed: reference encoder only')
    run.jobs(job, [(s, exe) for s in work.specs(run, run.scale(26, 200)) + work.sizes()])
