"""Purity of encoding, ownership of decoded data."""

from .. import glue, rt, values, wire, work
from .c04 import hostile

MIN_CASES = 2000


def equal(log, spec):
    """Equal messages, made in different ways in different places, encode
    to the same bytes."""
    u = work.unit(log, spec)
    rng = log.rng('equal', spec)
    cases, ops = [], []
    for i, m, v in work.messages(log, u, spec, log.scale(14, 50), boundary=log.scale(12, 80), big=False):
        n = len(wire.encode(m, v))
        ways = []
        for k in range(log.scale(3, 6)):
            room = work.room(m, v) + rng.choice([0, 1, 7, 1000, 30000])
            o = dict(ws=room, cap=n + rng.choice([0, 1, 50, 3000]), off=rng.randrange(16),
                     poison=rng.choice([0, 0xff, 0x5a]))
            if k % 3 == 2:
                alt = wire.Alt(rng, wide=0.2)
                data = alt.message(m, v)
                o['ws'] += 16 * len(data) + 4096
                o['cap'] += 40 * 12
                ways.append('decoded')
                ops.append(rt.op_decode(i, data, **o))
            elif k % 3 == 1:
                # Set another value first, then this one.
                w = values.gen(rng, m, depth=2, budget=20, big=False)
                o['ws'] += work.room(m, w)
                ways.append('edited')
                ops.append(rt.op_build(i, [undo(rng, m, w, v)], ws2=0, **o))
            else:
                ways.append('built')
                ops.append(rt.op_build(i, [glue.value_ops(m, v, rng)], ws2=0, **o))
        cases.append((i, m, v, ways))
    res = u.execute(ops)
    k = 0
    for i, m, v, ways in cases:
        encs = []
        for way in ways:
            raw = res[k]
            k += 1
            if work.crashed(log, u, m, raw, v=v, way=way):
                continue
            if way == 'decoded':
                r = rt.Decoded(raw)
                enc, data, mon = r.enc, r.bytes, r.mon
            else:
                b = rt.Built(raw, 1)
                enc, data, mon = b.chunks[0].enc, b.chunks[0].bytes, b.mon
            log.case((m.full, way, k), {'message': m.full, 'made by': ways, 'encoding': data.hex()}
                     if 3 < enc < 25 else None)
            log.count('messages ' + way)
            work.watch(log, u, m, mon, v=v, way=way)
            encs.append((way, enc, data))
        for way, enc, data in encs[1:]:
            if (enc, data) != encs[0][1:]:
                log.violation(f'{m.full}: equal messages encode differently ({encs[0][0]} and {way}): '
                              f'{encs[0][1]} and {enc} bytes', **work.context(u, m, v, data, other=encs[0][2].hex()))
                break
        else:
            log.count('groups of equal messages', 1)


def undo(rng, m, w, v):
    """Operations that set w and then change everything to v."""
    import struct
    a = glue.value_ops(m, w, rng)
    ops = []
    for f in m.fields:
        i = glue.field_index(m, f.name)
        if f.repeated:
            ops.append(glue.op(i, glue.ALLOC, struct.pack('<I', 0)))
        elif f.is_msg or f.label == 'optional':
            ops.append(glue.op(i, glue.CLEAR))
    for o in m.oneofs:
        ops.append(glue.op(glue.field_index(m, o.name), glue.CLEAR))
    b = glue.value_ops(m, v, rng)
    na, nb = struct.unpack('<H', a[:2])[0], struct.unpack('<H', b[:2])[0]
    return struct.pack('<H', na + len(ops) + nb) + a[2:] + b''.join(ops) + b[2:]


def turns(log, spec):
    u = work.unit(log, spec)
    rng = log.rng('turns', spec)
    ops, metas = [], []
    for k in range(log.scale(25, 150)):
        jobs = []
        for _ in range(rng.randrange(2, 7)):
            i = rng.randrange(len(u.entries))
            m = u.entries[i]
            data = (hostile(rng, m) if rng.random() < 0.25
                    else wire.Alt(rng).message(m, values.gen(rng, m, depth=3, budget=40, big=False)))
            jobs.append((i, data[:4000]))
        ops.append(rt.op_turns(jobs, log.scale(60, 200), rng.getrandbits(30), 1 << 16, 1 << 16))
        metas.append(jobs)
    for jobs, raw in zip(metas, u.execute(ops)):
        m = u.entries[jobs[0][0]]
        log.case(('turns', repr(jobs)))
        if work.crashed(log, u, m, raw, jobs=[(u.entries[i].full, d.hex()) for i, d in jobs]):
            continue
        r = rt.R(raw)
        mon, done = r.u32(), r.u32()
        log.count('interleaved steps', done)
        log.count('interleaved messages', len(jobs))
        if mon:
            log.violation(f'messages used in turns: {rt.mon_text(mon)}',
                          **work.context(u, m, jobs=[(u.entries[i].full, d.hex()) for i, d in jobs]))


def owned(log, spec):
    """Results of decoding depend on the bytes only: position of the input,
    of the workspace and what they held before differ."""
    u = work.unit(log, spec)
    rng = log.rng('owned', spec)
    cases, ops = [], []
    for i, m in enumerate(u.entries):
        for _ in range(log.scale(40, 150)):
            data = hostile(rng, m)
            cases.append((i, m, data))
            room = 1 << 16
            for p in range(3):
                ops.append(rt.op_decode(i, data, ws=room, cap=len(data) * 3 + 4096, off=rng.randrange(16),
                                        poison=rng.choice([0, 0xff, 0x5a])))
    res = u.execute(ops)
    for k, (i, m, data) in enumerate(cases):
        rs = res[3 * k:3 * k + 3]
        log.case((m.full, data))
        if any([work.crashed(log, u, m, r, data=data) for r in rs]):
            continue
        if any(r != rs[0] for r in rs):
            log.violation(f'{m.full}: decoding the same bytes gives different results', **work.context(u, m, data=data))
        r = rt.Decoded(rs[0])
        log.count('decoded and input destroyed' if r.rc >= 0 else 'rejected')
        work.watch(log, u, m, r.mon, data=data)


def run_any(log, spec):
    globals()[spec[0]](log, spec[1])


def main(run):
    run.rule = ('one case per message or set of messages; encodings equal across ways of making equal messages, '
                'buffers, places and neighbours; message, workspace and input unchanged')
    specs = work.specs(run, run.scale(18, 80))
    run.jobs(run_any, [(k, s) for s in specs for k in ('equal', 'turns', 'owned')])
