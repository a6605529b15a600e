"""Defaults, and independence of what memory held before."""

import struct

from .. import glue, rt, values, wire, work
from .c04 import hostile

MIN_CASES = 2000
POISONS = [0, 0xff, 0x5a, 0x41, 0x80, 0x01]


def allocs(m, depth):
    """Operations that allocate every sub-message and list (without setting
    anything), and the message that must result."""
    v = values.empty(m)
    ops = []
    for f in m.fields:
        i = glue.field_index(m, f.name)
        if f.repeated:
            n = 3
            if f.is_msg and depth > 0:
                subs = [allocs(f.ref, depth - 1) for _ in range(n)]
                ops.append(glue.op(i, glue.ALLOCSET, struct.pack('<I', n) + b''.join(glue.ops_list(s[0]) for s in subs)))
                v[f.name] = [s[1] for s in subs]
            else:
                ops.append(glue.op(i, glue.ALLOC, struct.pack('<I', n)))
                v[f.name] = [values.empty(f.ref) if f.is_msg else values.scalar_default(f) for _ in range(n)]
        elif f.is_msg:
            sub, x = allocs(f.ref, depth - 1) if depth > 0 else ([], values.empty(f.ref))
            ops.append(glue.op(i, glue.ALLOC, glue.ops_list(sub)))
            v[f.name] = x
    return ops, v


def selects(m):
    """Every freshly selected oneof member."""
    for o in m.oneofs:
        for f in o.fields:
            i = glue.field_index(m, f.name)
            if f.is_msg:
                yield [glue.op(i, glue.ALLOC, glue.ops_list([]))], values.only(m, f.name, values.empty(f.ref))
            else:
                yield [glue.op(i, glue.SELECT)], values.only(m, f.name, values.scalar_default(f))


def plan(log, u, spec):
    """[(entry, message, expected value, operation)]"""
    rng = log.rng('plan', spec)
    out = []
    for i, m in enumerate(u.entries):
        todo = [([], values.empty(m))]
        for depth in range(3):
            todo.append(allocs(m, depth))
        todo += list(selects(m))
        for ops, v in todo:
            for p in rng.sample(POISONS, log.scale(3, 6)):
                out.append((i, m, v, rt.op_build(i, [glue.ops_list(ops)], ws=work.room(m, v), ws2=work.room(m, v),
                                                 cap=len(wire.encode(m, v)) + 64, poison=p, off=rng.randrange(8))))
    return out


def defaults(log, spec):
    spec, flavor = spec
    u = work.unit(log, spec)
    if flavor == 'm32' and not work.narrow(log, u):
        return
    cases = plan(log, u, spec)
    for (i, m, v, op), raw in zip(cases, u.execute([c[3] for c in cases], flavor)):
        log.case((m.full, op, flavor))
        if work.crashed(log, u, m, raw, v=v, flavor=flavor):
            continue
        b = rt.Built(raw, 1)
        c = b.chunks[0]
        if not b.new or c.ops != 0:
            log.violation(f'{m.full}: allocation failed', **work.context(u, m, v))
            continue
        got = work.parse(log, u, m, c.dump, v=v)
        if got is None:
            continue
        d = values.diff(m, got, v)
        if d:
            log.violation(f'{m.full}: not the default values: {d}', **work.context(u, m, v))
            continue
        if c.enc != len(wire.encode(m, v)):
            log.violation(f'{m.full}: default message encodes to {c.enc} bytes', **work.context(u, m, v, c.bytes))
        work.watch(log, u, m, b.mon, v=v)
        log.count('default contents compared')


def same(log, spec):
    """The same steps with different memory contents, under MSan and ASan."""
    spec, flavor = spec
    u = work.unit(log, spec)
    if flavor == 'm32' and not work.narrow(log, u):
        return
    rng = log.rng('same', spec)
    cases = []
    for i, m, v in work.messages(log, u, spec, log.scale(12, 40), boundary=log.scale(10, 60), big=False):
        if rng.random() < 0.4:
            cases.append((i, m, ('build', glue.value_ops(m, v, rng)), v))
        elif rng.random() < 0.5:
            cases.append((i, m, ('decode', wire.Alt(rng, wide=0).message(m, v)), v))
        else:
            cases.append((i, m, ('decode', hostile(rng, m)), None))
    ops, poisons = [], [0, 0xff, 0x5a] if flavor != 'msan' else [0x41]
    for i, m, (kind, data), v in cases:
        room = 1 << 15 if v is None else work.room(m, v) + 16 * len(data) + 4096
        if v is None and rng.random() < 0.3:
            room = rng.randrange(3000)
        cap = 2 * len(data) + 4096
        for p in poisons:
            if kind == 'build':
                ops.append(rt.op_build(i, [data], ws=room, ws2=room, cap=cap, poison=p))
            else:
                ops.append(rt.op_decode(i, data, ws=room, cap=cap, poison=p))
    res = u.execute(ops, flavor)
    k = 0
    for i, m, (kind, data), v in cases:
        rs = res[k:k + len(poisons)]
        k += len(poisons)
        log.case((m.full, kind, data, flavor), {'message': m.full, 'kind': kind, 'bytes': data.hex(), 'build': flavor}
                 if 4 < len(data) < 30 else None)
        bad = False
        for r in rs:
            bad = bad or work.crashed(log, u, m, r, v=v, data=data, kind=kind, flavor=flavor)
        if bad:
            continue
        if any(r != rs[0] for r in rs):
            log.violation(f'{m.full}: {kind} depends on what the workspace held before',
                          **work.context(u, m, v, data, kind=kind))
            continue
        if v is not None:
            if kind == 'build':
                b = rt.Built(rs[0], 1)
                dump, mon = b.chunks[0].dump, b.mon
            else:
                d = rt.Decoded(rs[0])
                dump, mon = d.dump, d.mon
            got = work.parse(log, u, m, dump, v=v)
            if got is None:
                continue
            d = values.diff(m, got, v)
            if d:
                log.violation(f'{m.full}: {kind}: content differs: {d}', **work.context(u, m, v, data, kind=kind))
            work.watch(log, u, m, mon, v=v, data=data)
        log.count(f'{kind} under {flavor}', len(poisons))


def run_any(log, spec):
    {'defaults': defaults, 'same': same}[spec[0]](log, spec[1])


def main(run):
    run.rule = ('one case per sequence of steps; default contents as the specification says, equal results for '
                'different memory contents, and no use of uninitialised memory under MSan')
    specs = work.specs(run, run.scale(14, 70))
    jobs = [('same', (s, 'msan')) for s in specs] + [('defaults', (s, 'gsan')) for s in specs]
    jobs += [('defaults', (s, 'm32')) for s in specs[::4]] + [('same', (s, 'm32')) for s in specs[1::4]]
    jobs += [('same', (s, 'gsan')) for s in specs] + [('defaults', (s, 'msan')) for s in specs[:run.scale(3, 30)]]
    run.jobs(run_any, jobs)
