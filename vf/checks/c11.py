"""Random edit histories against a model of the last-set values."""

import copy
import struct

from .. import glue, rt, values, wire, work

MIN_CASES = 1000


class Editor:
    def __init__(self, rng, log):
        self.rng, self.log = rng, log
        self.vg = values.ValueGen(rng, big=False)
        self.trace = []

    def small(self, msg, depth):
        return values.gen(self.rng, msg, depth=2 if depth < 2 else 1, budget=8, big=False)

    def steps(self, msg, v, n, depth, path):
        """n random steps on v (changed in place), as an operation list."""
        ops = []
        for _ in range(n):
            o = self.step(msg, v, depth, path)
            if o is not None:
                ops.append(o)
        return glue.ops_list(ops)

    def note(self, path, what):
        self.trace.append(f'{path}: {what}')
        self.log.count('step ' + what.split(' ')[0])

    def step(self, msg, v, depth, path):
        r = self.rng
        choices = msg.all_fields() + msg.oneofs
        if not choices:
            return None
        f = r.choice(choices)
        i = glue.field_index(msg, f.name)
        p = f'{path}.{f.name}'
        if f in msg.oneofs:
            v[f.name] = None
            self.note(p, 'none')
            return glue.op(i, glue.CLEAR)
        if f.repeated:
            return self.repeated(f, i, v, depth, p)
        if f.is_msg:
            return self.message(msg, f, i, v, depth, p)
        x = self.vg.scalar(f)
        if f.oneof is not None:
            cur = v[f.oneof.name]
            k = r.random()
            if k < 0.25:
                v[f.oneof.name] = (f.name, values.scalar_default(f))
                self.note(p, 'select')
                return glue.op(i, glue.SELECT)
            if cur is not None and cur[0] == f.name and k < 0.6:
                v[f.oneof.name] = (f.name, x)
                self.note(p, f'assign-selected {x!r}')
                return glue.op(i, glue.TOUCH, glue.put_scalar(f, x, r.randrange(2)))
            v[f.oneof.name] = (f.name, x)
            self.note(p, f'select-set {x!r}')
            return glue.op(i, glue.SET, glue.put_scalar(f, x, r.randrange(2)))
        if f.label == 'optional':
            if r.random() < 0.3:
                v[f.name] = None
                self.note(p, 'clear-optional')
                return glue.op(i, glue.CLEAR)
            if r.random() < 0.3:
                x = values.scalar_default(f)
            v[f.name] = x
            self.note(p, f'set-optional {x!r}')
            return glue.op(i, glue.SET, glue.put_scalar(f, x, r.randrange(2)))
        if r.random() < 0.25:
            x = values.scalar_default(f)
        v[f.name] = x
        self.note(p, f'set {x!r}')
        return glue.op(i, glue.SET, glue.put_scalar(f, x, r.randrange(2)))

    def repeated(self, f, i, v, depth, p):
        r = self.rng
        cur = v[f.name]
        if cur and r.random() < 0.5:
            k = r.randrange(len(cur))
            if f.is_msg:
                if depth >= 3:
                    return None
                self.note(p, f'edit-item {k}')
                return glue.op(i, glue.EDITITEM, struct.pack('<I', k)
                               + self.steps(f.ref, cur[k], r.randrange(1, 4), depth + 1, f'{p}[{k}]'))
            cur[k] = self.vg.scalar(f)
            self.note(p, f'set-item {k} {cur[k]!r}')
            return glue.op(i, glue.SETITEM, struct.pack('<I', k) + glue.put_scalar(f, cur[k], r.randrange(2)))
        n = r.choice([0, 1, 1, 2, 3, 5, 17])
        if r.random() < 0.4:
            v[f.name] = [values.empty(f.ref) if f.is_msg else values.scalar_default(f) for _ in range(n)]
            self.note(p, f'alloc {n}')
            return glue.op(i, glue.ALLOC, struct.pack('<I', n))
        if f.is_msg:
            if depth >= 3:
                return None
            n = min(n, 4)
            xs = [self.small(f.ref, depth) for _ in range(n)]
            body = b''.join(glue.value_ops(f.ref, x, r) for x in xs)
        else:
            xs = [self.vg.scalar(f) for _ in range(n)]
            body = b''.join(glue.put_scalar(f, x, r.randrange(2)) for x in xs)
        v[f.name] = xs
        self.note(p, f'alloc-set {n}')
        return glue.op(i, glue.ALLOCSET, struct.pack('<I', n) + body)

    def message(self, msg, f, i, v, depth, p):
        r = self.rng
        if f.oneof is not None:
            cur = v[f.oneof.name]
            cur = cur[1] if cur is not None and cur[0] == f.name else None
        else:
            cur = v[f.name]
        if cur is not None and r.random() < 0.6:
            if depth >= 4:
                return None
            self.note(p, 'edit')
            return glue.op(i, glue.EDIT, self.steps(f.ref, cur, r.randrange(1, 5), depth + 1, p))
        if f.oneof is None and r.random() < 0.25:
            v[f.name] = None
            self.note(p, 'drop')
            return glue.op(i, glue.CLEAR)
        x = values.empty(f.ref)
        self.note(p, 'alloc-message')
        body = self.steps(f.ref, x, r.randrange(0, 4) if depth < 4 else 0, depth + 1, p)
        if f.oneof is not None:
            v[f.oneof.name] = (f.name, x)
        else:
            v[f.name] = x
        return glue.op(i, glue.ALLOC, body)


def job(log, spec):
    u = work.unit(log, spec)
    rng = log.rng('job', spec)
    plans, ops = [], []
    for i, m in enumerate(u.entries):
        if not m.all_fields():
            continue
        for k in range(log.scale(14, 60)):
            ed = Editor(rng, log)
            v = values.empty(m)
            data = None
            if k % 3 == 1:
                v = values.gen(rng, m, depth=3, budget=40, big=False)
                data = wire.Alt(rng).message(m, v)
            if k % 3 == 2:
                v = values.gen(rng, m, depth=2, budget=20, big=False)
                data = wire.encode(m, v)
            chunks, states = [], []
            for c in range(log.scale(8, 16)):
                chunks.append(ed.steps(m, v, rng.randrange(1, 5), 0, ''))
                states.append((copy.deepcopy(v), len(ed.trace)))
            room = 1 << 18
            plans.append((i, m, data, states, ed.trace))
            ops.append(rt.op_build(i, chunks, ws=room, ws2=room, cap=1 << 17, off=rng.randrange(8),
                                   poison=rng.choice([0, 0xff, 0x5a]), data=data))
    for (i, m, data, states, trace), raw in zip(plans, u.execute(ops)):
        log.case((m.full, repr(trace)), {'message': m.full, 'decoded first': data and data.hex(), 'steps': trace[:12]}
                 if len(trace) < 14 else None)
        if work.crashed(log, u, m, raw, data=data, steps=trace):
            continue
        b = rt.Built(raw, len(states))
        if not b.new or (data is not None and b.rc != len(data)):
            log.violation(f'{m.full}: the first decode gave {b.rc}', **work.context(u, m, data=data))
            continue
        for c, (v, done) in zip(b.chunks, states):
            steps = trace[:done]
            ctx = work.context(u, m, v, data, steps=steps)
            if c.ops != 0:
                log.violation(f'{m.full}: step failed with {c.ops}', **ctx)
                break
            got = work.parse(log, u, m, c.dump, v=v, steps=steps)
            if got is None:
                break
            d = values.diff(m, got, v)
            if d:
                log.violation(f'{m.full}: after {done} steps: {d}', **ctx)
                break
            ref = wire.encode(m, v)
            try:
                same = len(ref) == c.enc and (ref == c.bytes or wire.normalize(m, ref) == wire.normalize(m, c.bytes))
            except (wire.Malformed, wire.Ambiguous):
                same = False
            if not same:
                log.violation(f'{m.full}: after {done} steps the encoding does not hold the last-set values', **ctx)
                break
            if c.dec != c.enc:
                log.violation(f'{m.full}: after {done} steps the encoding does not decode: {c.dec}', **ctx)
                break
            log.count('states compared')
        work.watch(log, u, m, b.mon, data=data, steps=trace)


def main(run):
    run.rule = ('one case per edit history; distinct by message type and steps; content, encoding and decoded encoding '
                'compared with the model after every few steps')
    run.assumptions = ['workspaces suffice', 'members of a oneof are assigned only while selected']
    run.jobs(job, work.specs(run, run.scale(44, 200)))
