"""Schema evolution: real writers of one version, real readers of another."""

import copy

from .. import glue, rt, values, wire, work
from ..schema import INT_TYPES, SCALARS, Enum, Field, Message, Oneof, adopt

MIN_CASES = 1000
FAMILIES = [['int32', 'int64', 'uint32', 'uint64', 'bool'], ['sint32', 'sint64'], ['fixed32', 'sfixed32'],
            ['fixed64', 'sfixed64'], ['string', 'bytes']]
KEYS = ['int32', 'int64', 'uint32', 'uint64', 'bool']


class Evolve:
    def __init__(self, rng, log, numeric_lists):
        self.rng, self.log, self.n = rng, log, 0
        # Numeric fields may become lists. Only the new version reads both.
        self.numeric_lists = numeric_lists
        self.changes = []

    def note(self, m, what):
        self.changes.append(f'{m.full}: {what}')
        self.log.count('change: ' + what.split(' ')[0])

    def files(self, files):
        files = copy.deepcopy(files)
        enums = [e for fi in files for e in fi.all_enums()]
        for fi in files:
            for m in fi.all_messages():
                if not m.map_entry:
                    self.message(m, enums)
        for e in enums:
            self.enum(e)
        for fi in files:
            adopt(fi)
        return files

    def enum(self, e):
        r = self.rng
        if len(e.values) > 1 and r.random() < 0.3:
            gone = e.values.pop(r.randrange(1, len(e.values)))
            self.note(e, f'enum-value-removed {gone}')
        if r.random() < 0.5:
            self.n += 1
            used = {v for _, v in e.values}
            v = next(x for x in [r.randrange(-2**31, 2**31) for _ in range(20)] if x not in used)
            e.values.append((f'EXTRA{self.n}', v))
            self.note(e, f'enum-value-added {v}')

    def retype(self, m, f):
        r = self.rng
        if f.type == 'enum':
            f.type, f.ref, f.text = r.choice(INT_TYPES), None, None
            self.note(m, f'enum-to-{f.type} {f.name}')
            return
        for fam in FAMILIES:
            if f.type in fam:
                old = f.type
                f.type = r.choice([t for t in fam if t != f.type])
                self.note(m, f'{old}-to-{f.type} {f.name}')

    def field(self, m, f, single):
        """Changes one field; false if it is dropped."""
        r = self.rng
        k = r.random()
        if k < 0.15:
            self.note(m, f'dropped {f.name}')
            return False
        if k < 0.35 and not f.is_msg:
            self.retype(m, f)
        if r.random() < 0.15:
            self.n += 1
            f.name = f'{f.name}_v{self.n}'
            self.note(m, f'renamed {f.name}')
        if single and not f.is_msg:
            k = r.random()
            if f.label == '' and k < 0.2:
                f.label = 'optional'
                self.note(m, f'made-optional {f.name}')
            elif f.label == '' and k < 0.4 and (self.numeric_lists or f.type in ('string', 'bytes')):
                f.label = 'repeated'
                self.note(m, f'made-repeated {f.name}')
            elif f.label == 'optional' and k < 0.4:
                f.label = ''
                self.note(m, f'not-optional {f.name}')
            elif f.label == 'repeated' and f.type in ('string', 'bytes') and k < 0.4:
                f.label = ''
                self.note(m, f'made-singular {f.name}')
        return True

    def message(self, m, enums):
        r = self.rng
        used = {f.number for f in m.all_fields()}
        items, gone = [], []
        for x in m.items:
            if isinstance(x, Field) and x.is_map:
                if r.random() < 0.15:
                    self.note(m, f'map-dropped {x.name}')
                    gone.append(x.ref)
                    continue
                key, val = x.ref.field('key'), x.ref.field('value')
                if key.type in KEYS and r.random() < 0.2:
                    key.type = x.key = r.choice(KEYS)
                    self.note(m, f'map-key-type {x.name}')
                if not val.is_msg and r.random() < 0.2:
                    self.retype(m, val)
                items.append(x)
            elif isinstance(x, Field):
                if self.field(m, x, True):
                    if x.label == '' and r.random() < 0.08:
                        self.n += 1
                        o = Oneof(f'moved{self.n}', [x])
                        x.oneof = o
                        items.append(o)
                        self.note(m, f'moved-into-oneof {x.name}')
                    else:
                        items.append(x)
            elif isinstance(x, Oneof):
                x.fields = [f for f in x.fields if self.field(m, f, False)]
                if r.random() < 0.4 or not x.fields:
                    x.fields.insert(r.randrange(len(x.fields) + 1), self.new_field(m, used, x))
                    self.note(m, f'oneof-member-added {x.name}')
                if r.random() < 0.5:
                    r.shuffle(x.fields)
                items.append(x)
            else:
                items.append(x)
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            items.append(self.new_field(m, used, None))
            self.note(m, 'added a field')
        if r.random() < 0.6:
            r.shuffle(items)
            self.note(m, 'reordered')
        m.items = [x for x in items if x not in gone]

    def new_field(self, m, used, oneof):
        r = self.rng
        self.n += 1
        while True:
            num = r.choice([r.randrange(1, 30), r.randrange(1, 3000), r.randrange(20000, 1 << 29)])
            # Near misses of existing numbers.
            if used and r.random() < 0.3:
                num = r.choice(list(used)) ^ (1 << r.randrange(29))
            if 0 < num < 1 << 29 and num not in used and not 19000 <= num <= 19999:
                used.add(num)
                break
        label = '' if oneof is not None else r.choice(['', 'optional', 'repeated'])
        return Field(f'extra{self.n}', num, r.choice(list(SCALARS)), label, oneof=oneof)


def job(log, spec):
    spec, numeric_lists = spec
    rng = log.rng('job', spec, numeric_lists)
    old_files = work.files_of(spec)
    ev = Evolve(rng, log, numeric_lists)
    new_files = ev.files(old_files)
    old = rt.Unit(log, old_files, 'old').generate()
    new = rt.Unit(log, new_files, 'new').generate()
    log.count('schema pairs')
    if spec[-1] == 'm32' and work.narrow(log, old):
        # The old version runs on a 32-bit target.
        old.main = 'm32'
        log.count('schemas for a 32-bit target')
    ways = [(old, new, 'old writer, new reader')]
    if not numeric_lists:
        ways.append((new, old, 'new writer, old reader'))
    for writer, reader, way in ways:
        exchange(log, rng, spec, writer, reader, way, ev)


def exchange(log, rng, spec, writer, reader, way, ev):
    cases, ops = [], []
    for i, m in enumerate(writer.entries):
        j = reader.entry(m.name)
        vg = values.ValueGen(rng)
        vs = values.boundary(m, vg)
        vs = rng.sample(vs, min(len(vs), log.scale(40, 150)))
        vs += [values.gen(rng, m, density=0.9) for _ in range(log.scale(20, 60))]
        for v in vs:
            cases.append((i, j, m, reader.entries[j], v))
            ops.append(rt.op_build(i, [glue.value_ops(m, v, rng)], ws=work.room(m, v), ws2=0,
                                   cap=len(wire.encode(m, v)) + 64))
    inputs = []
    for (i, j, m, rm, v), raw in zip(cases, writer.execute(ops)):
        if work.crashed(log, writer, m, raw, v=v):
            continue
        b = rt.Built(raw, 1)
        if b.chunks[0].enc < 0:
            log.violation(f'{m.full}: encode failed: {b.chunks[0].enc}', **work.context(writer, m, v))
            continue
        inputs.append((j, m, rm, v, b.chunks[0].bytes, 'generated writer'))
        if rng.random() < 0.4:
            inputs.append((j, m, rm, v, wire.Alt(rng, unknown=0).message(m, v), 'other writer'))
    todo, ops = [], []
    for j, m, rm, v, data, kind in inputs:
        try:
            want = values.strip_nul(rm, wire.decode(rm, data))
        except wire.Ambiguous:
            log.count('exchanges without a unique reading')
            continue
        except wire.Malformed as e:
            # An unknown field of the other version cannot make the input
            # malformed, so this is a mistake in the encoding.
            log.violation(f'{m.full}: the encoding is malformed for the reader ({e})',
                          **work.context(writer, m, v, data, changes=ev.changes))
            continue
        todo.append((j, m, rm, v, data, kind, want))
        ops.append(rt.op_decode(j, data, ws=2 * work.room(rm, want) + 20 * len(data) + 4096,
                                cap=len(wire.encode(rm, want)) + 64))
    for (j, m, rm, v, data, kind, want), raw in zip(todo, reader.execute(ops)):
        log.case((spec, way, m.full, data), {'message': m.full, 'way': way, 'bytes': data.hex(), 'read': repr(want)[:200]}
                 if 4 < len(data) < 25 else None)
        if work.crashed(log, reader, rm, raw, v=v, data=data):
            continue
        r = rt.Decoded(raw)
        ctx = work.context(reader, rm, v, data, way=way, changes=ev.changes,
                           writer={fi.name: fi.proto() for fi in writer.files})
        if r.rc != len(data):
            log.violation(f'{m.full}: {way}: decode of {len(data)} bytes gave {r.rc}', **ctx)
            continue
        got = work.parse(log, reader, rm, r.dump, data=data)
        if got is None:
            continue
        d = values.diff(rm, got, want)
        if d:
            log.violation(f'{m.full}: {way}: {d}', **ctx)
            continue
        work.watch(log, reader, rm, r.mon, v=v, data=data)
        log.count(f'exchanges, {way}')


def main(run):
    run.rule = ('one case per encoding read by the other version; distinct by schema pair, direction, type and bytes; '
                'content equal to what the reference decoder of the reader schema reads')
    run.assumptions = ['a repeated numeric field is not made singular (packed data is rejected there)',
                       'field numbers are not reused']
    specs = work.specs(run, run.scale(18, 120))
    run.jobs(job, [(s, k % 3 == 2 or k == 0) for k, s in enumerate(specs)] + [(s, False) for s in specs[:1]])
