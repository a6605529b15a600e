"""G15: the compilers report what the generated headers declare. A probe
compiled against each header asserts every documented name, type and value;
clang's AST shows that nothing else was declared; every field is then set alone
in a running program to observe the number under which it is written and read."""

import json
import os
import shutil

from .. import glue, proto, rt, shapes, values, wire
from ..common import BuildError, REPO, pbtools, sh
from ..schema import Message, print_file, snake
from ..values import ValueGen

MIN_CASES = 60
INCLUDE = ['-I', os.path.join(REPO, 'lib/include')]


def single_type(f):
    """C type of one value of a field."""
    if f.type == 'message':
        return f'struct {f.ref.c}_t *'
    if f.type == 'enum':
        return f'enum {f.ref.c}_e'
    if f.type == 'string':
        return 'char *'
    if f.type == 'bytes':
        return 'struct pbtools_bytes_t'
    return glue.CTYPES[f.type]


def pointer(f):
    return '_p' if f.type in ('message', 'string') else ''


class Probe:
    def __init__(self, files, upper):
        self.files, self.upper = files, upper
        self.asserts = 0
        self.lines = []
        self.body = []
        self.functions = set()
        self.members = {}        # struct tag -> member names (sub-members of optionals too)
        self.enums = {}          # enum tag -> {enumerator: value}
        for fi in files:
            for e in fi.all_enums():
                self.enum(e)
            for m in fi.all_messages():
                if m.map_entry:
                    continue
                self.message(m)
                if m.parent is None:
                    self.entry(m)

    def has_type(self, expr, ctype, what):
        self.asserts += 1
        self.lines.append(f'_Static_assert(__builtin_types_compatible_p(__typeof__({expr}), {ctype}), "{what}");')

    def equal(self, a, b, what):
        self.asserts += 1
        self.lines.append(f'_Static_assert(({a}) == ({b}), "{what}");')

    def function(self, name, result, *args):
        self.functions.add(name)
        self.asserts += 1
        n = len(self.body)
        self.body.append(f'    {result} (*volatile f{n})({", ".join(args)}) = {name}; failed += (f{n} == NULL);')

    def enum(self, e):
        ns = snake('.'.join(e.scope))
        values = {}
        for name, value in e.values:
            c = f'{ns}_{snake(name)}_e'
            c = c.upper() if self.upper else c
            values[c] = value
            self.equal(c, f'{value}LL' if value > -2147483648 else '-2147483647LL - 1', f'{e.full}.{name}')
        self.enums[e.c + '_e'] = values
        self.equal(f'sizeof(enum {e.c}_e)', 4, f'{e.full} is an int')

    def single(self, f, expr, what):
        self.has_type(expr + pointer(f), single_type(f), what)

    def entry(self, m):
        s = f'struct {m.c}_t *'
        self.function(f'{m.c}_new', s, 'void *', 'size_t')
        self.function(f'{m.c}_encode', 'int', s, 'uint8_t *', 'size_t')
        self.function(f'{m.c}_decode', 'int', s, 'const uint8_t *', 'size_t')

    def message(self, m):
        s = f'((struct {m.c}_t *)0)->'
        me = f'struct {m.c}_t *'
        members = ['base']
        self.has_type(s + 'base', 'struct pbtools_message_base_t', m.full)
        for f in m.fields:
            x = f'{s}{f.c}'
            what = f'{m.full}.{f.name}'
            if f.repeated:
                members.append(f.c)
                self.has_type(f'{x}.length', 'int', what)
                if f.is_map:
                    item = f'{x}.items_p[0]'
                    self.single(f.ref.field('key'), f'{item}.key', what + ' key')
                    self.single(f.ref.field('value'), f'{item}.value', what + ' value')
                    if f.ref.field('value').is_msg:
                        self.function(f'{m.c}_{glue.m_snake(f.ref)}_value_alloc', 'int',
                                      f'__typeof__({x}.items_p)')
                elif f.type == 'string':
                    self.has_type(f'{x}.items_pp', 'char **', what)
                elif f.type == 'message':
                    self.has_type(f'{x}.items_p', f'struct {f.ref.c}_t *', what)
                elif f.type == 'enum':
                    # Documented nowhere; lists of enums are lists of their values.
                    self.equal(f'sizeof({x}.items_p[0])', 4, what)
                    self.equal(f'(__typeof__({x}.items_p[0]))-1 < 1', 1, what)
                else:
                    self.has_type(f'{x}.items_p', single_type(f) + ' *', what)
                self.function(f'{m.c}_{f.c}_alloc', 'int', me, 'int')
            elif f.label == 'optional':
                members.append(f.c)
                self.has_type(f'{x}.is_present', 'bool', what)
                self.single(f, f'{x}.value', what)
            else:
                members.append(f.c + pointer(f))
                self.single(f, x, what)
                if f.type == 'message':
                    self.function(f'{m.c}_{f.c}_alloc', 'int', me)
        for o in m.oneofs:
            tag = f'{m.c}_{o.c}'
            members.append(o.c)
            self.has_type(s + o.c, f'enum {tag}_e', f'{m.full}.{o.name}')
            choices = {f'{tag}_none_e': 0}
            for n, f in enumerate(o.fields, 1):
                what = f'{m.full}.{f.name}'
                choices[f'{tag}_{f.c}_e'] = n
                members.append(f.c + pointer(f))
                self.single(f, f'{s}{f.c}', what)
                if f.type == 'message':
                    self.function(f'{m.c}_{f.c}_alloc', 'int', me)
                else:
                    self.function(f'{m.c}_{f.c}_init', 'void', me)
            for c, n in choices.items():
                self.equal(c, n, c)
            self.enums[tag + '_e'] = choices
            if len(o.fields) > 1:
                # One of them at a time.
                a, b = o.fields[0], o.fields[-1]
                self.equal(f'__builtin_offsetof(struct {m.c}_t, {a.c}{pointer(a)})',
                           f'__builtin_offsetof(struct {m.c}_t, {b.c}{pointer(b)})', f'{m.full}.{o.name} is a union')
        self.members[f'{m.c}_t'] = sorted(members)

    def source(self):
        out = [f'#include "{fi.c_name}.h"' for fi in self.files]
        return '\n'.join(out + self.lines + ['int main(void)', '{', '    int failed = 0;'] + self.body
                         + ['    return failed;', '}', ''])


def walk_record(r):
    """Member names of a record, those of anonymous records included."""
    out = []
    inner = r.get('inner', [])
    for i, x in enumerate(inner):
        if x['kind'] == 'FieldDecl' and 'name' in x:
            out.append(x['name'])
        elif x['kind'] == 'RecordDecl' and x.get('completeDefinition') and 'name' not in x:
            # Followed by the field that has it as type: named or not.
            nxt = [y for y in inner[i + 1:] if y['kind'] == 'FieldDecl'][:1]
            if nxt and 'name' not in nxt[0]:
                out += walk_record(x)
    return out


def find_value(x):
    if 'value' in x:
        return int(x['value'])
    for y in x.get('inner', []):
        v = find_value(y)
        if v is not None:
            return v
    return None


def declared(log, gen, files, d):
    """What clang sees: structs, enums and functions of the headers."""
    src = os.path.join(d, 'ast.c')
    base = os.path.join(d, 'base.c')
    with open(base, 'w') as f:
        f.write('#include "pbtools.h"\n')
    with open(src, 'w') as f:
        f.write(''.join(f'#include "{fi.c_name}.h"\n' for fi in files))

    def read(path):
        r = sh(['clang', '-std=c11', *INCLUDE, '-I', gen, '-fsyntax-only', '-Xclang', '-ast-dump=json', path])
        if r.rc != 0:
            raise BuildError(f'header does not compile: {r.err[:500]}')
        return json.loads(r.out)['inner']
    known = {(x['kind'], x.get('name'), x.get('tagUsed')) for x in read(base)}
    structs, enums, functions = {}, {}, set()
    for x in read(src):
        if (x['kind'], x.get('name'), x.get('tagUsed')) in known:
            continue
        if x['kind'] == 'RecordDecl' and x.get('completeDefinition'):
            structs[x.get('name')] = walk_record(x)
        elif x['kind'] == 'EnumDecl':
            n = -1
            enums[x.get('name')] = e = {}
            for y in x.get('inner', []):
                if y['kind'] == 'EnumConstantDecl':
                    v = find_value(y)
                    n = n + 1 if v is None else v
                    e[y['name']] = n
        elif x['kind'] == 'FunctionDecl':
            functions.add(x['name'])
    return structs, enums, functions


def paths(entries):
    """How each message is reached from an entry: entry index and fields."""
    out = {}
    todo = []
    for i, m in enumerate(entries):
        out[m] = (i, [])
        todo.append(m)
    while todo:
        m = todo.pop(0)
        for f in m.all_fields():
            if f.is_msg and f.ref not in out:
                out[f.ref] = (out[m][0], out[m][1] + [(m, f)])
                todo.append(f.ref)
    return out


def numbers(log, files, details, limit, rng, tool_args):
    """Every field set alone: the number on the wire, and read back."""
    u = rt.Unit(log, files).generate()
    cases = []
    reach = paths(u.entries)
    vg = ValueGen(rng)
    for m, (i, path) in reach.items():
        for f in m.all_fields():
            x = vg.message(f.ref, 4) if f.is_msg else 1
            if f.is_msg:
                x = values.empty(f.ref)
            elif f.type == 'enum':
                x = [v for _, v in f.ref.values if v] or [3]
                x = rng.choice(x)
            elif f.type in ('string', 'bytes'):
                x = rng.choice([b'a', b'number', b'x' * 130])
            elif f.type == 'float':
                x = 0x3f800000
            elif f.type == 'double':
                x = 0x3ff0000000000000
            elif f.type != 'bool':
                x = values.wrap(f.type, rng.choice([1, 77, -5, -1, 1 << 31, 1 << 40 | 9]))
                x = x or 1
            v = values.only(m, f.name, [x, x] if f.repeated else x)
            for owner, g in reversed(path):
                v = values.only(owner, g.name, [v] if g.repeated else v)
            cases.append((i, m, f, v))
    if len(cases) > limit:
        cases = rng.sample(cases, limit)
    ops = []
    for i, m, f, v in cases:
        e = u.entries[i]
        ops.append(rt.op_build(i, [glue.value_ops(e, v, rng)], ws=2 * values.need(e, v) + 1024, ws2=0, cap=8192))
        ops.append(rt.op_decode(i, wire.encode(e, v), ws=2 * values.need(e, v) + 1024, cap=0))
    res = u.execute(ops, 'gcc-O0')
    for k, (i, m, f, v) in enumerate(cases):
        e = u.entries[i]
        ctx = dict(details, message=m.full, field=f.name, number=f.number, value=repr(v)[:500])
        if isinstance(res[2 * k], rt.Crash) or isinstance(res[2 * k + 1], rt.Crash):
            log.violation(f'{m.full}.{f.name} set alone: crash', **ctx)
            return
        c = rt.Built(res[2 * k], 1).chunks[0]
        want = wire.encode(e, v)
        if c.ops != 0 or c.bytes != want:
            log.violation(f'{m.full}.{f.name} = {f.number} set alone is encoded as {c.bytes.hex()} and not {want.hex()}', **ctx)
            return
        d = rt.Decoded(res[2 * k + 1])
        diff = 'error' if d.rc != len(want) else values.diff(e, glue.parse_dump(e, d.dump), values.strip_nul(e, v))
        if diff:
            log.violation(f'{m.full}.{f.name}: {want.hex()} is decoded otherwise: {d.rc} {diff}', **ctx)
            return
        log.count('fields observed on the wire')


def api(log, files, d, upper, details):
    gen = os.path.join(d, 'gen')
    names = proto.write_files(d, files)
    r = pbtools(['generate_c_source', '-I', '.', '-o', 'gen'] + (['--enums-upper-case'] if upper else []) + names, d)
    if r.rc != 0:
        log.violation(f'no code generated: {r.err[-500:]}', **details)
        return False
    p = Probe(files, upper)
    src = os.path.join(d, 'probe.c')
    with open(src, 'w') as f:
        f.write(p.source())
    for cc in ('gcc', 'clang'):
        std = '-std=c11' if cc == 'gcc' else '-std=c17'
        r = sh([cc, std, '-O0', '-Wall', '-Wextra', '-Werror', *INCLUDE, '-I', gen, '-c', src, '-o', src + cc])
        log.count('probes compiled')
        if r.rc != 0:
            log.violation(f'{cc}: {r.err[:900]}', **details)
            return False
        log.count('names, types and values asserted', p.asserts)
    sources = [os.path.join(gen, fi.c_name + '.c') for fi in files] + [os.path.join(REPO, 'lib/src/pbtools.c')]
    exe = os.path.join(d, 'probe.exe')
    r = sh(['gcc', '-w', '-O0', *INCLUDE, '-I', gen, src + 'gcc', *sources, '-o', exe])
    if r.rc != 0:
        log.violation(f'declared functions are not defined: {r.err[:700]}', **details)
        return False
    r = sh([exe], timeout=60)
    log.count('functions linked', len(p.functions))
    if r.rc != 0:
        log.violation(f'probe fails: {r.rc}', **details)
        return False
    structs, enums, functions = declared(log, gen, files, d)
    for tag, members in p.members.items():
        if sorted(structs.get(tag, [])) != members:
            log.violation(f'struct {tag} has the members {structs.get(tag)} and not {members}', **details)
            return False
        log.count('structs compared')
    extra = set(enums) ^ set(p.enums)
    if extra:
        log.violation(f'enums declared or missing: {sorted(map(str, extra))[:10]}', **details)
        return False
    for tag, vals in p.enums.items():
        if enums[tag] != vals:
            log.violation(f'enum {tag} has the members {sorted(set(enums[tag].items()) ^ set(vals.items()))[:6]}', **details)
            return False
        log.count('enums compared')
    # Functions for exactly the fields and messages that need them.
    ours = set()
    skip = set()
    for fi in files:
        for m in fi.all_messages():
            if m.map_entry:
                skip.add(m.c)
            skip |= {m.c + '_' + s for s in ('init', 'encode_inner', 'decode_inner', 'encode_repeated_inner', 'decode_repeated_inner')}
            own = f'{m.parent.c}_{glue.m_snake(m)}' if m.map_entry else m.c
            for f in m.all_fields():
                ours |= {f'{own}_{f.c}_alloc', f'{own}_{f.c}_init'}
                ours |= {f'{m.c}_{f.c}_alloc', f'{m.c}_{f.c}_init'}
            ours |= {f'{m.c}_{x}' for x in ('new', 'encode', 'decode')}
    for n in sorted(functions & ours - p.functions - skip):
        log.violation(f'{n} is declared although nothing needs it', **details)
        return False
    log.count('functions compared', len(functions & ours))
    return True


def job(log, spec):
    kind, indexes = spec
    for index in indexes:
        rng = log.rng('g15', kind, index)
        files = shapes.files_of((kind, index), log.seed)
        texts = {fi.name: print_file(fi)[:10000] for fi in files}
        upper = index % 3 == 1
        details = dict(kind=kind, schema=texts, upper=upper)
        d = log.dir(f'{kind}{index}')
        log.case((repr(texts), upper), {'kind': kind, 'files': list(texts), 'upper case enums': upper,
                                        'messages': sum(len(f.all_messages()) for f in files)})
        log.count(f'schemas {kind}')
        if api(log, files, d, upper, details) and any(fi.messages for fi in files):
            if kind != 'special' or index not in (7, 8):
                numbers(log, files, details, log.scale(120, 400), rng, [])
            else:
                numbers(log, files, details, 700, rng, [])
        shutil.rmtree(d, True)


def numbers_job(log, spec):
    """Field numbers of every size, in every role."""
    for index in spec[1]:
        rng = log.rng('numbers', index)
        from ..schema import Field, File, Oneof, SCALARS, adopt, make_map
        fi = File(f'num{index}', rng.choice([None, 'num']))
        m = Message('Numbers')
        sub = Message('Sub')
        sub.items = [Field('a', 1, 'int32')]
        edge = [1, 2, 15, 16, 17, 127, 128, 2047, 2048, 2049, 16383, 16384, 18999, 20000, 65535, 262143, 262144, 1 << 20,
                (1 << 25) - 1, 1 << 25, (1 << 28) - 1, 1 << 28, (1 << 29) - 2, (1 << 29) - 1]
        edge += [rng.randrange(1, 19000) for _ in range(20)] + [rng.randrange(20000, 1 << 29) for _ in range(20)]
        edge = sorted(set(edge))
        rng.shuffle(edge)
        fi.items = [m, sub]
        adopt(fi)
        o = Oneof('pick')
        for k, n in enumerate(edge):
            t = rng.choice(list(SCALARS) + ['message'])
            ref = sub if t == 'message' else None
            role = rng.choice(['', 'repeated', 'optional', 'oneof', 'map'])
            if role == 'optional' and ref:
                role = ''
            if role == 'map':
                make_map(m, f'f{k}', n, rng.choice(['string', 'int32', 'bool']), t, ref)
            elif role == 'oneof':
                o.fields.append(Field(f'f{k}', n, t, ref=ref, oneof=o))
            else:
                m.items.append(Field(f'f{k}', n, t, role, ref=ref))
        if o.fields:
            m.items.insert(rng.randrange(len(m.items) + 1), o)
        adopt(fi)
        details = dict(kind='numbers', schema={fi.name: print_file(fi)})
        log.case(print_file(fi))
        log.count('schemas numbers')
        numbers(log, [fi], details, 1000, rng, [])


def dispatch(log, spec):
    (numbers_job if spec[0] == 'numbers' else job)(log, spec)


def main(run):
    run.rule = ('one case is one generated schema whose declarations were observed through gcc, clang, clang\'s AST and a '
                'running program; distinct by the text of its files and the enum option')
    run.assumptions = ['two declarations of one scope do not become the same C name (fooBar and foo_bar, A.B and AB)',
                       'fixed32 and fixed64 are unsigned (the README table says int32_t and int64_t, the code and protobuf do not)']
    n = run.scale(100, 600)
    specs = [('special', [i]) for i in range(len(shapes.SPECIAL))] + [('kitchen', [0]), ('kitchen', [1])]
    for kind, k in (('odd', n), ('random', n // 2), ('decorated', n // 4), ('order', n // 4), ('numbers', n // 4)):
        specs += [(kind, list(range(i, k, 8))) for i in range(min(8, k))]
    run.jobs(dispatch, specs)
