"""Workloads shared by the runtime checks: which schemas, which messages."""

import random

from . import glue, rt, schema, values, wire
from .common import BuildError, Inconclusive
from .schema import Enum, Field, File, Message, Oneof, adopt, make_map


def plain():
    """A float-free schema of all shapes without imports."""
    fi = File('plain', 'pl')
    leaf = Message('Leaf')
    leaf.items = [Field('a', 1, 'uint32'), Field('b', 2, 'string', 'repeated'), Field('c', 3, 'bytes')]
    kind = Enum('Kind', [('ZERO', 0), ('ONE', 1), ('MINUS', -7)])
    top = Message('Top')
    o = Oneof('pick')
    o.fields = [Field('p_num', 20, 'sint64', oneof=o), Field('p_text', 21, 'string', oneof=o),
                Field('p_leaf', 22, 'message', ref=leaf, oneof=o), Field('p_flag', 23, 'bool', oneof=o),
                Field('p_kind', 24, 'enum', ref=kind, oneof=o)]
    top.items = [Field('i', 1, 'int32'), Field('l', 2, 'int64'), Field('u', 3, 'uint32', 'repeated'),
                 Field('s', 4, 'sint32', 'repeated'), Field('k', 5, 'enum', 'repeated', ref=kind),
                 Field('leaf', 6, 'message', ref=leaf), Field('leaves', 7, 'message', 'repeated', ref=leaf),
                 Field('raw', 8, 'bytes', 'repeated'), Field('ob', 9, 'bool', 'optional'),
                 Field('os', 10, 'string', 'optional'), Field('f', 11, 'fixed64', 'repeated'),
                 Field('x', 12, 'bool', 'repeated'), o]
    chain = Message('Chain')
    chain.items = [Field('next', 1, 'message', ref=chain), Field('n', 2, 'uint64'),
                   Field('more', 3, 'message', 'repeated', ref=chain), Field('tops', 4, 'message', 'repeated', ref=top)]
    fi.items = [kind, leaf, top, chain]
    adopt(fi)
    make_map(top, 'by_name', 13, 'string', 'message', leaf)
    make_map(top, 'by_id', 14, 'int32', 'string')
    adopt(fi)
    return fi


def large():
    """Many members of everything: fields, oneofs, members of a oneof,
    enumerators, levels of nested declarations, and long names."""
    rng = random.Random('large')
    fi = File('large', 'la.rge')
    every = Enum('Every', [(f'E{i}', i * 7 if i < 200 else -i) for i in range(300)])
    leaf = Message('Leaf')
    leaf.items = [Field('a', 1, 'sint32'), Field('b', 2, 'string')]
    types = list(schema.SCALARS) + ['enum', 'message']
    refs = {'enum': every, 'message': leaf}

    def numbers(n):
        nums = list(range(1, n // 2 + 1)) + rng.sample([x for x in range(n, 18000)], n - n // 2 - 6)
        nums += [536870911 - i for i in range(n - len(nums))]
        return nums

    mixed = Message('Mixed')
    for i, num in enumerate(numbers(200)):
        t = types[i * 7 % 17]
        label = ['', 'repeated', 'optional', ''][i // 17 % 4]
        mixed.items.append(Field(f'f{i}', num, t, '' if (t, label) == ('message', 'optional') else label, ref=refs.get(t)))
    rng.shuffle(mixed.items)
    pick = Message('Pick')
    o = Oneof('one')
    nums = numbers(110)
    for i in range(70):
        o.fields.append(Field(f'm{i}', nums[i], types[i % 17], ref=refs.get(types[i % 17]), oneof=o))
    pick.items = [o]
    for k in range(14):
        o = Oneof(f'two{k}')
        for i in range(2):
            t = types[(k + 5 * i) % 17]
            o.fields.append(Field(f't{k}_{i}', nums[70 + 2 * k + i], t, ref=refs.get(t), oneof=o))
        pick.items.append(o)
        pick.items.append(Field(f'between{k}', 17000 + 18000 * k, types[k], ['', 'repeated'][k % 2]))
    maybe = Message('Maybe')
    for i, num in enumerate(numbers(70)):
        t = types[i % 16]
        maybe.items.append(Field(f'o{i}', num, t, 'optional', ref=refs.get(t)))
    maps = Message('ManyMaps')
    nested = None
    for k in range(9):
        x = Message(f'Level{k}')
        x.items = ([nested] if nested else []) + [Field('down', 1, 'message', ref=nested) if nested else Field('end', 1, 'int64'),
                                                  Field('list', 2, 'message', 'repeated', ref=nested or leaf),
                                                  Field('num', 3, types[k])]
        nested = x
    word = 'averylongname' * 8
    long = Message('L' + word)
    o = Oneof('o_' + word)
    o.fields = [Field('x_' + word, 3, 'string', oneof=o), Field('y_' + word, 4, 'message', ref=leaf, oneof=o)]
    long.items = [Enum('E' + word, [('Z_' + word.upper(), 0), ('A_' + word.upper(), 1)]), Field(word, 1, 'int32', 'repeated'),
                  Field(word + '2', 2, 'message', 'repeated', ref=leaf), o]
    fi.items = [every, leaf, mixed, pick, maybe, maps, nested, long]
    adopt(fi)
    for i, k in enumerate(schema.MAP_KEYS * 3):
        t = types[i * 5 % 17]
        make_map(maps, f'map{i}', nums[i], k, t, refs.get(t))
    return adopt(fi)


def files_of(spec):
    """spec: ('kitchen',), ('plain',), ('large',), ('random', seed, files) or
    ('kitchen', 'sizes', part)."""
    if spec[0] == 'large':
        return [large()]
    if spec[0] == 'kitchen':
        return [schema.kitchen_sink()]
    if spec[0] == 'plain':
        return [plain()]
    return schema.random_schema(f'{spec[1]}', files=spec[2])


def specs(run, n, fixed=('kitchen', 'plain', 'large')):
    """The schemas of a run: fixed ones and n random ones. Every fifth one is
    for a 32-bit target, in the checks that have one build only."""
    out = [(k,) for k in fixed] + [('random', f'{run.seed}/{i}', 1 + i % 3) for i in range(n)]
    return [s + ('m32',) if i % 5 == 4 else s for i, s in enumerate(out)] + [(k, 'm32') for k in fixed[:1]]


def unit(log, spec):
    u = rt.Unit(log, files_of(spec)).generate()
    log.count('schemas')
    log.count('messages types', len(u.entries))
    if spec[-1] == 'm32' and narrow(log, u):
        u.main = 'm32'
        log.count('schemas for a 32-bit target')
    return u


def narrow(log, u):
    """True if there is a 32-bit build of the unit; it has no C library but
    the functions in c/m32, and depends on the kernel."""
    try:
        return u.execute([rt.head(7, 0, 0)], 'm32', max_crashes=1)[0] is not None
    except (BuildError, Inconclusive, OSError):
        log.count('32-bit builds not available')
        return False


PARTS = 16


def sizes():
    """Specs of the workloads with every size of every kind of field."""
    return [('kitchen', 'sizes', i) for i in range(PARTS)]


def sized(log, u, part, most):
    """One part of: every size up to 300 and sizes around powers of two, of
    strings, bytes, lists and sub-messages."""
    out = []
    edges = [(1 << b) + d for b in range(9, 18) for d in (-1, 0, 1)] + [(1 << 21) + d for d in (-1, 0, 1)]
    k = 0
    for i, m in enumerate(u.entries):
        if m.name not in ('Scalars', 'Repeats', 'Optionals', 'Choices', 'Tree', 'Maps', 'Leaf', 'Wide'):
            continue
        for f in m.all_fields():
            if m.name == 'Maps' and f.name not in ('m_string', 'm_leaf', 'v_bytes', 'v_bool'):
                continue
            if m.name == 'Wide' and f.type not in ('string', 'bytes', 'sint32', 'double'):
                continue
            flat = f.type in ('string', 'bytes')
            for n in list(range(301)) + edges:
                k += 1
                if k % PARTS != part or n > most:
                    continue
                if n > 300 and not flat and not log.thorough and n not in (512, 1024, 4096, 65536, 131073):
                    continue
                if n > 140000 and not flat:
                    continue
                limit = 2000 if f.is_msg else 20000
                if n in (65536, 131073) and f.name in ('r_leaf', 'r_string', 'children', 'm_leaf'):
                    limit = n
                out += [(i, m, v) for v in values.sized(m, f, n, (n + k // PARTS) % 2, limit)]
    return out


def room(m, v):
    """A workspace size that surely suffices for v."""
    return 2 * values.need(m, v) + 1024


def messages(log, u, spec, n, boundary=None, most=1 << 30, **kw):
    """(entry index, message, value) workload of a unit. boundary: maximum
    number of single-field boundary values per message (None: all)."""
    if spec[1:2] == ('sizes',):
        return sized(log, u, spec[2], most)
    rng = log.rng('messages', spec)
    out = []
    if spec[0] == 'large' and boundary is None:
        boundary = 300
    for i, m in enumerate(u.entries):
        vg = values.ValueGen(rng, **kw)
        b = values.boundary(m, vg)
        if boundary is not None and len(b) > boundary:
            b = b[:1] + rng.sample(b[1:], boundary)
        out += [(i, m, v) for v in b]
        for _ in range(n):
            out.append((i, m, values.gen(rng, m, **kw)))
    return out


def describe(m, v):
    return f'{m.full} {v!r}'[:1500]


def context(u, m, v=None, data=None, **more):
    """Details for a replay file."""
    d = {'message': m.full, 'schema': {(fi.path or '') + fi.name + '.proto': schema.print_file(fi) for fi in u.files}}
    if v is not None:
        d['value'] = repr(v)[:20000]
    if data is not None:
        d['input'] = data.hex()[:40000]
    d.update(more)
    return d


def crashed(log, u, m, res, **kw):
    """Reports a crash; true if there is no result to look at."""
    if isinstance(res, rt.Crash):
        log.violation(f'{m.full}: {res}', **context(u, m, log=res.log(), **kw))
        return True
    return res is None


def watch(log, u, m, mon, mask=~0, **kw):
    if mon & mask:
        log.violation(f'{m.full}: {rt.mon_text(mon & mask)}', **context(u, m, **kw))
        return False
    return True


def parse(log, u, m, dump, **kw):
    try:
        return glue.parse_dump(m, dump)
    except (ValueError, IndexError):
        log.violation(f'{m.full}: unreadable message content', **context(u, m, dump=dump.hex()[:4000], **kw))
        return None
