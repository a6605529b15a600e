"""One normal form of what a proto file declares, made from the schema model,
from a protoc descriptor and from the object model of pbtools.parse_file."""

from .schema import SCALARS, Enum, Field, Message, Service


def expected(fi):
    """From the schema model."""
    def ftype(f):
        if f.type in ('enum', 'message'):
            return f.type, f.ref.full
        return 'scalar', f.type

    def field(f):
        if f.is_map:
            v = f.ref.field('value')
            return [f.name, f.number, 'map', f.key, *ftype(v), True, False]
        return [f.name, f.number, *ftype(f), f.label == 'repeated', f.label == 'optional']

    def message(m):
        out[m.full] = {'fields': [field(f) for f in m.fields],
                       'oneofs': [[o.name, [[f.name, f.number, *ftype(f)] for f in o.fields]] for o in m.oneofs],
                       'messages': sorted(x.full for x in m.messages if not x.map_entry),
                       'enums': sorted(x.full for x in m.enums)}
        for x in m.messages:
            if not x.map_entry:
                message(x)
    out = {}
    for m in fi.messages:
        message(m)
    return {'package': fi.package,
            'imports': [(i.path or '') + i.name + '.proto' for i in fi.imports],
            'messages': out, 'top messages': sorted(m.full for m in fi.messages),
            'top enums': sorted(e.full for e in fi.enums),
            'enums': {e.full: [list(v) for v in e.values] for e in fi.all_enums()},
            'services': [[s.name, [[r[0], r[1].lstrip('.'), bool(r[2]), r[3].lstrip('.'), bool(r[4])] for r in s.rpcs]]
                         for s in fi.items if isinstance(s, Service)]}


def from_desc(d):
    """From a descriptor. Service types are resolved there, so they are left
    out."""
    def join(scope, name):
        return f'{scope}.{name}' if scope else name

    def ftype(f):
        if f['type'] in ('enum', 'message'):
            return f['type'], f['type_name'].lstrip('.')
        return 'scalar', f['type']

    def enum(e, scope):
        enums[join(scope, e['name'])] = [list(v) for v in e['values']]

    def message(m, scope):
        full = join(scope, m['name'])
        entries = {'.' + join(full, x['name']): x for x in m['messages'] if x['map_entry']}
        fields = []
        for f in m['fields']:
            if f['oneof'] is not None:
                continue
            if f['type_name'] in entries:
                k, v = entries[f['type_name']]['fields']
                fields.append([f['name'], f['number'], 'map', k['type'], *ftype(v), True, False])
            else:
                fields.append([f['name'], f['number'], *ftype(f), f['repeated'], f['optional']])
        out[full] = {'fields': fields,
                     'oneofs': [[o, [[f['name'], f['number'], *ftype(f)] for f in m['fields'] if f['oneof'] == i]]
                                for i, o in enumerate(m['oneofs'])],
                     'messages': sorted(join(full, x['name']) for x in m['messages'] if not x['map_entry']),
                     'enums': sorted(join(full, e['name']) for e in m['enums'])}
        for x in m['messages']:
            if not x['map_entry']:
                message(x, full)
        for e in m['enums']:
            enum(e, full)
    out, enums = {}, {}
    p = d['package']
    for m in d['messages']:
        message(m, p)
    for e in d['enums']:
        enum(e, p)
    return {'package': p, 'imports': d['imports'], 'messages': out,
            'top messages': sorted(join(p, m['name']) for m in d['messages']),
            'top enums': sorted(join(p, e['name']) for e in d['enums']), 'enums': enums,
            'services': [[n, [[r[0], r[2], r[4]] for r in rpcs]] for n, rpcs in d['services']]}


def from_parse(p, services=True):
    """From the output of probe.py."""
    def ftype(f):
        if f['kind'] == 'scalar-value-type':
            return 'scalar', f['full_type']
        return f['kind'], f['full_type']

    def enum(e):
        enums[e['full']] = e['values']

    def message(m):
        entries = {x['full']: x for x in m['messages'] if x['name'].startswith('PbtoolsMap')}
        fields = []
        for f in m['fields']:
            e = entries.get(f['full_type'])
            if e is not None and [x['name'] for x in e['fields']] == ['key', 'value']:
                k, v = e['fields']
                ok = f['repeated'] and [k['number'], v['number'], k['repeated'], v['repeated'], k['kind']] == \
                    [1, 2, False, False, 'scalar-value-type']
                fields.append([f['name'], f['number'], 'map' if ok else 'bad map', k['full_type'], *ftype(v),
                               f['repeated'], f['optional']])
            else:
                fields.append([f['name'], f['number'], *ftype(f), f['repeated'], f['optional']])
        out[m['full']] = {'fields': fields,
                          'oneofs': [[o['name'], [[f['name'], f['number'], *ftype(f)] for f in o['fields']]]
                                     for o in m['oneofs']],
                          'messages': sorted(x['full'] for x in m['messages'] if x['full'] not in entries),
                          'enums': sorted(e['full'] for e in m['enums'])}
        for x in m['messages']:
            if x['full'] not in entries:
                message(x)
        for e in m['enums']:
            enum(e)
    out, enums = {}, {}
    for m in p['messages']:
        message(m)
    for e in p['enums']:
        enum(e)
    if services:
        sv = [[s['name'], [[r[0], r[1].lstrip('.'), r[2], r[3].lstrip('.'), r[4]] for r in s['rpcs']]]
              for s in p['services']]
    else:
        sv = [[s['name'], [[r[0], r[2], r[4]] for r in s['rpcs']]] for s in p['services']]
    return {'package': p['package'], 'imports': [i['path'] for i in p['imports']], 'messages': out,
            'top messages': sorted(m['full'] for m in p['messages']),
            'top enums': sorted(e['full'] for e in p['enums']), 'enums': enums, 'services': sv}


def difference(a, b, path=''):
    """The first difference of two normal forms, as text (None: equal).
    a: what pbtools says, b: what is declared."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return f'{path}/{k} is lost'
            if k not in b:
                return f'{path}/{k} is invented'
            d = difference(a[k], b[k], f'{path}/{k}')
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        a, b = list(a), list(b)
        if a == b:
            return None
        if len(a) != len(b):
            return f'{path}: {a!r} instead of {b!r}'[:600]
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    if a != b or type(a) is not type(b):
        return f'{path}: {a!r} instead of {b!r}'[:600]
    return None


def consistent(p):
    """Relations inside the pbtools model that must hold for every file:
    names compose from scopes and names. Yields descriptions of violations."""
    base = [p['package']] if p['package'] else []

    def fields(fs, where):
        for f in fs:
            full = '.'.join(f['namespace'] + [f['type']])
            if f['full_type'] != full:
                yield f'{where}.{f["name"]}: full type {f["full_type"]!r} is not {full!r}'
            if f['kind'] == 'scalar-value-type' and f['full_type'] not in SCALARS:
                yield f'{where}.{f["name"]}: {f["full_type"]!r} is no scalar value type'

    def scope(x, ns):
        if [x['namespace'], x['full']] != [ns, '.'.join(ns + [x['name']])]:
            yield f'{x["full"]}: namespace {x["namespace"]!r}, not {ns!r}'

    def message(m, ns):
        yield from scope(m, ns)
        inner = ns + [m['name']]
        yield from fields(m['fields'], m['full'])
        for o in m['oneofs']:
            yield from fields(o['fields'], m['full'])
        for x in m['messages']:
            yield from message(x, inner)
        for e in m['enums']:
            yield from scope(e, inner)
    for m in p['messages']:
        yield from message(m, base)
    for e in p['enums']:
        yield from scope(e, base)
