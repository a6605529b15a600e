"""Runs in the code under test: parses files with pbtools.parse_file and
writes down the object model. Only documented or tested attributes are used."""

import json
import os
import sys

import pbtools


def field(f, oneof=False):
    return {'name': f.name, 'type': f.type, 'full_type': f.full_type, 'number': f.field_number,
            'kind': f.type_kind, 'namespace': list(f.namespace), 'package': f.package,
            'snake': f.name_snake_case, 'full_snake': f.full_type_snake_case,
            'repeated': None if oneof else bool(f.repeated), 'optional': None if oneof else bool(f.optional)}


def enum(e):
    return {'name': e.name, 'full': e.full_name, 'snake': e.full_name_snake_case, 'namespace': list(e.namespace),
            'values': [[v.name, v.field_number] for v in e.fields]}


def message(m):
    return {'name': m.name, 'full': m.full_name, 'snake': m.full_name_snake_case, 'namespace': list(m.namespace),
            'fields': [field(f) for f in m.fields], 'enums': [enum(e) for e in m.enums],
            'messages': [message(x) for x in m.messages],
            'oneofs': [{'name': o.name, 'fields': [field(f, True) for f in o.fields]} for o in m.oneofs]}


def proto(p):
    return {'package': p.package, 'abspath': p.abspath,
            'imports': [{'path': i.path, 'abspath': i.abspath, 'package': i.package} for i in p.imports],
            'options': [[o.name, o.kind, o.value] for o in p.options],
            'messages': [message(m) for m in p.messages], 'enums': [enum(e) for e in p.enums],
            'services': [{'name': s.name,
                          'rpcs': [[r.name, r.request_type, bool(r.request_stream), r.response_type,
                                    bool(r.response_stream)] for r in s.rpcs]} for s in p.services]}


out = []
with open(sys.argv[1]) as f:
    jobs = json.load(f)
target = os.path.abspath(sys.argv[2])
for cwd, name, paths in jobs:
    os.chdir(cwd)
    try:
        p = pbtools.parse_file(name, paths) if paths is not None else pbtools.parse_file(name)
    except Exception as e:
        out.append({'error': str(e), 'class': type(e).__name__})
    else:
        out.append(proto(p))
with open(target, 'w') as f:
    json.dump(out, f)
