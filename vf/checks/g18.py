"""G18: the object model of pbtools.parse_file against the schema model that
was printed and against protoc's descriptor of the same text."""

import glob
import os
import shutil

from .. import model, proto, schema
from ..common import REPO
from ..schema import Enum, Field, File, Message, Oneof, Service, adopt, make_map

MIN_CASES = 40


def judge(log, p, want, fi_name, what, details, services=True):
    if 'error' in p:
        log.violation(f'{fi_name}: {what} is not parsed: {p["error"]}', **details)
        return False
    d = model.difference(model.from_parse(p, services), want)
    if d:
        log.violation(f'{fi_name}: {what}: {d}', **details)
        return False
    for text in model.consistent(p):
        log.violation(f'{fi_name}: {what}: {text}', **details)
        return False
    return True


def read(d, names):
    out = {}
    for n in names:
        with open(os.path.join(d, n), encoding='utf-8', newline='') as f:
            out[n] = f.read()[:15000]
    return out


def random_job(log, spec):
    """A number of random schemas, in several spellings."""
    kind, index, n = spec
    rng = log.rng('g18', kind, index)
    work = []
    for k in range(n):
        custom = rng.random() < 0.5
        files = schema.random_schema(f'g18/{log.seed}/{index}/{k}', files=rng.choice([1, 1, 2, 3]),
                                     max_fields=rng.choice([4, 9, 14]))
        if rng.random() < 0.5:
            for fi in files:
                keywords(fi, rng)
        proto.decorate(files, rng, custom=custom)
        style = rng.randrange(4)
        d = log.dir(f's{k}')

        def transform(text):
            if style >= 1:
                text = proto.respell(text, rng)
            if style == 2:
                text = proto.reformat(text, rng)
            if style == 3:
                text = proto.reformat_plain(text, rng)
            return text
        names = proto.write_files(d, files, transform)
        desc = None
        if not custom and proto.have_protoc():
            desc, err = proto.protoc(d, names)
            if desc is None:
                log.count('schemas protoc does not take')
                log.sample({'protoc': err[:300]})
        work.append((d, files, names, desc, style))
    jobs = [(d, n, ['.']) for d, _, names, _, _ in work for n in names]
    models = iter(proto.parse(log, jobs))
    for d, files, names, desc, style in work:
        for fi, name in zip(files, names):
            p = next(models)
            details = dict(schema=read(d, names))
            ok = judge(log, p, model.expected(fi), name, 'schema model', details)
            log.case(f'{name}{fi.package}{details["schema"][name]}',
                     {'file': name, 'messages': len(fi.all_messages()), 'style': style})
            if not ok:
                continue
            want = [list(o) for o in fi.options]
            if p['options'] != want or [type(o[2]) for o in p['options']] != [type(o[2]) for o in want]:
                log.violation(f'{name}: options {p["options"]!r} instead of {want!r}', **details)
            if p['abspath'] != os.path.join(d, name):
                log.violation(f'{name}: abspath {p["abspath"]!r}', **details)
            for i, imp in zip(p['imports'], fi.imports):
                if i['package'] != imp.package or not os.path.samefile(i['abspath'], os.path.join(d, i['path'])):
                    log.violation(f'{name}: import {i!r}', **details)
            log.count('messages', len(p['messages']))
            log.count('fields', sum(len(m.all_fields()) for m in fi.all_messages()))
            log.count('enums', len(fi.all_enums()))
            log.count('services', len(p['services']))
            log.count('options', len(p['options']))
            if desc is not None:
                judge(log, p, model.from_desc(desc[name]), name, 'protoc descriptor', details, services=False)
                log.count('compared with protoc')
        shutil.rmtree(d, True)


def keywords(fi, rng):
    """Renames some declarations to words the grammar also uses."""
    words = ['syntax', 'package', 'message', 'enum', 'service', 'rpc', 'returns', 'stream', 'import', 'oneof',
             'option', 'true', 'false', 'map', 'reserved', 'max', 'to', 'weak', 'public', 'optional', 'repeated',
             'int32', 'string', 'proto3', 'extend', 'group', 'inf', 'nan', 'x', 'T', 'aB_c9', 'A1b2C3']
    for m in fi.all_messages():
        if m.map_entry:
            continue
        taken = {f.name for f in m.all_fields()} | {o.name for o in m.oneofs} | \
                {i.name for i in m.items if isinstance(i, (Message, Enum))}
        free = [w for w in words if w not in taken and w + '_' not in taken]
        rng.shuffle(free)
        for f in m.all_fields():
            if not f.is_map and free and rng.random() < 0.5:
                f.name = free.pop()


def fixed_job(log, spec):
    """Hand-made texts with their models."""
    d = log.dir('fixed')
    texts = dict(fixed_texts())
    for name, (text, _) in texts.items():
        with open(os.path.join(d, name + '.proto'), 'w', encoding='utf-8', newline='') as f:
            f.write(text)
    models = proto.parse(log, [(d, n + '.proto', ['.']) for n in texts])
    for (name, (text, fi)), p in zip(texts.items(), models):
        log.case(name + text)
        judge(log, p, model.expected(fi), name, 'hand-made model', dict(schema=text))


def fixed_texts():
    def one(name, body, items, package=None, imports=()):
        fi = File(name, package)
        fi.items = items
        adopt(fi)
        return name, (body, fi)
    m = Message('A')
    m.items = [Field('a', 15, 'int32'), Field('b', 16, 'bool', 'repeated'), Field('c', 536870911, 'bytes', 'optional'),
               Field('d', 255, 'sint64')]
    yield one('numbers', 'syntax="proto3";message A{int32 a=0xF;repeated bool b=020;optional bytes c=0x1FFFFFFF;'
              'sint64 d=0XfF;}', [m])
    e = Enum('E', [('Z', 0), ('P', 2147483647), ('N', -2147483648), ('H', -31), ('O', 8), ('OO', -8), ('X', 0x7f)])
    yield one('enums', 'syntax = "proto3"; enum E { Z = 0x0; P = 0x7fffffff; N = -0x80000000; H = -0x1F; O = 010; '
              'OO = -010; X = 0177; }', [e])
    m = Message('M')
    i = Message('M')
    j = Message('M')
    j.items = [Field('m', 1, 'int32')]
    i.items = [j, Field('m', 2, 'message', ref=j)]
    m.items = [i, Field('m', 3, 'message', ref=i)]
    yield one('same', 'syntax = "proto3"; package M; message M { message M { message M { int32 m = 1; } M m = 2; } '
              '.M.M.M m = 3; }', [m], 'M')
    m = Message('Empty')
    yield one('empties', ';;syntax = "proto3";'.lstrip(';') + ';;;message Empty{;;};;', [m])
    yield one('nothing', 'syntax = "proto3";', [])
    yield one('comment_only', '// a\n/* b */ syntax /* "proto2" */ = "proto3"; // c', [])
    yield one('bom_free', 'syntax\n=\n"proto3"\n;\n\n\npackage\na\n.\nb\n;', [], 'a.b')
    m = Message('S')
    m.items = [Field('after', 7, 'string')]
    yield one('strings', 'syntax = "proto3"; option a = "\\\\"; option b = "\\""; option c = "//"; '
              'option d = "/*"; option f = "proto3"; option e = "\\\\\\""; message S { string after = 7 [x = "*/", y = "\\\\"]; }', [m])
    m = Message('R')
    m.items = [Field('x', 3, 'int32')]
    yield one('ranges', 'syntax = "proto3"; message R { reserved 1, 2, 4 to 0x10, 30 to max; reserved "a", "b"; '
              'int32 x = 3; reserved "c", "proto3"; }', [m])
    s = Service('S', [('A', 'M', False, 'M', False, ';'), ('B', 'M', True, 'p.M', False, ';'),
                      ('C', '.p.M', False, 'M', True, ';'), ('stream', 'stream', True, 'stream', True, ';')])
    m, st = Message('M'), Message('stream')
    yield one('rpcs', 'syntax = "proto3"; package p; message M {} message stream {} service S { option (x) = "y"; '
              'rpc A(M) returns (M); rpc B(stream M) returns (p.M) {} rpc C (.p.M) returns (stream M) { option q = 1; };'
              'rpc stream(stream stream) returns (stream stream); }', [m, st, s], 'p')
    m = Message('Deep')
    cur = m
    for k in range(40):
        n = Message(f'D{k}')
        cur.items += [n, Field('d', 1, 'message', ref=n)]
        cur = n
    yield one('deep', schema.print_file(adopt_new('deep', [m])), [m])


def adopt_new(name, items):
    fi = File(name)
    fi.items = items
    return adopt(fi)


def repo_job(log, spec):
    """The proto files of the repository itself, against protoc."""
    d = log.dir('repo')
    for sub in ('tests/files', 'tests/files/imports', 'examples', 'benchmark'):
        for path in glob.glob(os.path.join(REPO, sub, '*.proto')):
            target = os.path.join(d, os.path.relpath(path, REPO))
            os.makedirs(os.path.dirname(target), exist_ok=True)
            shutil.copy(path, target)
    base = os.path.join(d, 'tests/files')
    if not os.path.isdir(base):
        return
    names = sorted(n for n in os.listdir(base) if n.endswith('.proto'))
    names += sorted('imports/' + n for n in os.listdir(os.path.join(base, 'imports')) if n.endswith('.proto'))
    models = proto.parse(log, [(base, n, ['.', 'imports']) for n in names])
    for n, p in zip(names, models):
        if n.startswith(('importing', 'public_', 'imports/imported2')):
            # Type names with more than one meaning: see G19.
            continue
        desc, _ = proto.protoc(base, [n], ['.', 'imports'])
        if desc is None:
            continue
        key = n if n in desc else os.path.basename(n)
        with open(os.path.join(base, n)) as f:
            text = f.read()
        judge(log, p, model.from_desc(desc[key]), n, 'protoc descriptor', dict(schema=text), services=False)
        log.case(n)
        log.count('files of the repository')


def dispatch(log, spec):
    {'random': random_job, 'fixed': fixed_job, 'repo': repo_job}[spec[0]](log, spec)


def main(run):
    run.rule = ('one case is one proto file parsed with pbtools.parse_file; distinct by text; the whole object model '
                'is compared with the declared schema (and with protoc where it accepts the file)')
    run.assumptions = ['identifiers do not start with an underscore', 'no float option constants, single quoted '
                       'strings, aggregate options, extensions or groups',
                       'messages are compared by name, as parse_file sorts them by use']
    n = run.scale(200, 600)
    specs = [('fixed', 0, 0), ('repo', 0, 0)] + [('random', i, n) for i in range(16)]
    run.jobs(dispatch, specs)
