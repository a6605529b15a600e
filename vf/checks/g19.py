"""G19: multi-file schemas of few names that shadow each other. Monitored: the
type every reference is bound to, against protoc's resolution of the same
text; which references are rejected; which file an import finds."""

import os
import re
import shutil

from .. import model, proto
from ..common import REPO, Inconclusive, pbtools, sh
from ..schema import Enum, Field, File, Message, Oneof, adopt, make_map, print_file, snake

MIN_CASES = 100

PACKAGES = [None, None, 'p', 'p', 'q', 'p.q', 'p.q', 'q.p', 'p.q.r', 'r', 'p.p', 'q.q', 'p.r.q']
TYPES = ['A', 'B', 'C', 'A', 'B', 'Ab', 'AbC', 'p', 'q']
PARTS = ['A', 'B', 'C', 'Ab', 'p', 'q', 'r', 'AbC']
SCALAR = ['int32', 'string', 'bool', 'double', 'sint64']
F37 = 'F37-exact-package-first'


def declare(rng, files):
    """Types of all files, without fields."""
    names = {}
    counter = [0]

    def claim(full, what):
        if full in names:
            return False
        names[full] = what
        return True
    for fi in files:
        if fi.package:
            parts = fi.package.split('.')
            for k in range(1, len(parts) + 1):
                names['.'.join(parts[:k])] = 'package'

    def fill(owner, scope, depth):
        for _ in range(rng.choice([1, 2, 3, 4] if depth == 0 else [0, 1, 1, 2])):
            name = rng.choice(TYPES[:7] if depth == 0 else TYPES)
            full = '.'.join(scope + [name])
            if not claim(full, 'type'):
                continue
            if rng.random() < 0.3:
                counter[0] += 1
                owner.items.append(Enum(name, [(f'V{counter[0]}', 0), (f'W{counter[0]}', counter[0])]))
            else:
                m = Message(name)
                owner.items.append(m)
                if depth < 3:
                    fill(m, scope + [name], depth + 1)
    for fi in files:
        fill(fi, fi.package.split('.') if fi.package else [], 0)
        if not fi.messages:
            name = 'M' + fi.name
            fi.items.append(Message(name))
        adopt(fi)


def reference(rng, files, fi, m):
    """A type name, which may or may not mean something."""
    k = rng.random()
    types = [t for f in (files if rng.random() < 0.15 else [fi] + fi.imports) for t in f.all_messages() + f.all_enums()
             if not getattr(t, 'map_entry', False)]
    if k < 0.75:
        parts = rng.choice(types).full.split('.')
        if rng.random() < 0.15:
            return '.' + '.'.join(parts)
        n = rng.choice([1, 1, 2, 2, 3, len(parts)])
        return '.'.join(parts[-n:])
    n = rng.choice([1, 2, 2, 3, 4])
    return rng.choice(['', '', '', '', '.']) + '.'.join(rng.choice(PARTS) for _ in range(n))


def use(rng, files, fi, refs):
    """Adds fields. refs: number -> (message, items list, field, text)."""
    number = [0]
    for m in [m for m in fi.all_messages() if not m.map_entry]:
        taken = {i.name for i in m.items}
        for _ in range(rng.choice([0, 2, 4, 7])):
            number[0] += 1
            n = number[0]
            text = reference(rng, files, fi, m)
            name = rng.choice(PARTS) if rng.random() < 0.1 else f'f{n}'
            if name in taken or name.lower() in {t.lower() for t in taken}:
                name = f'f{n}'
            taken.add(name)
            k = rng.random()
            if k < 0.15:
                make_map(m, f'm{n}', n, rng.choice(['int32', 'string', 'bool']), 'ref', vtext=text)
                refs[n] = (m, m.items, m.items[-1], text)
            elif k < 0.35:
                o = [i for i in m.items if isinstance(i, Oneof)]
                if not o:
                    o = [Oneof(f'o{n}')]
                    m.items.append(o[0])
                f = Field(name, n, 'ref', text=text, oneof=o[0])
                o[0].fields.append(f)
                refs[n] = (m, o[0].fields, f, text)
            else:
                f = Field(name, n, 'ref', rng.choice(['', '', 'repeated']), text=text)
                m.items.append(f)
                refs[n] = (m, m.items, f, text)
        # Something scalar in between.
        if rng.random() < 0.3:
            number[0] += 1
            m.items.append(Field(f's{number[0]}', number[0], rng.choice(SCALAR)))


def remove(ref):
    m, items, f, _ = ref
    items.remove(f)
    if f.is_map:
        m.items.remove(f.ref)
    if items is not m.items and not items:
        m.items.remove(f.oneof)


def settle(log, d, files, refs):
    """Removes what protoc does not take. Returns the removed references as
    (file, ref, message of protoc), or None if something else is wrong."""
    bad = []
    for fi in files:
        for _ in range(4):
            text = print_file(fi)
            with open(os.path.join(d, fi.name + '.proto'), 'w') as f:
                f.write(text)
            desc, err = proto.protoc(d, [fi.name + '.proto'])
            if desc is not None:
                break
            lines = text.split('\n')
            hit = {}
            # Map values are reported without line.
            for mo in re.finditer(r'^' + re.escape(fi.name) + r'\.proto: ("([^"]*)".*)$', err, re.M):
                for n, ref in refs[fi.name].items():
                    if ref[2].is_map and mo.group(2) in (ref[3], ref[3].lstrip('.')) or \
                            'not imported' in mo.group(1) and ref[2].is_map and ('.' + mo.group(2)).endswith('.' + ref[3].lstrip('.')):
                        hit[n] = mo.group(1)
            for mo in re.finditer(r'^' + re.escape(fi.name) + r'\.proto:(\d+):\d+: (.*)$', err, re.M):
                if 'warning' in mo.group(2):
                    continue
                num = re.search(r' = (\d+);', lines[int(mo.group(1)) - 1])
                if not num or int(num.group(1)) not in refs[fi.name]:
                    log.count('schemas given up')
                    log.sample({'protoc': err[:300]})
                    return None
                hit[int(num.group(1))] = mo.group(2)
            if not hit:
                log.count('schemas given up')
                log.sample({'protoc': err[:300]})
                return None
            for n, why in hit.items():
                ref = refs[fi.name].pop(n)
                remove(ref)
                bad.append((fi, n, ref, why))
        else:
            log.count('schemas given up')
            return None
    return bad


def package_of(files, full):
    for fi in files:
        for t in fi.all_messages() + fi.all_enums():
            if t.full == full:
                return fi.package or ''
    return None


def compare(log, files, fi, got, want, refs, details):
    """Compares binding by binding; listed deviations are taken out."""
    texts = {n: r[3] for n, r in refs.items()}
    ok = True

    def one(g, w, at, n, path):
        nonlocal ok
        log.count('references')
        if g[at] == w[at] and g[at + 1] == w[at + 1]:
            return
        text = texts.get(n, '')
        q, _, _ = text.rpartition('.')
        key = None
        if q and text == g[at + 1] and q == package_of(files, text) and not text.startswith('.'):
            key = F37
            log.count('exact package first')
        log.violation(f'{fi.name}: {path} of type {text!r} is bound to {g[at]} {g[at + 1]!r}, not to {w[at]} {w[at + 1]!r}',
                      key=key, **details)
        if key is None:
            ok = False
        g[at], g[at + 1] = w[at], w[at + 1]
    for full, w in want['messages'].items():
        g = got['messages'].get(full)
        if g is None or len(g['fields']) != len(w['fields']) or len(g['oneofs']) != len(w['oneofs']):
            break
        for a, b in zip(g['fields'], w['fields']):
            if a[:2] == b[:2]:
                at = 4 if b[2] == 'map' else 2
                if len(a) == len(b):
                    one(a, b, at, b[1], f'{full}.{b[0]}')
        for x, y in zip(g['oneofs'], w['oneofs']):
            for a, b in zip(x[1], y[1]):
                if a[:2] == b[:2]:
                    one(a, b, 2, b[1], f'{full}.{b[0]}')
    if ok:
        diff = model.difference(got, want)
        if diff:
            log.violation(f'{fi.name}: {diff}', **details)
            ok = False
    return ok


def listify(x):
    if isinstance(x, dict):
        return {k: listify(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [listify(v) for v in x]
    return x


def type_probe(log, d, files, want):
    """Compiles the generated code with assertions on the field types."""
    c = [snake(t.full) for f in files for t in f.all_messages() + f.all_enums() if not getattr(t, 'map_entry', False)]
    if len(set(c)) != len(c):
        log.count('schemas with colliding C names')
        return
    out = os.path.join(d, 'c')
    err = proto.generate(log, [(d, [f.name + '.proto' for f in files], ['.'], out)])[0]
    details = dict(schema={f.name: print_file(f)[:8000] for f in files})
    if err:
        log.violation(f'no code generated: {err}', **details)
        return
    for fi in files:
        src = f'#include "{snake(fi.name)}.h"\n'
        n = 0
        for full, m in want[fi.name]['messages'].items():
            base = f'((struct {snake(full)}_t *)0)'
            rows = [(f, 4 if f[2] == 'map' else 2, f[-2]) for f in m['fields']]
            rows += [(f, 2, False) for o in m['oneofs'] for f in o[1]]
            for f, at, repeated in rows:
                kind, target = f[at], f[at + 1]
                if kind == 'scalar':
                    continue
                t = f'struct {snake(target)}_t' if kind == 'message' else f'enum {snake(target)}_e'
                x = f'{base}->{snake(f[0])}'
                if f[2] == 'map':
                    x += '.items_p->value_p[0]' if kind == 'message' else '.items_p->value'
                elif repeated:
                    if kind == 'enum':
                        # Kept as int32_t.
                        continue
                    x += '.items_p[0]'
                elif kind == 'message':
                    x += '_p[0]'
                src += (f'_Static_assert(__builtin_types_compatible_p(__typeof__({x}), {t}), '
                        f'"{full}.{f[0]} is {t}");\n')
                n += 1
        src += f'#include "{snake(fi.name)}.c"\n'
        path = os.path.join(out, f'probe_{fi.name}.c')
        with open(path, 'w') as f:
            f.write(src)
        r = sh(['gcc', '-std=c11', '-fsyntax-only', '-Wall', '-Werror', '-I', out,
                '-I', os.path.join(REPO, 'lib/include'), path])
        if r.rc != 0:
            log.violation(f'{fi.name}: generated code: {r.err[:600]}', **details)
            return
        log.count('type probes', n)
        log.count('files compiled')


def scope_job(log, spec):
    _, index, n, ncompile, nbad = spec
    if not proto.have_protoc():
        raise Inconclusive('no protoc')
    rng = log.rng('scope', index)
    work = []
    for k in range(n):
        files = []
        for i in range(rng.choice([1, 2, 2, 3, 4])):
            fi = File(f'f{i}' if rng.random() < 0.5 else f'f{i}_x', rng.choice(PACKAGES))
            fi.imports = [x for x in files if rng.random() < 0.7]
            files.append(fi)
        declare(rng, files)
        refs = {}
        for fi in files:
            refs[fi.name] = {}
            use(rng, files, fi, refs[fi.name])
        d = log.dir(f's{k}')
        bad = settle(log, d, files, refs)
        if bad is None:
            continue
        descs = {}
        for fi in files:
            desc, err = proto.protoc(d, [fi.name + '.proto'])
            descs[fi.name] = listify(model.from_desc(desc[fi.name + '.proto']))
        variants = []
        rng.shuffle(bad)
        for j, (fi, num, ref, why) in enumerate(bad[:nbad]):
            m, items, f, text = ref
            seen = {t.full for x in [fi] + fi.imports for t in x.all_messages() + x.all_enums()
                    if not getattr(t, 'map_entry', False)}
            scope = m.full.split('.')
            if text.startswith('.'):
                cand = {text[1:]}
            else:
                cand = {'.'.join(scope[:q] + [text]) for q in range(len(scope) + 1)}
            if cand & seen:
                log.count('references only protoc rejects')
                continue
            save = list(m.items)
            if f.is_map:
                m.items += [f.ref, f]
                t = print_file(fi)
            elif f.oneof is not None:
                keep = list(f.oneof.fields)
                f.oneof.fields[:] = [f]
                if f.oneof not in m.items:
                    m.items.append(f.oneof)
                t = print_file(fi)
                f.oneof.fields[:] = keep
            else:
                m.items.append(f)
                t = print_file(fi)
            m.items[:] = save
            with open(os.path.join(d, f'bad{j}.proto'), 'w') as out:
                out.write(t)
            variants.append((f'bad{j}.proto', text, why, t))
        work.append((d, files, refs, descs, variants))
    jobs = []
    for d, files, refs, descs, variants in work:
        jobs += [(d, fi.name + '.proto', ['.']) for fi in files]
        jobs += [(d, v[0], ['.']) for v in variants]
    models = iter(proto.parse(log, jobs))
    compiled = 0
    for d, files, refs, descs, variants in work:
        texts = {fi.name: print_file(fi)[:8000] for fi in files}
        good = True
        for fi in files:
            p = next(models)
            log.case(texts, {'file': fi.name, 'package': fi.package, 'references': len(refs[fi.name])})
            details = dict(schema=texts, file=fi.name)
            if 'error' in p:
                log.violation(f'{fi.name}: not parsed: {p["error"]}', **details)
                good = False
                continue
            before = log.counters.get('exact package first', 0)
            if not compare(log, files, fi, listify(model.from_parse(p, False)), descs[fi.name], refs[fi.name], details):
                good = False
            if log.counters.get('exact package first', 0) != before:
                good = False
            for x, imp in zip(p['imports'], fi.imports):
                if x['package'] != imp.package or x['abspath'] != os.path.join(d, imp.name + '.proto'):
                    log.violation(f'{fi.name}: import {x}', **details)
        for name, text, why, t in variants:
            p = next(models)
            log.case(t)
            log.count('undefined references')
            if 'not imported' in why:
                log.count('references to types that are not imported')
            if 'error' not in p:
                log.violation(f'undefined type {text!r} is accepted (protoc: {why})', schema=texts, file=t)
            elif 'is not defined' not in p['error'] or p['class'] != 'Error':
                log.violation(f'undefined type {text!r}: {p["class"]}: {p["error"]}', schema=texts, file=t)
        if good and compiled < ncompile and sum(map(len, refs.values())) > 4:
            compiled += 1
            type_probe(log, d, files, descs)
        shutil.rmtree(d, True)


def finding_job(log, spec):
    """The listed deviation, in its smallest form."""
    d = log.dir('f37')
    for name, text in (('one', 'package bar; message X { int32 a = 1; }'), ('two', 'package foo.bar; message X { int32 b = 1; }'),
                       ('top', 'package foo; import "one.proto"; import "two.proto"; message M { bar.X x = 1; }')):
        with open(os.path.join(d, name + '.proto'), 'w') as f:
            f.write('syntax = "proto3"; ' + text)
    p = proto.parse(log, [(d, 'top.proto', ['.'])])[0]
    got = p.get('error') or p['messages'][0]['fields'][0]['full_type']
    log.case('f37', {'bar.X in package foo': got})
    if got != 'foo.bar.X':
        log.violation(f'bar.X in package foo is bound to {got}, not to foo.bar.X', key=F37 if got == 'bar.X' else None)


# ------------------------------------------------------------- import paths

BASES = {'common.proto': 'Common', 'sub/other.proto': 'Other', 'CamelFile.proto': 'Camel', 'main2.proto': 'Main2',
         'proto3': 'Odd', ' lead.proto': 'Lead'}


def path_job(log, spec):
    _, index, n = spec
    rng = log.rng('paths', index)
    work = []
    for k in range(n):
        d = log.dir(f'p{k}')
        dirs = ['', 'one', 'two', 'one/inner', 'with space', 'three.d']
        files = list(BASES)
        where = {}
        for s in dirs:
            os.makedirs(os.path.join(d, s), exist_ok=True)
            for name in files:
                if rng.random() < 0.45:
                    where.setdefault(name, []).append(s)
        for name in files:
            base = BASES[name]
            for s in where.get(name, []):
                p = os.path.join(d, s, name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as f:
                    i = dirs.index(s)
                    kind = f'enum Marker{i} {{ {base}Zero{i} = 0; }}' if i % 2 else f'message Marker{i} {{ int32 v = {i + 1}; }}'
                    f.write(f'syntax = "proto3"; package {base.lower()}pkg; message {base} {{ int32 in{i} = 1; {kind} }}')
        # The command line: a random selection of paths.
        paths = [rng.choice(dirs + ['missing']) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 5, 9, 14]))]
        spelled = []
        for s in paths:
            rel = s or '.'
            spelled.append(rng.choice([rel, rel + '/', './' + rel, os.path.join(d, s), 'one/../' + rel]))
        chosen = {}
        for name in files:
            for s in paths + ['']:
                if s in where.get(name, []):
                    chosen[name] = s
                    break
        used = [x for x in files if rng.random() < 0.6 and x in chosen] or [x for x in files if x in chosen][:1]
        text = 'syntax = "proto3";\n'
        body = ''
        for q, name in enumerate(used):
            base = BASES[name]
            text += f'import {rng.choice(["", "", "weak "])}"{name}";\n'
            i = dirs.index(chosen[name])
            body += f'    {base.lower()}pkg.{base}.Marker{i} a{q} = {q + 1};\n    {base.lower()}pkg.{base} b{q} = {q + 51};\n'
        mdir = rng.choice(['', '', 'main', 'one/inner'])
        os.makedirs(os.path.join(d, mdir), exist_ok=True)
        main = os.path.join(mdir, 'the_main.proto')
        with open(os.path.join(d, main), 'w') as f:
            f.write(text + 'message Main {\n' + body + '}\n')
        # The same with one name that is not in the chosen file, and with a
        # file that is nowhere to be found.
        wrong = None
        for name in used:
            base = BASES[name]
            others = [dirs.index(s) for s in where[name] if s != chosen[name]]
            if others:
                wrong = os.path.join(mdir, 'the_wrong.proto')
                with open(os.path.join(d, wrong), 'w') as f:
                    f.write(text + f'message Main {{ {base.lower()}pkg.{base}.Marker{others[0]} a = 1; }}\n')
                break
        absent = [x for x in files if x not in chosen] + ['nowhere.proto', 'sub/common.proto', 'inner/common.proto', 'Common.proto']
        # A file that would be found relative to the importing file only.
        gone = rng.choice(absent)
        real = False
        for s in paths + ['']:
            real = real or os.path.exists(os.path.join(d, s, gone))
        lost = None
        if not real:
            lost = os.path.join(mdir, 'the_lost.proto')
            with open(os.path.join(d, lost), 'w') as f:
                f.write(text + f'import "{gone}";\nmessage Main {{\n{body}}}\n')
        # The first of the files of a name is no proto file.
        spoiled = None
        places = [s for s in dirs if rng.random() < 0.5]
        first = [s for s in paths + [''] if s in places][:1]
        for s in places:
            with open(os.path.join(d, s, 'spoiled.proto'), 'w') as f:
                f.write(rng.choice(['', '\n', 'message Spoiled {}\n', 'syntax = "proto3"\n', 'syntax = "proto3"; }\n'])
                        if s in first else 'syntax = "proto3"; message Spoiled {}\n')
        if first:
            spoiled = os.path.join(mdir, 'the_spoiled.proto')
            with open(os.path.join(d, spoiled), 'w') as f:
                f.write(text + 'import "spoiled.proto";\nmessage Main {\n' + body + '}\n')
        work.append((d, dirs, where, paths, spelled, used, chosen, main, wrong, lost, spoiled, gone))
    jobs = []
    for w in work:
        for name in w[7:11]:
            if name:
                jobs.append((w[0], name, w[4]))
    models = iter(proto.parse(log, jobs))
    for d, dirs, where, paths, spelled, used, chosen, main, wrong, lost, spoiled, gone in work:
        details = dict(files=where, paths=spelled, main=main)
        p = next(models)
        log.case((sorted(where.items()), spelled, main, used), {'paths': spelled, 'chosen': chosen})
        if 'error' in p:
            log.violation(f'import paths {spelled}: {p["error"]}', **details)
        else:
            for x, name in zip(p['imports'], used):
                want = os.path.join(d, chosen[name], name)
                log.count('imports found')
                log.count(f'found in path {(paths + [""]).index(chosen[name])}')
                if x['path'] != name or os.path.normpath(x['abspath']) != os.path.normpath(want):
                    log.violation(f'import paths {spelled}: {name} is {x["abspath"]}, not {want}', **details)
            if len(p['imports']) != len(used):
                log.violation(f'imports {p["imports"]}', **details)
        if wrong:
            p = next(models)
            log.case(('wrong', sorted(where.items()), spelled, main, used))
            if 'error' not in p:
                log.violation(f'import paths {spelled}: a type of a later file of the same name is found', **details)
        if lost:
            p = next(models)
            log.case(('lost', sorted(where.items()), spelled, main, used, gone))
            log.count('missing imports')
            if 'error' not in p or gone not in p['error'] or p['class'] != 'Error':
                log.violation(f'import paths {spelled}: missing file {gone}: {p.get("error")}', **details)
        if spoiled:
            p = next(models)
            log.case(('spoiled', sorted(where.items()), spelled, main, used))
            log.count('imports with errors')
            if 'error' not in p:
                log.violation(f'import paths {spelled}: spoiled.proto with errors is passed over', **details)
        if rng.random() < 0.3:
            # All generators, through the command line.
            flags = []
            for s in spelled:
                flags += ['-I', s]
            for cmd in ['generate_c_source'] + rng.choice([[], ['generate_rust_source'], ['generate_mys_source']]):
                o = os.path.join(d, 'out_' + cmd)
                os.makedirs(o)
                r = pbtools([cmd, '-o', o] + flags + [main], d)
                log.count('tool runs')
                if r.rc != 0 or not os.listdir(o):
                    log.violation(f'{cmd} {flags}: {r.err[-500:]}', **details)
                for bad in (wrong, lost, spoiled):
                    if bad:
                        o = os.path.join(d, 'bad_' + cmd + os.path.basename(bad))
                        os.makedirs(o)
                        r = pbtools([cmd, '-o', o] + flags + [bad], d)
                        log.count('tool runs')
                        if r.rc == 0 or os.listdir(o) or 'Traceback' in r.err:
                            log.violation(f'{cmd} {flags} {bad}: exit status {r.rc}, {os.listdir(o)}', **details)
        shutil.rmtree(d, True)


def dispatch(log, spec):
    {'scope': scope_job, 'paths': path_job, 'finding': finding_job}[spec[0]](log, spec)


def main(run):
    run.rule = ('one case is one file of a multi-file schema parsed with pbtools.parse_file (every reference of it compared '
                'with the binding protoc gives it), or one import path constellation; distinct by text')
    run.assumptions = ['files that protoc rejects because an inner scope hides the outer meaning may be accepted',
                       'public imports are not supported; files of one schema have different base names']
    n = run.scale(120, 500)
    specs = [('finding',)] + [('scope', i, n, run.scale(4, 40), 6) for i in range(16)]
    specs += [('paths', i, run.scale(32, 150)) for i in range(8)]
    run.jobs(dispatch, specs)
