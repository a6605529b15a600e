"""G16: the generators run again and again in different contexts. Output bytes
are compared with those of a reference run; an audit hook and snapshots of the
file system watch what is read and written."""

import os
import shutil

from .. import proto, schema
from ..common import PY, REPO, VERIF, sh
from ..schema import snake

MIN_CASES = 60

AUDIT = os.path.join(VERIF, 'vf', 'audit')
LANGUAGES = {'c': ('generate_c_source', ('.h', '.c')), 'rust': ('generate_rust_source', ('.rs',)),
             'mys': ('generate_mys_source', ('.mys',))}


def snapshot(d):
    """Everything below d: type, size, content and modification time."""
    out = {}
    for root, dirs, files in os.walk(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            st = os.lstat(p)
            if os.path.islink(p):
                x = os.readlink(p)
            elif os.path.isfile(p):
                with open(p, 'rb') as f:
                    x = f.read()
            else:
                x = None
                st = None
            out[os.path.relpath(p, d)] = (x, st and st.st_mtime_ns, st and st.st_mode)
    return out


class Context:
    """One invocation of the tool."""

    def __init__(self, log, base, files, names):
        self.log, self.base, self.files, self.names = log, base, files, names
        self.n = 0

    def run(self, lang, args, cwd, outdir, env=None, python=()):
        self.n += 1
        log = os.path.join(self.base, f'audit{self.n}')
        e = {'PYTHONPATH': AUDIT + ':' + REPO, 'VF_AUDIT': log, 'PYTHONHASHSEED': str((self.n - 1) * 7919)}
        e.update(env or {})
        r = sh([PY, *python, '-m', 'pbtools', LANGUAGES[lang][0]] + args, cwd=cwd, env=e, timeout=120)
        events = []
        if os.path.exists(log):
            with open(log, encoding='utf-8', errors='surrogateescape') as f:
                events = [line.rstrip('\n').split('\t', 1) for line in f]
            os.remove(log)
        return r, events


def audit(events, outdir, inputs):
    """What the audit log shows outside of the contract."""
    out = os.path.realpath(outdir)
    for kind, path in events:
        real = os.path.realpath(path)
        inside = real == out or real.startswith(out + '/')
        if kind == 'read' or path.startswith('/dev/'):
            continue
        if kind in ('os.chdir', 'os.putenv', 'os.fork'):
            continue
        if kind == 'os.mkdir' and (inside or out.startswith(real + '/')):
            continue
        if kind in ('write', 'os.rename', 'os.remove', 'os.chmod', 'os.utime', 'shutil.move', 'os.truncate') and inside \
                and real not in inputs:
            continue
        yield f'{kind} {path}'


def job(log, spec):
    kind, index, lang, ncontexts = spec
    rng = log.rng('g16', kind, index, lang)
    base = log.dir('g16')
    src = os.path.join(base, 'in')
    os.makedirs(src)
    if kind == 'address_book':
        name = 'address_book.proto'
        shutil.copy(os.path.join(REPO, 'tests/files', name), src)
        names, stems = [name], ['address_book']
        ordered = True
    else:
        files = schema.random_schema(f'g16/{log.seed}/{index}', files=rng.choice([2, 3, 4]), max_fields=6)
        proto.decorate(files, rng, custom=True)
        if rng.random() < 0.3:
            files[0].name = rng.choice(['MixedCaseName', 'with-dash', 'with.dot', 'aB1', 'UPPER'])
        names = proto.write_files(src, files)
        stems = [snake(fi.name.replace('-', '_').replace('.', '_')) for fi in files]
        ordered = False
    extra = ['--enums-upper-case'] if lang == 'c' and rng.random() < 0.3 else []
    for n in names:
        os.utime(os.path.join(src, n), (1700000000, 1700000000))
    expected = sorted(s + x for s in stems for x in LANGUAGES[lang][1])
    inputs = {os.path.join(src, n) for n in names}
    before = snapshot(src)
    cx = Context(log, base, names, stems)

    ref = os.path.join(base, 'ref')
    os.makedirs(ref)
    r, events = cx.run(lang, extra + ['-I', src, '-o', ref] + [os.path.join(src, n) for n in names], base, ref)
    details = dict(schema={n: before[n][0].decode()[:8000] for n in names}, language=lang)
    if r.rc != 0:
        if lang == 'c':
            log.violation(f'generation fails: {r.err[-500:]}', **details)
            return
        log.count(f'schemas {lang} rejects')
        # Still the same answer everywhere.
    want = proto.outputs(ref)
    if r.rc == 0 and sorted(want) != expected:
        log.violation(f'{lang}: output files {sorted(want)} instead of {expected}', **details)
        return

    def check(what, r2, events, outdir, got=None, keep=()):
        log.case((kind, index, lang, what), {'language': lang, 'context': what, 'files': expected})
        log.count(f'runs {lang}')
        log.count('audit events', len(events))
        for text in audit(events, outdir, inputs):
            log.violation(f'{lang}, {what}: touches {text}', **details)
            return
        if (r2.rc == 0) != (r.rc == 0):
            log.violation(f'{lang}, {what}: exit status {r2.rc} instead of {r.rc}: {r2.err[-500:]}', **details)
            return
        got = proto.outputs(outdir) if got is None else got
        if r.rc == 0:
            if sorted(got) != sorted(want) + sorted(keep):
                if sorted(got) != sorted(list(want) + list(keep)):
                    log.violation(f'{lang}, {what}: files {sorted(got)} instead of {sorted(list(want) + list(keep))}',
                                  **details)
                    return
            for n in want:
                if got[n] != want[n]:
                    log.violation(f'{lang}, {what}: {n} differs from the reference run', got=got[n].decode('utf-8', 'replace')[:20000],
                                  want=want[n].decode('utf-8', 'replace')[:20000], **details)
                    return
            log.count('bytes compared', sum(map(len, want.values())))
        if snapshot(src) != before:
            log.violation(f'{lang}, {what}: inputs were changed', **details)

    def out(k):
        d = os.path.join(base, f'out{k}')
        os.makedirs(d)
        return d

    absn = [os.path.join(src, n) for n in names]
    contexts = []

    def context(f):
        contexts.append(f)
        return f

    @context
    def hash_seed(k):
        s = rng.choice(['random', '1', '2', '3', '12345', str(rng.randrange(1 << 32))])
        o = out(k)
        r2, ev = cx.run(lang, extra + ['-I', src, '-o', o] + absn, base, o, {'PYTHONHASHSEED': s})
        check(f'PYTHONHASHSEED={s}', r2, ev, o)

    @context
    def relative(k):
        o = out(k)
        cwd = os.path.join(base, f'cwd{k}', 'deep')
        os.makedirs(cwd)
        rel = [os.path.relpath(p, cwd) for p in absn]
        r2, ev = cx.run(lang, extra + ['-I', os.path.relpath(src, cwd), '-o', os.path.relpath(o, cwd)] + rel, cwd, o)
        if os.listdir(cwd):
            log.violation(f'{lang}: {os.listdir(cwd)} written to the working directory', **details)
        check('relative paths', r2, ev, o)

    @context
    def in_source_dir(k):
        o = out(k)
        args = extra + (['-I', '.'] if rng.random() < 0.5 else []) + ['-o', o] + \
            [rng.choice(['', './', '././']) + n for n in names]
        r2, ev = cx.run(lang, args, src, o)
        check('run in the input directory', r2, ev, o)

    @context
    def default_output(k):
        o = out(k)
        r2, ev = cx.run(lang, extra + ['-I', src] + absn, o, o)
        check('default output directory', r2, ev, o)

    @context
    def locale(k):
        o = out(k)
        e = rng.choice([{'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'POSIX', 'LANG': 'C'},
                        {'PYTHONIOENCODING': 'latin-1'}, {'LC_ALL': 'sv_SE.UTF-8', 'LANG': 'tr_TR.UTF-8'},
                        {'TZ': 'Asia/Tokyo', 'LANGUAGE': 'de'}, {'LC_ALL': None, 'LANG': None, 'LANGUAGE': None}])
        r2, ev = cx.run(lang, extra + ['-I', src, '-o', o] + absn, base, o, e)
        check(f'environment {sorted(e)}', r2, ev, o)

    @context
    def environment(k):
        o = out(k)
        h = os.path.join(base, f'home{k}')
        os.makedirs(h)
        e = rng.choice([{'HOME': h, 'USER': 'x', 'TMPDIR': h}, {'COLUMNS': '20', 'TERM': 'dumb'}, {'SOURCE_DATE_EPOCH': '0'},
                        {'HOME': None, 'PATH': '/nonexistent'}, {'PYTHONOPTIMIZE': '2'}])
        r2, ev = cx.run(lang, extra + ['-I', src, '-o', o] + absn, base, o, e)
        if os.listdir(h):
            log.violation(f'{lang}: {os.listdir(h)} written to the home directory', **details)
        check(f'environment {sorted(e)}', r2, ev, o)

    @context
    def interpreter(k):
        o = out(k)
        p = rng.choice([['-O'], ['-OO'], ['-X', 'dev'], ['-X', 'utf8=0'], ['-s'], ['-B', '-u']])
        r2, ev = cx.run(lang, extra + ['-I', src, '-o', o] + absn, base, o, python=p)
        check(f'interpreter {p}', r2, ev, o)

    @context
    def order(k):
        o = out(k)
        a = list(absn)
        rng.shuffle(a)
        if rng.random() < 0.3:
            a.append(rng.choice(a))
        r2, ev = cx.run(lang, extra + ['-I', src, '-o', o] + a, base, o)
        check(f'input order {[os.path.basename(x) for x in a]}', r2, ev, o)

    @context
    def one_by_one(k):
        o = out(k)
        a = list(absn)
        rng.shuffle(a)
        evs = []
        for x in a:
            r2, ev = cx.run(lang, extra + ['-I', src, '-o', o, x], base, o)
            evs += ev
            if r2.rc != 0:
                break
        check('one by one', r2, evs, o)

    @context
    def subset(k):
        # A single file gives exactly its own outputs.
        o = out(k)
        i = rng.randrange(len(absn))
        r2, ev = cx.run(lang, extra + ['-I', src, '-o', o, absn[i]], base, o)
        if r.rc != 0:
            return
        got = proto.outputs(o)
        mine = {n: x for n, x in want.items() if n.rsplit('.', 1)[0] == stems[i]}
        log.case((kind, index, lang, 'single', i))
        if r2.rc != 0 or got != mine:
            log.violation(f'{lang}: {names[i]} alone gives {sorted(got)} or other content', **details)
        for text in audit(ev, o, inputs):
            log.violation(f'{lang}: touches {text}', **details)

    def same_size(x):
        # Another content of the same size: one byte, one word or all changed.
        if not x:
            return x
        i = rng.choice([0, len(x) - 1, len(x) // 2, rng.randrange(len(x))])
        return rng.choice([x[:i] + bytes([x[i] ^ 1]) + x[i + 1:], b'#' * len(x), x[::-1]])

    @context
    def only_some(k):
        # Some of the files are as they will be, the others are not: as after
        # a change of the schema that does not show in all files.
        o = out(k)
        for n in expected:
            x = want.get(n, b'x')
            with open(os.path.join(o, n), 'wb') as f:
                f.write(rng.choice([x, x, same_size(x), x[:100], x + b'\n', x.replace(b'1', b'2')]))
        r2, ev = cx.run(lang, extra + ['-I', src, '-o', o] + absn, base, o)
        check('output directory in which some files are up to date', r2, ev, o)

    @context
    def stale(k):
        o = out(k)
        other = {'other.h': b'#error', 'README': b'keep me'}
        for n in expected:
            with open(os.path.join(o, n), 'wb') as f:
                f.write(rng.choice([b'', b'garbage\n' * 50000, want.get(n, b'x')[:100], want.get(n, b'') * 2,
                                    same_size(want.get(n, b'x')), same_size(want.get(n, b'x'))]))
            if rng.random() < 0.5:
                # Older or newer than the inputs.
                t = rng.choice([1, 4000000000])
                os.utime(os.path.join(o, n), (t, t))
        for n, x in other.items():
            with open(os.path.join(o, n), 'wb') as f:
                f.write(x)
        r2, ev = cx.run(lang, extra + ['-I', src, '-o', o] + absn, base, o)
        got = proto.outputs(o)
        for n, x in other.items():
            if got.get(n) != x:
                log.violation(f'{lang}: unrelated file {n} in the output directory changed', **details)
        check('stale output directory', r2, ev, o, keep=list(other))

    @context
    def killed(k):
        # Killed before one of its changes of the file system, then again.
        o = out(k)
        changes = [p for kind, p in events if kind != 'read' and not p.startswith('/dev/')]
        stop = rng.randrange(1, len(changes) + 2)
        r1, _ = cx.run(lang, extra + ['-I', src, '-o', o] + absn, base, o, {'VF_STOP': str(stop)})
        log.count('runs killed' if r1.rc == -9 else 'runs not killed')
        r2, ev = cx.run(lang, extra + ['-I', src, '-o', o] + absn, base, o)
        for n in set(os.listdir(o)) - set(expected):
            os.remove(os.path.join(o, n))
        check('after a run that was killed', r2, ev, o)

    @context
    def no_space(k):
        # One of the files cannot be written: never a success without it.
        o = out(k)
        n = rng.choice(expected)
        fault = rng.choice(['full', 'full', 'directory'])
        if fault == 'full':
            os.symlink('/dev/full', os.path.join(o, n))
        else:
            os.makedirs(os.path.join(o, n, 'x'))
        r2, ev = cx.run(lang, extra + ['-I', src, '-o', o] + absn, base, o)
        log.case((kind, index, lang, 'fault', fault, n), {'language': lang, 'fault': fault, 'file': n, 'stderr': r2.err[:200]})
        if r2.rc == 0:
            p = os.path.join(o, n)
            if os.path.islink(p) or os.path.isdir(p) or proto.outputs(o) != want:
                log.violation(f'{lang}: success although {n} could not be written ({fault})', **details)
        elif r.rc == 0:
            log.count('write faults reported')
            if not r2.err.strip() or 'Traceback' in r2.err or r2.rc < 0:
                log.violation(f'{lang}: {n} could not be written ({fault}): {r2.err[-500:]!r}, exit status {r2.rc}', **details)
        if snapshot(src) != before:
            log.violation(f'{lang}: inputs were changed', **details)

    @context
    def again(k):
        o = out(k)
        for _ in range(2):
            r2, ev = cx.run(lang, extra + ['-I', src, '-o', o] + absn, base, o, {'PYTHONHASHSEED': 'random'})
        check('twice into one directory', r2, ev, o)

    @context
    def new_output(k):
        if lang != 'c':
            return
        o = os.path.join(base, f'out{k}', 'a', 'b c', 'd')
        r2, ev = cx.run(lang, extra + ['-I', src, '-o', o] + absn, base, o)
        check('new output directory', r2, ev, o)

    @context
    def output_forms(k):
        o = out(k)
        form = rng.choice([o + '/', o + '//', os.path.join(o, '.'), os.path.join(o, '..', os.path.basename(o))])
        args = rng.choice([['-o', form], ['--output-directory', form], ['--output-directory=' + form], ['-o' + form]])
        r2, ev = cx.run(lang, extra + absn + args + ['-I', src + '/'], base, o)
        check(f'output given as {args[0][:12]}', r2, ev, o)

    @context
    def symlinks(k):
        o = out(k)
        link = os.path.join(base, f'link{k}')
        os.symlink(src, link)
        r2, ev = cx.run(lang, extra + ['--import-path', link, '-o', o] + [os.path.join(link, n) for n in names], base, o)
        check('input through a symbolic link', r2, ev, o)

    @context
    def import_paths(k):
        o = out(k)
        empty = os.path.join(base, f'empty{k}')
        os.makedirs(empty)
        r2, ev = cx.run(lang, extra + ['-I', empty, '-I', src, '-I', '/nonexistent', '-o', o] + absn, base, o)
        check('more import paths', r2, ev, o)

    @context
    def moved(k):
        # The same inputs elsewhere, with other dates and modes.
        o = out(k)
        d = os.path.join(base, f'moved {k} å')
        shutil.copytree(src, d)
        for n in names:
            os.utime(os.path.join(d, n), (1, 1))
            os.chmod(os.path.join(d, n), rng.choice([0o400, 0o600, 0o755]))
        r2, ev = cx.run(lang, extra + ['-I', d, '-o', o] + [os.path.join(d, n) for n in names], base, o)
        check('inputs moved', r2, ev, o)

    rng.shuffle(contexts)
    for k, f in enumerate(contexts[:ncontexts]):
        f(k)
    assert ordered is not None
    shutil.rmtree(base, True)


def job_dirs(log, spec):
    """Input files in several directories, with files of the names they import
    lying around: what a file gives depends on itself and the import path."""
    kind, index, lang, ncontexts = spec
    rng = log.rng('g16', kind, index, lang)
    base = log.dir('g16')
    commons = [f'common{i}.proto' for i in range(rng.choice([1, 2, 3]))]
    incs = [os.path.join(base, 'tree', f'inc{i}') for i in range(rng.choice([1, 2]))]
    dirs = [os.path.join(base, 'tree', f'dir{i}') for i in range(rng.choice([2, 3, 4]))]
    decoys = 0

    def common(i, tag):
        return (f'syntax = "proto3";\npackage common{i};\n// {tag}\n' +
                rng.choice(['message C { int32 x = 1; }\nenum E { Z = 0; }\n', 'enum C { Z = 0; }\nmessage E { bool y = 1; }\n',
                            'message C { message C { } }\nmessage E { C c = 1; }\n']))

    for d in incs + dirs:
        os.makedirs(d)
        for i, n in enumerate(commons):
            if rng.random() < 0.6 or (d == incs[-1]):
                with open(os.path.join(d, n), 'w') as f:
                    f.write(common(i, d))
                decoys += d in dirs
    inputs = []
    for i, d in enumerate(dirs):
        use = rng.sample(range(len(commons)), rng.randrange(1, len(commons) + 1))
        text = f'syntax = "proto3";\npackage p{i};\n' + ''.join(f'import "{commons[j]}";\n' for j in use)
        text += 'message M {\n' + ''.join(
            f'    common{j}.C c{j} = {2 * j + 1};\n    repeated common{j}.E e{j} = {2 * j + 2};\n' for j in use) + '}\n'
        inputs.append(os.path.join(d, f'file{i}.proto'))
        with open(inputs[-1], 'w') as f:
            f.write(text)
    cx = Context(log, base, None, None)
    tree = os.path.join(base, 'tree')
    before = snapshot(tree)
    paths = [x for d in incs for x in ('-I', d)]
    details = dict(schema={n: v[0].decode() for n, v in before.items() if v[0]}, language=lang)
    want = {}
    away = os.path.join(base, 'away')
    os.makedirs(away)
    number = [0]

    def go(args, cwd, env=None):
        number[0] += 1
        o = os.path.join(base, f'o{number[0]}')
        os.makedirs(o)
        r, events = cx.run(lang, ['-o', o] + args, cwd, o, env)
        for text in audit(events, o, set(inputs)):
            log.violation(f'{lang}: touches {text}', **details)
        return r, o

    for i in inputs:
        r, o = go(paths + [i], away)
        want[i] = proto.outputs(o) if r.rc == 0 else None
        if r.rc != 0 and lang == 'c':
            log.violation(f'{lang}: {i} alone is rejected: {r.err[-500:]}', **details)
            return
    if any(x is None for x in want.values()):
        log.count(f'schemas {lang} rejects')
        return

    def compare(what, got, chosen):
        log.case((kind, index, lang, what), {'language': lang, 'context': what, 'decoys': decoys})
        expected = {n: x for i in chosen for n, x in want[i].items()}
        if sorted(got) != sorted(expected):
            log.violation(f'{lang}, {what}: files {sorted(got)} instead of {sorted(expected)}', **details)
        for n in expected:
            if n in got and got[n] != expected[n]:
                log.violation(f'{lang}, {what}: {n} differs from the one generated alone', got=got[n].decode()[:20000],
                              want=expected[n].decode()[:20000], **details)
                return
        log.count('bytes compared', sum(map(len, expected.values())))
        if snapshot(tree) != before:
            log.violation(f'{lang}, {what}: inputs were changed', **details)

    for k in range(ncontexts):
        chosen = rng.sample(inputs, rng.randrange(2, len(inputs) + 1))
        how = rng.choice(['absolute', 'relative', 'repeated'])
        given, cwd, p = chosen, away, paths
        if how == 'relative':
            cwd = rng.choice([away, base, tree])
            given = [os.path.relpath(x, cwd) for x in chosen]
            p = [x if x == '-I' else os.path.relpath(x, cwd) for x in paths]
        elif how == 'repeated':
            given = chosen + [rng.choice(chosen)]
        r, o = go(p + given, cwd, {'PYTHONHASHSEED': str(k)})
        what = f'{how} inputs of several directories {[os.path.basename(x) for x in given]}'
        log.count(f'runs {lang}')
        if r.rc != 0:
            log.violation(f'{lang}, {what}: {r.err[-500:]}', **details)
            continue
        compare(what, proto.outputs(o), chosen)

    if lang == 'c':
        # The same process generates again and again.
        jobs, plans = [], []
        for k in range(2 * ncontexts):
            chosen = rng.sample(inputs, rng.randrange(1, len(inputs) + 1))
            o = os.path.join(base, f'p{k}')
            if rng.random() < 0.4:
                other = os.path.join(base, f'n{k}')
                ps = list(dirs)
                rng.shuffle(ps)
                ps += incs
                jobs.append((away, chosen, ps, other))
            jobs.append((away, chosen, list(incs), o))
            plans.append((chosen, o, len(jobs) - 1))
        results = proto.generate(log, jobs)
        for chosen, o, j in plans:
            if results[j] is not None:
                log.violation(f'generate_files in a process that generated before: {results[j]}', **details)
                continue
            compare(f'one process {[os.path.basename(x) for x in chosen]}', proto.outputs(o), chosen)
    shutil.rmtree(base, True)


def main(run):
    run.rule = ('one case is one run of a generator in another context than the reference run on the same inputs; '
                'distinct by inputs, language and context')
    run.assumptions = ['base names of the input files differ', 'the Python interpreter reports file access to audit hooks']
    n = run.scale(48, 240)
    k = run.scale(11, 20)
    specs = []
    for i in range(n):
        for lang in ('c', 'c', 'rust', 'mys') if i % 4 == 0 else ('c',):
            specs.append(('random', f'{i}{len(specs) % 2}', lang, k))
    specs += [('address_book', 0, lang, 20) for lang in LANGUAGES]
    run.jobs(job, specs)
    run.jobs(job_dirs, [('directories', i, ('c', 'c', 'rust', 'mys')[i % 4], k) for i in range(run.scale(40, 240))])
