"""G14: generated code through strict compilers. Monitored: exit status of the
generator, every diagnostic of gcc, g++, clang and clang++, the linker, and a
run of every generated entry point."""

import os
import shutil

from .. import proto, shapes
from ..common import REPO, pbtools, sh
from ..schema import File, Message, Oneof, Enum, Field, adopt, print_file

MIN_CASES = 60

CFLAGS = ['-Wall', '-Wextra', '-Wpedantic', '-Wmissing-prototypes', '-Wstrict-prototypes', '-Wredundant-decls', '-Wundef',
          '-Wshadow', '-Wvla', '-Wconversion', '-Wno-sign-conversion', '-Wfloat-equal', '-Wdouble-promotion', '-Wformat=2',
          '-Werror']
CXXFLAGS = ['-Wall', '-Wextra', '-Wpedantic', '-Wredundant-decls', '-Wundef', '-Werror']
VARIANTS = [('gcc', '-std=c11', '-O0'), ('clang', '-std=c11', '-O0'), ('gcc', '-std=c17', '-O2'), ('clang', '-std=c17', '-O2'),
            ('gcc', '-std=gnu11', '-Os'), ('clang', '-std=gnu17', '-O1')]
CXX = [('g++', '-std=c++11'), ('clang++', '-std=c++11'), ('g++', '-std=c++20'), ('clang++', '-std=c++17')]
INCLUDE = ['-I', os.path.join(REPO, 'lib/include')]


def user_code(rng, files, cxx):
    """A program that uses every message of all files."""
    order = [fi.c_name for fi in files]
    rng.shuffle(order)
    out = ''.join(f'#include "{n}.h"\n' for n in order + order)
    out += '#include <stdio.h>\n#include <string.h>\n\n'
    out += 'static unsigned char workspace[1 << 16];\nstatic unsigned char encoded[64];\n\n'
    out += 'int main(void)\n{\n    int failed = 0;\n\n    (void)workspace;\n    (void)encoded;\n\n'
    for fi in files:
        for m in fi.messages:
            out += (f'    {{\n        struct {m.c}_t *p = {m.c}_new(&workspace[0], sizeof(workspace));\n'
                    f'        if ((p == NULL) || ({m.c}_encode(p, &encoded[0], sizeof(encoded)) != 0)\n'
                    f'            || ({m.c}_decode(p, &encoded[0], 0) != 0)) {{\n'
                    f'            printf("{m.c}\\n");\n            failed++;\n        }}\n    }}\n')
    return out + '\n    return failed;\n}\n'


def compile_schema(log, files, rng, details, d, strict_pair, cxx):
    gen = os.path.join(d, 'gen')
    names = proto.write_files(d, files)
    if rng.random() < 0.2:
        args = ['generate_c_source', '-I', '.', '-o', 'gen'] + rng.choice([[], ['--enums-upper-case']]) + names
        r = pbtools(args, d)
        err = None if r.rc == 0 else r.err[-800:]
        log.count('tool runs')
    else:
        err = proto.generate(log, [(d, names, ['.'], gen)])[0]
    if err:
        log.violation(f'no code generated: {err}', **details)
        return False
    objs = []
    jobs = []
    for k, fi in enumerate(files):
        src = os.path.join(gen, fi.c_name + '.c')
        for n in (fi.c_name + '.h', fi.c_name + '.c'):
            if not os.path.exists(os.path.join(gen, n)):
                log.violation(f'{n} is missing', **details)
                return False
        for j, (cc, std, opt) in enumerate(strict_pair):
            obj = os.path.join(d, f'o{k}-{j}.o')
            jobs.append((f'{cc} {std} {fi.c_name}.c', [cc, std, opt, *CFLAGS, *INCLUDE, '-I', gen, '-c', src, '-o', obj]))
            if j == k % len(strict_pair):
                objs.append(obj)
        # The header alone, in C and in C++.
        for lang, cc, std, flags in (('c', strict_pair[k % 2][0], strict_pair[k % 2][1], CFLAGS),
                                     ('c++', cxx[0], cxx[1], CXXFLAGS)):
            alone = os.path.join(d, f'alone{k}.' + ('c' if lang == 'c' else 'cc'))
            with open(alone, 'w') as f:
                f.write(f'#include "{fi.c_name}.h"\n#include "{fi.c_name}.h"\nextern int unused;\n')
            jobs.append((f'{cc} {std} {fi.c_name}.h', [cc, std, *flags, *INCLUDE, '-I', gen, '-fsyntax-only', alone]))
    for lang, cc, std, flags in (('c', strict_pair[0][0], strict_pair[0][1], CFLAGS), ('c++', cxx[0], cxx[1], CXXFLAGS)):
        main = os.path.join(d, 'user.' + ('c' if lang == 'c' else 'cc'))
        with open(main, 'w') as f:
            f.write(user_code(rng, files, lang == 'c++'))
        jobs.append((f'{cc} {std} user code', [cc, std, *flags, *INCLUDE, '-I', gen, '-c', main, '-o', main + '.o']))
    for what, cmd in jobs:
        r = sh(cmd)
        log.count('compilations')
        log.count('compilations ' + cmd[0])
        if r.rc != 0 or r.err.strip():
            log.violation(f'{what}: {r.err[:900]}', **details)
            return False
    lib = os.path.join(d, 'pbtools.o')
    r = sh(['gcc', '-O1', *INCLUDE, '-c', os.path.join(REPO, 'lib/src/pbtools.c'), '-o', lib])
    if r.rc != 0:
        log.violation(f'pbtools.c: {r.err[:500]}')
        return False
    for main, ld in (('user.c', 'gcc'), ('user.cc', 'g++')):
        exe = os.path.join(d, main + '.exe')
        r = sh([ld, os.path.join(d, main + '.o'), *objs, lib, '-o', exe])
        log.count('links')
        if r.rc != 0 or r.err.strip():
            log.violation(f'linking {main}: {r.err[:900]}', **details)
            return False
        r = sh([exe], timeout=60)
        log.count('programs run')
        if r.rc != 0:
            log.violation(f'{main}: new, encode or decode of empty messages failed: {r.rc} {r.out[:300]}', **details)
            return False
    return True


def schema_job(log, spec):
    for index in spec[1]:
        rng = log.rng('g14', spec[0], index)
        files = shapes.files_of((spec[0], index), log.seed)
        texts = {fi.name: print_file(fi)[:10000] for fi in files}
        d = log.dir(f'{spec[0]}{index}')
        pair = [VARIANTS[0], VARIANTS[1]] if index % 2 == 0 else rng.sample(VARIANTS, 2)
        ok = compile_schema(log, files, rng, dict(kind=spec[0], schema=texts), d, pair, CXX[index % len(CXX)])
        log.case(repr(texts), {'kind': spec[0], 'files': list(texts), 'messages': sum(len(f.all_messages()) for f in files)})
        log.count(f'schemas {spec[0]}')
        log.count('messages', sum(len(f.all_messages()) for f in files))
        log.count('fields', sum(len(m.all_fields()) for f in files for m in f.all_messages()))
        if ok:
            log.count('schemas compiled, linked and run')
        shutil.rmtree(d, True)


def repo_job(log, spec):
    """The proto files of the repository."""
    base = os.path.join(REPO, 'tests/files')
    names = sorted(n for n in os.listdir(base) if n.endswith('.proto')) if os.path.isdir(base) else []
    for n in names:
        if n.startswith(('public_', 'importing')):
            continue
        d = log.dir('r' + n)
        err = proto.generate(log, [(base, [n], [base, os.path.join(base, 'imports')], d)])[0]
        if err is not None:
            # Files made to be rejected.
            log.count('files of the repository rejected')
            continue
        if not log.check(len(os.listdir(d)) == 2, f'{n}: {os.listdir(d)}'):
            continue
        src = [x for x in os.listdir(d) if x.endswith('.c')][0]
        with open(os.path.join(d, src.replace('.c', '.h'))) as f:
            if any(x not in ('pbtools.h',) for x in __import__('re').findall(r'#include "(.*)"', f.read())):
                continue
        for cc in ('gcc', 'clang'):
            r = sh([cc, '-std=c11', *CFLAGS, *INCLUDE, '-fsyntax-only', os.path.join(d, src)])
            log.count('compilations')
            if r.rc != 0 or r.err.strip():
                log.violation(f'{n}: {r.err[:900]}')
        log.case(n)
        log.count('files of the repository')


def finding(kind):
    m = Message('M')
    fi = File('finding', 'fin')
    if kind == 'F14-keyword-field':
        m.items = [Field('default', 1, 'int32')]
    elif kind == 'F14-base-field':
        m.items = [Field('base', 1, 'int32')]
    elif kind == 'F14-oneof-none':
        o = Oneof('pick')
        o.fields = [Field('none', 1, 'bool', oneof=o), Field('some', 2, 'int32', oneof=o)]
        m.items = [o]
    elif kind == 'F14-oneof-enum':
        e = Enum('Kind', [('ZERO', 0)])
        o = Oneof('kind')
        o.fields = [Field('some', 2, 'int32', oneof=o)]
        m.items = [e, o]
    fi.items = [m]
    adopt(fi)
    return fi


FINDINGS = {'F14-keyword-field': "'default'|before", 'F14-base-field': "duplicate member 'base'",
            'F14-oneof-none': "enumerator 'fin_m_pick_none_e'", 'F14-oneof-enum': "'enum fin_m_kind_e'"}


def finding_job(log, spec):
    """The listed name clashes, each in its smallest form."""
    for kind, want in FINDINGS.items():
        d = log.dir(kind)
        fi = finding(kind)
        names = proto.write_files(d, [fi])
        err = proto.generate(log, [(d, names, ['.'], d)])[0]
        log.case(kind)
        if err:
            log.violation(f'{kind}: {err}')
            continue
        r = sh(['gcc', '-std=c11', *INCLUDE, '-fsyntax-only', os.path.join(d, fi.c_name + '.c')])
        if r.rc != 0:
            same = any(w in r.err.replace('‘', "'").replace('’', "'") for w in want.split('|'))
            log.violation(f'{kind}: {r.err[:500]}', key=kind if same else None, schema=print_file(fi))


def dispatch(log, spec):
    {'repo': repo_job, 'finding': finding_job}.get(spec[0], schema_job)(log, spec)


def main(run):
    run.rule = ('one case is one generated schema compiled (C11/C17 by gcc and clang, headers also alone and in C++), linked '
                'and run; distinct by the text of its files')
    run.assumptions = ['two declarations of one scope do not become the same C name (fooBar and foo_bar, A.B and AB)',
                       'names are no C or C++ keywords and no predefined macros, apart from the listed findings']
    n = run.scale(96, 700)
    specs = [('repo',), ('finding',)] + [('special', [i]) for i in range(len(shapes.SPECIAL))] + [('kitchen', [0])]
    for kind, k in (('odd', n), ('order', n // 2), ('random', n // 2), ('decorated', n // 2)):
        specs += [(kind, list(range(i, k, 8))) for i in range(8)]
    run.jobs(dispatch, specs)
