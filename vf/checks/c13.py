"""The same steps in builds by different compilers, optimisation levels and
configurations."""

import os

from .. import common, glue, rt, values, wire, work
from ..common import BuildError, sh
from .c04 import hostile

MIN_CASES = 1000
QUICK = ['gcc-O0', 'gcc-O2', 'gcc-O3', 'gcc-Os', 'gcc-lto', 'gcc-c11', 'clang-O0', 'clang-O2', 'clang-Oz']
ALL = [f for f in rt.FLAVORS if f.startswith(('gcc-', 'clang-'))]
NO_FLOAT = ('-DPBTOOLS_CONFIG_FLOAT=0',)


def integers_only(files):
    for fi in files:
        for m in fi.all_messages():
            for f in m.all_fields():
                f.type = {'float': 'fixed32', 'double': 'fixed64'}.get(f.type, f.type)
    return files


def transcript(log, u, spec):
    rng = log.rng('transcript', spec)
    ops, who = [], []
    for i, m, v in work.messages(log, u, spec, log.scale(12, 40), boundary=log.scale(40, None)):
        n = len(wire.encode(m, v))
        room = work.room(m, v)
        o = dict(off=rng.randrange(8), poison=0x41)
        ops.append(rt.op_build(i, [glue.value_ops(m, v, rng)], ws=room, ws2=room,
                               cap=n + rng.choice([0, 30, -1 if n else 0]), **o))
        data = wire.Alt(rng).message(m, v)
        ops.append(rt.op_decode(i, data, ws=room + 16 * len(data), cap=n + len(data) + 64, **o))
        ops.append(rt.op_decode(i, hostile(rng, m), ws=rng.choice([1 << 15, rng.randrange(2000)]), cap=1 << 15, **o))
        who += [m] * 3
        if n < 80 and rng.random() < 0.3:
            ops.append(rt.op_encsweep(i, glue.value_ops(m, v, rng), 0, n + 4, ws=room, cap=n))
            ops.append(rt.op_wssweep(i, 0, wire.encode(m, v), 0, room, max(1, room // 60), **o))
            who += [m] * 2
    # Error names.
    for c in list(range(-12, 13)):
        ops.append(rt.head(7, 0, c))
        who.append(u.entries[0])
    return ops, who


def compare(log, u, spec, builds):
    ops, who = transcript(log, u, spec)
    agree(log, u, ops, who, builds)


def agree(log, u, ops, who, builds):
    ref, ref_name = None, None
    for flavor, extra in builds:
        name = ' '.join((flavor,) + extra)
        res = u.execute(ops, flavor, extra)
        log.count('builds')
        log.count(f'operations in {name}', len(ops))
        if ref is None:
            ref, ref_name = res, name
        for op, m, a, b in zip(ops, who, ref, res):
            log.case((m.full, op, name))
            if a is None or b is None:
                continue
            ca, cb = isinstance(a, rt.Crash), isinstance(b, rt.Crash)
            if ca or cb:
                log.violation(f'{m.full}: {name if cb else ref_name}: {b if cb else a}',
                              **work.context(u, m, operation=op.hex()[:20000]))
                break
            if a != b:
                log.violation(f'{m.full}: results of {ref_name} and {name} differ',
                              **work.context(u, m, operation=op.hex()[:20000], one=a.hex()[:4000], other=b.hex()[:4000]))
                break
    log.sample({'schema': [fi.name for fi in u.files], 'operations': len(ops),
                'builds': [' '.join((f,) + e) for f, e in builds]})


def optimisation(log, spec):
    u = work.unit(log, spec)
    compare(log, u, spec, [(f, ()) for f in log.scale(QUICK, ALL)])


def narrow(log, spec):
    """32-bit against 64-bit targets: everything but how much memory
    messages take."""
    u = work.unit(log, spec)
    if not work.narrow(log, u):
        return
    rng = log.rng('narrow', spec)
    ops, who = [], []
    for i, m, v in work.messages(log, u, spec, log.scale(12, 40), boundary=log.scale(25, 200), big=False):
        n = len(wire.encode(m, v))
        ops.append(rt.op_build(i, [glue.value_ops(m, v, rng)], ws=work.room(m, v), ws2=work.room(m, v),
                               cap=n + rng.choice([0, 30, -1 if n else 0]), poison=0x41))
        data = hostile(rng, m) if rng.random() < 0.5 else wire.Alt(rng).message(m, v)
        ops.append(rt.op_decode(i, data, ws=1 << 20, cap=n + len(data) + 64, poison=0x41))
        ops.append(rt.op_encsweep(i, glue.value_ops(m, v, rng), 0, min(n + 4, 60), ws=work.room(m, v), cap=n + 9))
        who += [m] * 3
    agree(log, u, ops, who, [('gcc-O1', ()), ('m32', ())])


def no_float(log, spec):
    u = rt.Unit(log, integers_only(work.files_of(spec))).generate()
    log.count('schemas')
    builds = [('gcc-O2', ()), ('gcc-O2', NO_FLOAT), ('clang-O1', NO_FLOAT), ('gcc-O0', NO_FLOAT)]
    compare(log, u, spec, builds)


def library(log, _):
    d = log.dir('lib')
    for cc in ('gcc', 'clang'):
        for value in ('0', '1'):
            for opt in ('-O0', '-O2', '-Os'):
                r = sh([cc, '-std=gnu11', opt, '-w', '-DPBTOOLS_CONFIG_FLOAT=' + value,
                        '-I' + os.path.join(common.REPO, 'lib/include'), '-c',
                        os.path.join(common.REPO, 'lib/src/pbtools.c'), '-o', os.path.join(d, 'x.o')])
                log.case(('library', cc, value, opt))
                log.count('library builds')
                if r.rc != 0:
                    log.violation(f'the runtime does not compile: {cc} {opt} PBTOOLS_CONFIG_FLOAT={value}: {r.err[:800]}')


def run_any(log, spec):
    globals()[spec[0]](log, spec[1])


def main(run):
    run.rule = ('one case per operation and build; results (contents, encodings, codes, monitors) equal to those of '
                'the first build')
    run.assumptions = ['little-endian x86 targets, 64 and 32 bits']
    jobs = [('library', 0)]
    for s in work.specs(run, run.scale(7, 40)):
        jobs.append(('optimisation', s))
        jobs.append(('narrow', s))
        if s != ('kitchen',):
            jobs.append(('no_float', s))
    jobs.append(('no_float', ('kitchen',)))
    run.jobs(run_any, jobs)
