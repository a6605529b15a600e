"""Hostile input under sanitizers: damaged encodings, random bytes and
coverage guided fuzzing, at every workspace size."""

import os
import re

from .. import bigsize, faults, glue, rt, values, wire, work
from ..common import Inconclusive, sh
from .c05 import damage

MIN_CASES = 2000


def hostile(rng, m):
    """One hostile input for message m."""
    alt = wire.Alt(rng)
    k = rng.random()
    if k < 0.1:
        return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 20, 60])))
    v = values.gen(rng, m, depth=3, budget=40, big=rng.random() < 0.2)
    if k < 0.3:
        path, target = faults.paths(rng, m, rng.randrange(4))
        return faults.plant(rng, m, values.gen(rng, m, depth=2, budget=20, big=False), alt,
                            rng.choice(faults.faults(rng, target)), path)
    data = alt.message(m, v)
    if k < 0.45:
        return data
    if k < 0.6:
        # Many packed and repeated records of one field.
        fs = [f for f in m.all_fields() if f.repeated]
        if fs:
            f = rng.choice(fs)
            out = b''
            for _ in range(rng.randrange(1, 40)):
                wt = rng.choice([wire.wire_type(f), 2])
                p = rng.choice([b'', b'\x01', b'\x80\x01', b'\1' * 4, b'\1' * 7, b'\1' * 8, b'\1' * 9, b'\1' * 24])
                if wt == 2:
                    p = wire.varint(len(p) if rng.random() < 0.9 else rng.randrange(200)) + p
                out += wire.tag(f.number, wt) + p
            return damage(rng, out) if rng.random() < 0.3 else out
    return damage(rng, data)


def job(log, spec):
    spec, flavor = spec
    u = work.unit(log, spec)
    if flavor == 'm32' and not work.narrow(log, u):
        return
    rng = log.rng('job', spec, flavor)
    cases = []
    for i, m in enumerate(u.entries):
        for _ in range(log.scale(160, 1000)):
            data = hostile(rng, m)
            ws = rng.choice([rng.randrange(0, 300), rng.randrange(0, 3000), 1 << 14, 1 << 16])
            cases.append((i, m, data, ws, rng.randrange(16)))
    ops = [rt.op_decode(i, data, ws=ws, cap=rng.choice([0, len(data), 2 * len(data) + 4096]), off=off,
                        poison=rng.choice([0xff, 0x5a, 0x41])) for i, m, data, ws, off in cases]
    for (i, m, data, ws, off), raw in zip(cases, u.execute(ops, flavor)):
        log.case((m.full, data, ws))
        if work.crashed(log, u, m, raw, data=data, workspace=ws, offset=off, flavor=flavor):
            continue
        r = rt.Decoded(raw)
        if r.new and not (r.rc == len(data) or -8 <= r.rc <= -1 and r.rc != -4):
            log.violation(f'{m.full}: decode of {len(data)} bytes returned {r.rc}',
                          **work.context(u, m, data=data, workspace=ws))
        log.count('no room for the message' if not r.new else 'accepted' if r.rc >= 0 else f'rejected {r.rc}')
        work.watch(log, u, m, r.mon, data=data, workspace=ws, offset=off)
        if r.new and r.rc > 4 and len(data) < 30:
            log.sample({'message': m.full, 'input': data.hex(), 'workspace': ws, 'result': r.rc})


def fuzz(log, spec):
    spec, part, runs, seconds = spec
    u = work.unit(log, spec)
    exe = u.build('fuzz')
    rng = log.rng('fuzz', spec, part)
    corpus = os.path.join(u.dir, 'corpus')
    art = os.path.join(u.dir, 'art')
    os.makedirs(corpus)
    os.makedirs(art)
    n = 0
    for i, m in enumerate(u.entries):
        for _ in range(12):
            data = hostile(rng, m)[:1500]
            with open(os.path.join(corpus, f's{n}'), 'wb') as f:
                f.write(bytes([i, rng.choice([9, 10, 7, 5]), rng.randrange(16)]) + data)
            n += 1
    r = sh([exe, f'-runs={runs}', f'-seed={rng.randrange(1, 1 << 30)}', '-max_len=2000', '-timeout=25',
            f'-max_total_time={seconds}', '-rss_limit_mb=3000', '-print_final_stats=1', '-use_value_profile=1',
            f'-artifact_prefix={art}/', '-verbosity=1', corpus], env=rt.ENV, timeout=seconds + 300)
    if r.timeout:
        raise Inconclusive('fuzzer timed out')
    for name in sorted(os.listdir(art)):
        with open(os.path.join(art, name), 'rb') as f:
            data = f.read()
        m = u.entries[data[0] % len(u.entries)] if data else u.entries[0]
        what = 'crash'
        for line in r.err.splitlines():
            if 'runtime error:' in line or 'ERROR: ' in line or 'VF_MONITOR' in line:
                what = line.strip()
                break
        log.violation(f'{m.full}: fuzzing: {what}',
                      **work.context(u, m, data=data[3:], fuzz_input=data.hex(), log=r.err[-4000:]))
    stat = re.search(r'stat::number_of_executed_units:\s*(\d+)', r.err)
    if stat is None and not os.listdir(art):
        raise Inconclusive('fuzzer gave no answer: ' + r.err[-500:])
    cov = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', r.err)
    if stat:
        log.count('fuzzer executions', int(stat.group(1)))
    if cov:
        log.count('fuzzer edges covered', int(cov[-1][0]))
        log.count('fuzzer features', int(cov[-1][1]))
        log.count('fuzzer corpus', int(cov[-1][2]))
        for k in range(int(cov[-1][2])):
            log.case(('fuzz', spec, part, k))


def nest(m, f, levels):
    """A message nested in itself."""
    data = b''
    for _ in range(levels):
        data = wire.tag(f.number, 2) + wire.varint(len(data)) + data
    return data


def deep(log, _):
    """Nesting: decoding recurses once per level."""
    u = work.unit(log, ('kitchen',))
    m = [x for x in u.entries if x.name == 'Tree'][0]
    for levels, known in ((100, None), (1000, None), (200000, 'deep-nesting')):
        for fn in ('left', 'children'):
            f = m.field(fn)
            # Quadratic in the number of levels if built by hand: build the
            # lengths from the inside.
            parts, n = [], 0
            for _ in range(levels):
                h = wire.tag(f.number, 2) + wire.varint(n)
                parts.append(h)
                n += len(h)
            data = b''.join(reversed(parts))
            op = rt.op_decode(u.entry('Tree'), data, ws=levels * 600 + 4096, cap=0)
            flavor = 'gcc-O2' if known else 'gsan'
            raw = u.execute([op], flavor)[0]
            log.case(('deep', levels, fn))
            if isinstance(raw, rt.Crash):
                overflow = known and not raw.hang and raw.rc in (-11, 139)
                log.violation(f'{m.full}: {levels} levels of {fn}: {raw}', key=known if overflow else None,
                              **work.context(u, m, levels=levels, log=raw.log()))
                continue
            log.count(f'{levels} levels')
            r = rt.Decoded(raw)
            if r.rc != len(data) and (not known or r.rc >= 0):
                log.violation(f'{m.full}: {levels} levels of {fn}: result {r.rc}', **work.context(u, m))


def run_any(log, spec):
    {'fuzz': fuzz, 'mutate': job, 'deep': deep, 'big': bigsize.observe}[spec[0]](log, spec[1])


def main(run):
    run.rule = ('one case per input and workspace size, or per input in the final corpus of the fuzzer; '
                'sanitizers and monitors silent, result the input length or an error code')
    run.assumptions = ['nesting deep enough to exhaust the stack is a known finding', 'libFuzzer inputs up to 2000 bytes']
    specs = work.specs(run, run.scale(8, 60))
    jobs = []
    seconds = run.scale(40, 420)
    runs = run.scale(25000, 600000)
    kinds = [('kitchen',), ('plain',), ('kitchen',)] + specs[2:run.scale(6, 10)]
    if run.thorough:
        kinds += [('kitchen',), ('plain',)]
    for k, s in enumerate(kinds):
        jobs.append(('fuzz', (s, k, runs, seconds)))
    jobs.append(('deep', 0))
    for k, s in enumerate(specs):
        jobs.append(('mutate', (s, 'gsan')))
        if k % 2 == 0:
            jobs.append(('mutate', (s, 'csan')))
        if k % 3 == 0:
            jobs.append(('mutate', (s, 'm32')))
    jobs.append(('big', ('input',)))
    run.jobs(run_any, jobs)
