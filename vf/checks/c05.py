"""Malformed input: one injected fault at any level, truncation at every
byte, and random damage judged by a reference decoder."""

from .. import faults, glue, rt, values, wire, work

MIN_CASES = 2000
NAMES = {1: 'Bad wire type', 2: 'Out of data', 3: 'Out of memory', 4: 'Encode buffer full', 5: 'Bad field number',
         6: 'Varint overflow', 7: 'Seek overflow', 8: 'Length delimited overflow'}


def verdict(data, m):
    try:
        return 'ok', wire.decode(m, data)
    except wire.Malformed as e:
        return e.kind, None
    except wire.Ambiguous:
        return None, None


def job(log, spec):
    u = work.unit(log, spec)
    rng = log.rng('job', spec)
    cases = []
    alts = [wire.Alt(rng), wire.Alt(rng, unknown=0, pad=0, wide=0, dup=0)]
    # Injected faults.
    for i, m in enumerate(u.entries):
        for rnd in range(log.scale(1, 4)):
            for depth in (0, 0, 1, 2, 3, 5):
                path, target = faults.paths(rng, m, depth)
                if depth and not path:
                    break
                fs = faults.faults(rng, target)
                for f in stratify(rng, fs, log.scale(7, 30)):
                    v = values.gen(rng, m, depth=2, budget=25, big=False)
                    data = faults.plant(rng, m, v, rng.choice(alts), f, path)
                    kind, _ = verdict(data, m)
                    if kind == 'ok':
                        # A generated neighbour made it well-formed.
                        log.count('faults that turned out harmless')
                        continue
                    cases.append((i, m, data, f'{f[0]} at depth {len(path)}', f[2], None))
    # Truncation at every byte.
    for i, m in enumerate(u.entries):
        for k in range(log.scale(3, 10)):
            v = values.gen(rng, m, depth=3, budget=30, big=False)
            data = wire.encode(m, v) if k else rng.choice(alts).message(m, v)
            cuts = range(len(data)) if len(data) < 300 else rng.sample(range(len(data)), 300)
            for n in cuts:
                kind, x = verdict(data[:n], m)
                if kind == 'ok':
                    cases.append((i, m, data[:n], 'cut at a record boundary', {n}, x))
                elif kind is not None:
                    cases.append((i, m, data[:n], 'truncated', {faults.DATA}, None))
    # Random damage.
    for i, m in enumerate(u.entries):
        for k in range(log.scale(60, 400)):
            v = values.gen(rng, m, depth=3, budget=25, big=False)
            data = damage(rng, rng.choice(alts).message(m, v))
            kind, x = verdict(data, m)
            if kind is None:
                log.count('damaged inputs without a unique reading')
            elif kind == 'ok':
                cases.append((i, m, data, 'damaged but well-formed', {len(data)}, x))
            else:
                cases.append((i, m, data, 'damaged', set(range(-8, 0)) - {-4}, None))
    judge(log, u, cases)


def sizes_job(log, spec):
    """Strings, bytes, lists, messages and unknown fields of every size, whole
    and with their last bytes missing."""
    u = work.unit(log, spec)
    rng = log.rng('job', spec)
    cases = []
    for i, m, v in work.messages(log, u, spec, 0, most=log.scale(20000, 70000)):
        data = wire.encode(m, v)
        n = len(data)
        # The cases have lists of two or more of such sizes.
        skip = wire.tag(3998, 2) + wire.varint(n) + bytes(rng.choice([0xff, 0x80, 0, 8]) for _ in range(min(n, 300))) + bytes(n - min(n, 300))
        for x in (data[:-1], data[:rng.randrange(n)] if n else b'', data[:-rng.randrange(1, 10)], skip, skip[:-1],
                  data + skip, data + skip[:-rng.randrange(1, 10)]):
            kind, y = verdict(x, m)
            if kind == 'ok':
                cases.append((i, m, x, 'sizes', {len(x)}, y))
            elif kind is not None:
                cases.append((i, m, x, 'sizes, truncated', {faults.DATA}, None))
    judge(log, u, cases)


def judge(log, u, cases):
    ops = [rt.op_decode(i, data, ws=(1 << 17) + 24 * len(data), cap=(1 << 17) + len(data)) for i, m, data, _, _, _ in cases]
    for (i, m, data, what, accept, x), raw in zip(cases, u.execute(ops)):
        log.case((m.full, data))
        if work.crashed(log, u, m, raw, data=data, fault=what):
            continue
        r = rt.Decoded(raw)
        ctx = work.context(u, m, data=data, fault=what)
        log.count(what.split(' at depth')[0])
        if r.rc not in accept and not (r.rc == faults.MEM and x is not None and len(data) > 1000):
            log.violation(f'{m.full}: {what}: decode gave {r.rc}, expected one of {sorted(accept)}', **ctx)
            continue
        if x is not None and r.rc >= 0:
            got = work.parse(log, u, m, r.dump, data=data)
            if got is None:
                continue
            d = values.diff(m, got, values.strip_nul(m, x))
            if d:
                log.violation(f'{m.full}: {what}: decoded content differs: {d}', **ctx)
        elif r.rc < 0:
            log.count(f'rejected with {r.rc}')
            if 2 < len(data) < 12:
                log.sample({'message': m.full, 'fault': what, 'input': data.hex(), 'result': r.rc})
        work.watch(log, u, m, r.mon, rt.MEMORY | rt.PURE, data=data)


def stratify(rng, fs, n):
    """At most n faults of every class."""
    rng.shuffle(fs)
    taken = {}
    out = []
    for f in fs:
        taken[f[0]] = taken.get(f[0], 0) + 1
        if taken[f[0]] <= n:
            out.append(f)
    return out


def damage(rng, data):
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        if not b:
            b += bytes([rng.randrange(256)])
            continue
        p = rng.randrange(len(b))
        k = rng.randrange(7)
        if k == 0:
            b[p] ^= 1 << rng.randrange(8)
        elif k == 1:
            b[p] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
        elif k == 2:
            del b[p]
        elif k == 3:
            b.insert(p, rng.randrange(256))
        elif k == 4:
            b[p] = (b[p] + rng.choice([1, -1])) & 255
        elif k == 5:
            q = rng.randrange(len(b))
            b = b[:p] + b[q:]
        else:
            del b[p:p + rng.randrange(1, 9)]
    return bytes(b)


def names(log, _):
    u = work.unit(log, ('plain',))
    codes = ([0] + [s * c for c in range(1, 12) for s in (1, -1)]
             + [12345, -12345, 2**31 - 1, -2**31 + 1, -2**31])
    seen = {}
    for c, raw in zip(codes, u.execute([rt.head(7, 0, c) for c in codes])):
        log.case(('code', c))
        if work.crashed(log, u, u.entries[0], raw):
            continue
        text = rt.R(raw).blob().decode('latin-1')
        seen[c] = text
    for c, name in NAMES.items():
        text = seen.get(-c, '')
        if text.lower().replace('-', ' ') != name.lower():
            log.violation(f'error code {-c} ({name}) is named {text!r}')
    for c, text in seen.items():
        if (c == 0 or abs(c) > 8) and text in NAMES.values():
            log.violation(f'code {c} is named {text!r}')
    log.count('error code names', len(seen))


def main(run):
    run.rule = ('one case per input; distinct by message type and input bytes; the result code is the one of the fault '
                'class, and inputs the reference decoder accepts decode to the same content')
    run.assumptions = ['unknown groups (wire types 3 and 4) are not judged if they are well-formed',
                       'with several faults in one input any error code is accepted']
    run.jobs(names, [0])
    run.jobs(sizes_job, work.sizes())
    run.jobs(job, work.specs(run, run.scale(24, 120)))
