"""Decoding of arbitrary conforming encodings of known messages."""

from .. import glue, pbref, rt, values, wire, work

MIN_CASES = 1000

STYLES = [
    ('everything', {}),
    ('shuffled', dict(unknown=0, pad=0, wide=0, dup=0)),
    ('padded', dict(unknown=0, pad=0.9, wide=0, dup=0, shuffle=False)),
    ('wide', dict(unknown=0, pad=0, wide=1, dup=0, shuffle=False)),
    ('unknown', dict(unknown=1, pad=0, wide=0, dup=0)),
    ('duplicates', dict(unknown=0, pad=0, wide=0, dup=1)),
    ('over 64 bits', dict(over=0.7, unknown=0.3, pad=0.2, wide=0.5, dup=0.1)),
    ('packing', dict(unknown=0, pad=0, wide=0, dup=0, split=1)),
]


def job(log, spec):
    spec, exe = spec
    u = work.unit(log, spec)
    rng = log.rng('job', spec)
    cases = []
    for i, m, v in work.messages(log, u, spec, log.scale(25, 60), boundary=log.scale(60, None)):
        styles = rng.sample(STYLES, 1 if 'sizes' in spec else log.scale(2, 4))
        for name, kw in styles:
            cases.append((i, m, v, name, wire.Alt(rng, **kw).message(m, v)))
    ops = [rt.op_decode(i, data, ws=work.room(m, v) + 16 * len(data) + 4096, cap=len(data) + len(wire.encode(m, v)) + 64,
                        off=rng.randrange(8)) for i, m, v, _, data in cases]
    for (i, m, v, style, data), raw in zip(cases, u.execute(ops)):
        log.case((m.full, data))
        log.count('style ' + style)
        if work.crashed(log, u, m, raw, v=v, data=data):
            continue
        r = rt.Decoded(raw)
        ctx = work.context(u, m, v, data, style=style)
        if r.rc != len(data):
            log.violation(f'{m.full}: decoding a conforming encoding of {len(data)} bytes gave {r.rc} ({style})', **ctx)
            continue
        got = work.parse(log, u, m, r.dump, v=v, data=data)
        if got is None:
            continue
        d = values.diff(m, got, v)
        if d:
            log.violation(f'{m.full}: decoded content differs ({style}): {d}', **ctx)
            continue
        if r.enc != len(wire.encode(m, v)):
            log.violation(f'{m.full}: decoded message encodes to {r.enc} bytes ({style})', **ctx)
            continue
        work.watch(log, u, m, r.mon, v=v, data=data)
        log.count('decodes equal to the model')
        log.count('input bytes', len(data))
        if 6 < len(data) < 40:
            log.sample({'message': m.full, 'style': style, 'input': data.hex(), 'value': repr(v)[:200]})
    if exe is None:
        return
    # The oracle itself: libprotobuf decodes the same inputs to the same
    # values, unless an element of the input is outside what it accepts.
    for (_, m, v, style, data), a in zip(cases, pbref.run(log, exe, u.files, [(c[1], c[4]) for c in cases])):
        if a.ok and values.diff(m, glue.parse_dump(m, a.dump), v) is None:
            log.count('inputs confirmed by libprotobuf')
        else:
            log.count('inputs libprotobuf reads differently')


def duplicates(log, _):
    """Several occurrences of a singular sub-message are merged according to
    the protobuf specification."""
    u = work.unit(log, ('kitchen',))
    tree = [m for m in u.entries if m.name == 'Tree'][0]
    leafy = [m for m in u.entries if m.name == 'Choices'][0]
    e = values.empty
    leaf = leafy.field('c_leaf').ref
    cases = []
    a, b = e(tree), e(tree)
    a['label'], b['data'] = b'first', b'second'
    merged = e(tree)
    merged.update(label=b'first', data=b'second')
    left = tree.field('left')
    x = values.only(tree, 'left', merged)
    cases.append(('singular field', tree, wire.record(left, a) + wire.record(left, b), x,
                  values.only(tree, 'left', b)))
    a, b, merged = e(leaf), e(leaf), e(leaf)
    a['num'], b['txt'] = 7, b'seven'
    merged.update(num=7, txt=b'seven')
    f = leafy.field('c_leaf')
    cases.append(('oneof member', leafy, wire.record(f, a) + wire.record(f, b), values.only(leafy, 'c_leaf', merged),
                  values.only(leafy, 'c_leaf', b)))
    res = u.execute([rt.op_decode(u.entry(m.name), data) for _, m, data, _, _ in cases])
    for (what, m, data, merged, last), raw in zip(cases, res):
        log.case((m.full, data))
        if work.crashed(log, u, m, raw, data=data):
            continue
        r = rt.Decoded(raw)
        got = work.parse(log, u, m, r.dump, data=data) if r.rc == len(data) else None
        if got is not None and values.diff(m, got, merged) is None:
            log.count('duplicate sub-messages merged')
            continue
        key = None
        if got is not None and values.diff(m, got, last) is None:
            key = 'duplicate-' + what.replace(' ', '-')
        log.violation(f'{m.full}: two occurrences of a sub-message ({what}) are not merged', key=key,
                      **work.context(u, m, merged, data))


def main(run):
    run.rule = ('one case per encoding; distinct by message type and input bytes; decode result equal to the input '
                'length and content equal to the model')
    run.assumptions = ['tags of at most 5 and lengths of at most 5 bytes', 'no groups']
    exe = pbref.compile_tool(run) if pbref.available() else None
    run.jobs(duplicates, [0])
    run.jobs(job, [(s, exe) for s in work.specs(run, run.scale(22, 160)) + work.sizes()])
