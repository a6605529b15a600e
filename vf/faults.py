"""Injects one fault into an otherwise conforming encoding."""

from . import values, wire
from .wire import tag, varint

FIELD = {0: b'\x01', 1: b'\0' * 8, 2: b'\x00', 5: b'\0' * 4, 3: b'', 4: b'', 6: b'', 7: b''}
LONG = b'\x80' * 10 + b'\x01'

# Class of fault -> result codes that name it.
DATA, MEM, WT, NUM, VAR, SEEK, LEN = -2, -3, -1, -5, -6, -7, -8
ANY = {DATA, WT, NUM, VAR, SEEK, LEN}


def unknown_number(rng, m):
    known = m.by_number()
    while True:
        n = rng.choice([rng.randrange(1, 40), rng.randrange(1, 1 << 29)])
        if n not in known:
            return n


def faults(rng, m):
    """[(class, record bytes, accepted codes, must be last)] for a message."""
    out = []
    u = unknown_number(rng, m)
    for wt in range(8):
        out.append(('field number 0', tag(0, wt) + FIELD[wt], {NUM}, False))
    for wt in (6, 7):
        out.append(('unknown field with bad wire type', tag(u, wt), {WT}, False))
    out += [
        ('group without start', tag(u, 4), ANY, False),
        ('group without end', tag(u, 3), ANY, False),
        ('group without end', tag(u, 3) + tag(u, 0) + b'\x05' + tag(u, 3) + tag(u, 4), ANY, False),
        ('group with another end', tag(u, 3) + tag(u ^ 1 or 2, 4), ANY, False),
        ('unknown varint too long', tag(u, 0) + LONG, {VAR}, False),
        ('unknown length too long', tag(u, 2) + LONG, {VAR}, False),
        ('tag too long', b'\xf8' + b'\x80' * 9 + b'\x01\x00', {VAR}, False),
        ('tag too long', b'\x88' + b'\x80' * 15 + b'\x00\x00', {VAR}, False),
        ('tag truncated', bytes([tag(u, 0)[0] | 0x80]), {DATA}, True),
        ('tag without content', tag(u, 0), {DATA}, True),
        ('tag without content', tag(u, 1), {DATA}, True),
        ('tag without content', tag(u, 2), {DATA}, True),
        ('tag without content', tag(u, 5), {DATA}, True),
        ('unknown varint truncated', tag(u, 0) + b'\xff' * rng.randrange(1, 10), {DATA}, True),
        ('unknown fixed64 truncated', tag(u, 1) + b'\1' * rng.randrange(8), {DATA}, True),
        ('unknown fixed32 truncated', tag(u, 5) + b'\1' * rng.randrange(4), {DATA}, True),
        ('unknown length past the end', tag(u, 2) + varint(rng.choice([5, 127, 128, 70000])) + b'abcd', {DATA}, True),
        ('unknown length far past the end', tag(u, 2) + varint(0x7ffffffe), {DATA, SEEK}, True),
        ('unknown length overflow', tag(u, 2) + varint(rng.choice([0x7fffffff, 0x80000000, 0xffffffff, 1 << 32,
                                                                  (1 << 32) + 1, 1 << 63, (1 << 64) - 1])), {LEN}, False),
    ]
    for f in m.all_fields():
        wt = wire.wire_type(f)
        numeric = wt != 2
        for w in range(8):
            if w == wt or (w == 2 and f.repeated and numeric):
                continue
            out.append(('wrong wire type', tag(f.number, w) + FIELD[w], {WT}, False))
        if wt == 0:
            out.append(('varint too long', tag(f.number, 0) + LONG, {VAR}, False))
            out.append(('varint truncated', tag(f.number, 0) + b'\x80' * rng.randrange(1, 10), {DATA}, True))
            out.append(('varint missing', tag(f.number, 0), {DATA}, True))
        elif wt == 5:
            out.append(('fixed32 truncated', tag(f.number, 5) + b'\1' * rng.randrange(4), {DATA}, True))
        elif wt == 1:
            out.append(('fixed64 truncated', tag(f.number, 1) + b'\1' * rng.randrange(8), {DATA}, True))
        if wt == 2 or f.repeated:
            lim = {DATA}
            out.append(('length missing', tag(f.number, 2), lim, True))
            out.append(('length too long', tag(f.number, 2) + LONG, {VAR}, False))
            n = rng.choice([1, 8, 16, 40])
            body = (b'\1' * (n - 1)) if not f.is_msg else b''
            if f.is_msg:
                n = rng.choice([1, 8, 40])
            elif numeric and wt != 0:
                n = 16
                body = b'\1' * rng.choice([0, 8, 12, 15])
            out.append(('length past the end', tag(f.number, 2) + varint(n) + body, lim, True))
            out.append(('length overflow', tag(f.number, 2)
                        + varint(rng.choice([0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, (1 << 32) + 4,
                                             1 << 63, (1 << 64) - 1])), {LEN}, False))
            out.append(('length far past the end', tag(f.number, 2) + varint(0x7ffffffe),
                        {DATA, SEEK, MEM}, True))
        if f.repeated and numeric:
            if wt == 0:
                good = varint(3) * rng.randrange(3)
                p = good + b'\x80' * rng.randrange(1, 10)
                out.append(('packed varint truncated', tag(f.number, 2) + varint(len(p)) + p, {DATA}, False))
                p = good + LONG + good
                out.append(('packed varint too long', tag(f.number, 2) + varint(len(p)) + p, {VAR}, False))
            else:
                size = 4 if wt == 5 else 8
                p = b'\1' * (size * rng.randrange(4) + rng.randrange(1, size))
                out.append(('packed partial element', tag(f.number, 2) + varint(len(p)) + p, {DATA}, False))
    return out


def records(rng, m, v, alt):
    """Conforming records of v (in an order that keeps the meaning)."""
    data = alt.message(m, v)
    return [r[2] for r in wire.split_records(data)]


def plant(rng, m, v, alt, fault, path):
    """Encoding of v with the fault in the sub-message reached by path (a
    list of message fields)."""
    recs = records(rng, m, v, alt)
    if not path:
        _, rec, _, last = fault
        pos = len(recs) if last else rng.randrange(len(recs) + 1)
        recs.insert(pos, rec)
        return b''.join(recs)
    f = path[0]
    sub = plant(rng, f.ref, values.gen(rng, f.ref, depth=1, budget=15, big=False), alt, fault, path[1:])
    rec = tag(f.number, 2) + varint(len(sub)) + sub
    if f.oneof is not None or not f.repeated:
        # Only one occurrence, so that no merging is involved.
        recs = [r for r in recs if wire.split_records(r)[0][0] != f.number]
    recs.insert(rng.randrange(len(recs) + 1), rec)
    return b''.join(recs)


def paths(rng, m, depth):
    """A random path of message fields starting in m."""
    out = []
    while len(out) < depth:
        subs = [f for f in m.all_fields() if f.is_msg]
        if not subs:
            break
        f = rng.choice(subs)
        out.append(f)
        m = f.ref
    return out, m
