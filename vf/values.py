"""Random and boundary message values, and helpers on them.

A message value is a dict: field name -> value, oneof name -> None or
(field name, value).  Floats are their bit patterns, bools 0/1, strings and
bytes are bytes objects, absent optionals and sub-messages are None.
"""

from .schema import SCALARS

VARINT_EDGES = [0, 1, 2, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 268435455,
                268435456, 34359738367, 34359738368, 2**42 - 1, 2**42, 2**49 - 1, 2**49, 2**56 - 1,
                2**56, 2**63 - 1, 2**63, 2**64 - 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32]
LENGTHS = [0, 1, 2, 3, 7, 8, 126, 127, 128, 129]
FLOATS = [0, 0x80000000, 0x3f800000, 0xbf800000, 1, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fc00123,
          0xffc00001, 0x7f7fffff, 0x00800000]
DOUBLES = [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 1, 0x7ff0000000000000,
           0xfff0000000000000, 0x7ff8000000000000, 0x7ff8000000000123, 0x7fefffffffffffff]


def default(f):
    if f.repeated:
        return []
    if f.label == 'optional' or f.is_msg:
        return None
    return scalar_default(f)


def scalar_default(f):
    return b'' if f.type in ('string', 'bytes') else 0


def empty(msg):
    v = {f.name: default(f) for f in msg.fields}
    for o in msg.oneofs:
        v[o.name] = None
    return v


def wrap(type, x):
    """Reduce an integer to the range of the type."""
    if type == 'enum':
        type = 'int32'
    fam, bits, signed = SCALARS[type]
    if fam == 'bool':
        return 1 if x & ((1 << 64) - 1) else 0
    x &= (1 << bits) - 1
    if signed and x >> (bits - 1):
        x -= 1 << bits
    return x


class ValueGen:
    def __init__(self, rng, depth=4, budget=200, density=0.7, big=True):
        self.rng, self.depth, self.budget, self.density, self.big = rng, depth, budget, density, big

    def length(self):
        r = self.rng
        x = r.random()
        if x < 0.3:
            return 0 if x < 0.1 else r.randrange(1, 5)
        if x < 0.9:
            return r.randrange(0, 12)
        if self.big and x > 0.985:
            return r.choice([16383, 16384, 300, 1000, 5000])
        return r.choice(LENGTHS)

    def scalar(self, f):
        r = self.rng
        t = f.type
        if t == 'enum':
            x = r.random()
            if x < 0.7:
                return r.choice(f.ref.values)[1]
            return wrap('int32', r.choice(VARINT_EDGES + [-5]))
        if t == 'string':
            n = self.length()
            x = r.random()
            if x < 0.5:
                return bytes(r.choice(b'abcdefghij XYZ019_-') for _ in range(n))
            s = ''.join(r.choice(['a', 'z', '\x01', '\x7f', '\u00e5', '\u4e2d', '\U0001f600', '"', '\\', '\n'])
                        for _ in range(n))
            return s.encode()
        if t == 'bytes':
            n = self.length()
            return bytes(r.choice([0, 0, 255, 128, 127, r.randrange(256)]) for _ in range(n))
        if t == 'float':
            return r.choice(FLOATS) if r.random() < 0.6 else r.getrandbits(32)
        if t == 'double':
            return r.choice(DOUBLES) if r.random() < 0.6 else r.getrandbits(64)
        if t == 'bool':
            return r.randrange(2)
        x = r.random()
        if x < 0.55:
            v = r.choice(VARINT_EDGES)
            if r.random() < 0.35:
                v = -v
        elif x < 0.8:
            v = r.randrange(-100, 100)
        else:
            v = r.getrandbits(r.randrange(1, 65))
            if r.random() < 0.3:
                v = -v
        return wrap(t, v)

    def single(self, f, depth):
        if f.is_msg:
            return self.message(f.ref, depth + 1)
        return self.scalar(f)

    def count(self, f):
        r = self.rng
        x = r.random()
        if f.is_msg:
            return r.choice([1, 1, 2, 3, 4]) if x < 0.97 else r.choice([20, 130])
        if self.big and x > 0.97:
            return r.choice([127, 128, 129, 300, 2050])
        return r.choice([1, 1, 2, 3, 5, 9, 20])

    def message(self, msg, depth=0):
        r = self.rng
        v = empty(msg)
        dens = self.density if r.random() < 0.9 else r.choice([0.05, 1.0])
        for f in msg.fields:
            if r.random() > dens:
                continue
            if f.is_msg and (depth >= self.depth or self.budget <= 0):
                continue
            self.budget -= 1
            if f.repeated:
                n = self.count(f)
                if f.is_msg:
                    n = min(n, max(1, self.budget))
                v[f.name] = [self.single(f, depth) for _ in range(n)]
            else:
                v[f.name] = self.single(f, depth)
                if f.type in ('string',) and v[f.name] is None:
                    v[f.name] = b''
        for o in msg.oneofs:
            if r.random() > dens or not o.fields:
                continue
            f = r.choice(o.fields)
            if f.is_msg and (depth >= self.depth or self.budget <= 0):
                continue
            self.budget -= 1
            x = self.single(f, depth)
            if r.random() < 0.25 and not f.is_msg:
                x = scalar_default(f)
            v[o.name] = (f.name, x)
        return v


def gen(rng, msg, **kw):
    return ValueGen(rng, **kw).message(msg)


def only(msg, fname, x):
    """A value of msg in which only one field is set."""
    v = empty(msg)
    f = msg.field(fname)
    if f.oneof is not None:
        v[f.oneof.name] = (fname, x)
    else:
        v[fname] = x
    return v


def boundary(msg, vg):
    """Single-field boundary values for a message (deterministic list)."""
    out = [empty(msg)]
    for f in msg.all_fields():
        if f.is_msg:
            items = [empty(f.ref)]
        elif f.type == 'enum':
            items = [x for _, x in f.ref.values]
        elif f.type in ('string', 'bytes'):
            items = [b'', b'a', b'x' * 127, b'y' * 128]
            if f.type == 'bytes':
                items.append(b'\0\xff')
        elif f.type == 'float':
            items = FLOATS
        elif f.type == 'double':
            items = DOUBLES
        elif f.type == 'bool':
            items = [0, 1]
        else:
            items = sorted({wrap(f.type, s * x) for x in VARINT_EDGES for s in (1, -1)})
        if f.repeated:
            if f.is_msg and f.is_map:
                e = f.ref
                out.append(only(msg, f.name, [vg.message(e, 2) for _ in range(3)]))
                out.append(only(msg, f.name, [empty(e), empty(e)]))
            else:
                out.append(only(msg, f.name, list(items)))
                out.append(only(msg, f.name, [items[0]]))
                out.append(only(msg, f.name, [items[-1]] * 3))
                if not f.is_msg and f.type not in ('string', 'bytes'):
                    out.append(only(msg, f.name, [items[0]] * 127 + [items[-1]] * 2))
        else:
            for x in items:
                out.append(only(msg, f.name, x))
    return out


def spread(t, n, k):
    """n different values of a scalar type, from one to ten bytes long."""
    if k == 0:
        return [wrap(t, (i * 7 + 1) % 60) for i in range(n)]
    return [wrap(t, (i * 0x9e3779b97f4a7c15 + 1) >> (i * 5 % 64)) for i in range(n)]


def text(n):
    return bytes(97 + (i * 7 + n) % 26 for i in range(n))


def sized(msg, f, n, k=0, most=1 << 30):
    """Values of msg in which the size of field f is n: bytes of a string,
    items of a list, bytes in a sub-message. most: limit for lists of
    messages."""
    if f.type in ('string', 'bytes'):
        x = text(n) if f.type == 'string' else text(n)[:-1] + b'\0' * (n > 0)
        out = [only(msg, f.name, [b'ab', x, b'c'] if f.repeated else x)]
        if f.repeated and n <= most:
            out.append(only(msg, f.name, [x[:2] for _ in range(n)]))
        return out
    if not f.is_msg:
        if not f.repeated:
            return []
        if f.type in ('float', 'double'):
            x = [wrap({'float': 'uint32', 'double': 'uint64'}[f.type], y) for y in spread('uint64', n, 1)]
        elif f.type == 'enum':
            x = [f.ref.values[(i + k) % len(f.ref.values)][1] for i in range(n)]
        else:
            x = spread(f.type, n, k)
        return [only(msg, f.name, x)]
    out = []
    g = [g for g in f.ref.fields if g.type in ('string', 'bytes') and not g.repeated]
    if g:
        x = only(f.ref, g[0].name, text(n))
        out.append(only(msg, f.name, [x] if f.repeated else x))
    if f.repeated and n <= most:
        out.append(only(msg, f.name, [empty(f.ref) for _ in range(n)]))
        h = [g for g in f.ref.fields if g.type in ('int32', 'uint32')]
        if h and out[-1][f.name]:
            out[-1][f.name][-1] = only(f.ref, h[0].name, 5)
    return out


def strip_nul(msg, v):
    """What a C string reader sees: strings end at the first NUL."""
    def one(f, x):
        if x is None:
            return None
        if f.is_msg:
            return strip_nul(f.ref, x)
        if f.type == 'string':
            return x.split(b'\0')[0]
        return x
    out = {}
    for f in msg.fields:
        x = v[f.name]
        out[f.name] = [one(f, y) for y in x] if f.repeated else one(f, x)
    for o in msg.oneofs:
        c = v[o.name]
        out[o.name] = None if c is None else (c[0], one(msg.field(c[0]), c[1]))
    return out


def diff(msg, a, b, path=''):
    """First difference between two values of msg, or None."""
    for f in msg.fields:
        x, y = a[f.name], b[f.name]
        p = f'{path}.{f.name}'
        if f.repeated:
            if len(x) != len(y):
                return f'{p}: {len(x)} items vs {len(y)} items'
            for i, (s, t) in enumerate(zip(x, y)):
                d = diff(f.ref, s, t, f'{p}[{i}]') if f.is_msg else (s != t and f'{p}[{i}]: {s!r:.80} vs {t!r:.80}')
                if d:
                    return d
        elif f.is_msg and x is not None and y is not None:
            d = diff(f.ref, x, y, p)
            if d:
                return d
        elif x != y:
            return f'{p}: {x!r:.80} vs {y!r:.80}'
    for o in msg.oneofs:
        x, y = a[o.name], b[o.name]
        p = f'{path}.{o.name}'
        if (x is None) != (y is None) or (x is not None and x[0] != y[0]):
            return f'{p}: choice {x and x[0]} vs {y and y[0]}'
        if x is None:
            continue
        f = msg.field(x[0])
        if f.is_msg:
            d = diff(f.ref, x[1], y[1], f'{p}.{f.name}')
            if d:
                return d
        elif x[1] != y[1]:
            return f'{p}.{f.name}: {x[1]!r:.80} vs {y[1]!r:.80}'
    return None


def count_set(msg, v):
    """Number of set leaves (how non-trivial a value is)."""
    n = 0
    for f in msg.fields:
        x = v[f.name]
        if f.repeated:
            n += len(x) + (sum(count_set(f.ref, y) for y in x) if f.is_msg else 0)
        elif f.is_msg:
            n += 0 if x is None else 1 + count_set(f.ref, x)
        elif f.label == 'optional':
            n += x is not None
        else:
            n += x != scalar_default(f)
    for o in msg.oneofs:
        n += v[o.name] is not None
    return n


def need(msg, v):
    """Upper bound of the workspace size that decoding or building v takes."""
    n = 64
    for f in msg.all_fields():
        n += 48 if f.repeated else 32
    for f in msg.fields:
        x = v[f.name]
        if f.repeated:
            n += 64
            if f.is_msg:
                n += sum(need(f.ref, y) for y in x)
            elif f.type in ('string', 'bytes'):
                n += sum(len(y) + 24 for y in x)
            else:
                n += 8 * len(x)
        elif x is None:
            continue
        elif f.is_msg:
            n += need(f.ref, x) + 16
        elif f.type in ('string', 'bytes'):
            n += len(x) + 16
    for o in msg.oneofs:
        c = v[o.name]
        if c is not None:
            f = msg.field(c[0])
            if f.is_msg:
                n += need(f.ref, c[1]) + 16
            elif f.type in ('string', 'bytes'):
                n += len(c[1]) + 16
    return n
