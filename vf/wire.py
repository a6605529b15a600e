"""Reference protobuf codec, written from the protobuf encoding
specification, plus generators of alternative encodings and of faults."""

from .schema import SCALARS
from .values import empty, wrap, scalar_default

M64 = (1 << 64) - 1
CODES = {'wire_type': 1, 'data': 2, 'memory': 3, 'full': 4, 'field_number': 5, 'varint': 6,
         'seek': 7, 'length': 8}


def wire_type(f):
    if f.type == 'enum':
        return 0
    if f.type == 'message':
        return 2
    fam, bits, _ = SCALARS[f.type]
    if fam == 'len':
        return 2
    if fam == 'fixed':
        return 5 if bits == 32 else 1
    return 0


def varint(x, pad=0):
    """Encode; pad > 0 appends that many redundant groups."""
    x &= M64
    out = bytearray()
    while True:
        b = x & 0x7f
        x >>= 7
        if x or pad:
            out.append(b | 0x80)
            if not x:
                break
        else:
            out.append(b)
            return bytes(out)
    while pad > 1:
        out.append(0x80)
        pad -= 1
    out.append(0)
    return bytes(out)


def tag(number, wt, pad=0):
    return varint(number << 3 | wt, pad)


def scalar_int(f, x):
    """The unsigned integer that goes on the wire as a varint."""
    if f.type in ('sint32', 'sint64'):
        bits = SCALARS[f.type][1]
        return ((x << 1) ^ (x >> (bits - 1))) & ((1 << bits) - 1)
    return x & M64


def payload(f, x):
    """Item payload without tag (and without length for len types)."""
    wt = wire_type(f)
    if wt == 0:
        return varint(scalar_int(f, x))
    if wt == 5:
        return (x & 0xffffffff).to_bytes(4, 'little')
    if wt == 1:
        return (x & M64).to_bytes(8, 'little')
    if f.is_msg:
        return encode(f.ref, x)
    return x


def record(f, x):
    p = payload(f, x)
    if wire_type(f) == 2:
        p = varint(len(p)) + p
    return tag(f.number, wire_type(f)) + p


def field_records(f, x):
    """Canonical bytes of a non-oneof field."""
    if f.repeated:
        if not x:
            return b''
        if wire_type(f) == 2:
            return b''.join(record(f, y) for y in x)
        p = b''.join(payload(f, y) for y in x)
        return tag(f.number, 2) + varint(len(p)) + p
    if x is None:
        return b''
    if not f.is_msg and f.label != 'optional' and x == scalar_default(f):
        return b''
    return record(f, x)


def encode(msg, v):
    out = b''
    items = [(f.number, field_records(f, v[f.name])) for f in msg.fields]
    for o in msg.oneofs:
        if v[o.name] is not None:
            f = msg.field(v[o.name][0])
            items.append((f.number, record(f, v[o.name][1])))
    items.sort(key=lambda i: i[0])
    for _, b in items:
        out += b
    return out


class Malformed(Exception):
    """The input is not a serialization of the type. kind is a CODES key."""

    def __init__(self, kind, msg=''):
        super().__init__(kind, msg)
        self.kind = kind


class Ambiguous(Exception):
    """Input on which conforming decoders may differ."""


class Reader:
    def __init__(self, data, pos=0, end=None):
        self.d, self.p, self.e = data, pos, len(data) if end is None else end

    def varint(self):
        x = n = 0
        while True:
            if self.p >= self.e:
                raise Malformed('data', 'varint')
            b = self.d[self.p]
            self.p += 1
            x |= (b & 0x7f) << (7 * n)
            n += 1
            if not b & 0x80:
                break
            if n == 10:
                raise Malformed('varint')
        return x & M64, n

    def tag(self):
        t, n = self.varint()
        if t >> 32:
            raise Ambiguous('tag over 32 bits')
        if n > 5:
            raise Ambiguous('long tag')
        if t >> 3 == 0:
            raise Malformed('field_number')
        return t >> 3, t & 7

    def length(self):
        x, n = self.varint()
        if x >= 2**31 - 1:
            raise Malformed('length')
        if n > 5:
            raise Ambiguous('long length')
        if x > self.e - self.p:
            raise Malformed('data', 'length')
        return x

    def fixed(self, n):
        if self.e - self.p < n:
            raise Malformed('data', 'fixed')
        x = int.from_bytes(self.d[self.p:self.p + n], 'little')
        self.p += n
        return x

    def skip(self, wt, number=None):
        if wt == 0:
            self.varint()
        elif wt == 1:
            self.fixed(8)
        elif wt == 5:
            self.fixed(4)
        elif wt == 2:
            n = self.length()
            self.p += n
        elif wt == 3 and number is not None:
            self.group(number)
            raise Ambiguous('group')
        else:
            raise Malformed('wire_type')

    def group(self, number):
        """The rest of a group, which must end."""
        open_groups = [number]
        while open_groups:
            if self.p >= self.e:
                raise Malformed('data', 'group')
            num, wt = self.tag()
            if wt == 3:
                open_groups.append(num)
            elif wt == 4:
                if open_groups.pop() != num:
                    raise Malformed('wire_type', 'group')
            else:
                self.skip(wt)


def from_varint(f, x):
    if f.type in ('sint32', 'sint64'):
        bits = SCALARS[f.type][1]
        x &= (1 << bits) - 1
        x = (x >> 1) ^ -(x & 1)
        return wrap(f.type, x)
    return wrap(f.type, x)


def from_fixed(f, x):
    if SCALARS[f.type][2] is None:
        return x
    return wrap(f.type, x)


def read_item(f, r, wt):
    """One unpacked item."""
    if wt != wire_type(f):
        raise Malformed('wire_type')
    if wt == 0:
        return from_varint(f, r.varint()[0])
    if wt == 5:
        return from_fixed(f, r.fixed(4))
    if wt == 1:
        return from_fixed(f, r.fixed(8))
    n = r.length()
    if f.is_msg:
        x = decode(f.ref, r.d, r.p, r.p + n)
    else:
        x = bytes(r.d[r.p:r.p + n])
    r.p += n
    return x


def decode(msg, data, pos=0, end=None):
    """Strict reference decoder. Duplicate occurrences of a singular
    sub-message are ambiguous here (merge or replace)."""
    r = Reader(data, pos, end)
    v = empty(msg)
    fields = msg.by_number()
    seen = set()
    while r.p < r.e:
        num, wt = r.tag()
        f = fields.get(num)
        if f is None:
            r.skip(wt, num)
            continue
        if wt > 5:
            raise Malformed('wire_type')
        if wt in (3, 4):
            raise Malformed('wire_type')
        if f.repeated:
            iwt = wire_type(f)
            if wt == 2 and iwt != 2:
                n = r.length()
                sub = Reader(r.d, r.p, r.p + n)
                while sub.p < sub.e:
                    v[f.name].append(read_item(f, sub, iwt))
                r.p += n
            else:
                v[f.name].append(read_item(f, r, wt))
            continue
        x = read_item(f, r, wt)
        if f.is_msg:
            if num in seen and (f.oneof is None or (v[f.oneof.name] or ('',))[0] == f.name):
                raise Ambiguous('duplicate sub-message')
            seen.add(num)
        if f.oneof is not None:
            v[f.oneof.name] = (f.name, x)
        else:
            v[f.name] = x
    return v


def split_records(data):
    """[(number, wire type, whole record bytes, payload)] of well-formed data."""
    r = Reader(data)
    out = []
    while r.p < r.e:
        start = r.p
        num, wt = r.tag()
        if wt == 2:
            n = r.length()
            out.append((num, wt, bytes(data[start:r.p + n]), bytes(data[r.p:r.p + n])))
            r.p += n
        else:
            p = r.p
            r.skip(wt)
            out.append((num, wt, bytes(data[start:r.p]), bytes(data[p:r.p])))
    return out


def normalize(msg, data):
    """Sorted-by-field-number form (recursively), so that encodings that
    differ only in the order of different fields compare equal."""
    fields = msg.by_number()
    recs = []
    for num, wt, raw, p in split_records(data):
        f = fields.get(num)
        if f is not None and f.is_msg and wt == 2:
            q = normalize(f.ref, p)
            # Keep the original tag and length bytes: only the content may
            # be reordered.
            raw = raw[:len(raw) - len(p)] + q
        recs.append((num, raw))
    recs.sort(key=lambda x: x[0])
    return b''.join(x for _, x in recs)


# ------------------------------------------------------ alternative encodings

class Alt:
    """Random conforming encodings of a value."""

    def __init__(self, rng, unknown=0.5, pad=0.3, wide=0.3, shuffle=True, dup=0.3, split=0.6, over=0):
        self.rng, self.unknown, self.pad, self.wide, self.over = rng, unknown, pad, wide, over
        self.shuffle, self.dup, self.split = shuffle, dup, split

    def chance(self, p):
        return self.rng.random() < p

    def vint(self, x, maxlen=10):
        x &= M64
        n = len(varint(x))
        if self.chance(self.pad) and n < maxlen:
            return varint(x, self.rng.randrange(1, maxlen - n + 1))
        return varint(x)

    def value(self, x):
        """Field values may have bits above the 64 that are used."""
        if self.chance(self.over):
            b = varint(x & M64, 10 - len(varint(x & M64)))
            return b[:9] + bytes([b[9] | self.rng.randrange(64) << 1])
        return self.vint(x)

    def tag(self, num, wt):
        return self.vint(num << 3 | wt, 5)

    def scalar_wire(self, f, x):
        """Varint value; may be over-wide (extra high bits, truncated by readers)."""
        u = scalar_int(f, x)
        t = 'int32' if f.type == 'enum' else f.type
        fam, bits, signed = SCALARS[t]
        if fam == 'bool':
            if x and self.chance(self.wide):
                return self.rng.choice([2, 128, 255, 1 << 31, 1 << 32, 1 << 63, M64, 1 << 40])
            return u
        if bits == 32 and self.chance(self.wide):
            low = u & 0xffffffff
            return low | (self.rng.choice([0, 0, 0xffffffff, 1, 0x80000000, self.rng.getrandbits(32)]) << 32)
        return u

    def item(self, f, x):
        wt = wire_type(f)
        if wt == 0:
            return self.value(self.scalar_wire(f, x))
        if f.is_msg:
            return self.message(f.ref, x)
        return payload(f, x)

    def record(self, f, x):
        wt = wire_type(f)
        p = self.item(f, x)
        if wt == 2:
            p = self.vint(len(p), 5) + p
        return self.tag(f.number, wt) + p

    def repeated(self, f, xs):
        """List of records, order significant."""
        r = self.rng
        if wire_type(f) == 2:
            return [self.record(f, x) for x in xs]
        out = []
        i = 0
        mode = r.choice(['packed', 'unpacked', 'mixed', 'mixed'])
        while i < len(xs):
            if mode == 'unpacked' or (mode == 'mixed' and self.chance(0.4)):
                out.append(self.record(f, xs[i]))
                i += 1
                continue
            n = len(xs) - i
            if mode == 'mixed' or self.chance(self.split):
                n = r.randrange(0, n + 1)
            p = b''.join(self.item(f, x) for x in xs[i:i + n])
            out.append(self.tag(f.number, 2) + self.vint(len(p), 5) + p)
            i += n
        if self.chance(0.15):
            out.insert(r.randrange(len(out) + 1), self.tag(f.number, 2) + self.vint(0, 5))
        return out

    def unknown_record(self, msg):
        r = self.rng
        known = msg.by_number()
        while True:
            num = r.choice([r.randrange(1, 20), r.randrange(1, 3000), r.randrange(1, 1 << 29),
                            536870911, 19000, 16])
            # Numbers that differ from a known one in high bits only are
            # interesting: they must not be mistaken for it.
            if known and self.chance(0.3):
                base = r.choice(list(known))
                num = (base ^ (1 << r.randrange(29))) & 0x1fffffff
            if num and num not in known:
                break
        wt = r.choice([0, 1, 2, 2, 5])
        if wt == 0:
            p = self.value(r.getrandbits(r.randrange(1, 65)))
        elif wt == 1:
            p = bytes(r.randrange(256) for _ in range(8))
        elif wt == 5:
            p = bytes(r.randrange(256) for _ in range(4))
        else:
            n = r.choice([0, 1, 5, 20, 130])
            p = self.vint(n, 5) + bytes(r.randrange(256) for _ in range(n))
        return self.tag(num, wt) + p

    def message(self, msg, v):
        """Random conforming encoding. Sequences of records that must stay
        in order are merged at random."""
        r = self.rng
        from .values import ValueGen
        seqs = []
        for f in msg.fields:
            x = v[f.name]
            if f.repeated:
                if x:
                    seqs.append(self.repeated(f, x))
                elif wire_type(f) != 2 and self.chance(0.1):
                    seqs.append([self.tag(f.number, 2) + self.vint(0, 5)])
            elif x is None:
                continue
            elif f.is_msg:
                seqs.append([self.record(f, x)])
            else:
                explicit = f.label == 'optional'
                s = []
                if self.chance(self.dup) and (explicit or x != scalar_default(f) or True):
                    s.append(self.record(f, ValueGen(r, big=False).scalar(f)))
                if s or explicit or x != scalar_default(f) or self.chance(0.3):
                    s.append(self.record(f, x))
                seqs.append(s)
        for o in msg.oneofs:
            c = v[o.name]
            if c is None:
                continue
            s = []
            if self.chance(self.dup):
                for _ in range(r.randrange(1, 4)):
                    f = r.choice(o.fields)
                    if f.is_msg:
                        if f.name == c[0]:
                            continue
                        s.append(self.record(f, empty(f.ref)))
                        continue
                    s.append(self.record(f, ValueGen(r, big=False).scalar(f)))
            f = msg.field(c[0])
            s.append(self.record(f, c[1]))
            seqs.append(s)
        if self.chance(self.unknown):
            for _ in range(r.randrange(1, 4)):
                seqs.append([self.unknown_record(msg)])
        out = []
        seqs = [s for s in seqs if s]
        if self.shuffle:
            while seqs:
                k = r.randrange(len(seqs))
                out.append(seqs[k].pop(0))
                if not seqs[k]:
                    seqs.pop(k)
        else:
            for s in seqs:
                out += s
        return b''.join(out)
