"""Generates C glue that drives the public generated API of one schema:
per message an interpreter of edit operations, a dumper and a memory walker."""

import struct

from .schema import SCALARS

# Field operations (see driver.h).
SET, CLEAR, ALLOC, ALLOCSET, SETITEM, EDIT, EDITITEM, SELECT, TOUCH = range(9)

CTYPES = {'int32': 'int32_t', 'int64': 'int64_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t',
          'sint32': 'int32_t', 'sint64': 'int64_t', 'bool': 'bool', 'fixed32': 'uint32_t',
          'fixed64': 'uint64_t', 'sfixed32': 'int32_t', 'sfixed64': 'int64_t', 'float': 'float',
          'double': 'double'}


def ident(msg):
    if msg.map_entry:
        return ident(msg.parent) + '_MAP_' + msg.name
    return msg.c


def set_scalar(f, lhs):
    """C statement reading one scalar from the stream into lhs."""
    if f.type == 'float':
        return f'rd_f32(r_p, &{lhs});'
    if f.type == 'double':
        return f'rd_f64(r_p, &{lhs});'
    if f.type == 'string':
        return f'{lhs} = rd_str(r_p);'
    if f.type == 'bytes':
        return f'rd_bytes(r_p, &{lhs});'
    if f.type == 'bool':
        return f'{lhs} = (rd_u64(r_p) != 0);'
    return f'{lhs} = (__typeof__({lhs}))rd_u64(r_p);'


def dump_scalar(f, x):
    if f.type == 'float':
        return f'wr_f32(w_p, &{x});'
    if f.type == 'double':
        return f'wr_f64(w_p, &{x});'
    if f.type == 'string':
        return f'wr_str(w_p, {x});'
    if f.type == 'bytes':
        return f'wr_bytes(w_p, &{x});'
    if f.type == 'bool':
        return f'wr_u64(w_p, {x} ? 1 : 0);'
    if f.type == 'enum':
        return f'wr_u64(w_p, (uint64_t)(int64_t)(int32_t){x});'
    if SCALARS[f.type][2]:
        return f'wr_u64(w_p, (uint64_t)(int64_t){x});'
    return f'wr_u64(w_p, (uint64_t){x});'


def touch_scalar(f, x):
    return ''


def walk_scalar(f, x):
    if f.type == 'string':
        return f'wk_str(k_p, {x});'
    if f.type == 'bytes':
        return f'wk_bytes(k_p, &{x});'
    return ''


def inline_items(f):
    return 'items_pp' if f.type == 'string' else 'items_p'


class Glue:
    """files: all File objects of a schema set."""

    def __init__(self, files, only=None):
        self.files = files
        self.messages = []
        for fi in files:
            self.messages += fi.all_messages()
        self.entries = [m for m in self.messages if m.parent is None]
        if only is not None:
            self.entries = [m for m in self.entries if m.name in only]

    def ctype(self, m):
        if m.map_entry:
            return f'{ident(m)}_ct'
        return f'struct {m.c}_t'

    def index(self, msg, name):
        names = [f.name for f in msg.all_fields()] + [o.name for o in msg.oneofs]
        return names.index(name)

    def source(self):
        out = ['#include "driver.h"']
        for fi in self.files:
            out.append(f'#include "{fi.c_name}.h"')
        out.append('')
        for m in self.messages:
            if m.map_entry:
                f = [f for f in m.parent.fields if f.ref is m][0]
                out.append(f'typedef __typeof__(*((struct {m.parent.c}_t *)0)->{f.c}.items_p) {self.ctype(m)};')
        for m in self.messages:
            out.append(f'static int ops_{ident(m)}({self.ctype(m)} *p, struct rd_t *r_p);')
            out.append(f'static void dump_{ident(m)}({self.ctype(m)} *p, struct wr_t *w_p);')
            out.append(f'static void walk_{ident(m)}({self.ctype(m)} *p, struct wk_t *k_p);')
        for m in self.messages:
            out += self.ops(m)
            out += self.dump(m)
            out += self.walk(m)
        for m in self.entries:
            c = m.c
            out.append(f'static void *new_{c}(void *b, size_t s) {{ return {c}_new(b, s); }}')
            out.append(f'static int enc_{c}(void *p, uint8_t *b, size_t s) {{ return {c}_encode(p, b, s); }}')
            out.append(f'static int dec_{c}(void *p, const uint8_t *b, size_t s) {{ return {c}_decode(p, b, s); }}')
            out.append(f'static int xops_{c}(void *p, struct rd_t *r) {{ return ops_{c}(p, r); }}')
            out.append(f'static void xdump_{c}(void *p, struct wr_t *w) {{ dump_{c}(p, w); }}')
            out.append(f'static void xwalk_{c}(void *p, struct wk_t *k) '
                       f'{{ wk_add(k, p, sizeof(struct {c}_t), alignof(struct {c}_t)); walk_{c}(p, k); }}')
        out.append('const struct entry_t entries[] = {')
        for m in self.entries:
            c = m.c
            out.append(f'    {{ "{c}", new_{c}, enc_{c}, dec_{c}, xops_{c}, xdump_{c}, xwalk_{c}, '
                       f'sizeof(struct {c}_t) }},')
        out.append('};')
        out.append(f'const int entries_length = {len(self.entries)};')
        return '\n'.join(out) + '\n'

    def alloc_name(self, m, f):
        if m.map_entry:
            return f'{m.parent.c}_{m_snake(m)}_{f.c}_alloc'
        return f'{m.c}_{f.c}_alloc'

    def ops(self, m):
        o = [f'static int ops_{ident(m)}({self.ctype(m)} *p, struct rd_t *r_p)', '{',
             '    int n, i, res, index, act;', '    (void)p; (void)i; (void)res; (void)index;',
             '    n = (int)rd_u16(r_p);', '    while (n-- > 0) {',
             '        int fi = (int)rd_u16(r_p);', '        act = (int)rd_u8(r_p);',
             '        switch (fi) {']
        k = 0
        for f in m.all_fields():
            o.append(f'        case {k}:')
            o += ['            ' + s for s in self.field_ops(m, f)]
            o.append('            break;')
            k += 1
        for of in m.oneofs:
            o.append(f'        case {k}:')
            o.append(f'            p->{of.c} = {m.c}_{of.c}_none_e;')
            o.append('            break;')
            k += 1
        o += ['        default: r_p->bad = 1; return (-1000);', '        }', '        (void)act;', '    }',
              '    return (0);', '}', '']
        return o

    def field_ops(self, m, f):
        n = f.c
        if f.repeated:
            items = f'p->{n}.{inline_items(f)}'
            o = ['if ((act == 2) || (act == 3)) {', '    int len = (int)rd_u32(r_p);',
                 f'    res = lib({self.alloc_name(m, f)}(p, len));', '    if (res != 0) { return (res); }',
                 f'    if (p->{n}.length != len) {{ return (-1001); }}', '    if (act == 3) {',
                 '        for (i = 0; i < len; i++) {']
            if f.is_msg:
                o.append(f'            res = ops_{ident(f.ref)}(&{items}[i], r_p);')
                o.append('            if (res != 0) { return (res); }')
            else:
                o.append('            ' + set_scalar(f, f'{items}[i]'))
            o += ['        }', '    }', '} else {', '    index = (int)rd_u32(r_p);']
            if f.is_msg:
                o.append(f'    res = ops_{ident(f.ref)}(&{items}[index], r_p);')
                o.append('    if (res != 0) { return (res); }')
            else:
                o.append('    ' + set_scalar(f, f'{items}[index]'))
            o.append('}')
            return o
        if f.is_msg:
            o = ['if (act == 1) {', f'    p->{n}_p = NULL;', '} else {', '    if (act != 5) {',
                 f'        res = lib({self.alloc_name(m, f)}(p));', '        if (res != 0) { return (res); }',
                 '    }', f'    res = ops_{ident(f.ref)}(p->{n}_p, r_p);',
                 '    if (res != 0) { return (res); }', '}']
            return o
        if f.oneof is not None:
            lhs = f'p->{n}_p' if f.type == 'string' else f'p->{n}'
            return [f'if (act != 8) {{ lib_void({m.c}_{n}_init(p)); }}', 'if (act != 7) {',
                    '    ' + set_scalar(f, lhs), '}']
        if f.label == 'optional':
            lhs = f'p->{n}.value_p' if f.type == 'string' else f'p->{n}.value'
            return ['if (act == 1) {', f'    p->{n}.is_present = false;', '} else {',
                    f'    p->{n}.is_present = true;', '    ' + set_scalar(f, lhs), '}']
        lhs = f'p->{n}_p' if f.type == 'string' else f'p->{n}'
        return [set_scalar(f, lhs)]

    def dump(self, m):
        o = [f'static void dump_{ident(m)}({self.ctype(m)} *p, struct wr_t *w_p)', '{', '    int i;',
             '    (void)p; (void)i; (void)w_p;']
        for f in m.fields:
            n = f.c
            if f.repeated:
                items = f'p->{n}.{inline_items(f)}'
                o.append(f'    wr_u32(w_p, (uint32_t)p->{n}.length);')
                o.append(f'    for (i = 0; i < p->{n}.length; i++) {{')
                if f.is_msg:
                    o.append(f'        dump_{ident(f.ref)}(&{items}[i], w_p);')
                else:
                    o.append('        ' + dump_scalar(f, f'{items}[i]'))
                o.append('    }')
            elif f.is_msg:
                o.append(f'    wr_u8(w_p, p->{n}_p != NULL);')
                o.append(f'    if (p->{n}_p != NULL) {{ dump_{ident(f.ref)}(p->{n}_p, w_p); }}')
            elif f.label == 'optional':
                lhs = f'p->{n}.value_p' if f.type == 'string' else f'p->{n}.value'
                o.append(f'    wr_u8(w_p, p->{n}.is_present ? 1 : 0);')
                o.append(f'    if (p->{n}.is_present) {{ {dump_scalar(f, lhs)} }}')
            else:
                lhs = f'p->{n}_p' if f.type == 'string' else f'p->{n}'
                o.append('    ' + dump_scalar(f, lhs))
        for of in m.oneofs:
            o.append(f'    switch (p->{of.c}) {{')
            o.append(f'    case {m.c}_{of.c}_none_e: wr_u8(w_p, 0); break;')
            for k, f in enumerate(of.fields, 1):
                o.append(f'    case {m.c}_{of.c}_{f.c}_e: wr_u8(w_p, {k});')
                if f.is_msg:
                    o.append(f'        dump_{ident(f.ref)}(p->{f.c}_p, w_p); break;')
                else:
                    lhs = f'p->{f.c}_p' if f.type == 'string' else f'p->{f.c}'
                    o.append(f'        {dump_scalar(f, lhs)} break;')
            o.append('    default: wr_u8(w_p, 255); break;')
            o.append('    }')
        o += ['}', '']
        return o

    def walk(self, m):
        o = [f'static void walk_{ident(m)}({self.ctype(m)} *p, struct wk_t *k_p)', '{', '    int i;',
             '    (void)p; (void)i; (void)k_p;']

        def ptr(x, f, ind):
            return [f'{ind}wk_add(k_p, {x}, sizeof(*{x}), alignof(__typeof__(*{x})));',
                    f'{ind}walk_{ident(f.ref)}({x}, k_p);']
        for f in m.fields:
            n = f.c
            if f.repeated:
                items = f'p->{n}.{inline_items(f)}'
                o.append(f'    if (p->{n}.length > 0) {{')
                o.append(f'        wk_add(k_p, {items}, sizeof(*{items}) * (size_t)p->{n}.length, '
                         f'alignof(__typeof__(*{items})));')
                inner = f'walk_{ident(f.ref)}(&{items}[i], k_p);' if f.is_msg else walk_scalar(f, f'{items}[i]')
                if inner:
                    o.append(f'        for (i = 0; i < p->{n}.length; i++) {{ {inner} }}')
                o.append('    }')
            elif f.is_msg:
                o.append(f'    if (p->{n}_p != NULL) {{')
                o += ptr(f'p->{n}_p', f, '        ')
                o.append('    }')
            elif f.label == 'optional':
                lhs = f'p->{n}.value_p' if f.type == 'string' else f'p->{n}.value'
                w = walk_scalar(f, lhs)
                if w:
                    o.append(f'    if (p->{n}.is_present) {{ {w} }}')
            else:
                lhs = f'p->{n}_p' if f.type == 'string' else f'p->{n}'
                w = walk_scalar(f, lhs)
                if w:
                    o.append('    ' + w)
        for of in m.oneofs:
            o.append(f'    switch (p->{of.c}) {{')
            for f in of.fields:
                o.append(f'    case {m.c}_{of.c}_{f.c}_e:')
                if f.is_msg:
                    o += ptr(f'p->{f.c}_p', f, '        ')
                else:
                    lhs = f'p->{f.c}_p' if f.type == 'string' else f'p->{f.c}'
                    w = walk_scalar(f, lhs)
                    if w:
                        o.append('        ' + w)
                o.append('        break;')
            o.append('    default: break;')
            o.append('    }')
        o += ['}', '']
        return o


def m_snake(entry):
    """C name part of a map entry."""
    from .schema import snake
    return snake(entry.name)


# ------------------------------------------------------------ value <-> stream

def put_scalar(f, x, variant=0):
    if f.type in ('string', 'bytes'):
        return struct.pack('<IB', len(x), variant) + x
    return struct.pack('<Q', x & 0xffffffffffffffff)


def op(msg_index, act, payload=b''):
    return struct.pack('<HB', msg_index, act) + payload


def ops_list(ops):
    return struct.pack('<H', len(ops)) + b''.join(ops)


def field_index(msg, name):
    for i, f in enumerate(msg.all_fields()):
        if f.name == name:
            return i
    for i, o in enumerate(msg.oneofs):
        if o.name == name:
            return len(msg.all_fields()) + i
    raise KeyError(name)


def value_ops(msg, v, rng=None):
    """Operations that build value v from a fresh message. With an rng the
    order of fields is random."""
    ops = []
    fields = list(msg.fields)
    idx = {f.name: i for i, f in enumerate(msg.all_fields())}
    for f in fields:
        x = v[f.name]
        i = idx[f.name]
        variant = 0 if rng is None else rng.randrange(2)
        if f.repeated:
            if x or (rng is not None and rng.random() < 0.2):
                if f.is_msg:
                    body = b''.join(value_ops(f.ref, y, rng) for y in x)
                else:
                    body = b''.join(put_scalar(f, y, variant) for y in x)
                ops.append(op(i, ALLOCSET, struct.pack('<I', len(x)) + body))
        elif f.is_msg:
            if x is not None:
                ops.append(op(i, ALLOC, value_ops(f.ref, x, rng)))
        elif f.label == 'optional':
            if x is not None:
                ops.append(op(i, SET, put_scalar(f, x, variant)))
        else:
            ops.append(op(i, SET, put_scalar(f, x, variant)))
    for o in msg.oneofs:
        c = v[o.name]
        if c is not None:
            f = msg.field(c[0])
            i = idx[f.name]
            if f.is_msg:
                ops.append(op(i, ALLOC, value_ops(f.ref, c[1], rng)))
            else:
                ops.append(op(i, SET, put_scalar(f, c[1])))
    if rng is not None:
        rng.shuffle(ops)
    return ops_list(ops)


class Dump:
    """Reader of a dump stream."""

    def __init__(self, data):
        self.d, self.p = data, 0

    def take(self, n):
        b = self.d[self.p:self.p + n]
        if len(b) != n:
            raise ValueError('short dump')
        self.p += n
        return b

    def scalar(self, f):
        if f.type in ('string', 'bytes'):
            n = struct.unpack('<I', self.take(4))[0]
            return self.take(n)
        x = struct.unpack('<Q', self.take(8))[0]
        if f.type == 'enum' or (SCALARS[f.type][2]):
            if x >> 63:
                x -= 1 << 64
        return x

    def message(self, msg):
        v = {}
        for f in msg.fields:
            if f.repeated:
                n = struct.unpack('<I', self.take(4))[0]
                v[f.name] = [self.message(f.ref) if f.is_msg else self.scalar(f) for _ in range(n)]
            elif f.is_msg:
                v[f.name] = self.message(f.ref) if self.take(1)[0] else None
            elif f.label == 'optional':
                v[f.name] = self.scalar(f) if self.take(1)[0] else None
            else:
                v[f.name] = self.scalar(f)
        for o in msg.oneofs:
            k = self.take(1)[0]
            if k == 0:
                v[o.name] = None
            elif k == 255:
                v[o.name] = ('<invalid>', None)
            else:
                f = o.fields[k - 1]
                v[o.name] = (f.name, self.message(f.ref) if f.is_msg else self.scalar(f))
        return v


def parse_dump(msg, data):
    d = Dump(data)
    v = d.message(msg)
    if d.p != len(data):
        raise ValueError('trailing dump data')
    return v
