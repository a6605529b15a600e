"""Schema model, random schema generator and proto printer.

Independent of pbtools: nothing here imports or imitates its parser.
"""

import random

# name -> (family, bits, signed)
SCALARS = {
    'int32': ('varint', 32, True), 'int64': ('varint', 64, True),
    'uint32': ('varint', 32, False), 'uint64': ('varint', 64, False),
    'sint32': ('zigzag', 32, True), 'sint64': ('zigzag', 64, True),
    'bool': ('bool', 1, False),
    'fixed32': ('fixed', 32, False), 'fixed64': ('fixed', 64, False),
    'sfixed32': ('fixed', 32, True), 'sfixed64': ('fixed', 64, True),
    'float': ('fixed', 32, None), 'double': ('fixed', 64, None),
    'string': ('len', 0, None), 'bytes': ('len', 0, None),
}
NUMERIC = [s for s in SCALARS if s not in ('string', 'bytes')]
MAP_KEYS = [s for s in SCALARS if s not in ('float', 'double', 'bytes')]
INT_TYPES = ['int32', 'int64', 'uint32', 'uint64', 'bool']


def snake(name):
    """CamelCase or camelCase to snake_case: a new word starts at an upper
    case letter following a lower case letter or digit, and at an upper case
    letter followed by a lower case letter."""
    out = ''
    for i, c in enumerate(name):
        if c == '.':
            c = '_'
        if c.isupper() and i > 0 and name[i - 1] not in '._':
            prev = name[i - 1]
            nxt = name[i + 1] if i + 1 < len(name) else ''
            if prev.islower() or prev.isdigit() or nxt.islower():
                out += '_'
        out += c.lower()
    while '__' in out:
        out = out.replace('__', '_')
    return out


class Enum:
    def __init__(self, name, values, scope=()):
        self.name, self.values, self.scope = name, values, tuple(scope)
        self.file = None
        self.extras = {}          # value index -> text printed before it
        self.options = {}         # value name -> text

    kind = 'enum'

    @property
    def full(self):
        return '.'.join(self.scope + (self.name,))

    @property
    def c(self):
        return snake(self.full)

    @property
    def c_namespace(self):
        return snake('.'.join(self.scope))


class Field:
    def __init__(self, name, number, type, label='', ref=None, oneof=None, key=None,
                 text=None, options=''):
        self.name = name          # as declared
        self.number = number
        self.type = type          # scalar name, 'enum' or 'message'
        self.label = label        # '', 'optional', 'repeated'
        self.ref = ref            # Enum or Message
        self.oneof = oneof
        self.key = key            # scalar name when declared as a map
        self.text = text          # printed type name
        self.options = options

    @property
    def c(self):
        return snake(self.name)

    @property
    def repeated(self):
        return self.label == 'repeated'

    @property
    def is_map(self):
        return self.key is not None

    @property
    def is_msg(self):
        return self.type == 'message'

    @property
    def ranking(self):
        return 'int32' if self.type == 'enum' else self.type

    def type_text(self):
        if self.text is not None:
            return self.text
        return self.ref.name if self.ref is not None else self.type


class Oneof:
    def __init__(self, name, fields=None):
        self.name = name
        self.fields = fields or []
        self.extras = {}          # member index -> text printed before it

    @property
    def c(self):
        return snake(self.name)


class Service:
    """rpcs: (name, request text, request stream, response text, response
    stream, tail text)."""

    def __init__(self, name, rpcs):
        self.name, self.rpcs = name, rpcs
        self.extras = {}


class Message:
    kind = 'message'

    def __init__(self, name, scope=()):
        self.name = name
        self.scope = tuple(scope)
        self.items = []           # declaration order: Field/Oneof/Enum/Message/str
        self.file = None
        self.map_entry = False
        self.parent = None

    @property
    def full(self):
        return '.'.join(self.scope + (self.name,))

    @property
    def c(self):
        return snake(self.full)

    @property
    def fields(self):
        return [i for i in self.items if isinstance(i, Field)]

    @property
    def oneofs(self):
        return [i for i in self.items if isinstance(i, Oneof)]

    @property
    def enums(self):
        return [i for i in self.items if isinstance(i, Enum)]

    @property
    def messages(self):
        return [i for i in self.items if isinstance(i, Message)]

    def all_fields(self):
        return self.fields + [f for o in self.oneofs for f in o.fields]

    def by_number(self):
        return {f.number: f for f in self.all_fields()}

    def all_messages(self):
        out = [self]
        for m in self.messages:
            out += m.all_messages()
        return out

    def all_enums(self):
        out = list(self.enums)
        for m in self.messages:
            out += m.all_enums()
        return out

    def field(self, name):
        return {f.name: f for f in self.all_fields()}[name]

    def add_field(self, f):
        if f.oneof is not None:
            f.oneof.fields.append(f)
        else:
            self.items.append(f)
        return f


class File:
    def __init__(self, name, package=None):
        self.name = name          # without .proto
        self.package = package
        self.imports = []         # File objects
        self.items = []           # Message/Enum/str in declaration order
        self.path = None          # sub directory for imports ('' or 'dir/')

    @property
    def scope(self):
        return (self.package,) if self.package else ()

    @property
    def messages(self):
        return [i for i in self.items if isinstance(i, Message)]

    @property
    def enums(self):
        return [i for i in self.items if isinstance(i, Enum)]

    def all_messages(self):
        out = []
        for m in self.messages:
            out += m.all_messages()
        return out

    def all_enums(self):
        out = list(self.enums)
        for m in self.messages:
            out += m.all_enums()
        return out

    @property
    def c_name(self):
        return snake(''.join(c if c.isascii() and c.isalnum() else '_' for c in self.name))

    def proto(self):
        return print_file(self)


def print_field(f, ind, maps=True):
    if f.is_map and not maps:
        return f'{ind}repeated {f.ref.name} {f.name} = {f.number}{f.options};\n'
    if f.is_map:
        v = f.ref.field('value')
        return f'{ind}map<{f.key}, {v.type_text()}> {f.name} = {f.number}{f.options};\n'
    label = f.label + ' ' if f.label else ''
    return f'{ind}{label}{f.type_text()} {f.name} = {f.number}{f.options};\n'


def print_body(i, members, ind, show):
    out = ''
    for k, x in enumerate(members):
        if k in i.extras:
            out += ind + i.extras[k] + '\n'
        out += show(x, ind)
    if len(members) in i.extras:
        out += ind + i.extras[len(members)] + '\n'
    return out


def print_item(i, ind, maps=True):
    if isinstance(i, str):
        return ind + i + '\n'
    if isinstance(i, Field):
        return print_field(i, ind, maps)
    if isinstance(i, Oneof):
        return (f'{ind}oneof {i.name} {{\n' + print_body(i, i.fields, ind + '    ', print_field)
                + f'{ind}}}\n')
    if isinstance(i, Enum):
        return (f'{ind}enum {i.name} {{\n'
                + print_body(i, i.values, ind + '    ',
                             lambda v, x: f'{x}{v[0]} = {v[1]}{i.options.get(v[0], "")};\n') + f'{ind}}}\n')
    if isinstance(i, Service):
        return (f'{ind}service {i.name} {{\n'
                + print_body(i, i.rpcs, ind + '    ',
                             lambda r, x: f'{x}rpc {r[0]}({"stream " if r[2] else ""}{r[1]}) returns '
                             f'({"stream " if r[4] else ""}{r[3]}){r[5]}\n') + f'{ind}}}\n')
    if i.map_entry and maps:
        return ''
    return (f'{ind}message {i.name} {{\n'
            + ''.join(print_item(x, ind + '    ', maps) for x in i.items) + f'{ind}}}\n')


def print_file(fi, maps=True):
    """maps=False declares map fields as what they are on the wire: repeated
    entry messages."""
    out = 'syntax = "proto3";\n'
    if fi.package:
        out += f'package {fi.package};\n'
    for imp in fi.imports:
        out += f'import "{(imp.path or "")}{imp.name}.proto";\n'
    for i in fi.items:
        out += print_item(i, '', maps)
    return out


def make_map(msg, name, number, key, vtype, vref=None, vtext=None, oneof=None):
    """Adds a map field to msg (and its synthetic entry message)."""
    entry = Message('PbtoolsMap' + name.title(),
                    msg.scope + (msg.name,))
    entry.map_entry = True
    entry.parent = msg
    entry.items.append(Field('key', 1, key))
    entry.items.append(Field('value', 2, vtype, ref=vref, text=vtext))
    entry.file = msg.file
    f = Field(name, number, 'message', 'repeated', ref=entry, key=key)
    msg.items.append(entry)
    msg.items.append(f)
    return f


def adopt(fi):
    """Sets scope, file and parent links of everything in a file."""
    def visit(i, scope, parent):
        if isinstance(i, (Message, Enum)):
            i.scope = tuple(scope)
            i.file = fi
        if isinstance(i, Message):
            i.parent = parent
            for x in i.items:
                visit(x, i.scope + (i.name,), i)
    for i in fi.items:
        visit(i, fi.scope, None)
    return fi


# ---------------------------------------------------------------- random

MSG_WORDS = ('Alpha Bravo Cedar Delta Ember Fjord Grove Haven Iris Jolt Karma Lotus Mango '
             'Nexus Orbit Prism Quartz Raven Solar Tango Umbra Vivid Willow Xenon Yonder Zephyr').split()
FIELD_WORDS = ('acid bolt cane dusk echo fern gale husk isle jade kelp lime moss node opal pine '
               'quay reef silk tide unit vine wave yarn zinc').split()
ENUM_WORDS = ('Mode Kind State Phase Level Grade Shape Color Pace Tone').split()
VALUE_WORDS = ('IDLE BUSY DONE HALT LEFT RIGHT NORTH SOUTH WARM COLD FAST SLOW').split()
ONEOF_WORDS = ('choice either variant pick branch option_set').split()
PKG_WORDS = ('acme zeta core wire net util base1 lab').split()

NUMBERS = [1, 2, 3, 15, 16, 17, 31, 127, 128, 2047, 2048, 4095, 16383, 16384, 18999, 20000,
           65535, 262143, 262144, 2097151, 2097152, 33554431, 33554432, 268435455, 268435456,
           536870910, 536870911]


class Gen:
    """Random schema generator. Everything derives from the given rng."""

    def __init__(self, rng, max_msgs=6, max_fields=9, max_depth=3, files=1, maps=True,
                 oneofs=True, optional=True, package=None, tag=''):
        self.rng = rng
        self.max_msgs, self.max_fields, self.max_depth = max_msgs, max_fields, max_depth
        self.nfiles = files
        self.maps, self.oneofs, self.optional = maps, oneofs, optional
        self.package = package
        self.used = set()
        self.tag = tag

    def uniq(self, words, style):
        for _ in range(1000):
            n = self.rng.choice([1, 1, 2, 2, 3])
            ws = [self.rng.choice(words) for _ in range(n)]
            if style == 'camel':
                name = ''.join(w[0].upper() + w[1:].lower() for w in ws)
                if self.rng.random() < 0.2:
                    name += str(self.rng.randrange(10))
            else:
                name = '_'.join(ws)
                if self.rng.random() < 0.2:
                    name += str(self.rng.randrange(10))
            k = snake(name)
            if k not in self.used:
                self.used.add(k)
                return name
        raise RuntimeError('out of names')

    def numbers(self, n):
        r = self.rng
        mode = r.random()
        if mode < 0.35:
            nums = list(range(1, n + 1))
        elif mode < 0.7:
            nums = r.sample(NUMBERS, min(n, len(NUMBERS)))
        else:
            nums = []
        seen = set(nums)
        while len(nums) < n:
            x = r.choice([r.randrange(1, 40), r.randrange(1, 3000), r.randrange(1, 1 << 29)])
            if x not in seen and not 19000 <= x <= 19999:
                seen.add(x)
                nums.append(x)
        if r.random() < 0.5:
            nums.sort()
        return nums

    def make_enum(self):
        r = self.rng
        n = r.choice([1, 2, 3, 5, 9])
        vals, seen = [], set()
        for i in range(n):
            name = self.uniq(VALUE_WORDS, 'snake')
            if i == 0:
                v = 0
            else:
                v = r.choice([i, i, -i, r.randrange(-1000, 1000), 2147483647 - i, -2147483648 + i,
                              127, 128, 16384])
                while v in seen:
                    v = r.randrange(-2**31, 2**31)
            seen.add(v)
            vals.append((name, v))
        return Enum(self.uniq(ENUM_WORDS, 'camel'), vals)

    def skeleton(self, depth):
        r = self.rng
        m = Message(self.uniq(MSG_WORDS, 'camel'))
        if depth < self.max_depth:
            for _ in range(r.choice([0, 0, 1, 2] if depth == 0 else [0, 0, 0, 1])):
                m.items.append(self.skeleton(depth + 1))
        for _ in range(r.choice([0, 0, 1])):
            m.items.append(self.make_enum())
        return m

    def visible(self, fi, m):
        """(text, type) pairs that may be referenced from message m: simple,
        relative, fully qualified and leading-dot names."""
        out = []
        for x in self.types_of(fi):
            out.append((self.reference(m, x), x))
        for imp in fi.imports:
            for x in self.types_of(imp):
                out.append((self.reference(m, x), x))
        return out

    def types_of(self, fi):
        return [x for x in fi.all_messages() if not x.map_entry] + fi.all_enums()

    def reference(self, m, x):
        r = self.rng
        target = x.full.split('.')
        scope = m.full.split('.')
        common = 0
        while common < len(scope) and common < len(target) - 1 and scope[common] == target[common]:
            common += 1
        choices = list(range(common + 1))
        mode = r.random()
        if mode < 0.55:
            return '.'.join(target[common:])
        if mode < 0.75:
            return x.full
        if mode < 0.85:
            return '.' + x.full
        return '.'.join(target[r.choice(choices):])

    def add_content(self, fi, m):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 4, self.max_fields // 2, self.max_fields])
        nums = self.numbers(n + 8)
        vis = self.visible(fi, m)
        names = set()

        def fname(words=FIELD_WORDS):
            while True:
                k = r.choice([1, 1, 2, 2, 3])
                nm = '_'.join(r.choice(words) for _ in range(k))
                style = r.random()
                if style < 0.1:
                    ws = nm.split('_')
                    nm = ws[0] + ''.join(w.title() for w in ws[1:])
                elif style < 0.2:
                    nm += str(r.randrange(10))
                if snake(nm) not in names:
                    names.add(snake(nm))
                    return nm

        def pick_type():
            if vis and r.random() < 0.4:
                text, ref = r.choice(vis)
                return ref.kind, ref, text
            return r.choice(list(SCALARS)), None, None

        for i in range(n):
            num = nums.pop(0)
            x = r.random()
            if x < 0.1 and self.maps:
                t, ref, text = pick_type()
                while True:
                    nm = '_'.join(r.choice(FIELD_WORDS) for _ in range(r.choice([1, 2])))
                    if nm not in names:
                        names.add(nm)
                        break
                make_map(m, nm, num, r.choice(MAP_KEYS), t, ref, text)
            elif x < 0.22 and self.oneofs:
                o = Oneof(fname(ONEOF_WORDS))
                m.items.append(o)
                nums2 = [num] + [nums.pop() for _ in range(r.choice([0, 1, 3, 4]))]
                while len(nums) < n + 2:
                    nums += [k for k in self.numbers(12)
                             if k not in nums and k not in nums2
                             and k not in m.by_number()]
                for k in nums2:
                    t, ref, text = pick_type()
                    o.fields.append(Field(fname(), k, t, ref=ref, oneof=o, text=text))
            else:
                t, ref, text = pick_type()
                label = r.choice(['', '', 'repeated', 'repeated', 'optional' if self.optional else ''])
                if t == 'message' and label == 'optional':
                    label = ''
                m.items.append(Field(fname(), num, t, label, ref=ref, text=text))
        # Numbers must be unique.
        seen = set()
        for f in m.all_fields():
            while f.number in seen:
                f.number = r.randrange(1, 18999)
            seen.add(f.number)
        # Mixed declaration order.
        if r.random() < 0.5:
            self.rng.shuffle(m.items)

    def schema(self):
        """Returns a list of File objects, imported files first."""
        r = self.rng
        files = []
        pkgs = []
        for k in range(self.nfiles):
            if self.package is not None and k == 0:
                pkg = self.package
            else:
                pkg = r.choice([None, 'p' + self.uniq(PKG_WORDS, 'snake'),
                                'q' + self.uniq(PKG_WORDS, 'snake') + '.r' + r.choice(PKG_WORDS)])
                if self.nfiles > 1 and pkgs and r.random() < 0.3:
                    pkg = r.choice(pkgs)
                if self.nfiles > 1 and pkg is None:
                    pkg = 'p' + self.uniq(PKG_WORDS, 'snake')
            pkgs.append(pkg)
            fi = File(self.uniq(['file', 'main', 'part', 'unit', 'spec'], 'snake') + self.tag, pkg)
            fi.imports = [x for x in files if r.random() < 0.7]
            for _ in range(r.randrange(1, self.max_msgs + 1)):
                fi.items.append(self.skeleton(0))
            for _ in range(r.choice([0, 1, 2])):
                fi.items.append(self.make_enum())
            r.shuffle(fi.items)
            adopt(fi)
            for m in fi.all_messages():
                self.add_content(fi, m)
            adopt(fi)
            files.append(fi)
        return files


def collides(files):
    """Names that are the same in C although they differ in proto."""
    seen = set()
    types = [t for f in files for t in f.all_messages() + f.all_enums()]
    for t in types:
        # struct and enum tags of messages, enums and oneofs.
        names = [t.c] + ([t.c + '_' + o.c for o in t.oneofs] if isinstance(t, Message) else [])
        names += [t.c + '_repeated'] if isinstance(t, Message) else []
        for n in names:
            if n in seen:
                return n
            seen.add(n)
    idents = set()
    for f in files:
        for e in f.all_enums():
            for n, _ in e.values:
                c = snake('.'.join(e.scope)) + '_' + snake(n) + '_e'
                if c in idents:
                    return c
                idents.add(c)
        for m in f.all_messages():
            own = [m.c + '_' + s for s in ('new', 'encode', 'decode', 'init', 'encode_inner', 'decode_inner',
                                           'encode_repeated_inner', 'decode_repeated_inner')]
            for x in m.all_fields():
                own += [f'{m.c}_{x.c}_alloc', f'{m.c}_{x.c}_init'] if not x.oneof else \
                    [f'{m.c}_{x.c}_alloc', f'{m.c}_{x.c}_init', f'{m.c}_{x.c}_encode', f'{m.c}_{x.c}_decode']
            for o in m.oneofs:
                own += [f'{m.c}_{o.c}_none_e', f'{m.c}_{o.c}_encode', f'{m.c}_{o.c}_decode', f'{m.c}_{o.c}_init']
                own += [f'{m.c}_{o.c}_{x.c}_e' for x in o.fields]
            for c in own:
                if c in idents:
                    return c
                idents.add(c)
            members = [x.c for x in m.all_fields()] + [o.c for o in m.oneofs]
            members += [x.c + '_p' for x in m.all_fields()]
            if len(set(members)) != len(members) or 'base' in members:
                return m.full
    names = [f.c_name for f in files]
    return 'file' if len(set(names)) != len(names) else None


# ---------------------------------------------------------------- fixed schemas

def kitchen_sink():
    """A schema covering every type with every label and role."""
    fi = File('kitchen', 'kit.chen')
    color = Enum('Color', [('RED', 0), ('GREEN', 1), ('BLUE', 2), ('NEG', -1), ('BIG', 2147483647),
                           ('LOW', -2147483648)])
    leaf = Message('Leaf')
    leaf.items = [Field('num', 1, 'int32'), Field('txt', 2, 'string')]
    empty = Message('Empty')
    scal = Message('Scalars')
    rep = Message('Repeats')
    opt = Message('Optionals')
    one = Message('Choices')
    o = Oneof('value')
    maps = Message('Maps')
    num = 1
    order = list(SCALARS)
    for t in order:
        scal.items.append(Field('f_' + t, num, t))
        rep.items.append(Field('r_' + t, num, t, 'repeated'))
        opt.items.append(Field('o_' + t, num, t, 'optional'))
        o.fields.append(Field('c_' + t, num, t, oneof=o))
        num += 1
    num = 16
    for msg, label, pre in ((scal, '', 'f'), (rep, 'repeated', 'r'), (opt, 'optional', 'o')):
        msg.items.append(Field(pre + '_color', num, 'enum', label, ref=color))
        if label != 'optional':
            msg.items.append(Field(pre + '_leaf', num + 1, 'message', label, ref=leaf))
            msg.items.append(Field(pre + '_empty', num + 2, 'message', label, ref=empty))
    o.fields += [Field('c_color', 16, 'enum', ref=color, oneof=o),
                 Field('c_leaf', 17, 'message', ref=leaf, oneof=o),
                 Field('c_empty', 18, 'message', ref=empty, oneof=o)]
    one.items = [o, Field('tail', 19, 'uint32')]
    o2 = Oneof('other')
    o2.fields = [Field('x_text', 2047, 'string', oneof=o2), Field('x_num', 2048, 'sint64', oneof=o2),
                 Field('x_self', 536870911, 'message', ref=one, oneof=o2)]
    one.items.append(o2)
    for e in (color, leaf, empty, scal, rep, opt, one, maps):
        e.file = fi
        e.scope = fi.scope
    num = 1
    for t in MAP_KEYS:
        v = order[(num * 7) % len(order)]
        make_map(maps, 'm_' + t, num, t, v)
        num += 1
    make_map(maps, 'm_color', num, 'string', 'enum', color)
    make_map(maps, 'm_leaf', num + 1, 'int32', 'message', leaf)
    for t in order:
        make_map(maps, 'v_' + t, num + 2, 'uint32', t)
        num += 1
    tree = Message('Tree')
    inner = Message('Inner')
    flag = Enum('Flag', [('OFF', 0), ('ON', 1)])
    inner.items = [flag, Field('flag', 1, 'enum', ref=flag), Field('tree', 2, 'message', ref=tree),
                   Field('flags', 3, 'enum', 'repeated', ref=flag)]
    tree.items = [inner, Field('label', 1, 'string'),
                  Field('children', 2, 'message', 'repeated', ref=tree),
                  Field('left', 3, 'message', ref=tree), Field('inner', 4, 'message', ref=inner),
                  Field('inners', 5, 'message', 'repeated', ref=inner),
                  Field('data', 6, 'bytes'), Field('nums', 7, 'sint32', 'repeated')]
    wide = Message('Wide')
    for i, n in enumerate([1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911]):
        wide.items.append(Field(f'w{i}', n, ['int32', 'string', 'bool', 'double', 'bytes', 'sint64',
                                             'fixed32', 'uint64', 'float', 'int64'][i]))
        wide.items.append(Field(f'v{i}', 3000 + i, ['bytes', 'fixed64', 'uint32', 'bool', 'string',
                                                    'int32', 'double', 'sfixed64', 'sint32', 'sfixed32'][i],
                                'repeated'))
    many = Message('Many')
    for i in range(1, 121):
        many.items.append(Field(f'n{i}', i, 'int32'))
    bag = Message('Bag')
    bag.items = [Field('scalars', 1, 'message', ref=scal), Field('repeats', 2, 'message', ref=rep),
                 Field('optionals', 3, 'message', ref=opt), Field('choices', 4, 'message', 'repeated', ref=one),
                 Field('maps', 5, 'message', ref=maps), Field('tree', 6, 'message', ref=tree),
                 Field('wide', 7, 'message', 'repeated', ref=wide), Field('empties', 8, 'message', 'repeated', ref=empty)]
    fi.items = [color, leaf, empty, scal, rep, opt, one, maps, tree, wide, many, bag]
    return adopt(fi)


def random_schema(seed, **kw):
    for k in range(50):
        files = Gen(random.Random(f'{seed}#{k}' if k else seed), **kw).schema()
        if not collides(files):
            return files
    raise RuntimeError('names always collide')
