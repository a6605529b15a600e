"""Schemas that are hard for a code generator: odd names, orders, sizes."""

from . import proto, schema
from .schema import SCALARS, Enum, Field, File, Message, Oneof, Service, adopt, make_map, snake

KEYWORDS = set('''auto break case char const continue default do double else enum extern float for goto if inline int
long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while bool
true false nullptr base and and_eq asm bitand bitor catch class compl concept consteval constexpr constinit const_cast
co_await co_return co_yield decltype delete dynamic_cast explicit export friend mutable namespace new noexcept not
not_eq operator or or_eq private protected public reinterpret_cast requires static_assert static_cast template this
thread_local throw try typeid typename using virtual wchar_t xor xor_eq alignas alignof char8_t char16_t char32_t
unix linux errno null'''.split())

TYPE_NAMES = ['Bool', 'Bytes', 'String', 'Float', 'Double', 'Sint32', 'Fixed64', 'Message', 'Enum',
              'HTTPRequest', 'HTTPServer2x', 'X', 'Y2', 'ABC', 'AbcDEF', 'snake_type', 'mixedCase', 'UPPER_TYPE', 'A1b2C3',
              'Oneof', 'Map', 'Repeated', 'Struct', 'Void', 'PbtoolsLike', 'Type9', 'T_1', 'Base', 'Init', 'Encode',
              'Two__Scores', 'Sc___ore', 'Q____A', 'AVeryLongTypeNameThatGoesOnAndOnUntilNobodyWantsToReadItAnymore', 'Error', 'EncodedP', 'Self']
FIELD_NAMES = ['x', 'X', 'y2', 'fooBar', 'FooBar', 'FOO_BAR2', 'a_b_c', 'myHTTPServer', 'x1Y2', 'trailing_', 'double__under', 'triple___under',
               'two__Under', 'many_____Ux', 'end___',
               'type', 'size', 'length', 'self_p', 'encoder_p', 'decoder_p', 'items_p', 'value', 'key', 'heap_p', 'buf_p',
               'is_present', 'wire_type', 'res', 'message', 'package', 'syntax', 'repeated', 'optional', 'oneof', 'map',
               'reserved', 'to', 'max', 'option', 'import', 'rpc', 'stream', 'returns', 'service', 'int32', 'string',
               'bytes', 'uint64', 'sint32', 'repeated_info', 'field_number', 'error', 'data', 'name', 'id', 'index', 'i',
               'pos', 'main', 'printf', 'NULLABLE', 'stdin2', 'a_very_long_field_name_that_goes_on_and_on_and_on_and_on',
               'n0', 'l', 'O0', 'init', 'encode', 'decode', 'alloc', 'has_x', 'clear', 'get', 'set', 'kind', 'state',
               'false_positive', 'true_north', 'enum_value', 'group', 'extend', 'weak', 'q9', 'Q', 'Zz', 'zZ9']
VALUE_NAMES = ['ZERO', 'one', 'Two', 'VALUE_3', 'FOUR_4', 'fiveSix', 'NONE', 'UNKNOWN', 'X', 'y', 'Z9', 'NULL_VALUE', 'MAX',
               'MIN', 'TRUE_VALUE', 'OK', 'ERROR', 'UNSPECIFIED', 'A_B_C', 'HTTPError', 'A1', 'A_2', 'LAST']
ONEOF_NAMES = ['choice', 'Choice2', 'theValue', 'WHICH', 'o', 'pick_one', 'variant3', 'alternatives_']
PACKAGES = [None, 'a', 'foo', 'foo.bar', 'A.b', 'camelPkg', 'x1.y2.z3', 'with_under.score', 'pbt', 'foo.bar.baz.qux']
FILES = ['plain', 'CamelFile', 'with_under', 'v1beta2', '2fast', '007', 'my-file', 'a.b', 'with space', 'UPPER', 'x', 'foo2Bar', 'c++', 'a@b',
         'x,y~1', 'k=v', "it's", 'größe', '#5', '(copy)', 'a%20b', 'Über$Datei&', '_hidden', 'p[1]{2}', '9!9', ' lead',
         'tail ']


class Names:
    def __init__(self, rng):
        self.rng = rng
        self.used = set()

    def pick(self, words, scope, avoid=KEYWORDS):
        """A name whose C form is unique in the scope."""
        while True:
            n = self.rng.choice(words)
            if self.rng.random() < 0.3:
                n += self.rng.choice(['2', 'B', 'b', '_x', 'Cd', '77'])
            c = snake(n)
            if c in avoid or (scope, c.strip('_')) in self.used:
                self.rng.random()
                n = f'{n}{self.rng.choice("KLMNpqrs")}{self.rng.randrange(1000)}'
                c = snake(n)
                if (scope, c.strip('_')) in self.used:
                    continue
            self.used.add((scope, c.strip('_')))
            return n


def value(rng, i):
    return rng.choice([i, i + 100, -i, -2147483648 + i, 2147483647 - i, 65536 * i])


def fill_enum(rng, names, e):
    seen = {0}
    for i in range(rng.choice([0, 1, 2, 4, 8])):
        v = value(rng, i + 1)
        while v in seen:
            v += 1
        seen.add(v)
        e.values.append((names.pick(VALUE_NAMES, ('values', e.scope)), v))


def odd_schema(seed, rng, nfiles=1):
    """Odd names everywhere; types referenced before and after they are
    declared, across messages, files and nesting levels."""
    for _ in range(50):
        names = Names(rng)
        files = []
        for k in range(nfiles):
            fi = File(names.pick(FILES, 'files'), rng.choice(PACKAGES))
            fi.imports = [x for x in files if rng.random() < 0.7]
            files.append(fi)

            def types(owner, scope, depth):
                for _ in range(rng.choice([1, 2, 4, 6] if depth == 0 else [0, 0, 1, 2])):
                    if rng.random() < 0.3:
                        e = Enum(names.pick(TYPE_NAMES, scope), [])
                        e.values = [(names.pick(VALUE_NAMES, ('values', scope)), 0)]
                        e.scope = scope
                        fill_enum(rng, names, e)
                        owner.items.append(e)
                    else:
                        m = Message(names.pick(TYPE_NAMES, scope))
                        owner.items.append(m)
                        if depth < 4:
                            types(m, scope + (m.name,), depth + 1)
            types(fi, fi.scope, 0)
            adopt(fi)
            known = [t for f in [fi] + fi.imports for t in f.all_messages() + f.all_enums()]
            known = [t for t in known if not getattr(t, 'map_entry', False)]
            for m in fi.all_messages():
                number = [0]

                def nextnum():
                    number[0] += rng.choice([1, 1, 1, 3, 17, 500, 20000])
                    return number[0] if not 19000 <= number[0] <= 19999 else nextnum()

                def typ():
                    if known and rng.random() < 0.6:
                        t = rng.choice(known)
                        return t.kind, t, '.' + t.full
                    return rng.choice(list(SCALARS)), None, None
                for _ in range(rng.choice([0, 1, 3, 6])):
                    t, ref, text = typ()
                    name = names.pick(FIELD_NAMES, ('f', m.full))
                    x = rng.random()
                    if x < 0.12:
                        make_map(m, snake(name).strip('_'), nextnum(), rng.choice(schema.MAP_KEYS), t, ref, text)
                    elif x < 0.25:
                        o = Oneof(names.pick(ONEOF_NAMES, ('f', m.full)))
                        m.items.append(o)
                        for _ in range(rng.choice([1, 2, 4])):
                            t, ref, text = typ()
                            o.fields.append(Field(names.pick(FIELD_NAMES, ('f', m.full)), nextnum(), t, ref=ref, text=text,
                                                  oneof=o))
                    else:
                        label = rng.choice(['', 'repeated', 'repeated', '' if t == 'message' else 'optional'])
                        m.items.append(Field(name, nextnum(), t, label, ref=ref, text=text))
                rng.shuffle(m.items)
            rng.shuffle(fi.items)
            adopt(fi)
        if not schema.collides(files):
            return files
    return schema.random_schema(seed)


def order_schema(rng):
    """Many messages that use each other, in random declaration order."""
    fi = File('ordered', rng.choice([None, 'ord']))
    n = rng.choice([3, 5, 8])
    tops = []
    for i in range(n):
        m = Message(f'M{i}x')
        for j in range(rng.choice([0, 1, 2])):
            c = Message(f'N{i}x{j}')
            m.items.append(c)
            if rng.random() < 0.4:
                c.items.append(Message(f'D{i}x{j}'))
            if rng.random() < 0.4:
                c.items.append(Enum(f'F{i}x{j}', [(f'F{i}X{j}A', 0), (f'F{i}X{j}B', 1)]))
        if rng.random() < 0.5:
            m.items.append(Enum(f'E{i}x', [(f'E{i}A', 0), (f'E{i}B', -1)]))
        tops.append(m)
    fi.items = tops + [Enum(f'G{i}x', [(f'G{i}A', 0)]) for i in range(rng.choice([0, 1, 2]))]
    adopt(fi)
    all_types = fi.all_messages() + fi.all_enums()
    for m in fi.all_messages():
        for k in range(rng.choice([0, 1, 2, 4])):
            t = rng.choice(all_types)
            text = '.' + t.full
            x = rng.random()
            if x < 0.2:
                make_map(m, f'm{k}', k + 1, 'string', t.kind, t, text)
            elif x < 0.4:
                o = Oneof(f'o{k}')
                o.fields = [Field(f'f{k}', k + 1, t.kind, ref=t, text=text, oneof=o), Field(f'g{k}', k + 100, 'bytes', oneof=o)]
                m.items.append(o)
            else:
                label = rng.choice(['', 'repeated', 'repeated', '' if t.kind == 'message' else 'optional'])
                m.items.append(Field(f'f{k}', k + 1, t.kind, label, ref=t, text=text))
        rng.shuffle(m.items)
    rng.shuffle(fi.items)
    adopt(fi)
    return [fi]


def special(kind):
    """Extremes of size and emptiness."""
    fi = File(kind, 'spe.cial')
    out = [fi]
    if kind == 'nothing':
        fi.package = None
    elif kind == 'only_package':
        pass
    elif kind == 'only_enum':
        fi.items = [Enum('Lonely', [('L', 0), ('M', 5)])]
    elif kind == 'only_service':
        m = File('only_service_types', 'spe.types')
        m.items = [Message('Ping')]
        adopt(m)
        fi.imports = [m]
        fi.items = [Service('Pinger', [('Ping', 'spe.types.Ping', False, 'spe.types.Ping', True, ';')])]
        out = [m, fi]
    elif kind == 'only_import':
        m = File('only_import_types', None)
        m.items = [Message('Other'), Enum('OtherE', [('OE', 0)])]
        adopt(m)
        fi.imports = [m]
        out = [m, fi]
    elif kind == 'empty_messages':
        a, b, c = Message('A'), Message('B'), Message('C')
        b.items = [Message('D'), Enum('E', [('Z', 0)])]
        c.items = [Field('a', 1, 'message', ref=a), Field('b', 2, 'message', 'repeated', ref=b),
                   Field('d', 3, 'message', ref=b.items[0], text='B.D')]
        fi.items = [c, b, a]
    elif kind == 'deep_nest':
        top = cur = Message('L0')
        for k in range(1, 25):
            n = Message(f'L{k}')
            cur.items = [n, Field('f', 1, 'message', ref=n), Field('r', 2, 'message', 'repeated', ref=n), Field('v', 3, 'int32')]
            cur = n
        cur.items = [Field('back', 1, 'message', ref=top, text='.spe.cial.L0')]
        fi.items = [top]
    elif kind == 'many_fields':
        m = Message('Many')
        types = list(SCALARS)
        for k in range(1, 401):
            m.items.append(Field(f'f{k}', k if k < 300 else 536870911 - k, types[k % len(types)],
                                 ['', 'repeated', 'optional'][k % 3]))
        o = Oneof('big')
        o.fields = [Field(f'o{k}', 1000 + k, types[k % len(types)], oneof=o) for k in range(120)]
        m.items.append(o)
        fi.items = [m]
    elif kind == 'many_messages':
        ms = [Message(f'T{k}') for k in range(150)]
        for k, m in enumerate(ms):
            m.items = [Field('a', 1, 'message', ref=ms[(k * 7 + 3) % 150]), Field('b', 2, 'message', 'repeated', ref=ms[(k * 11) % 150]),
                       Field('c', 3, 'string')]
        fi.items = ms
    elif kind == 'big_enum':
        fi.items = [Enum('Big', [(f'V{k}', k * (-1) ** k * 3) for k in range(600)]), Message('Holder')]
        fi.items[1].items = [Field('e', 1, 'enum', ref=fi.items[0])]
    elif kind == 'scalar_names':
        fi.package = None
        ms = {n: Message(n) for n in ('Bool', 'String', 'Sint32', 'Sint64', 'Fixed32', 'Sfixed64', 'Double')}
        es = {n: Enum(n, [(n.upper() + '_Z', 0), (n.upper() + '_N', -1)]) for n in ('Bytes', 'Float', 'Fixed64', 'Sfixed32')}
        top = Message('Top')
        k = 0
        o = Oneof('one')
        for n, t in list(ms.items()) + list(es.items()):
            k += 1
            top.items.append(Field(f's{k}', k, t.kind, ref=t))
            top.items.append(Field(f'r{k}', k + 100, t.kind, 'repeated', ref=t))
            if t.kind == 'enum':
                top.items.append(Field(f'p{k}', k + 200, 'enum', 'optional', ref=t))
            o.fields.append(Field(f'o{k}', k + 300, t.kind, ref=t, oneof=o))
            t.items = [Field('v', 1, 'int32')] if t.kind == 'message' else None
        top.items.append(o)
        fi.items = [top] + list(ms.values()) + list(es.values())
        adopt(fi)
        for n, t in list(ms.items()) + list(es.items()):
            k += 1
            make_map(top, f'm{k}', k + 400, 'int32', t.kind, t)
    elif kind == 'map_types':
        m = Message('Maps')
        fi.items = [m]
        adopt(fi)
        k = 0
        for key in schema.MAP_KEYS:
            for v in SCALARS:
                k += 1
                make_map(m, f'm{k}', k, key, v)
    for f in out:
        adopt(f)
    return out


SPECIAL = ['nothing', 'only_package', 'only_enum', 'only_service', 'only_import', 'empty_messages', 'deep_nest', 'many_fields',
           'many_messages', 'big_enum', 'scalar_names', 'map_types']


def files_of(spec, seed):
    """spec: (kind, index)."""
    kind, index = spec
    rng = __import__('random').Random(f'shapes/{seed}/{kind}/{index}')
    if kind == 'special':
        return special(SPECIAL[index % len(SPECIAL)])
    if kind == 'odd':
        return odd_schema(f'odd/{seed}/{index}', rng, nfiles=rng.choice([1, 1, 2, 4]))
    if kind == 'order':
        return order_schema(rng)
    if kind == 'kitchen':
        return [schema.kitchen_sink()]
    files = schema.random_schema(f'shapes/{seed}/{index}', files=rng.choice([1, 1, 2, 3, 4]), max_fields=rng.choice([5, 9, 20]))
    if kind == 'decorated':
        proto.decorate(files, rng, custom=True, density=0.7)
    return files
