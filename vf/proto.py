"""Text level tools for proto files: decoration with declarations that carry
no wire meaning, tokens, reformatting, and descriptors made by protoc.

Independent of pbtools."""

import json
import os
import re

from .common import PY, REPO, BuildError, sh
from .schema import Enum, Field, Message, Oneof, Service, adopt, print_file

TOKEN = re.compile(r'"(?:\\.|[^"\\\n])*"|-?(?:0[xX][0-9a-fA-F]+|[0-9]+)|[A-Za-z][A-Za-z0-9_]*|\S')


def tokens(text):
    """Tokens of a proto file without comments."""
    return TOKEN.findall(text)


def word(t):
    return bool(re.match(r'[A-Za-z0-9_-]', t))


# ------------------------------------------------------------- decoration

STRINGS = ['"plain"', '"proto3"', '""', '"// no comment"', '"/* no comment"', '"*/"', '"/* a */"', r'"\\"', r'"\""',
           r'"a\"b//c"', r'"\\\\"', '"; } {"', r'"\"/*"', '"\'"', r'"\n\t"', '"//"', '"message X {"']


PIECES = ['a', 'Z', '0', ' ', '\\"', r'\\', '//', '/*', '*/', '*', '/', "'", ';', '{', '}', '(', ')', '[', ']', '<', '>', '=', ',',
          '.', r'\n', r'\t', r"\'", r'\x41', r'\101', '\t', '\u00e5', '\u4e16', 'syntax', 'proto3', 'message M {', 'import', '#', '-1',
          'true']


def string(rng):
    """A string literal."""
    if rng.random() < 0.5:
        return rng.choice(STRINGS)
    n = rng.choice([1, 2, 3, 5, 10, 40]) if rng.random() < 0.97 else 3000
    return '"' + ''.join(rng.choice(PIECES) for _ in range(n)) + '"'


def file_option(rng, custom):
    """(text, name, kind, value) of an option statement."""
    known = [('java_package', 'string'), ('java_outer_classname', 'string'), ('optimize_for', 'ident'),
             ('cc_enable_arenas', 'bool'), ('java_multiple_files', 'bool'), ('go_package', 'string'),
             ('objc_class_prefix', 'string'), ('deprecated', 'bool'), ('csharp_namespace', 'string')]
    if custom and rng.random() < 0.5:
        name = rng.choice(['(foo)', '(foo.bar)', '(foo).bar', '(a.b.c).d.e', 'x.y', '(opt)', 'my_option',
                           'message', '(option).max', '(a).b.c.d', '(a.b).c.d.e.f.g', 'x.y.z.w', 'a.b.c.d.e.f',
                           '(a.b.c.d.e.f)', '(' + 'long_name' * 9 + ').' + 'long_name' * 9])
        kind = rng.choice(['string', 'bool', 'ident', 'integer'])
    else:
        name, kind = rng.choice(known)
    if kind == 'string':
        text = string(rng)
        value = text[1:-1]
    elif kind == 'bool':
        value = rng.random() < 0.5
        text = 'true' if value else 'false'
    elif kind == 'ident':
        text = value = rng.choice(['SPEED', 'CODE_SIZE'])
        if custom and name != 'optimize_for':
            text = value = rng.choice(['FOO', 'foo.BAR', 'a.b.c', 'a.b.c.d.e.f', 'max', 'message'])
    else:
        value = rng.choice([0, 1, -1, 5, 255, -2147483648, 18446744073709551615, 8, 64, rng.randrange(-1000, 100000),
                            rng.choice([1, -1]) * (1 << rng.randrange(64)) - rng.randrange(2), -9223372036854775808])
        text = integer(rng, value)
    return f'option {name} = {text};', name, kind, value


def integer(rng, value):
    """Any spelling of an integer."""
    sign, v = ('-', -value) if value < 0 else ('', value)
    return sign + rng.choice([str(v), str(v), hex(v), hex(v).upper().replace('0X', '0x'),
                              hex(v).replace('0x', '0X'), '0x000' + hex(v)[2:],
                              '0' + oct(v)[2:] if v else '00', '00' + oct(v)[2:] if v else '0'])


def field_options(rng, custom, repeated_numeric=False):
    opts = [['deprecated = true'], ['deprecated = false'], ['json_name = "x y"'],
            ['deprecated = true', 'json_name = "a//b"'], ['json_name = "[=];"']]
    if custom:
        opts += [['(foo) = 1'], ['(foo.bar) = "]"'], ['(foo).bar = BAZ', 'deprecated = true'],
                 ['x.y = -0x1F'], ['(a) = true', '(b) = a.b.c']]
    return ' [' + ', '.join(rng.choice(opts)) + ']'


def decorate(files, rng, custom=False, services=True, density=0.5):
    """Adds options, reserved ranges, empty statements and services. custom:
    also options protoc does not know. Sets file.options for the model."""

    def reserved(m):
        used = {f.number for f in m.all_fields()}
        names = {f.name for f in m.all_fields()}
        r = rng.random()
        if r < 0.4:
            return 'reserved ' + ', '.join(rng.choice([f'"gone{k}"', f'"gone{k}"', '"proto3"']) for k in range(rng.randrange(1, 4))) + ';'
        lo = max([n for n in used if n < 19000] + [0]) + 1
        parts = []
        for _ in range(rng.randrange(1, 4)):
            a = lo + rng.randrange(1, 50)
            b = a + rng.randrange(1, 50)
            parts.append(rng.choice([f'{a}', f'{a} to {b}', f'{integer(rng, a)} to {integer(rng, b)}']))
            lo = b + 1
        if not [n for n in used if n >= lo] and rng.random() < 0.3:
            parts.append(f'{lo + 60} to max')
        assert names is not None
        return 'reserved ' + ', '.join(parts) + ';'

    def message(m):
        if m.map_entry:
            return
        for i in list(m.items):
            if isinstance(i, Message):
                message(i)
            elif isinstance(i, Enum):
                enum(i)
            elif isinstance(i, Oneof):
                for k in range(len(i.fields) + 1):
                    if rng.random() < 0.15 * density:
                        i.extras[k] = rng.choice(['option (o) = 1;'] if custom else ['']) or ''
                    if custom and rng.random() < 0.1 * density:
                        i.extras[k] = ';'
        for f in m.all_fields():
            if rng.random() < 0.3 * density:
                f.options = field_options(rng, custom)
        done = False
        for _ in range(3):
            if rng.random() < density:
                choice = rng.choice(['reserved', ';', 'option', ';;'])
                if choice == 'reserved':
                    if done:
                        continue
                    done = True
                    text = reserved(m)
                elif choice == 'option':
                    text = file_option(rng, True)[0] if custom else 'option deprecated = true;'
                    if not custom and text in m.items:
                        continue
                else:
                    text = choice
                m.items.insert(rng.randrange(len(m.items) + 1), text)

    def enum(e):
        if rng.random() < 0.3 * density:
            e.extras[rng.randrange(len(e.values) + 1)] = rng.choice(
                [';', 'option deprecated = true;'] + (['option (x).y = 3;'] if custom else []))
        for n, _ in e.values:
            if rng.random() < 0.2 * density:
                e.options[n] = ' [deprecated = true]' if not custom or rng.random() < 0.5 else ' [(v) = "//"]'

    for nth, fi in enumerate(files):
        fi.options = []
        for i in list(fi.items):
            if isinstance(i, Message):
                message(i)
            elif isinstance(i, Enum):
                enum(i)
        names = set()
        for _ in range(rng.choice([0, 0, 1, 3])):
            text, name, kind, value = file_option(rng, custom)
            if name in names:
                continue
            names.add(name)
            fi.items.insert(0, text)
            fi.options.insert(0, (name, kind, value))
        for _ in range(rng.choice([0, 1, 2])):
            fi.items.insert(rng.randrange(len(fi.items) + 1), ';')
        msgs = [m for m in fi.all_messages() if not m.map_entry]
        if services and msgs:
            for s in range(rng.choice([0, 0, 1, 2])):
                rpcs = []
                for k in range(rng.randrange(0, 5)):
                    a, b = rng.choice(msgs), rng.choice(msgs)

                    def text(m):
                        # From the file's own package: relative or absolute.
                        rel = m.full[len(fi.package) + 1:] if fi.package else m.full
                        return rng.choice([rel, '.' + m.full if custom else rel, rel])
                    tail = rng.choice([';', '{}', '{};', '{ option deprecated = true; }'] +
                                      (['{ option (foo).bar = "}"; option b = c.d; }'] if custom else []))
                    rpcs.append((f'Call{k}' if rng.random() < 0.8 else f'stream{k}', text(a), rng.random() < 0.4,
                                 text(b), rng.random() < 0.4, tail))
                sv = Service(f'Serv{nth}x{s}', rpcs)
                if rng.random() < 0.5:
                    sv.extras[0] = 'option deprecated = true;'
                fi.items.insert(rng.randrange(len(fi.items) + 1), sv)
        adopt(fi)
    return files


# ------------------------------------------------------------- reformatting

COMMENT_TEXT = ['', 'form\ffeed; message Feed { }', 'tab\v}',
                ' ', ' note ', 'message Foo { int32 x = 1; }', ' it\'s "quoted" ', ' "open', ' // inner ',
                ' \\ ', ' * ', '**', ' ; ', ' }', ' åäö €', ' "a" "b', " don't ", ' = 1;', '\\"',
                ' syntax = "proto2"; ', '!', ' /', ' "/', ' enum E {']


ATOMS = ['/', '/', '//', '//', '*', '*', '**', '"', "'", '\\', ' ', ' ', '\t', 'word', 'All of M.', ';', '}', '{', '=', '#', '0x',
         '\f', 'import "x";', '\u00e5', '...', '<', '@brief', '-']


def block_comment(rng, nl):
    """A block comment of random pieces on several lines."""
    while True:
        body = ''.join(nl + rng.choice(['', '//', ' *', '  //', '\t']) if rng.random() < 0.3 else rng.choice(ATOMS)
                       for _ in range(rng.choice([1, 2, 4, 8, 20])))
        if rng.random() < 0.05:
            body += rng.choice(['x', ' ', '*x', '//', nl, '" ']) * rng.choice([100, 300, 600, 5000]) + rng.choice(ATOMS)
        if '/*' not in body + '*' and '*/' not in body:
            return '/*' + body + '*/'


def line_comment(rng, nl):
    return ('//' + ''.join(rng.choice(ATOMS + ['/*', '*/']) for _ in range(rng.choice([0, 1, 2, 4, 8])))
            + rng.choice(['x', ' *', '" ']) * (rng.choice([300, 5000]) if rng.random() < 0.03 else 0) + nl)


def trivia(rng, needed, hard=True, nl='\n'):
    """Random whitespace and comments; needed: may not be empty."""
    out = ''
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k = rng.random()
        if hard and rng.random() < 0.25:
            out += rng.choice([block_comment, line_comment])(rng, nl)
        elif k < 0.5 or not hard:
            out += rng.choice([' ', '  ', '\t', nl, nl + nl, ' \t ', nl + '    ', '\f', '\v ', nl + '\f' + nl])
        elif k < 0.75:
            text = rng.choice(COMMENT_TEXT)
            if rng.random() < 0.3:
                text += nl + rng.choice(COMMENT_TEXT) + nl
            text = text.replace('*/', '* /').replace('/*', '/ *')
            if text.endswith('/'):
                text += ' '
            out += '/*' + text + '*/'
        else:
            text = rng.choice(COMMENT_TEXT + [' /* open', ' */ close', '/', '/*', ' /* both */'])
            out += '//' + text + nl
    if needed and not out:
        out = rng.choice([' ', '\t', nl, '\f', '\v'])
    return out


def reformat(text, rng, hard=True, nl='\n', empty_statements=False):
    """The same tokens with other whitespace and comments between them."""
    toks = tokens(text)
    if empty_statements:
        toks = add_empty(toks, rng)
    out = trivia(rng, False, hard, nl)
    for a, b in zip(toks, toks[1:] + ['']):
        out += a
        out += trivia(rng, word(a) and word(b), hard, nl)
    if rng.random() < 0.3:
        out += '// the end, without line break'
    return out


def add_empty(toks, rng, p=0.3):
    """Adds empty statements after statements and blocks."""
    out = []
    for t in toks:
        out.append(t)
        if t in (';', '}', '{'):
            while rng.random() < p:
                out.append(';')
    return out


def reformat_plain(text, rng):
    """One line, or one token per line."""
    toks = tokens(text)
    mode = rng.randrange(3)
    if mode == 0:
        out = ''
        for a, b in zip(toks, toks[1:] + ['']):
            out += a + (' ' if word(a) and word(b) else '')
        return out
    return (['', '\n', '\r\n'][mode]).join(toks) + '\n'


def respell(text, rng):
    """Other spellings of the integers of field numbers and enum values."""
    def sub(mo):
        return mo.group(1) + integer(rng, int(mo.group(2)))
    return re.sub(r'(\w = )(-?(?:0|[1-9]\d*))(?=[;\s\[])', sub, text)


# ------------------------------------------------------------- descriptors

def varint(d, p):
    x = s = 0
    while True:
        b = d[p]
        p += 1
        x |= (b & 127) << s
        s += 7
        if b < 128:
            return x, p


def records(d):
    p = 0
    out = {}
    while p < len(d):
        tag, p = varint(d, p)
        if tag & 7 == 0:
            v, p = varint(d, p)
        elif tag & 7 == 2:
            n, p = varint(d, p)
            v = d[p:p + n]
            p += n
        elif tag & 7 == 5:
            v, p = d[p:p + 4], p + 4
        else:
            v, p = d[p:p + 8], p + 8
        out.setdefault(tag >> 3, []).append(v)
    return out


TYPES = [None, 'double', 'float', 'int64', 'uint64', 'int32', 'fixed64', 'fixed32', 'bool', 'string', 'group',
         'message', 'bytes', 'uint32', 'enum', 'sfixed32', 'sfixed64', 'sint32', 'sint64']


def s32(x):
    x &= 0xffffffff
    return x - (1 << 32) if x >> 31 else x


def text1(r, k, default=''):
    return r[k][0].decode() if k in r else default


def enum_desc(d):
    r = records(d)
    values = []
    for v in r.get(2, []):
        q = records(v)
        values.append((text1(q, 1), s32(q[2][0]) if 2 in q else 0))
    return {'name': text1(r, 1), 'values': values}


def message_desc(d):
    r = records(d)
    opts = records(r[7][0]) if 7 in r else {}
    fields = []
    for f in r.get(2, []):
        q = records(f)
        fields.append({'name': text1(q, 1), 'number': q[3][0], 'repeated': q.get(4, [1])[0] == 3,
                       'type': TYPES[q[5][0]], 'type_name': text1(q, 6),
                       'oneof': None if 17 in q and q[17][0] else q.get(9, [None])[0],
                       'optional': bool(17 in q and q[17][0])})
    oneofs = [text1(records(o), 1) for o in r.get(8, [])]
    return {'name': text1(r, 1), 'fields': fields, 'messages': [message_desc(m) for m in r.get(3, [])],
            'enums': [enum_desc(e) for e in r.get(4, [])],
            'oneofs': [o for i, o in enumerate(oneofs) if any(f['oneof'] == i for f in fields)],
            'map_entry': bool(opts.get(7, [0])[0])}


def file_desc(d):
    r = records(d)
    services = []
    for s in r.get(6, []):
        q = records(s)
        rpcs = []
        for m in q.get(2, []):
            z = records(m)
            rpcs.append((text1(z, 1), text1(z, 2), bool(z.get(5, [0])[0]), text1(z, 3), bool(z.get(6, [0])[0])))
        services.append((text1(q, 1), rpcs))
    return {'name': text1(r, 1), 'package': text1(r, 2, None), 'imports': [x.decode() for x in r.get(3, [])],
            'messages': [message_desc(m) for m in r.get(4, [])], 'enums': [enum_desc(e) for e in r.get(5, [])],
            'services': services}


def have_protoc():
    return os.path.exists('/usr/bin/protoc')


def protoc(cwd, names, paths=('.',)):
    """({file name: descriptor}, error text)."""
    out = os.path.join(cwd, 'protoc.set')
    r = sh(['/usr/bin/protoc'] + [f'-I{p}' for p in paths] + ['--include_imports', '-o', out] + names, cwd=cwd)
    if r.rc != 0:
        return None, r.err
    with open(out, 'rb') as f:
        d = f.read()
    os.remove(out)
    return {x['name']: x for x in map(file_desc, records(d).get(1, []))}, r.err


PROBE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probe.py')


def parse(log, jobs, timeout=300):
    """Models of jobs (cwd, file name, import paths) as seen through
    pbtools.parse_file, or {'error': ...}."""
    d = log.dir('probe')
    with open(os.path.join(d, 'jobs.json'), 'w') as f:
        json.dump(jobs, f)
    r = sh([PY, PROBE, 'jobs.json', 'out.json'], cwd=d, env={'PYTHONPATH': REPO}, timeout=timeout)
    if r.timeout:
        raise BuildError('pbtools.parse_file does not end')
    if r.rc != 0:
        raise BuildError('pbtools.parse_file: ' + r.err[-1500:])
    with open(os.path.join(d, 'out.json')) as f:
        return json.load(f)


GENPROBE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'genprobe.py')


def generate(log, jobs, timeout=300):
    """Runs pbtools.c_source.generate_files on jobs (cwd, input files, import
    paths, output directory). One error text or None per job."""
    d = log.dir('genprobe')
    with open(os.path.join(d, 'jobs.json'), 'w') as f:
        json.dump(jobs, f)
    r = sh([PY, GENPROBE, 'jobs.json', 'out.json'], cwd=d, env={'PYTHONPATH': REPO}, timeout=timeout)
    if r.timeout:
        raise BuildError('generate_files does not end')
    if r.rc != 0:
        raise BuildError('generate_files: ' + r.err[-1500:])
    with open(os.path.join(d, 'out.json')) as f:
        return json.load(f)


def outputs(d):
    """File name -> content of a directory."""
    res = {}
    for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        with open(os.path.join(d, n), 'rb') as f:
            res[n] = f.read()
    return res


def write_files(d, files, transform=None):
    """Prints schema files into directory d. Returns their names."""
    names = []
    for fi in files:
        name = (fi.path or '') + fi.name + '.proto'
        os.makedirs(os.path.dirname(os.path.join(d, name)), exist_ok=True)
        text = print_file(fi)
        if transform:
            text = transform(text)
        with open(os.path.join(d, name), 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        names.append(name)
    return names
