"""G20: faults injected into valid schemas. Monitored: is it rejected, where is
the error reported, what do the exit status, output and file system show."""

import os
import re
import shutil

from .. import grammar, proto, schema
from ..common import BuildError, pbtools, sh

MIN_CASES = 400

ILLEGAL = ['@', '#', '$', '%', '^', '&', '?', '~', '`', '|', '!', ':', 'é', '€', '\x01', '\x00', '\\', '+', '"', '_x', '*']
NUMBERS = ['08', '0x', '0xG', '1_0', '1.5', '1e5', '--1', '- 1', '09', '1a', '0b1', '.5', '""', 'abc', '', '0x1 2', '1,2',
           '00x1', '12 34', '+1', '0o7', '-']
WORDS = ['message', 'enum', 'oneof', 'map', 'repeated', 'optional', 'reserved', 'option', 'import', 'package', 'syntax',
         'service', 'rpc', 'returns', 'stream', ';', '{', '}', '=', '[', ']', '<', '>', '(', ')', ',', '.', '1', '"s"', '"proto3"',
         'foo', 'to', 'max', 'true', '-1', '0x10']


def piece(rng, log, index, k, custom=True):
    files = schema.random_schema(f'g20/{log.seed}/{index}/{k}', max_msgs=rng.choice([1, 2, 4]),
                                 max_fields=rng.choice([2, 5, 9]))
    proto.decorate(files, rng, custom=custom, density=rng.choice([0.3, 0.8]))
    return files[0]


def mutate(rng, text):
    """One fault. Returns (kind, new text) or None."""
    toks = grammar.scan(text)
    if not toks:
        return None
    kind = rng.choice(['delete', 'delete', 'duplicate', 'swap', 'insert', 'insert', 'replace', 'replace', 'illegal',
                       'truncate', 'cut', 'comment', 'number', 'quote', 'append', 'syntax', 'nested comment'])
    t = rng.choice(toks)
    a, b = t.offset, t.offset + len(t.text)
    if kind == 'delete':
        return kind, text[:a] + text[b:]
    if kind == 'duplicate':
        return kind, text[:b] + ' ' + t.text + text[b:]
    if kind == 'swap':
        i = toks.index(t)
        if i + 1 == len(toks):
            return None
        u = toks[i + 1]
        return kind, text[:a] + u.text + ' ' + t.text + ' ' + text[u.offset + len(u.text):]
    if kind == 'insert':
        w = rng.choice(WORDS)
        return kind, text[:a] + ' ' + w + ' ' + text[a:]
    if kind == 'replace':
        w = rng.choice(WORDS)
        return kind, text[:a] + ' ' + w + ' ' + text[b:]
    if kind == 'illegal':
        w = rng.choice(ILLEGAL)
        p = rng.choice([a, b, rng.randrange(len(text) + 1)])
        return kind, text[:p] + w + text[p:]
    if kind == 'truncate':
        return kind, text[:rng.choice([a, b])]
    if kind == 'cut':
        p = rng.randrange(len(text))
        return kind, text[:p]
    if kind == 'comment':
        p = rng.choice([a, b])
        return kind, text[:p] + rng.choice(['/*', '/* open ', '/**', '/*/', '/* *', '*/', '/', '/ /']) + text[p:]
    if kind == 'nested comment':
        p = rng.choice([a, b])
        return kind, text[:p] + rng.choice(['/* /* */', '/* a /* b */ */', '/** /* **/', '/*\n\n/*\n*/']) + text[p:]
    if kind == 'number':
        nums = [x for x in toks if x.kind == 'int']
        if not nums:
            return None
        x = rng.choice(nums)
        return kind, text[:x.offset] + rng.choice(NUMBERS) + text[x.offset + len(x.text):]
    if kind == 'quote':
        strings = [x for x in toks if x.kind == 'string']
        x = rng.choice(strings)
        p = rng.choice([x.offset, x.offset + len(x.text) - 1])
        return kind, text[:p] + rng.choice(['', '""', '\n"', '"\n']) + text[p + 1:]
    if kind == 'append':
        return kind, text + rng.choice(['}', '{', 'message', 'message X', 'x', '1', 'enum E { A = 0; ', 'int32 a = 1;',
                                        '/*', '/*/', '/**', '/***', '/**/*', '/**//*/', '/*\n*', '/', '*', '"', 'option',
                                        'syntax = "proto3";', 'rpc A(B) returns (C);'])
    # syntax
    head = toks[:4]
    end = head[3].offset + 1
    return kind, rng.choice(['', 'syntax = "proto2";', 'syntax = "proto4";', 'syntax "proto3";', 'syntax = proto3;',
                             'package early; syntax = "proto3";', ';syntax = "proto3";', 'syntax = "proto3"',
                             'syntax = "Proto3";', 'syntax = "";', 'syntax = "proto3 ";']) + text[end:]


def layout(rng, text):
    """Adds comments and odd formatting, so that positions are not trivial."""
    k = rng.random()
    if k < 0.3:
        return text
    if k < 0.8:
        return proto.reformat(text, rng)
    return '/*\n * a\n */\n\n// b "\n' + text.replace(';\n', '; // c\n', 3)


POSITION = re.compile(r'line (\d+), column (\d+)')


def clean(log, r, what, details):
    """Monitors one rejecting run of the tool."""
    bad = None
    if r.timeout:
        bad = 'does not end'
    elif r.rc == 0:
        bad = 'exit status is zero'
    elif r.rc < 0 or r.rc > 125:
        bad = f'exit status {r.rc}'
    elif 'Traceback' in r.err or 'Traceback' in r.out:
        bad = 'prints a traceback'
    elif not r.err.strip().startswith('error: ') or len(r.err.strip()) <= len('error: '):
        bad = f'no error message but {r.err[:200]!r}'
    elif len(re.findall(r'^error: ', r.err, re.M)) != 1:
        bad = 'more than one error message'
    if bad:
        log.violation(f'{what}: {bad}', stderr=r.err[-2000:], **details)
    return bad is None


def syntax_job(log, spec):
    _, index, nfiles, nmut, ncli = spec
    rng = log.rng('g20', index)
    d = log.dir('g20')
    work = []
    for k in range(nfiles):
        fi = piece(rng, log, index, k)
        plain = schema.print_file(fi)
        for m in range(nmut):
            text = layout(rng, plain)
            x = mutate(rng, text)
            if x is None or x[1] == text:
                continue
            kind, new = x
            ok, where = grammar.judge(new)
            work.append((f'f{k}', kind, text, new, ok, where, layout))
        # The unchanged file is accepted.
        text = layout(rng, plain)
        work.append((f'f{k}', 'unchanged', text, text, True, set(), layout))
    jobs = []
    for i, (name, kind, text, new, ok, where, _) in enumerate(work):
        sub = os.path.join(d, str(i))
        os.makedirs(sub)
        # Some files with other line endings: they count as one.
        nl = '\r\n' if i % 5 == 0 else '\n'
        with open(os.path.join(sub, name + '.proto'), 'w', encoding='utf-8', newline='') as f:
            f.write(new.replace('\n', nl))
        jobs.append((sub, name + '.proto', ['.']))
    models = proto.parse(log, jobs)
    errors = proto.generate(log, [(s, [n], p, os.path.join(s, 'out')) for s, n, p in jobs])
    rejected = []
    for i, ((name, kind, text, new, ok, where, _), p, err) in enumerate(zip(work, models, errors)):
        details = dict(fault=kind, schema=new[:30000], before=text[:10000])
        out = proto.outputs(os.path.join(d, str(i), 'out'))
        error = p.get('error')
        log.case(new, {'fault': kind, 'error': error and error[:200]})
        if kind == 'unchanged':
            if error is not None or err is not None or sorted(out) != [name + '.c', name + '.h']:
                log.violation(f'a valid file is rejected: {error} {err}', **details)
            log.count('valid files accepted')
            continue
        log.count(f'fault {kind}')
        if ok:
            # Still grammatical: it may or may not be valid otherwise.
            log.count('faults that stay grammatical')
            if error is not None and error.startswith('Invalid syntax'):
                log.violation(f'grammatical text is called a syntax error: {error[:300]}', **details)
            if 'Only scalar value types may be optional' in (err or '') and not out:
                continue
            if (error is None) != (err is None) or (err is not None and out):
                log.violation(f'parse_file ({error}) and generation ({err}, {sorted(out)}) differ', **details)
            continue
        if ok is None and error is None and err is None:
            log.count('keywords as type names accepted')
            continue
        if error is None or err is None:
            log.violation(f'{kind}: an invalid file is accepted', **details)
            continue
        if out:
            log.violation(f'{kind}: {sorted(out)} written for an invalid file', **details)
            continue
        mo = POSITION.search(error)
        if mo:
            pos = (int(mo.group(1)), int(mo.group(2)))
            log.count('positions checked')
            if pos not in where:
                log.violation(f'{kind}: error reported at {pos}, the offending token is at {sorted(where)[:4]}: '
                              f'{error[:300]}', **details)
        elif error.startswith('Invalid syntax'):
            log.violation(f'{kind}: no position in {error[:300]}', **details)
        else:
            log.count('errors without position')
            log.count(f'class {p["class"]}')
        rejected.append(i)
    rng.shuffle(rejected)
    for i in rejected[:ncli]:
        name, kind, text, new, ok, where, _ = work[i]
        sub = os.path.join(d, str(i))
        o = os.path.join(sub, 'cli')
        cmd = rng.choice(['generate_c_source'] * 4 + ['generate_rust_source', 'generate_mys_source'])
        os.makedirs(o)
        r = pbtools([cmd, '-I', '.', '-o', 'cli', name + '.proto'], sub)
        details = dict(fault=kind, schema=new[:30000], command=cmd)
        log.count('tool runs')
        if clean(log, r, f'{cmd}, {kind}', details):
            if os.listdir(o):
                log.violation(f'{cmd}, {kind}: {os.listdir(o)} written', **details)
            mo = POSITION.search(r.err)
            if mo and (int(mo.group(1)), int(mo.group(2))) not in where:
                log.violation(f'{cmd}, {kind}: reported at {mo.group(0)}, offending token at {sorted(where)[:4]}',
                              stderr=r.err[:1000], **details)
    shutil.rmtree(d, True)


def every_token_job(log, spec):
    """Every truncation and every deletion of one small file."""
    _, index = spec
    rng = log.rng('every', index)
    fi = piece(rng, log, 'every', index)
    text = schema.print_file(fi)
    if index % 2:
        text = proto.reformat(text, rng)
    toks = grammar.scan(text)[:400]
    d = log.dir('every')
    cases = []
    for t in toks:
        a, b = t.offset, t.offset + len(t.text)
        cases += [('truncated', text[:a]), ('deleted', text[:a] + ' ' + text[b:]), ('doubled', text[:b] + ' ' + text[a:]),
                  ('marked', text[:a] + '@' + text[a:])]
    jobs = []
    for i, (kind, new) in enumerate(cases):
        with open(os.path.join(d, f'x{i}.proto'), 'w', encoding='utf-8', newline='') as f:
            f.write(new)
        jobs.append((d, f'x{i}.proto', ['.']))
    for (kind, new), p in zip(cases, proto.parse(log, jobs)):
        ok, where = grammar.judge(new)
        log.case(new)
        log.count(f'every token {kind}')
        details = dict(fault=kind, schema=new[:30000])
        error = p.get('error')
        if ok:
            if error is not None and error.startswith('Invalid syntax'):
                log.violation(f'grammatical text is called a syntax error: {error[:300]}', **details)
            continue
        if error is None and ok is None:
            continue
        if error is None:
            log.violation(f'{kind} token: an invalid file is accepted', **details)
            continue
        mo = POSITION.search(error)
        if mo:
            log.count('positions checked')
            if (int(mo.group(1)), int(mo.group(2))) not in where:
                log.violation(f'{kind} token: error reported at {mo.group(0)}, the offending token is at '
                              f'{sorted(where)[:4]}: {error[:300]}', **details)


def meaning_job(log, spec):
    """Grammatical files that mean nothing: run through the tool."""
    rng = log.rng('meaning')
    base = log.dir('meaning')
    head = 'syntax = "proto3";\n'
    good = head + 'message Good { int32 a = 1; message In { } enum En { Z = 0; } }\n'
    cases = [
        ('undefined type', head + 'message M { Nope a = 1; }'),
        ('undefined qualified type', head + 'package p; message M { p.Nope a = 1; }'),
        ('undefined absolute type', head + 'package p; message M { .M a = 1; }'),
        ('absolute name without package', head + 'package p; message M { .p.X a = 1; }'),
        ('undefined type in a oneof', head + 'message M { oneof o { Nope a = 1; } }'),
        ('undefined repeated type', head + 'message M { repeated Nope a = 1; }'),
        ('undefined optional type', head + 'message M { optional Nope a = 1; }'),
        ('undefined map value type', head + 'message M { map<int32, Nope> a = 1; }'),
        ('undefined type in a nested message', head + 'message M { message N { Nope a = 1; } }'),
        ('nested type out of scope', head + 'message A { message In { } } message M { In a = 1; }'),
        ('nested enum out of scope', head + 'message A { enum In { Z = 0; } } message M { In a = 1; }'),
        ('type of another case', head + 'message Abc { } message M { abc a = 1; }'),
        ('enum value as type', head + 'enum E { V = 0; } message M { V a = 1; }'),
        ('field name as type', head + 'message M { int32 x = 1; x a = 2; }'),
        ('type name with a tail', head + 'message A { } message M { A.B a = 1; }'),
        ('scalar of another case', head + 'message M { Int32 a = 1; }'),
        ('qualified scalar', head + 'message M { x.int32 a = 1; }'),
        ('leading dot scalar', head + 'message M { .int32 a = 1; }'),
        ('missing import', head + 'import "nope.proto";\nmessage M { }'),
        ('missing weak import', head + 'import weak "nope.proto";\nmessage M { }'),
        ('import without extension', head + 'import "good";\nmessage M { }'),
        ('import of a directory', head + 'import "dir";\nmessage M { }'),
        ('import with syntax error', head + 'import "broken.proto";\nmessage M { }'),
        ('import with comment error', head + 'import "open.proto";\nmessage M { }'),
        ('import of proto2', head + 'import "two.proto";\nmessage M { }'),
        ('type not imported', head + 'message M { Good a = 1; }'),
        ('type of an import of an import', head + 'import "via.proto";\nmessage M { Good a = 1; }'),
        ('nested type of an import by its short name', head + 'import "good.proto";\nmessage M { In a = 1; }'),
        ('proto2', 'syntax = "proto2";\nmessage M { optional int32 a = 1; }'),
        ('no syntax', 'message M { int32 a = 1; }'),
        ('required field', head + 'message M { required int32 a = 1; }'),
        ('default value', head + 'message M { int32 a = 1 [default = 5] }'),
        ('group', head + 'message M { repeated group A = 1 { int32 b = 2; } }'),
        ('extensions', head + 'message M { extensions 100 to 200; }'),
        ('extend', head + 'message M { } extend M { int32 a = 1; }'),
        ('repeated map', head + 'message M { repeated map<int32, int32> a = 1; }'),
        ('repeated in a oneof', head + 'message M { oneof o { repeated int32 a = 1; } }'),
        ('map in a oneof', head + 'message M { oneof o { map<int32, int32> a = 1; } }'),
        ('oneof in a oneof', head + 'message M { oneof o { oneof p { int32 a = 1; } } }'),
        ('message in an enum', head + 'enum E { message M { } }'),
        ('field outside of a message', head + 'int32 a = 1;'),
        ('rpc outside of a service', head + 'rpc A(B) returns (C);'),
        ('empty file', ''), ('blank file', ' \n\n'), ('comment only', '// syntax = "proto3";\n'),
        ('unterminated comment', head + 'message M { int32 a = 1; }\n/* the end'),
        ('almost terminated comment', head + '/*/ message M { }'),
        ('end of a comment', head + 'message M { } */'),
        ('nested comment', head + '/* a /* b */ c */ message M { }'),
        ('string over two lines', head + 'option a = "x\ny";'),
        ('unterminated string', head + 'option a = "x;'),
        ('backslash before the end of a string', head + 'option a = "x\\";'),
        ('two strings', head + 'option a = "x" y;'),
        ('octal digit', head + 'message M { int32 a = 09; }'), ('reserved octal digit', head + 'message M { reserved 08; }'),
        ('hex digit', head + 'message M { int32 a = 0xG; }'), ('no hex digit', head + 'enum E { A = 0x; }'),
        ('float number', head + 'message M { int32 a = 1.0; }'), ('exponent', head + 'message M { int32 a = 1e1; }'),
        ('name with a digit first', head + 'message 1M { }'), ('name with a dash', head + 'message M-N { }'),
        ('dotted name', head + 'message M.N { }'), ('dotted field', head + 'message M { int32 a.b = 1; }'),
        ('missing number', head + 'message M { int32 a; }'), ('missing name', head + 'message M { int32 = 1; }'),
        ('missing semicolon', head + 'message M { int32 a = 1 int32 b = 2; }'),
        ('missing import semicolon', head + 'import "good.proto"\nmessage M { }'),
        ('missing reserved semicolon', head + 'message M { reserved 5 }'),
        ('missing package semicolon', head + 'package p\nmessage M { }'),
        ('two package names', head + 'package p q;'), ('package ends with a dot', head + 'package p.;'),
        ('missing brace', head + 'message M { int32 a = 1;'), ('extra brace', head + 'message M { } }'),
        ('map without value', head + 'message M { map<int32> a = 1; }'),
        ('empty options', head + 'message M { int32 a = 1 []; }'),
        ('options without value', head + 'message M { int32 a = 1 [deprecated]; }'),
        ('options with a tail', head + 'message M { int32 a = 1 [deprecated = true,]; }'),
        ('reserved nothing', head + 'message M { reserved; }'), ('reserved mix', head + 'message M { reserved 1, "a"; }'),
        ('reserved to', head + 'message M { reserved 1 to; }'), ('stream stream', head + 'message M { } service S { rpc A(stream stream M N) returns (M); }'),
        ('rpc without returns', head + 'message M { } service S { rpc A(M) (M); }'),
        ('rpc without semicolon', head + 'message M { } service S { rpc A(M) returns (M) }'),
        ('not utf-8', None),
        ('zero byte', head + 'message M\0 { }'),
        ('byte order mark in the middle', head + '\ufeffmessage M { }'),
        ('no-break space', head + 'message\u00a0M { }'),
        ('identifier with umlaut', head + 'message M\u00fc { }'), ('greek identifier', head + 'message M { int32 \u03b1 = 1; }'),
        ('arabic digit', head + 'message M { int32 a = \u0661; }'),
        ('deep nesting cut', head + 'message A { ' * 150 + 'x' + '}' * 150),
    ]
    cases += [(f'end of the file {x!r}', head + 'message M { }' + y + x) for y in ('', '\n', ' /* a */')
              for x in ('/*', '/*/', '/**', '/***', '/*/*', '/**/*', '/**//*/', '/* * /', '/*\n', '/*\n*', '/ /', '/', '*/', '**/', '"', '\\',
                        '#', '}', '\0', '\x1a', '\u2028', '\x85', '/*//', '/*\n//*')]
    todo = [c for i, c in enumerate(cases) if i % spec[2] == spec[1]]
    for i, (what, text) in enumerate(todo):
        sub = os.path.join(base, str(i))
        os.makedirs(os.path.join(sub, 'dir'))
        for n, t in (('good', good), ('broken', head + 'message {'), ('open', head + '/* '),
                     ('two', 'syntax = "proto2"; message T { }'), ('via', head + 'import "good.proto"; message Via { Good g = 1; }')):
            with open(os.path.join(sub, n + '.proto'), 'w') as f:
                f.write(t)
        with open(os.path.join(sub, 'bad.proto'), 'wb') as f:
            f.write(b'syntax = "proto3"; // \xff\xfe\nmessage M { }' if text is None else text.encode())
        for cmd, o in (('generate_c_source', 'oc'), ('generate_rust_source', 'or'), ('generate_mys_source', 'om')):
            if cmd != 'generate_c_source' and rng.random() < 0.6:
                continue
            os.makedirs(os.path.join(sub, o))
            before = sorted(os.listdir(sub))
            r = pbtools([cmd, '-I', '.', '-o', o, 'bad.proto'], sub)
            details = dict(case=what, schema=text, command=cmd)
            log.case((what, cmd), {'case': what, 'stderr': r.err[:200]})
            log.count('tool runs')
            clean(log, r, f'{cmd}, {what}', details)
            if os.listdir(os.path.join(sub, o)) or sorted(os.listdir(sub)) != before:
                log.violation(f'{cmd}, {what}: writes {os.listdir(os.path.join(sub, o))}', **details)
        if i % 3 == 0:
            # After a good file, and before one.
            for order in (['good.proto', 'bad.proto'], ['bad.proto', 'good.proto']):
                o = os.path.join(sub, 'both' + order[0][0])
                os.makedirs(o)
                r = pbtools(['generate_c_source', '-I', '.', '-o', o] + order, sub)
                clean(log, r, f'{what}, {order}', dict(case=what, schema=text))
                extra = [n for n in os.listdir(o) if not n.startswith('good.')]
                log.case((what, tuple(order)))
                if extra:
                    log.violation(f'{what}: {extra} written', case=what, schema=text)
    shutil.rmtree(base, True)


def usage_job(log, spec):
    """Wrong use of the tool: no traceback, non-zero exit status."""
    d = log.dir('usage')
    with open(os.path.join(d, 'good.proto'), 'w') as f:
        f.write('syntax = "proto3"; message M { }')
    os.makedirs(os.path.join(d, 'folder'))
    with open(os.path.join(d, 'file'), 'w') as f:
        f.write('x')
    for what, args in [('missing input', ['generate_c_source', 'nope.proto']), ('directory as input', ['generate_c_source', 'folder']),
                       ('file as output directory', ['generate_c_source', '-o', 'file', 'good.proto']),
                       ('missing output directory', ['generate_rust_source', '-o', 'nope/x', 'good.proto']),
                       ('missing output directory', ['generate_mys_source', '-o', 'nope/x', 'good.proto']),
                       ('empty name', ['generate_c_source', ''])]:
        before = sorted(os.listdir(d))
        r = pbtools(args, d)
        log.case((what, args[0]), {'case': what, 'stderr': r.err[:200]})
        clean(log, r, what, dict(arguments=args))
        if sorted(os.listdir(d)) != before or os.listdir(os.path.join(d, 'folder')):
            log.violation(f'{what}: files were written', arguments=args)
    for args in (['nope'], [], ['generate_c_source'], ['generate_c_source', '--nope', 'good.proto']):
        r = pbtools(args, d)
        log.case(tuple(args))
        if r.rc == 0 or 'Traceback' in r.err or 'usage:' not in r.err:
            log.violation(f'wrong arguments {args}: exit status {r.rc}', stderr=r.err[-1000:])


def dispatch(log, spec):
    {'syntax': syntax_job, 'every': every_token_job, 'meaning': meaning_job, 'usage': usage_job}[spec[0]](log, spec)


def main(run):
    run.rule = ('one case is one faulty (or unchanged) proto file given to pbtools; distinct by text or by case name; '
                'validity and offending token come from an independent recogniser of the grammar')
    run.assumptions = ['field numbers, duplicate names, rpc types and enum zero values are not validated by pbtools',
                       'a keyword used as a type name may be reported as an undefined type instead of a syntax error']
    n = run.scale(40, 64)
    specs = [('meaning', i, 6) for i in range(6)] + [('usage',)]
    specs += [('every', i) for i in range(run.scale(12, 40))]
    specs += [('syntax', i, run.scale(5, 12), run.scale(30, 60), run.scale(10, 40)) for i in range(n)]
    run.jobs(dispatch, specs)
    assert BuildError and sh
