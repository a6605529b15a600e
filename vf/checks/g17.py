"""G17: the same declarations written with other whitespace, comments, line
endings and empty statements: same object model, byte-identical output."""

import glob
import os
import shutil

from .. import model, proto, schema
from ..common import REPO

MIN_CASES = 60

STYLES = ('soft', 'hard', 'crlf', 'cr', 'line', 'column', 'empty', 'empty crlf', 'comments', 'margin', 'mark')


def rewrite(text, style, rng):
    if style == 'soft':
        return proto.reformat(text, rng, hard=False)
    if style == 'hard':
        return proto.reformat(text, rng)
    if style == 'crlf':
        return proto.reformat(text, rng, nl='\r\n') if rng.random() < 0.6 else text.replace('\n', '\r\n')
    if style == 'cr':
        return proto.reformat(text, rng, nl='\r') if rng.random() < 0.6 else text.replace('\n', '\r')
    if style in ('line', 'column'):
        toks = proto.tokens(text)
        if style == 'column':
            return rng.choice(['\n', '\r\n', '\t\n', ' //\n', '/**/', '/***/', '\n/* */\n', '\f', '\v\n']).join(toks)
        out = ''
        for a, b in zip(toks, toks[1:] + ['']):
            out += a + (rng.choice([' ', '\t', '/**/']) if proto.word(a) and proto.word(b) else '')
        return out
    if style == 'empty':
        return proto.reformat(text, rng, hard=False, empty_statements=True)
    if style == 'empty crlf':
        return proto.reformat(text, rng, nl='\r\n', empty_statements=True)
    if style == 'comments':
        # Comments only at the ends of lines and around statements.
        out = ''
        for line in text.split('\n'):
            k = rng.random()
            if k < 0.2:
                line += ' //' + rng.choice(proto.COMMENT_TEXT + ['/*', ' */'])
            elif k < 0.3:
                line = '/* ' + rng.choice(proto.COMMENT_TEXT) + ' */' + line
            elif k < 0.4:
                line += '\n/*\n * ' + rng.choice(proto.COMMENT_TEXT) + '\n * "\n */'
            elif k < 0.5:
                line += '\n' + rng.choice(['', '  ']) + proto.block_comment(rng, '\n')
            elif k < 0.6:
                line += rng.choice(['', '\n', '\n   ']) + proto.line_comment(rng, '')
            elif k < 0.65:
                line += '\n// ' + 'x' * rng.choice([1, 100, 5000]) + '\n\n\n'
            out += line + '\n'
        return out
    if style == 'mark':
        # A byte order mark, as some editors write.
        return '\ufeff' + (text if rng.random() < 0.5 else proto.reformat(text, rng))
    # A large margin: positions and sizes of everything change.
    pad = rng.choice(['\n' * 300, ' ' * 1000, '// x\n' * 50, '/*' + ' long\n' * 200 + '*/', '\t' * 77])
    return pad + text.replace('\n', '\n' + ' ' * rng.choice([0, 1, 90])) + pad


def job(log, spec):
    kind, index, n = spec
    rng = log.rng('g17', kind, index)
    work = []
    if kind == 'random':
        for k in range(n):
            files = schema.random_schema(f'g17/{log.seed}/{index}/{k}', files=rng.choice([1, 1, 2]),
                                         max_fields=rng.choice([4, 9]))
            proto.decorate(files, rng, custom=True, density=rng.choice([0.3, 0.9]))
            work.append({(fi.path or '') + fi.name + '.proto': schema.print_file(fi) for fi in files})
    else:
        # The repository's own files, comments removed by the tokens.
        base = os.path.join(REPO, 'tests/files')
        allfiles = {}
        for path in glob.glob(os.path.join(base, '*.proto')) + glob.glob(os.path.join(base, 'imports', '*.proto')):
            name = os.path.relpath(path, base)
            if name.startswith(('comments', 'missing', 'public', 'imports/public')):
                continue
            with open(path, encoding='utf-8') as f:
                text = f.read()
            if '//' in text or '/*' in text or "'" in text:
                continue
            allfiles[name] = text
        work.append(allfiles)
    variants, gen, parse = [], [], []
    for k, texts in enumerate(work):
        d = log.dir(f'w{k}')
        styles = ['as is'] + (list(STYLES) if kind == 'repo' else rng.sample(STYLES, 4))
        for s in styles:
            v = os.path.join(d, s.replace(' ', '_'))
            for name, text in texts.items():
                path = os.path.join(v, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                if s != 'as is':
                    new = rewrite(text, s, rng)
                    plain = proto.tokens(text)
                    assert plain, name
                    text = new
                with open(path, 'w', encoding='utf-8', newline='') as f:
                    f.write(text)
            for name in sorted(texts):
                variants.append((k, s, name, v))
                o = os.path.join(d, 'out-' + s.replace(' ', '_'), name.replace('/', '_'))
                gen.append((v, [name], ['.', 'imports'], o))
                parse.append((v, name, ['.', 'imports']))
    errors = proto.generate(log, gen)
    models = proto.parse(log, parse)
    base = {}
    for (k, s, name, v), (_, _, _, o), err, p in zip(variants, gen, errors, models):
        with open(os.path.join(v, name), encoding='utf-8', newline='') as f:
            text = f.read()
        if s == 'as is':
            out = proto.outputs(o)
            base[k, name] = (err, p, out, text)
            if err is not None and kind == 'random':
                log.violation(f'{name}: not generated: {err}', schema=text[:20000])
            continue
        berr, bp, bout, btext = base[k, name]
        details = dict(style=s, before=btext[:20000], after=text[:30000])
        log.case(text, {'style': s, 'file': name, 'bytes': len(text)})
        log.count(f'style {s}')
        if (err is None) != (berr is None):
            log.violation(f'{name}: rewritten ({s}): {err}', **details)
            continue
        if err is not None:
            log.count('rejected in both forms')
            continue
        out = proto.outputs(o)
        if out != bout:
            which = [n for n in bout if out.get(n) != bout[n]] or sorted(out)
            log.violation(f'{name}: output {which} differs when rewritten ({s})', **details)
            continue
        log.count('output bytes compared', sum(map(len, out.values())))
        if 'error' in p or 'error' in bp:
            log.violation(f'{name}: parse_file: {p.get("error")} / {bp.get("error")}', **details)
            continue
        for q in (p, bp):
            q.pop('abspath', None)
            for i in q['imports']:
                i.pop('abspath', None)
        if p != bp:
            log.violation(f'{name}: object model differs when rewritten ({s}): {model.difference(p, bp)}', **details)
    for k in range(len(work)):
        shutil.rmtree(log.dir(f'w{k}'), True)


def main(run):
    run.rule = ('one case is one rewritten proto file whose generated C files and object model are compared with '
                'those of the original; distinct by rewritten text')
    run.assumptions = ['whitespace is space, tab, line feed, carriage return, form feed and vertical tab',
                       'block comments do not contain "/*", as protobuf requires']
    n = run.scale(100, 500)
    run.jobs(job, [('repo', 0, 0)] + [('random', i, n) for i in range(16)])
