"""The supported proto3 grammar as a recogniser that finds the offending
token: the first one that no valid file with the same beginning has.

All alternatives are followed (sets of end positions), so the furthest
mismatching token is the offending one. Independent of pbtools."""

import re

TOKEN = re.compile(r'''
    (?P<space>[ \r\n\t\f\v]+)
  | (?P<comment>//[^\n]*|/\*(?:(?!/\*)[\s\S])*?\*/)
  | (?P<string>"(?:\\.|[^"\\\n])*")
  | (?P<int>-?(?:0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)(?![A-Za-z0-9_]))
  | (?P<ident>[A-Za-z][A-Za-z0-9_]*)
  | (?P<punct>[.,=;{}()\[\]<>])
  | (?P<bad>[\s\S])
''', re.VERBOSE)


class Tok:
    def __init__(self, kind, text, offset):
        self.kind, self.text, self.offset = kind, text, offset

    def __repr__(self):
        return f'{self.kind}:{self.text}@{self.offset}'


def scan(text):
    """All tokens, comments and spaces left out; 'bad' for what is none."""
    out = []
    p = 0
    while p < len(text):
        mo = TOKEN.match(text, p)
        if mo.lastgroup not in ('space', 'comment'):
            out.append(Tok(mo.lastgroup, mo.group(), p))
        p = mo.end()
    return out


# Patterns: a string is a keyword or punctuation; 'IDENT', 'INT', 'STRING' are
# token classes; tuples are ('seq'|'alt', ...), ('many'|'opt', p); 'ref:x'.

def rules(strict):
    body_words = {'option', 'enum', 'message', 'oneof', 'map', 'reserved', 'repeated', 'optional'} if strict else set()
    ident = 'IDENT'

    def sep(p, s):
        return ('seq', p, ('many', ('seq', s, p)))
    full = sep(ident, '.')
    mtype = ('seq', ('opt', '.'), full)
    # A field may not start with a statement keyword.
    ftype = ('seq', ('opt', '.'), ('seq', ('not', frozenset(body_words)), full)) if strict else mtype
    const = ('alt', full, 'STRING', 'INT')
    oname = ('seq', ('alt', ident, ('seq', '(', full, ')')), ('many', ('seq', '.', ident)))
    opts = ('opt', ('seq', '[', sep(('seq', oname, '=', const), ','), ']'))
    option = ('seq', 'option', oname, '=', const, ';')
    rng = ('seq', 'INT', ('opt', ('seq', 'to', ('alt', 'INT', 'max'))))
    # A type called stream is left out.
    rpctype = ('seq', '(', ('opt', 'stream'), ('not', frozenset({'stream'} if strict else ())), mtype, ')')
    r = {
        'message': ('seq', 'message', ident, '{', ('many', ('alt', option, 'ref:field', 'ref:enum', 'ref:message',
                                                            'ref:oneof', 'ref:map', 'ref:reserved', ';')), '}'),
        'field': ('seq', ('opt', ('alt', 'repeated', 'optional')), ftype, ident, '=', 'INT', opts, ';'),
        'enum': ('seq', 'enum', ident, '{', ('many', ('alt', ('seq', ident, '=', 'INT', opts, ';'), option, ';')), '}'),
        'oneof': ('seq', 'oneof', ident, '{', ('many', ('alt', option, ('seq', ftype, ident, '=', 'INT', opts, ';'),
                                                        ';')), '}'),
        'map': ('seq', 'map', '<', ident, ',', mtype, '>', ident, '=', 'INT', opts, ';'),
        'reserved': ('seq', 'reserved', ('alt', sep(rng, ','), sep('STRING', ',')), ';'),
        'service': ('seq', 'service', ident, '{', ('many', ('alt', option, 'ref:rpc', ';')), '}'),
        'rpc': ('seq', 'rpc', ident, rpctype, 'returns', rpctype,
                ('alt', ';', ('seq', '{', ('many', ('alt', option, ';')), '}'))),
        'file': ('seq', 'syntax', '=', '"proto3"', ';',
                 ('many', ('alt', ('seq', 'import', ('opt', ('alt', 'weak', 'public')), 'STRING', ';'),
                           ('seq', 'package', full, ';'), option, 'ref:message', 'ref:enum', 'ref:service', ';'))),
    }
    return r


class Recogniser:
    def __init__(self, strict):
        self.rules = rules(strict)

    def run(self, toks):
        """None if valid, else the index of the offending token
        (len(toks): the end of the file)."""
        self.toks = toks
        self.far = -1
        self.memo = {}
        ends = self.match('ref:file', 0)
        if len(toks) in ends:
            return None
        if ends:
            self.far = max(self.far, max(ends))
        return self.far

    def match(self, p, i):
        if isinstance(p, str) and not p.startswith('ref:'):
            return self.token(p, i)
        key = (p if isinstance(p, str) else id(p), i)
        if key not in self.memo:
            self.memo[key] = frozenset(self.inner(p, i))
        return self.memo[key]

    def token(self, p, i):
        if i < len(self.toks):
            t = self.toks[i]
            if p == 'IDENT':
                ok = t.kind == 'ident'
            elif p == 'INT':
                ok = t.kind == 'int'
            elif p == 'STRING':
                ok = t.kind == 'string'
            else:
                ok = t.text == p
            if ok:
                return (i + 1,)
        self.far = max(self.far, i)
        return ()

    def inner(self, p, i):
        if isinstance(p, str):
            return self.match(self.rules[p[4:]], i)
        kind = p[0]
        if kind == 'seq':
            ends = {i}
            for q in p[1:]:
                nxt = set()
                for e in ends:
                    nxt |= set(self.match(q, e))
                ends = nxt
                if not ends:
                    break
            return ends
        if kind == 'alt':
            ends = set()
            for q in p[1:]:
                ends |= set(self.match(q, i))
            return ends
        if kind == 'opt':
            return {i} | set(self.match(p[1], i))
        if kind == 'not':
            if i < len(self.toks) and self.toks[i].text in p[1]:
                self.far = max(self.far, i)
                return ()
            return {i}
        ends, work = {i}, [i]
        while work:
            for e in self.match(p[1], work.pop()):
                if e not in ends:
                    ends.add(e)
                    work.append(e)
        return ends


def line_column(text, offset):
    return text.count('\n', 0, offset) + 1, offset - (text.rfind('\n', 0, offset) + 1) + 1


def judge(text):
    """(valid, positions): valid is None if only a keyword used as a type name
    is wrong; then it may be accepted. positions is the set of acceptable (line, column)
    of a syntax error report. text has '\\n' line endings only."""
    toks = scan(text)
    offsets = set()
    invalid = False
    bad = [t for t in toks if t.kind == 'bad']
    if bad:
        invalid = True
        offsets.add(bad[0].offset)
        # A number with an illegal character in it.
        offsets |= {t.offset for t in toks if t.kind == 'int' and t.offset + len(t.text) == bad[0].offset}
        # A comment that does not end may be found before other faults.
        offsets |= {t.offset for t in [t for t in bad if text.startswith('/*', t.offset)][:1]}
    for strict in (True, False):
        r = Recogniser(strict).run(toks)
        if r is not None:
            if strict and not invalid:
                invalid = None
            elif not strict:
                invalid = True
            # The element of a list: the separator may be blamed.
            k = r - 1
            while k >= 0 and toks[k].text not in (';', '{', '}', '[', '<'):
                if toks[k].text in ',.':
                    offsets.add(toks[k].offset)
                if toks[k].text == ',':
                    break
                k -= 1
            if r == len(toks):
                # The end of the file: anywhere after the last token.
                last = toks[-1].offset + len(toks[-1].text) if toks else 0
                offsets |= set(range(last, len(text) + 1)) if len(text) - last < 5000 else {last, len(text)}
            else:
                offsets.add(toks[r].offset)
    return None if invalid is None else not invalid, {line_column(text, o) for o in offsets}
