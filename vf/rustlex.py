"""A small Rust lexer and item scanner.

Only what mechanical extraction needs: tokens with their source line, bracket
matching, and the items of a file (fns, consts, structs, type aliases, impl
blocks), with comments, doc comments and `#[cfg(test)]` items dropped.
"""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<str>b?"(?:\\.|[^"\\])*"|b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>0[xob][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|\d[\d_]*(?:\.\d[\d_]*(?:[eE][+-]?\d+)?)?(?:[iuf](?:8|16|32|64|128|size))?)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<op><<=|>>=|\.\.\.|\.\.=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|[-+*/%^!&|=<>@.,;:\#$?~()\[\]{}])
''', re.X | re.S)


class LexError(Exception):
    pass


class Tok:
    __slots__ = ('k', 's', 'line', 'nl')

    def __init__(self, k, s, line, nl=False):
        self.k, self.s, self.line, self.nl = k, s, line, nl

    def __repr__(self):
        return '%s@%d' % (self.s, self.line)


def lex(text):
    toks, i, line, n = [], 0, 1, len(text)
    while i < n:
        if text.startswith('/*', i):            # nested block comments
            d, j = 1, i + 2
            while d and j < n:
                if text.startswith('/*', j):
                    d += 1; j += 2
                elif text.startswith('*/', j):
                    d -= 1; j += 2
                else:
                    j += 1
            line += text.count('\n', i, j)
            i = j
            continue
        m = TOK.match(text, i)
        if not m:
            raise LexError('cannot lex line %d: %r' % (line, text[i:i + 30]))
        k = m.lastgroup if m.lastgroup != 'h' else 'str'
        if m.group('str') is not None:
            k = 'str'
        s = m.group(0)
        if k not in ('ws', 'lc'):
            # a float such as `0.1` inside `a.0.1` never occurs here, but
            # `x.0.1` lexes as id . num: split it
            if k == 'num' and '.' in s and toks and toks[-1].s == '.':
                a, b = s.split('.', 1)
                toks += [Tok('num', a, line), Tok('op', '.', line), Tok('num', b, line)]
            elif k == 'num' and s.endswith('.'):
                toks += [Tok('num', s[:-1], line), Tok('op', '.', line)]
            else:
                toks.append(Tok(k, s, line))
        line += s.count('\n')
        i = m.end()
    return toks


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {v: k for k, v in OPEN.items()}


def match(toks, i):
    """index of the bracket closing toks[i]"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == 'op':
            if toks[j].s in OPEN:
                d += 1
            elif toks[j].s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LexError('unbalanced bracket at line %d' % toks[i].line)


def match_angle(toks, i):
    """index of the `>` closing the `<` at i (generics only)"""
    d, j = 0, i
    while j < len(toks):
        s = toks[j].s
        if toks[j].k == 'op':
            if s in OPEN:
                j = match(toks, j)
            elif s == '<':
                d += 1
            elif s == '<<':
                d += 2
            elif s == '>':
                d -= 1
            elif s == '>>':
                d -= 2
            if d <= 0 and s in ('>', '>>'):
                return j
        j += 1
    raise LexError('unbalanced < at line %d' % toks[i].line)


def src(toks):
    """plain text of tokens, spaces between them"""
    return ' '.join(t.s for t in toks)


class Item:
    def __init__(self, kind, name, attrs, toks, **kw):
        self.kind, self.name, self.attrs, self.toks = kind, name, attrs, toks
        self.__dict__.update(kw)

    @property
    def line(self):
        return self.toks[0].line if self.toks else 0


def strip_vis(toks, i):
    if i < len(toks) and toks[i].s == 'pub':
        i += 1
        if i < len(toks) and toks[i].s == '(' :
            i = match(toks, i) + 1
    return i


def items(toks):
    """Top-level (or impl/trait level) items of a token list."""
    out, i, n = [], 0, len(toks)
    while i < n:
        attrs = []
        start = i
        while i < n and toks[i].s == '#':
            j = i + 1
            if toks[j].s == '!':
                j += 1
            e = match(toks, j)
            attrs.append(src(toks[j + 1:e]).replace(' ', ''))
            i = e + 1
        if i >= n:
            break
        b = i
        i = strip_vis(toks, i)
        vis = i > b
        quals = []
        while i < n and toks[i].s in ('unsafe', 'const', 'default', 'async', 'extern', 'exec', 'proof', 'spec', 'open', 'closed', 'broadcast'):
            if toks[i].s == 'const' and toks[i + 1].s not in ('fn', 'unsafe', 'extern'):
                break
            if toks[i].s == 'extern' and toks[i + 1].s == 'crate':
                break
            quals.append(toks[i].s)
            i += 1
            if toks[i - 1].s == 'extern' and toks[i].k == 'str':
                i += 1
        s = toks[i].s
        if s == 'fn':
            j = i
            while toks[j].s not in ('{', ';'):
                if toks[j].s in ('(', '['):
                    j = match(toks, j)
                j += 1
            e = match(toks, j) if toks[j].s == '{' else j
            it = Item('fn', toks[i + 1].s, attrs, toks[b:e + 1], quals=quals, vis=vis)
            it.sig = toks[i:j]                # from `fn` up to the body
            it.body = toks[j:e + 1] if toks[j].s == '{' else None
            out.append(it)
            i = e + 1
        elif s in ('impl', 'trait', 'mod') or (s in ('struct', 'enum', 'union') and s != 'union'):
            j = i
            while toks[j].s not in ('{', ';'):
                if toks[j].s in ('(', '['):
                    j = match(toks, j)
                j += 1
            e = match(toks, j) if toks[j].s == '{' else j
            if s == 'impl':
                h = toks[i + 1:j]
                g = []
                if h and h[0].s == '<':
                    a = match_angle(h, 0)
                    g, h = h[:a + 1], h[a + 1:]
                where = []
                for k, t in enumerate(h):
                    if t.s == 'where':
                        where, h = h[k:], h[:k]
                        break
                tr, ty = None, h
                d = 0
                for k, t in enumerate(h):
                    if t.s == 'for' and t.k == 'id':
                        tr, ty = h[:k], h[k + 1:]
                        break
                it = Item('impl', None, attrs, toks[b:e + 1], generics=g, trait=tr, ty=ty, where=where, quals=quals)
                it.inner = items(toks[j + 1:e])
                out.append(it)
            else:
                it = Item(s, toks[i + 1].s, attrs, toks[b:e + 1], quals=quals, vis=vis)
                it.header = toks[i:j]
                it.inner_toks = toks[j + 1:e] if toks[j].s == '{' else []
                out.append(it)
            i = e + 1
        elif s == 'macro_rules':
            j = i + 3
            e = match(toks, j)
            out.append(Item('macro', toks[i + 2].s, attrs, toks[b:e + 1]))
            i = e + 1
            if i < n and toks[i].s == ';':
                i += 1
        elif s in ('const', 'static', 'type', 'use', 'extern'):
            j = i
            while toks[j].s != ';':
                if toks[j].s in OPEN:
                    j = match(toks, j)
                j += 1
            nm = toks[i + 1].s
            it = Item(s, nm, attrs, toks[b:j + 1], quals=quals, vis=vis)
            out.append(it)
            i = j + 1
        elif toks[i].k == 'id' and i + 1 < n and toks[i + 1].s == '!':   # macro call
            j = i + 2
            e = match(toks, j)
            out.append(Item('macrocall', s, attrs, toks[b:e + 1]))
            i = e + 1
            if i < n and toks[i].s == ';':
                i += 1
        elif s == ';':
            i += 1
        else:
            raise LexError('unexpected item at line %d: %s' % (toks[i].line, src(toks[i:i + 8])))
    return [x for x in out if not any('cfg(test)' in a for a in x.attrs)]
