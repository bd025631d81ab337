"""Turn an extracted function into verifiable text: rewrite the few
constructs the verifier does not take and inject contracts and proof hints.

Every rewrite is mechanical and listed in DESIGN.md ("What the extraction
changes").  `Lost` is raised when an anchor that a contract needs is not there
any more (the function was restructured): the caller then falls back to the
bounded stand-in and never reports a violation from it.
"""
import re
from rustlex import Tok, lex, src, match, match_angle, LexError, OPEN


class Lost(Exception):
    pass


class Raw:
    """injected text (contracts, hints), kept apart from source tokens"""
    __slots__ = ('s', 'line', 'k', 'label')

    def __init__(self, s, label=None):
        self.s, self.line, self.k, self.label = s, None, 'raw', label


def find_seq(toks, pat, start=0):
    """start index of the token sequence `pat` (list of str; '$x' matches one token)"""
    n = len(pat)
    for i in range(start, len(toks) - n + 1):
        ok = True
        for a, b in zip(toks[i:i + n], pat):
            if a.k == 'raw' or (a.s != b and not b.startswith('$')):
                ok = False
                break
        if ok:
            return i
    return -1


def pat_of(s):
    return [t.s for t in lex(s.replace('$', 'VPDOLLAR'))]


def find_pat(toks, s, occ=0):
    pat = ['$' + p[8:] if p.startswith('VPDOLLAR') else p for p in pat_of(s)]
    i = -1
    for _ in range(occ + 1):
        i = find_seq(toks, pat, i + 1)
        if i < 0:
            return None
    return i, i + len(pat)


# ---------------------------------------------------------------- rewrites

METHODS = {  # std trait methods with a contract of ours: consistent renaming
    'next': 'vp_next', 'next_back': 'vp_next_back', 'size_hint': 'vp_size_hint',
    'nth': 'vp_nth', 'count': 'vp_count', 'into_iter': 'vp_into_iter',
    'extend': 'vp_extend', 'from_iter': 'vp_from_iter', 'hash': 'vp_hash',
    'default': 'vp_default', 'cloned': 'vp_cloned', 'last': 'vp_last', 'eq': 'vp_eq',
    'from': 'vp_from', 'into': 'vp_into', 'take': 'vp_take', 'nth_back': 'vp_nth_back',
    'len_hint': 'vp_len_hint', 'clone': 'vp_clone', 'ne': 'vp_ne',
}
TRAITS = {
    'Iterator': 'VpIterator', 'DoubleEndedIterator': 'VpDoubleEndedIterator',
    'ExactSizeIterator': 'VpExactSizeIterator', 'IntoIterator': 'VpIntoIterator',
    'Extend': 'VpExtend', 'FromIterator': 'VpFromIterator', 'Default': 'VpDefault',
    'Hash': 'VpHash', 'Hasher': 'VpHasher', 'PartialEq': 'VpPartialEq',
    'From': 'VpFrom', 'Into': 'VpInto', 'Clone': 'VpClone',
}
INTS = {p + w for p in 'ui' for w in ('8', '16', '32', '64', '128', 'size')}
STORAGE_M = {'push', 'resize', 'reserve', 'append', 'truncate', 'shrink_to_fit',
             'capacity', 'get_unchecked', 'get_unchecked_mut', 'extend_from_slice',
             'with_capacity', 'insert', 'remove', 'clear', 'pop', 'set_len',
             'reserve_exact', 'split_off', 'drain', 'resize_with'}


def T(s, line):
    return [Tok(t.k, t.s, line) for t in lex(s)]


def rewrite(toks, consts, const_owner, mode, field='storage', storage_alias='Storage', as_types=()):
    """mechanical rewrites on a token list (signature or body)"""
    out = []
    i, n = 0, len(toks)
    derefs = set()
    while i < n:
        t = toks[i]
        nx = toks[i + 1] if i + 1 < n else None
        pv = toks[i - 1] if i else None
        if t.k == 'raw':
            out.append(t); i += 1; continue
        # Self::CONST / EnumVec::<T>::CONST / Type::CONST -> call of the const's nullary fn
        if t.k == 'id' and t.s in consts and pv is not None and pv.s == '::' and (nx is None or nx.s != '('):
            out.append(t)
            out += T('()', t.line)
            i += 1
            continue
        if t.k == 'id' and t.s == 'Range' and (pv is None or pv.s != '::'):
            out += T('core::ops::Range', t.line); i += 1; continue
        if t.k == 'id' and t.s == 'PhantomData' and (pv is None or pv.s != '::'):
            out += T('core::marker::PhantomData', t.line); i += 1; continue
        if t.s == 'cmp' and nx is not None and nx.s == '::' and toks[i + 2].s in ('min', 'max'):
            while out and (out[-1].s == '::' or out[-1].s in ('std', 'core') and len(out) < len(toks)):
                out.pop()
            out += T('vp_' + toks[i + 2].s, t.line); i += 3; continue
        if t.k == 'id' and t.s in INTS and nx is not None and nx.s == '::' and toks[i + 2].s == 'from' and toks[i + 3].s == '(' and (pv is None or pv.s != '::'):
            # widening conversion
            e = match(toks, i + 3)
            out += T('((', t.line) + rewrite(toks[i + 4:e], consts, const_owner, mode, field, storage_alias, as_types) + T(') as %s)' % t.s, t.line)
            i = e + 1
            continue
        if t.k == 'id' and t.s in TRAITS and (pv is None or pv.s not in ('.', 'fn')):
            if pv is not None and pv.s == '::':       # std::iter::Iterator etc.
                while out and (out[-1].s == '::' or out[-1].k == 'id' and out[-1].s in ('std', 'core', 'iter', 'hash', 'cmp', 'default', 'convert', 'clone', 'ops')):
                    out.pop()
            out.append(Tok('id', TRAITS[t.s], t.line)); i += 1; continue
        # storage methods
        if t.s == field and pv is not None and pv.s == '.' and nx is not None and nx.s == '.' \
                and toks[i + 2].s in STORAGE_M and toks[i + 3].s == '(':
            out += [t, nx, Tok('id', 'vp_' + toks[i + 2].s, t.line)]
            i += 3
            continue
        if t.s == storage_alias and nx is not None and nx.s == '::' and toks[i + 2].s in STORAGE_M:
            out.append(Tok('id', 'vp_storage_' + toks[i + 2].s, t.line))
            i += 3
            continue
        if t.k == 'id' and t.s in METHODS and pv is not None and nx is not None and \
                (pv.s == '.' and nx.s in ('(', '::') or pv.s == 'fn' or pv.s == '::' and nx.s == '('):
            out.append(Tok('id', METHODS[t.s], t.line)); i += 1; continue
        if t.k == 'id' and t.s in ('panic', 'unreachable', 'assert', 'debug_assert', 'assert_eq', 'assert_ne', 'debug_assert_eq', 'unimplemented', 'todo') and nx is not None and nx.s == '!':
            e = match(toks, i + 2)
            if t.s in ('panic', 'unreachable', 'unimplemented', 'todo'):
                out += T('vp_panic()', t.line)
            else:
                args, d, cur = [], 0, []
                j = i + 3
                while j < e:
                    if toks[j].s in ('(', '[', '{'):
                        m = match(toks, j); cur += toks[j:m + 1]; j = m + 1; continue
                    if toks[j].s == ',':
                        args.append(cur); cur = []
                    else:
                        cur.append(toks[j])
                    j += 1
                if cur:
                    args.append(cur)
                if t.s in ('assert', 'debug_assert'):
                    cond = args[0]
                else:
                    op = '!=' if t.s == 'assert_ne' else '=='
                    cond = T('(', t.line) + args[0] + T(') %s (' % op, t.line) + args[1] + T(')', t.line)
                out += T('vp_debug_assert(' if t.s.startswith('debug') else 'vp_assert(', t.line) + rewrite(cond, consts, const_owner, mode, field, storage_alias) + T(')', t.line)
            i = e + 1
            continue
        if t.s == 'unwrap' and pv is not None and pv.s == '.' and mode in ('B', 'Bw'):
            out.append(Tok('id', 'vp_unwrap', t.line)); i += 1; continue
        if t.s == 'expect' and pv is not None and pv.s == '.' and nx.s == '(':
            e = match(toks, i + 1)
            out += T('vp_expect()', t.line)
            i = e + 1
            continue
        if t.s == 'unsafe' and nx is not None and nx.s == '{':
            if pv is not None and pv.s == '}':
                out.append(Tok('op', ';', t.line))
            i += 1                      # an unsafe block is just a block
            continue
        if t.k == 'id' and nx is not None and [x.s for x in toks[i + 1:i + 8]] == ['.', 'iter', '(', ')', '.', 'cloned', '(']:
            out += T('vp_slice_iter(%s)' % t.s, t.line); i += 5; continue
        if t.s == 'repeat' and nx is not None and nx.s == '(' and (pv is None or pv.s != '.'):
            while out and (out[-1].s == '::' or out[-1].s in ('std', 'core', 'iter')):
                out.pop()
            out.append(Tok('id', 'vp_repeat', t.line)); i += 1; continue
        if mode == 'Bw' and t.k == 'id' and nx is not None and nx.s == '-' and toks[i + 2].k == 'num' and (pv is None or pv.s not in ('.', '::')):
            out += T('vp_wsub(%s, %s)' % (t.s, toks[i + 2].s), t.line); i += 3; continue
        # self.len() - 1 in mode Bw
        if mode == 'Bw' and t.k == 'id' and t.s == 'self' and [x.s for x in toks[i + 1:i + 6]] == ['.', 'len', '(', ')', '-'] and toks[i + 6].k == 'num' and (pv is None or pv.s not in ('-', '*', '/', '%', '.')):
            out += T('vp_wsub(self.len(), %s)' % toks[i + 6].s, t.line); i += 7; continue
        out.append(t)
        i += 1
    return out


FMT_B = {'debug_list', 'debug_set', 'entries', 'entry', 'finish', 'fmt'}


def fmt_words(toks):
    """core::fmt in the body of an impl of Debug: the names our contracts are written for"""
    out, i, n = [], 0, len(toks)
    while i < n:
        t = toks[i]
        pv = out[-1].s if out else ''
        nx = toks[i + 1].s if i + 1 < n else ''
        if t.k == 'id' and t.s in ('Formatter', 'Result', 'Debug') and (t.s != 'Result' or nx != '<') and (t.s == 'Formatter' or pv == '::' and out[-2].s == 'fmt' or t.s == 'Debug' and nx == '::'):
            while len(out) > 1 and out[-1].s == '::' and out[-2].s in ('fmt', 'std', 'core'):
                del out[-2:]
            if out and out[-1].s == '::':
                out.pop()
            out.append(Tok('id', {'Formatter': 'VpFormatter', 'Result': 'VpFmtResult', 'Debug': 'VpDebug'}[t.s], t.line))
            i += 1
            if t.s == 'Formatter' and nx == '<':
                i = match_angle(toks, i) + 1
            continue
        if t.k == 'id' and t.s in FMT_B and nx == '(' and pv in ('.', '::'):
            t = Tok('id', 'vp_' + t.s, t.line)
        out.append(t)
        i += 1
    return out


def fmt_loops(body):
    """contract of a loop that adds the entries one by one"""
    t = ' '.join(x.s for x in body)
    m = re.search(r'let mut (\w+) = \w+ \. (?:vp_)?debug_(?:list|set) \( \) ;', t)
    if not m or not any(x.s in ('for', 'while', 'loop') for x in body):
        return []
    l = m.group(1)
    if re.search(r'for \w+ in 0 \.\. ', t):
        return [dict(kind='range', inv=['%s.log() =~= self@.take($k as int)' % l, '%s.start() == vp_s0' % l, '%s.end() == vp_e0' % l, 'self.wf()'],
                     pre='let ghost vp_s0 = %s.start(); let ghost vp_e0 = %s.end();' % (l, l),
                     end='proof { assert(self@.take($k as int) =~= self@.take($k - 1).push(self@[$k - 1])); }',
                     post='proof { assert(self@.take(self.num_elements as int) =~= self@); }')]
    return [dict(kind='iter', inv=['$it.inv()', '%s.log() + $it.seq() =~= vp_all' % l, '%s.start() == vp_s0' % l, '%s.end() == vp_e0' % l], dec='$it.seq().len()', xb=False,
                 pre='let ghost vp_all = $it.seq(); let ghost vp_s0 = %s.start(); let ghost vp_e0 = %s.end();' % (l, l),
                 top='let ghost vp_q = $it.seq(); let ghost vp_l = %s.log();' % l,
                 some='proof { assert(vp_q =~= seq![vp_q[0]] + vp_q.skip(1)); assert(vp_l.push(vp_q[0]) + vp_q.skip(1) =~= vp_l + vp_q); }',
                 post='proof { assert(%s.log() =~= vp_all); }' % l)]


def deref_refs(toks):
    """`let x = E.vp_get_unchecked(..);` binds a shared reference; arithmetic on
    it (core's forwarding impls for &int) is written on `*x`."""
    names = set()
    i = 0
    while True:
        h = find_seq(toks, ['let', '$n', '='], i)
        if h < 0:
            break
        j = h + 3
        last = None
        while j < len(toks) and toks[j].s != ';':
            if toks[j].s in ('(', '[', '{') and toks[j].k == 'op':
                j = match(toks, j)
            elif toks[j].k == 'id':
                last = toks[j].s
            j += 1
        if last == 'vp_get_unchecked' and toks[h + 3].s != '*':
            names.add((toks[h + 1].s, j))
        i = h + 1
    out = []
    for k, t in enumerate(toks):
        if any(t.k == 'id' and t.s == nm and k > at for nm, at in names) and toks[k - 1].s not in ('*', '.', 'let', '&', 'mut'):
            out += T('(*%s)' % t.s, t.line)
        else:
            out.append(t)
    return out


# ------------------------------------------------------------------- loops

def expr_end(toks, i, stop):
    while i < len(toks):
        if toks[i].k == 'op' and toks[i].s in stop:
            return i
        if toks[i].k == 'op' and toks[i].s in ('(', '[', '{'):
            i = match(toks, i)
        i += 1
    raise Lost('expression end')


def norm(s):
    return re.sub(r'\s+', '', s)[:200]


def subst(s, names):
    """fill in the loop's names; a bound variable of the same name is renamed"""
    for v in set(re.findall(r'\|(\w+): \w+\|', s)) & set(re.findall(r'\w+', ' '.join(names.values()))):
        s = re.sub(r'(?<!\$)\b%s\b' % v, 'vq_' + v, s)
    for a, b in sorted(names.items(), key=lambda x: -len(x[0])):
        s = s.replace('$' + a, b)
    return s


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!=', '==': '=='}
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '!=': '==', '==': '!='}
PURE = {'len', 'min', 'max', 'is_empty', 'num_elements', 'ELEMS_PER_BLOCK', 'BITS_PER_ELEM', 'Self', 'self', 'saturating_sub', 'capacity', 'storage'}


def counter_of(cond):
    """(variable, operator, bound) of a loop condition `v < e`, `e > v`, `!(v >= e)`; else None"""
    neg = False
    while cond:
        if cond[0].s == '(' and match(cond, 0) == len(cond) - 1:
            cond = cond[1:-1]
        elif cond[0].s == '!' and len(cond) > 1 and cond[1].s == '(' and match(cond, 1) == len(cond) - 1:
            neg = not neg
            cond = cond[2:-1]
        else:
            break
    at, j = None, 0
    while j < len(cond):
        if cond[j].s in ('(', '[', '{'):
            j = match(cond, j)
        elif cond[j].s in FLIP:
            if at is not None:
                return None
            at = j
        elif cond[j].s in ('&&', '||', 'as'):
            return None
        j += 1
    if at is None:
        return None
    a, op, b = cond[:at], cond[at].s, cond[at + 1:]
    if neg:
        op = NEG[op]
    if len(a) == 1 and a[0].k == 'id':
        return a[0].s, op, b
    if len(b) == 1 and b[0].k == 'id':
        return b[0].s, FLIP[op], a
    return None


def pure(toks):
    for i, t in enumerate(toks):
        if t.k == 'id' and (i + 1 < len(toks) and toks[i + 1].s in ('(', '::') or i and toks[i - 1].s in ('.', '::')) and t.s not in PURE:
            return False
        if t.k not in ('id', 'num') and t.s not in ('.', '::', '(', ')', '+', '-', '*', '/', '%'):
            return False
    return True


def norm_loops(toks):
    """`loop { if C { break; } .. }` as `while !(C) { .. }`; a `loop` around a match on next() as `while let`"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'id' and t.s == 'loop' and i + 1 < len(toks) and toks[i + 1].s == '{':
            e = match(toks, i + 1)
            b = toks[i + 2:e]
            ln = t.line
            if b and b[0].s == 'if' and b[1].s != 'let':
                q = expr_end(b, 1, ('{',))
                r = match(b, q)
                if [x.s for x in b[q + 1:r]] in (['break', ';'], ['break']) and not (r + 1 < len(b) and b[r + 1].s == 'else'):
                    rest = b[r + 1:]
                    if rest and rest[0].s == ';':
                        rest = rest[1:]
                    out += T('while !(', ln) + b[1:q] + T(') {', ln) + norm_loops(rest) + T('}', ln)
                    i = e + 1
                    continue
            if b and b[0].s == 'match':
                q = expr_end(b, 1, ('{',))
                r = match(b, q)
                arms = b[q + 1:r]
                sc = b[1:q]
                if r == len(b) - 1 or [x.s for x in b[r + 1:]] == [';']:
                    w = arms_of(arms)
                    if w and len(w) == 2:
                        pats = {src(p): x for p, x in w}
                        some = [p for p in pats if p.startswith('Some (')]
                        if len(some) == 1 and 'None' in pats and [x.s for x in pats['None'] if x.s not in ('{', '}', ';')] == ['break']:
                            p = [p for p, x in w if src(p) == some[0]][0]
                            out += T('while let', ln) + p + T('=', ln) + sc + T('{', ln) + norm_loops(pats[some[0]]) + T(';', ln) + T('}', ln)
                            i = e + 1
                            continue
        out.append(t)
        i += 1
    return out


def nclosures(toks):
    n = 0
    for i, t in enumerate(toks):
        pv = toks[i - 1] if i else None
        if t.k == 'op' and t.s in ('|', '||') and (pv is None or pv.k == 'op' and pv.s in ('(', ',', '=', '{', ';') or pv.s in ('move', 'return')):
            # the closing bar of a parameter list follows an identifier or a type, never these
            n += 1
    return n


def receiver(out):
    """start of the postfix expression that ends the list (before a `.`)"""
    j = len(out)
    while j > 0:
        t = out[j - 1]
        if t.k == 'raw':
            return None
        if t.s in (')', ']'):
            d, j2 = 0, j - 1
            while j2 >= 0:
                if out[j2].s in (')', ']', '}') and out[j2].k == 'op':
                    d += 1
                if out[j2].s in ('(', '[', '{') and out[j2].k == 'op':
                    d -= 1
                    if d == 0:
                        break
                j2 -= 1
            j = j2
            if j > 0 and (out[j - 1].k == 'id' and out[j - 1].s not in ('return', 'in', 'if', 'match', 'while') or out[j - 1].s in (')', ']')):
                continue
            if j > 0 and out[j - 1].s == '>':
                return None
            return j
        if t.k in ('id', 'num'):
            j -= 1
            if j > 0 and out[j - 1].s in ('.', '::'):
                j -= 1
                continue
            return j
        if t.s == '?':
            j -= 1
            continue
        return None
    return None


def option_closures(toks):
    """Option's combinators with a closure, written as the `match` they stand for"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.s == '.' and i + 2 < len(toks) and toks[i + 1].s == 'for_each' and toks[i + 2].s == '(':
            e = match(toks, i + 2)
            c = clos(toks[i + 3:e])
            b = receiver(out)
            if b is not None and c and len(c[0]) == 1 and not any(x.s in ('return', '?') for x in c[1]):
                x, out = out[b:], out[:b]
                out += T('{ for', t.line) + c[0][0] + T('in', t.line) + x + T('{', t.line) + option_closures(c[1]) + T('; }', t.line) + T('}', t.line)
                i = e + 1
                continue
        if t.s == '.' and i + 2 < len(toks) and toks[i + 1].s in ('map', 'map_or', 'and_then', 'unwrap_or_else', 'map_or_else', 'or_else') and toks[i + 2].s == '(':
            e = match(toks, i + 2)
            args = split_args(toks[i + 3:e])
            cl = [clos(a) for a in args]
            k = toks[i + 1].s
            b = receiver(out)
            ln = t.line
            want = {'map': [1], 'and_then': [1], 'map_or': [None, 1], 'unwrap_or_else': [0], 'or_else': [0], 'map_or_else': [0, 1]}[k]
            if b is not None and len(args) == len(want) and all((w is None) == (c is None) and (c is None or len(c[0]) == w and not any(x.s in ('return', '?') for x in c[1])) for w, c in zip(want, cl)):
                x, out = out[b:], out[:b]
                bod = lambda c: T('{', ln) + option_closures(c[1]) + T('}', ln)
                arm = lambda c: T('Some(', ln) + c[0][0] + T(') =>', ln)
                if k == 'map':
                    r = arm(cl[0]) + T('Some(', ln) + bod(cl[0]) + T('), None => None', ln)
                elif k == 'and_then':
                    r = arm(cl[0]) + bod(cl[0]) + T(', None => None', ln)
                elif k == 'map_or':
                    r = arm(cl[1]) + bod(cl[1]) + T(', None =>', ln) + option_closures(args[0])
                elif k == 'map_or_else':
                    r = arm(cl[1]) + bod(cl[1]) + T(', None =>', ln) + bod(cl[0])
                else:
                    r = T('Some(vp_x) => %s, None =>' % ('vp_x' if k == 'unwrap_or_else' else 'Some(vp_x)'), ln) + bod(cl[0])
                out += T('(match', ln) + x + T('{', ln) + r + T('})', ln)
                i = e + 1
                continue
        out.append(t)
        i += 1
    return out


def quantifiers(toks):
    """`X.all(|p| B)` as the function's result, `if X.any(|p| B) { return V; }`: as the loop it stands for"""
    # the tail expression
    pos, j = 0, 0
    while j < len(toks):
        if toks[j].k == 'op' and toks[j].s in OPEN:
            j = match(toks, j)
        if j < len(toks) - 1 and toks[j].s in (';', '}'):
            pos = j + 1
        j += 1
    head, tail = toks[:pos], toks[pos:]
    ret = False
    if tail and tail[0].s == 'return' and tail[-1].s == ';':
        tail = tail[1:-1]
    neg = False
    pre = []
    if tail and tail[-1].s == ')':
        # A && X.all(..)
        parts, cur, d = [], [], 0
        j = 0
        while j < len(tail):
            if tail[j].k == 'op' and tail[j].s in OPEN:
                e = match(tail, j)
                cur += tail[j:e + 1]
                j = e + 1
                continue
            if tail[j].s == '&&':
                parts.append(cur)
                cur = []
            elif tail[j].s == '||' and cur:
                parts = None
                break
            else:
                cur.append(tail[j])
            j += 1
        if parts is not None:
            last = cur
            if last and last[0].s == '!':
                neg, last = True, last[1:]
            r = quantified(last)
            if r:
                k, x, p, b = r
                ln = tail[0].line
                out = list(head)
                for a in parts:
                    out += T('if !(', ln) + a + T(') { return false; }', ln)
                hit = 'true' if (k == 'any') != neg else 'false'
                out += T('for', ln) + p + T('in', ln) + x + T('{ if', ln) + (b if k == 'any' else T('!(', ln) + b + T(')', ln)) + T('{ return %s; } }' % hit, ln)
                out += T('false' if hit == 'true' else 'true', ln)
                toks = out
    # if X.any(..) { return V; }
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'id' and t.s == 'if' and i + 1 < len(toks) and toks[i + 1].s != 'let' and (not out or out[-1].k == 'raw' or out[-1].s in (';', '{', '}')):
            try:
                q = expr_end(toks, i + 1, ('{',))
                c = toks[i + 1:q]
                e = match(toks, q)
            except (Lost, LexError, IndexError):
                c = None
            if c and not (e + 1 < len(toks) and toks[e + 1].s == 'else') and toks[q + 1].s == 'return':
                neg = c[0].s == '!'
                r = quantified(c[1:] if neg else c)
                if r and (r[0] == 'any') != neg:
                    k, x, p, b = r
                    out += T('for', t.line) + p + T('in', t.line) + x + T('{ if', t.line) + (b if k == 'any' else T('!(', t.line) + b + T(')', t.line)) + toks[q:e + 1] + T('}', t.line)
                    i = e + 1
                    continue
        out.append(t)
        i += 1
    return out


def quantified(toks):
    """(all/any, iterator, pattern, body) of `X.all(|p| B)`"""
    if not toks or toks[-1].s != ')':
        return None
    j, d = len(toks) - 1, 0
    while j >= 0:
        if toks[j].k == 'op' and toks[j].s in (')', ']', '}'):
            d += 1
        if toks[j].k == 'op' and toks[j].s in OPEN:
            d -= 1
            if d == 0:
                break
        j -= 1
    if j < 3 or toks[j - 1].s not in ('all', 'any') or toks[j - 2].s != '.' or receiver(toks[:j - 2]) != 0:
        return None
    c = clos(toks[j + 1:-1])
    if not c or len(c[0]) != 1 or any(x.s in ('return', '?') for x in c[1]):
        return None
    x = toks[:j - 2]
    if x[0].s == '(' and match(x, 0) == len(x) - 1:
        x = x[1:-1]
    return toks[j - 1].s, x, c[0][0], c[1]


def slices(toks):
    """`for p in self.storage[a..b].iter() {` as a loop over the indices"""
    out, i, k = [], 0, 0
    while i < len(toks):
        t = toks[i]
        if t.k == 'id' and t.s == 'for' and i + 1 < len(toks) and toks[i + 1].s != '<' and (i == 0 or toks[i - 1].s != '>'):
            ins = i + 1
            while toks[ins].s != 'in':
                ins += 1
            b = expr_end(toks, ins + 1, ('{',))
            pat, x = toks[i + 1:ins], toks[ins + 1:b]
            it = [y.s for y in x[-4:]] == ['.', 'iter', '(', ')']
            if it:
                x = x[:-4]
            elif x and x[0].s == '&':
                it, x = True, x[1:]
            if x and x[0].s == '(' and match(x, 0) == len(x) - 1:
                x = x[1:-1]
            by = None
            if len(pat) == 2 and pat[0].s == '&' and pat[1].k == 'id':
                by = 'val'
            elif len(pat) == 1 and pat[0].k == 'id':
                by = 'ref'
            if it and by and [y.s for y in x[:3]] == ['self', '.', 'storage'] and not any(y.s in ('storage', 'push', 'truncate') for y in toks[b:match(toks, b)] if x[0].s != 'self'):
                ln = t.line
                r = x[3:]
                lo = hi = None
                if not r:
                    lo, hi = T('0', ln), T('self.storage.len()', ln)
                elif r[0].s == '[' and match(r, 0) == len(r) - 1:
                    inner, d = r[1:-1], None
                    j = 0
                    while j < len(inner):
                        if inner[j].k == 'op' and inner[j].s in OPEN:
                            j = match(inner, j)
                        elif inner[j].s == '..':
                            d = j
                        j += 1
                    if d is not None:
                        lo = inner[:d] or T('0', ln)
                        hi = inner[d + 1:] or T('self.storage.len()', ln)
                if lo is not None:
                    k += 1
                    nm = pat[-1].s
                    e = match(toks, b)
                    if not any(y.s == 'storage' and toks[q + 1].s == '.' and toks[q + 2].s not in ('len', 'capacity') for q, y in enumerate(toks[b:e], b)):
                        pre = []
                        if len(lo) > 1 or lo[0].s != '0' or src(hi) != 'self . storage . len ( )':
                            pre = T('vp_assert((', ln) + lo + T(') <= (', ln) + hi + T(') && (', ln) + hi + T(') <= self.storage.len());', ln)
                        body = slices(toks[b + 1:e])
                        if by == 'ref':
                            body = deref_names(body, nm)
                        out += pre + T('for vp_s%d in' % k, ln) + lo + T('..', ln) + hi + T('{ let %s = self.storage[vp_s%d];' % (nm, k), ln) + body + T('}', ln)
                        i = e + 1
                        continue
        out.append(t)
        i += 1
    return out


def deref_names(toks, nm):
    """a name bound to a reference to an integer, bound to the integer instead"""
    out = []
    for t in toks:
        if t.k == 'id' and t.s == nm and out and out[-1].s == '*' and (len(out) < 2 or out[-2].k == 'op' and out[-2].s not in (')', ']') or out[-2].s in ('if', 'return', 'in', 'match', 'while')):
            out.pop()
        out.append(t)
    return out


def collected(toks, ret):
    """a result made by `X.collect()`: built with from_iter / extend"""
    if [x.s for x in toks[-4:]] == ['.', 'collect', '(', ')']:
        b = receiver(toks[:-4])
        if b is not None and (b == 0 or toks[b - 1].s in (';', '}')):
            ln = toks[-1].line
            if ret in ('Self', 'EnumVec < T >', 'EnumSet < E >'):
                return toks[:b] + T('Self::from_iter(', ln) + toks[b:-4] + T(')', ln)
            if ret == 'Vec < T >':
                return toks[:b] + T('let mut vp_c = Vec::with_capacity(0); vp_c.extend(', ln) + toks[b:-4] + T('); vp_c', ln)
    return toks


def tidy(toks, spec, where, missing):
    """the forms the contracts are written for"""
    toks = norm_loops(toks)
    want = len(spec.get('closures', []))
    if nclosures(toks) != want:
        toks = option_closures(quantifiers(toks))
        if 0 < nclosures(toks) < want:
            # which of the contracts belongs to which closure?
            missing.append('%s: a closure is gone' % where)
    return slices(toks)


def clos(toks):
    """([parameter patterns], body) of a closure, or None"""
    if toks and toks[0].s == 'move':
        toks = toks[1:]
    if not toks or toks[0].s not in ('|', '||') or toks[0].k == 'raw':
        return None
    if toks[0].s == '||':
        ps, j = [], 1
    else:
        j = 1
        while j < len(toks) and toks[j].s != '|':
            if toks[j].s in ('(', '['):
                j = match(toks, j)
            j += 1
        ps = split_args(toks[1:j])
        j += 1
    ps = [p[:[x.s for x in p].index(':')] if ':' in [x.s for x in p] else p for p in ps]
    if j < len(toks) and toks[j].s == '->':
        return None
    return ps, toks[j:]


def split_args(toks):
    import inline
    return inline.commas(toks)


def arms_of(toks):
    out, i = [], 0
    while i < len(toks):
        j = i
        while j < len(toks) and toks[j].s != '=>':
            if toks[j].s in ('(', '[', '{'):
                j = match(toks, j)
            elif toks[j].s == 'if':
                return None
            j += 1
        if j >= len(toks):
            return None
        pat = toks[i:j]
        k = j + 1
        if toks[k].s == '{':
            e = match(toks, k) + 1
        else:
            e = k
            while e < len(toks) and toks[e].s != ',':
                if toks[e].s in ('(', '[', '{'):
                    e = match(toks, e)
                e += 1
        out.append((pat, toks[k:e]))
        i = e + 1 if e < len(toks) and toks[e].s == ',' else e
    return out


class Emitter:
    def __init__(self, toks, spec, where):
        self.drop = spec.get('drop', ())
        self.loops = list(spec.get('loops', []))
        self.closures = list(spec.get('closures', []))
        self.nloop = 0
        self.nclos = 0
        self.where = where
        self.missing = []
        self.toks = toks

    def loop_spec(self):
        k = self.nloop
        self.nloop += 1
        if k >= len(self.loops):
            raise Lost('%s: loop %d has no contract' % (self.where, k))
        return self.loops[k]

    def inv(self, sp, names):
        inv = sp['inv']
        dec = sp.get('dec')
        kw = 'invariant_except_break' if sp.get('xb') else 'invariant'
        s = ' ' + kw + '\n'
        put = lambda e: subst(e, names)
        for e in inv:
            if norm(put(e)) not in self.drop:
                s += '        ' + put(e) + ',\n'
        if s == ' ' + kw + '\n':
            s = '\n'
        if sp.get('ens'):
            s += ' ensures\n' + ''.join('        %s,\n' % e for e in sp['ens'])
        if dec:
            s += ' decreases ' + dec + '\n'
        for a, b in sorted(names.items(), key=lambda x: -len(x[0])):
            s = s.replace('$' + a, b)
        return Raw(s, 'invariant')

    def body(self, toks):
        """desugar `for`, add invariants, annotate closures"""
        out, i, n = [], 0, len(toks)
        while i < n:
            t = toks[i]
            pv = toks[i - 1] if i else None
            if t.k == 'id' and t.s == 'while' :
                sp = self.loop_spec()
                b = expr_end(toks, i + 1, ('{',))
                c = [x.s for x in toks[i + 1:b]]
                if sp.get('kind') == 'iter' and c[:3] == ['let', 'Some', '('] and c[-4:] == ['.', 'vp_next', '(', ')'] and c[-6] == '=':
                    # the iterator of a `for` written out
                    e = match(toks, b)
                    q = match(toks, i + 3)
                    out += self.iter_loop(toks[i + 4:q], T(c[-5], t.line), c[-5], self.body(toks[b + 1:e]), sp, t.line, dict(it=c[-5]))
                    i = e + 1
                    continue
                e = match(toks, b)
                cond = toks[i + 1:b]
                names = {}
                if cond and cond[0].s == 'let':
                    raise Lost('while let')
                kind = sp.get('kind', 'while')
                spd = dict(sp)
                if kind in ('range', 'rev'):
                    names, pre, top, spd = self.counted(cond, kind, sp, t.line)
                    out += pre
                elif kind == 'while':
                    top = []
                    if any('$k' in x for x in sp['inv']):
                        c = counter_of(cond)
                        if c is None:
                            raise Lost('%s: loop condition changed' % self.where)
                        names = {'k': c[0], 'x': c[0]}
                else:
                    raise Lost('%s: loop kind changed' % self.where)
                if sp.get('pre'):
                    out.append(self.sub(sp['pre'], names))
                out += [t] + self.body(cond) + [self.inv(spd, names), toks[b]]
                out += top
                if sp.get('top') and kind != 'rev':
                    out.append(self.sub(sp['top'], names))
                inner = self.body(toks[b + 1:e])
                if sp.get('top') and kind == 'rev':
                    out.append(self.sub(sp['top'], names))
                out += inner
                if sp.get('end'):
                    if inner and inner[-1].k != 'raw' and inner[-1].s not in (';', '}'):
                        out += T(';', t.line)
                    out.append(self.sub(sp['end'], names))
                out.append(toks[e])
                if sp.get('post'):
                    out.append(self.sub(sp['post'], names))
                i = e + 1
                continue
            if t.k == 'id' and t.s == 'loop':
                raise Lost('%s: unexpected `loop`' % self.where)
            if t.k == 'id' and t.s == 'for' and (pv is None or pv.s != '>') and toks[i + 1].s != '<':
                sp = self.loop_spec()
                ins = i + 1
                while toks[ins].s != 'in':
                    ins += 1
                pat = toks[i + 1:ins]
                b = expr_end(toks, ins + 1, ('{',))
                e = match(toks, b)
                ex = toks[ins + 1:b]
                inner = self.body(toks[b + 1:e])
                k = self.nloop
                out += self.desugar_for(pat, ex, inner, sp, t.line, 'l%d' % (k,))
                i = e + 1
                continue
            # closures: `|a, b| body` at expression position
            if t.k == 'op' and t.s in ('|', '||') and (pv is None or pv.k == 'op' and pv.s in ('(', ',', '=', '{', ';') or pv.s in ('move', 'return')):
                j = self.closure(toks, i, out)
                i = j
                continue
            out.append(t)
            i += 1
        return out

    def counted(self, cond, kind, sp, line):
        """a `while` over a counter, where the contract is written for a `for` over a range"""
        c = counter_of(cond)
        if c is None or not pure(c[2]) or c[1] not in (('<', '!=') if kind == 'range' else ('>', '!=')):
            raise Lost('%s: loop kind changed' % self.where)
        v, _, e = c
        tag = 'vp_l%d' % self.nloop
        pre, bound = [], src(e)
        if len(e) > 1:
            # the bound, evaluated once more (its functions have no effects)
            bound = tag + ('hi' if kind == 'range' else 'lo')
            pre += T('let %s =' % bound, line) + e + T(';', line)
        names = {'k': v, 'x': tag + 'x'}
        if kind == 'range':
            pre.append(Raw('let ghost %slo = %s;' % (tag, v)))
            lo, hi = tag + 'lo', bound
            top = [Raw('let ghost %sx = %s;' % (tag, v))]
            dec = '%s - %s' % (hi, v)
            auto = ['%s <= %s' % (lo, v), '%s <= %s ==> %s <= %s' % (lo, hi, v, hi), '%s > %s ==> %s == %s' % (lo, hi, v, lo)]
        else:
            pre.append(Raw('let ghost %shi = %s;' % (tag, v)))
            lo, hi = bound, tag + 'hi'
            top = [Raw('let ghost %sx = (%s - 1) as usize;' % (tag, v))]
            dec = '%s - %s' % (v, lo)
            auto = ['%s <= %s' % (v, hi), '%s <= %s ==> %s <= %s' % (lo, hi, lo, v), '%s > %s ==> %s == %s' % (lo, hi, v, hi)]
        names.update(lo=lo, hi=hi, n='(%s - %s)' % (v, lo))
        spd = dict(sp)
        spd['inv'] = auto + sp['inv']
        spd.setdefault('dec', dec)
        return names, pre, top, spd

    def closure(self, toks, i, out):
        k = self.nclos
        self.nclos += 1
        if k >= len(self.closures):
            raise Lost('%s: closure %d has no contract' % (self.where, k))
        sp = self.closures[k]
        t = toks[i]
        if t.s == '||':
            params, j = [], i + 1
        else:
            j = i + 1
            while toks[j].s != '|':
                if toks[j].s in ('(', '['):
                    j = match(toks, j)
                j += 1
            params = toks[i + 1:j]
            j += 1
        names, cur, depth = [], [], 0
        groups = [[]]
        for p in params:
            if p.s in ('(', '[', '<'):
                depth += 1
            if p.s in (')', ']', '>'):
                depth -= 1
            if p.s == ',' and depth == 0:
                groups.append([])
            else:
                groups[-1].append(p)
        groups = [g for g in groups if g]
        if len(groups) != len(sp['params']):
            raise Lost('%s: closure %d arity' % (self.where, k))
        ps = []
        nm = {}
        for q, (g, ty) in enumerate(zip(groups, sp['params'])):
            name = g[0].s if g[0].s != '&' else None
            if g[0].s == 'mut' or name is None:
                raise Lost('closure pattern')
            typed = len(g) > 1 and g[1].s == ':'
            ps.append('%s: %s' % (name, src(g[2:]) if typed else ty))
            nm['p%d' % q] = name
        if toks[j].s == '->':
            b = expr_end(toks, j, ('{',))
            e = match(toks, b)
            body = toks[b:e + 1]
            j = e + 1
        elif toks[j].s == '{':
            e = match(toks, j)
            body = toks[j:e + 1]
            j = e + 1
        else:
            e = expr_end(toks, j, (')', ',', ';', '}'))
            body = [Tok('op', '{', t.line)] + toks[j:e] + [Tok('op', '}', toks[e].line)]
            j = e
        s = '|%s| -> (%s: %s)' % (', '.join(ps), sp.get('r', 'vr'), sp['ret'])
        if sp.get('req'):
            s += '\n requires ' + ', '.join(sp['req'])
        if sp.get('ens'):
            s += '\n ensures ' + ', '.join(sp['ens'])
        for a, b2 in nm.items():
            s = s.replace('$' + a, b2)
        out.append(Raw(s + '\n', 'closure'))
        inner = self.body(body[1:-1])
        out.append(body[0])
        if sp.get('top'):
            x = sp['top']
            for a, b2 in nm.items():
                x = x.replace('$' + a, b2)
            out.append(Raw(x))
        if sp.get('bind'):      # bind the tail expression so a hint can follow it
            out.append(Raw('let vr_ = {'))
            out += inner
            x = sp['bind']
            for a, b2 in nm.items():
                x = x.replace('$' + a, b2)
            out.append(Raw('}; ' + x + ' vr_'))
        else:
            out += inner
        out.append(body[-1])
        return j

    def desugar_for(self, pat, ex, inner, sp, line, tag):
        kind = None
        # strip redundant parens
        def strip(e):
            while e and e[0].s == '(' and match(e, 0) == len(e) - 1:
                e = e[1:-1]
            return e
        rev = False
        e = strip(ex)
        if len(e) > 4 and [x.s for x in e[-4:]] == ['.', 'rev', '(', ')']:
            rev = True
            e = strip(e[:-4])
        d = 0
        dd = None
        j = 0
        while j < len(e):
            if e[j].s in ('(', '[', '{'):
                j = match(e, j)
            elif e[j].s in ('..', '..='):
                dd = j
            j += 1
        want = sp.get('kind', 'range')
        v = 'vp_' + tag
        names = {'k': v + 'k', 'lo': v + 'lo', 'hi': v + 'hi', 'it': v + 'it'}
        if dd is not None:
            if len(pat) != 1:
                raise Lost('for pattern')
            if pat[0].s == '_':
                pat = T(v + 'x', line)
            names['x'] = pat[0].s
            names['n'] = '(%sk - %slo)' % (v, v)
            if want != ('rev' if rev else 'range') and not (want == 'while' and not rev):
                raise Lost('%s: loop kind changed' % self.where)
            if want == 'while':
                sp = {a: b for a, b in sp.items() if a != 'dec'}
            lo, hi = e[:dd], e[dd + 1:]
            if e[dd].s == '..=':
                hi = T('(', line) + hi + T(') + 1', line)
            pre = T('{ let %slo = ' % v, line) + self.body(lo) + T('; let %shi = ' % v, line) + self.body(hi) + T(';', line)
            if not rev:
                pre += T('let mut %sk = %slo;' % (v, v), line)
                cond = '%sk < %shi' % (v, v)
                step = T('let', line) + pat + T('= %sk; %sk = %sk + 1;' % (v, v, v), line)
                dec = '%shi - %sk' % (v, v)
            else:
                pre += T('let mut %sk = %shi;' % (v, v), line)
                cond = '%slo < %sk' % (v, v)
                step = T('%sk = %sk - 1; let' % (v, v), line) + pat + T('= %sk;' % v, line)
                dec = '%sk - %slo' % (v, v)
            spd = dict(sp)
            spd['inv'] = (['%slo <= %sk' % (v, v), '%slo <= %shi ==> %sk <= %shi' % (v, v, v, v), '%slo > %shi ==> %sk == %slo' % (v, v, v, v)] if not rev else
                          ['%sk <= %shi' % (v, v), '%slo <= %shi ==> %slo <= %sk' % (v, v, v, v), '%slo > %shi ==> %sk == %shi' % (v, v, v, v)]) + sp['inv']
            spd.setdefault('dec', dec)
            out = list(pre)
            if sp.get('pre'):
                out.append(self.sub(sp['pre'], names))
            out += T('while ' + cond, line) + [self.inv(spd, names)] + T('{', line)
            out += step
            if sp.get('top'):
                out.append(self.sub(sp['top'], names))
            out += inner
            if inner and inner[-1].s not in (';', '}'):
                out += T(';', line)
            if sp.get('end'):
                out.append(self.sub(sp['end'], names))
            out += T('}', line)
            if sp.get('post'):
                out.append(self.sub(sp['post'], names))
            out += T('}', line)
            return out
        if want != 'iter':
            raise Lost('%s: loop kind changed' % self.where)
        names['x'] = src(pat)
        out = T('{ let mut %sit = ' % v, line) + self.body(ex) + T('.vp_into_iter();', line)
        out += self.iter_loop(pat, None, v + 'it', inner, sp, line, names)
        out += T('}', line)
        return out

    def iter_loop(self, pat, _, it, inner, sp, line, names):
        """while let Some(pat) = it.next() { inner }, with its contract"""
        names = dict(names, x=src(pat))
        spd = dict(sp)
        out = []
        if sp.get('pre'):
            out.append(self.sub(sp['pre'], names))
        # while-let over next(), written as loop + match (the language's own desugaring of `for`)
        out += T('loop', line) + [self.inv(spd, names)] + T('{', line)
        if sp.get('top'):
            out.append(self.sub(sp['top'], names))
        out += T('match %s.vp_next() { Some(' % it, line) + pat + T(') => {', line)
        if sp.get('some'):
            out.append(self.sub(sp['some'], names))
        out += inner
        if inner and inner[-1].s not in (';', '}'):
            out += T(';', line)
        if sp.get('end'):
            out.append(self.sub(sp['end'], names))
        out += T('} None => { break; } } }', line)
        if sp.get('post'):
            out.append(self.sub(sp['post'], names))
        return out

    def sub(self, s, names):
        return Raw(subst(s, names))


def inject_hints(toks, hints, where, missing):
    """toks: body including outer braces (source tokens only, before desugaring)"""
    ins = []
    for h in hints:
        if h['at'] == '@tail':          # before the tail expression
            pos, j = 0, 0
            while j < len(toks):
                if toks[j].k == 'op' and toks[j].s in OPEN:
                    j = match(toks, j)
                if j < len(toks) - 1 and toks[j].s in (';', '}'):
                    pos = j + 1
                j += 1
            ins.append((pos, h['text']))
            continue
        r = find_pat(toks, h['at'], h.get('occ', 0))
        if r is None:
            missing.append('%s: `%s`' % (where, h['at']))
            continue
        if h.get('where', 'after') == 'after':
            ins.append((r[1], h['text']))
        else:
            ins.append((r[0], h['text']))
    out = list(toks)
    for pos, text in sorted(ins, key=lambda x: -x[0]):
        out.insert(pos, Raw(text))
    return out


class Out:
    def __init__(self):
        self.lines = ['']
        self.map = [None]           # generated line -> source line
        self.marks = []             # (start gen line, end gen line, name)

    def raw(self, s):
        for k, part in enumerate(s.split('\n')):
            if k:
                self.lines.append('')
                self.map.append(None)
            self.lines[-1] += part

    def toks(self, toks):
        last = None
        for t in toks:
            if t.k == 'raw':
                self.raw('\n' + t.s + '\n')
                last = None
                continue
            if t.line != last:
                self.lines.append('')
                self.map.append(t.line)
                last = t.line
            self.lines[-1] += t.s + ' '

    def extend(self, o):
        base = len(self.lines) - 1
        self.raw('\n')
        base = len(self.lines)
        self.lines += o.lines
        self.map += o.map
        self.marks += [(a + base, b + base, n, w) for a, b, n, w in o.marks]

    def text(self):
        return '\n'.join(self.lines) + '\n'
