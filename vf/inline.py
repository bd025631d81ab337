"""Helper functions and constants without a contract of their own are replaced
by their body at the call (what the compiler's inliner does): the caller's
contract then decides them.  Only bodies without `return`, `?` or recursion."""
from rustlex import Tok, lex, match, match_angle, src, strip_vis, OPEN


def commas(toks):
    """split at commas, keeping brackets, generics and closure parameters together"""
    out, cur, j = [], [], 0
    while j < len(toks):
        t = toks[j]
        if t.k == 'op' and t.s in OPEN:
            m = match(toks, j)
            cur += toks[j:m + 1]; j = m + 1; continue
        if t.s == '::' and j + 1 < len(toks) and toks[j + 1].s == '<':
            m = match_angle(toks, j + 1)
            cur += toks[j:m + 1]; j = m + 1; continue
        if t.s == '|' and (not cur or cur[-1].s == 'move'):
            m = j + 1
            while m < len(toks) and toks[m].s != '|':
                m += 1
            cur += toks[j:m + 1]; j = m + 1; continue
        if t.s == ',':
            out.append(cur); cur = []
        else:
            cur.append(t)
        j += 1
    if cur:
        out.append(cur)
    return out


def params_of(fn):
    """-> (receiver or None, [(name, mut, type toks)], generics names, returns unit) or None"""
    sig = fn.sig
    gen = set()
    k = 2
    if sig[2].s == '<':
        g = match_angle(sig, 2)
        gen = {t.s for t in sig[3:g] if t.k == 'id'}
        k = g + 1
    e = match(sig, k)
    ps, cur, d = [], [], 0
    j = k + 1
    while j < e:
        t = sig[j]
        if t.s in ('(', '['):
            m = match(sig, j)
            cur += sig[j:m + 1]; j = m + 1; continue
        d += (t.s == '<') - (t.s == '>') + 2 * ((t.s == '<<') - (t.s == '>>'))
        if t.s == ',' and d == 0:
            ps.append(cur); cur = []
        else:
            cur.append(t)
        j += 1
    if cur:
        ps.append(cur)
    recv, out = None, []
    for q, p in enumerate(ps):
        names = [t.s for t in p if t.k != 'life']
        if q == 0 and 'self' in names and ':' not in names:
            recv = '&mut' if names[0] == '&' and 'mut' in names else '&' if names[0] == '&' else 'mut' if names[0] == 'mut' else 'val'
            continue
        mut = p[0].s == 'mut'
        if mut:
            p = p[1:]
        if len(p) < 3 or p[0].k != 'id' or p[1].s != ':':
            return None
        out.append((p[0].s, mut, p[2:]))
    rest = sig[e + 1:]
    unit = not rest or rest[0].s == 'where'
    return recv, out, gen, unit


def bound_names(toks):
    """names a body binds (over-approximation: any identifier after let/for/|)"""
    out = set()
    for i, t in enumerate(toks):
        if t.s in ('let', 'for', '|', 'mut', '(', ',', 'Some') and i + 1 < len(toks) and toks[i + 1].k == 'id':
            out.add(toks[i + 1].s)
    return out


def sub_self(toks, recv):
    return [Tok(t.k, recv, t.line) if t.s == 'self' else t for t in toks]


def L(s, line):
    return [Tok(t.k, t.s, line) for t in lex(s)]


def call_of(fn, recv, args, line):
    """the inlined call, or None"""
    if fn.body is None or 'async' in fn.quals:
        return None
    pr = params_of(fn)
    if pr is None:
        return None
    rk, ps, gen, unit = pr
    if (rk is None) != (recv is None) or len(args) != len(ps):
        return None
    body = fn.body[1:-1]
    if any(t.s in ('return', '?', 'fn', 'impl', 'macro_rules') for t in body):
        return None
    if recv is not None:
        if rk not in ('&', '&mut'):
            return None
        if recv != 'self':
            if recv in bound_names(body) or any(p[0] == recv for p in ps):
                return None
            body = sub_self(body, recv)
    lets = []
    for (nm, mut, ty), a in zip(ps, args):
        if ty[0].s == '&' and any(t.s == 'mut' for t in ty[1:3]):
            # exclusive reference: the place itself
            if [t.s for t in a[:2]] == ['&', 'mut'] and all(t.k in ('id', 'num') or t.s in ('.', '[', ']', '+', '-') for t in a[2:]):
                place = src(a[2:])
                used = {t.s for t in a[2:]}
                # nothing the place mentions is bound or assigned in the body
                asg = {body[q].s for q in range(len(body) - 1) if body[q].k == 'id' and body[q + 1].s.endswith('=') and body[q + 1].s not in ('==', '<=', '>=', '!=', '=>')}
                if used & (asg | bound_names(body) | {p[0] for p in ps}) - {'mut', nm}:
                    return None
                if len(a) > 3:
                    place = '(%s)' % place
            elif len(a) == 1 and a[0].k == 'id':
                place = None
            else:
                return None
            if place is None:
                if a[0].s != nm:
                    body = [Tok('id', a[0].s, t.line) if t.s == nm else t for t in body]
                continue
            nb, j = [], 0
            while j < len(body):
                if body[j].s == '*' and j + 1 < len(body) and body[j + 1].s == nm and (j == 0 or body[j - 1].k == 'op' and body[j - 1].s not in (')', ']')):
                    nb += L(place, body[j + 1].line); j += 2; continue
                if body[j].s == nm and body[j].k == 'id' and (j == 0 or body[j - 1].s != '.'):
                    if j + 1 < len(body) and body[j + 1].s in ('.', '['):
                        nb += L(place, body[j].line)
                    else:
                        nb += L('(&mut %s)' % place, body[j].line)
                    j += 1; continue
                nb.append(body[j]); j += 1
            body = nb
            continue
        if len(a) == 1 and a[0].s == nm and not mut:
            continue
        typed = not (gen & {t.s for t in ty}) and not any(t.s in ('impl', 'dyn', '&') or t.k == 'life' for t in ty)
        lets.append((nm, mut, ty if typed else None, a))
    out = L('{', line)
    names = {x[0] for x in lets}
    simple = not any(t.s in names for x in lets for t in x[3])
    if simple:
        for nm, mut, ty, a in lets:
            out += L('let mut' if mut else 'let', line) + L(nm, line) + ((L(':', line) + ty) if ty else []) + L('=', line) + a + L(';', line)
    else:
        # all arguments are evaluated before any of the names is bound
        for q, (nm, mut, ty, a) in enumerate(lets):
            out += L('let vp_a%d' % q, line) + ((L(':', line) + ty) if ty else []) + L('=', line) + a + L(';', line)
        for q, (nm, mut, ty, a) in enumerate(lets):
            out += L('let %s %s = vp_a%d;' % ('mut' if mut else '', nm, q), line)
    out += body + L('}', line)
    return out if unit else L('(', line) + out + L(')', line)


class Inliner:
    def __init__(self, methods, free, assoc_consts, consts, owners):
        """methods/free: name -> fn item; assoc_consts/consts: name -> expression tokens; owners: names of the type"""
        self.m, self.f, self.ac, self.c, self.owners = methods, free, assoc_consts, consts, owners
        self.used = set()

    def any(self):
        return bool(self.m or self.f or self.ac or self.c)

    def run(self, toks, depth=0):
        if not self.any() or depth > 6:
            return toks
        out, i, n, hit = [], 0, len(toks), False
        while i < n:
            t = toks[i]
            pv = toks[i - 1].s if i else ''
            nx = toks[i + 1].s if i + 1 < n else ''
            # an associated function or constant: Self::name / Type::<..>::name
            if t.k == 'id' and (t.s == 'Self' or t.s in self.owners) and nx == '::' and pv not in ('::', '.'):
                j = i + 2
                if toks[j].s == '<':
                    j = match_angle(toks, j) + 2
                if j < n and toks[j].s in self.ac and not (j + 1 < n and toks[j + 1].s == '('):
                    out += L('(', t.line) + self.ac[toks[j].s] + L(')', t.line)
                    self.used.add(toks[j].s); hit = True
                    i = j + 1
                    continue
                if j < n and toks[j].s in self.m:
                    r = self.call(self.m[toks[j].s], None, toks, j + 1)
                    if r:
                        self.used.add(toks[j].s)
                        out += r[0]; i = r[1]; hit = True
                        continue
            # self.name(..) / local.name(..)
            if t.k == 'id' and nx == '.' and pv not in ('.', '::') and i + 2 < n and toks[i + 2].s in self.m:
                r = self.call(self.m[toks[i + 2].s], t.s, toks, i + 3)
                if r:
                    self.used.add(toks[i + 2].s)
                    out += r[0]; i = r[1]; hit = True
                    continue
            if t.k == 'id' and t.s in self.f and pv not in ('.', '::', 'fn') and nx in ('(', '::'):
                r = self.call(self.f[t.s], None, toks, i + 1)
                if r:
                    out += r[0]; i = r[1]; hit = True
                    self.used.add(t.s)
                    continue
            if t.k == 'id' and t.s in self.c and pv not in ('.', '::') and nx not in ('::', '(', '!', ':'):
                out += L('(', t.line) + self.c[t.s] + L(')', t.line)
                self.used.add(t.s); hit = True
                i += 1
                continue
            out.append(t)
            i += 1
        return self.run(out, depth + 1) if hit else out

    def call(self, fn, recv, toks, j):
        """toks[j] follows the function's name"""
        if j < len(toks) and toks[j].s == '::' and toks[j + 1].s == '<':
            j = match_angle(toks, j + 1) + 1
        if j >= len(toks) or toks[j].s != '(':
            return None
        e = match(toks, j)
        args = commas(toks[j + 1:e])
        line = toks[j].line
        pr = params_of(fn)
        if pr and pr[0] is not None and recv is None:
            # Self::name(self, ..)
            if not args:
                return None
            a = [t for t in args[0] if t.s not in ('&', 'mut')]
            if len(a) != 1 or a[0].k != 'id':
                return None
            recv, args = a[0].s, args[1:]
        r = call_of(fn, recv, args, line)
        if r is None:
            return None
        return r, e + 1


def const_expr(it):
    t = it.toks
    eq = None
    d = 0
    for k, x in enumerate(t):
        d += (x.s == '<') - (x.s == '>')
        if x.s == '=' and d == 0:
            eq = k
            break
    return t[eq + 1:-1]


def inline_item(inl, fn):
    """a copy of the item with unknown helpers inlined"""
    import copy
    if not inl.any():
        return fn
    f = copy.copy(fn)
    if fn.kind == 'const':
        k = [j for j, x in enumerate(fn.toks) if x.s == '='][0]
        f.toks = fn.toks[:k + 1] + inl.run(fn.toks[k + 1:])
        return f
    if fn.body is None:
        return fn
    f.body = [fn.body[0]] + inl.run(fn.body[1:-1]) + [fn.body[-1]]
    f.toks = fn.toks[:-len(fn.body)] + f.body
    return f
