"""Local variables and parameters get the names the contracts use.

`locals.json` records, for each function under contract, its parameters and its
`let` bindings (name and initialiser).  A parameter at the same position, or a
binding with the same initialiser, under another name is consistently renamed
(only when the contract's name is not used for anything else in the function)."""
import copy, json, os
from rustlex import Tok, match, src
import inline

HERE = os.path.dirname(os.path.abspath(__file__))


def lets(body):
    """[(names, initialiser text)] of `let [mut] x = e;` and `let (x, y) = e;`"""
    out, i = [], 0
    while i < len(body):
        if body[i].k == 'id' and body[i].s == 'let' and (i == 0 or body[i - 1].s not in ('if', 'while')):
            j = i + 1
            if body[j].s == 'mut':
                j += 1
            names = None
            if body[j].k == 'id':
                names = [body[j].s]; j += 1
            elif body[j].s == '(':
                e = match(body, j)
                if all(t.k == 'id' or t.s in (',', '_', 'mut') for t in body[j + 1:e]):
                    names = [t.s for t in body[j + 1:e] if t.s not in (',', 'mut')]
                j = e + 1
            if names is not None:
                while j < len(body) and body[j].s not in ('=', ';'):
                    j += 1
                if j < len(body) and body[j].s == '=':
                    e = j + 1
                    while e < len(body) and body[e].s != ';':
                        if body[e].s in ('(', '[', '{'):
                            e = match(body, e)
                        e += 1
                    ini = body[j + 1:e]
                    if len(ini) < 60:
                        out.append((names, src(ini)))
        i += 1
    return out


def record(fn):
    if fn.kind != 'fn' or fn.body is None:
        return None
    pr = inline.params_of(fn)
    return dict(params=[p[0] for p in pr[1]] if pr else None, lets=[[n, s] for n, s in lets(fn.body[1:-1])])


def rename(toks, m):
    out = []
    for i, t in enumerate(toks):
        pv = toks[i - 1].s if i else ''
        nx = toks[i + 1].s if i + 1 < len(toks) else ''
        if t.k == 'id' and t.s in m and pv not in ('.', '::', "'") and nx not in ('::', '!'):
            t = Tok('id', m[t.s], t.line)
        out.append(t)
    return out


def used(toks):
    return {t.s for i, t in enumerate(toks) if t.k == 'id' and not (i and toks[i - 1].s in ('.', '::'))}


def canon_item(fn, base):
    """the item with the recorded names; -> (item, renamed)"""
    if base is None or fn.kind != 'fn' or fn.body is None:
        return fn, {}
    f = fn
    done = {}
    pr = inline.params_of(fn)
    m = {}
    if pr and base['params'] is not None and len(pr[1]) == len(base['params']):
        m = {p[0]: q for p, q in zip(pr[1], base['params']) if p[0] != q and p[0] != '_'}
    f = apply(f, m, done)
    # bindings, in order: initialisers are compared after the renames so far
    for _ in range(20):
        cur = lets(f.body[1:-1])
        have = {n for ns, s in cur for n in ns}
        m = {}
        seen = {}
        for ns, s in base['lets']:
            # the k-th binding with this initialiser
            k = seen[s] = seen.get(s, -1) + 1
            same = [ms for ms, s2 in cur if s2 == s]
            if k < len(same) and len(same[k]) == len(ns):
                for a, b in zip(ns, same[k]):
                    if a != b and a != '_' and b != '_' and a not in have:
                        m[b] = a
            if m:
                break
        if not m:
            break
        g = apply(f, m, done)
        if g is f:
            break
        f = g
    return f, done


def apply(f, m, done):
    u = used(f.body) | used(f.sig[2:])
    m = {a: b for a, b in m.items() if b not in u or b in m}
    if not m or len(set(m.values())) != len(m):
        return f
    # a struct literal's field shorthand, or a binding of the name by a pattern, keeps the old names
    t = f.body
    for i in range(1, len(t) - 1):
        if t[i].k == 'id' and t[i].s in m and t[i - 1].s in ('{', ',') and t[i + 1].s in (',', '}') and shorthand(t, i):
            return f
        if t[i].k == 'id' and t[i].s in m and t[i + 1].s == ':' and t[i - 1].s in ('{', ','):
            return f
    g = copy.copy(f)
    g.sig = f.sig[:2] + rename(f.sig[2:], m)
    g.body = rename(f.body, m)
    k = len(f.toks) - len(f.body)
    g.toks = f.toks[:2] + rename(f.toks[2:k], m) + g.body if f.toks[0].s == 'fn' else rename(f.toks[:k], m) + g.body
    done.update(m)
    return g


def shorthand(t, i):
    """is t[i] inside `Type { .. }`?"""
    d, j = 0, i
    while j >= 0:
        s = t[j].s
        if t[j].k == 'op':
            if s in (')', ']', '}'):
                d += 1
            elif s in ('(', '[', '{'):
                if d == 0:
                    return s == '{' and j > 0 and t[j - 1].k == 'id' and t[j - 1].s[:1].isupper()
                d -= 1
        j -= 1
    return False


def load(name):
    p = os.path.join(HERE, 'locals.json')
    try:
        return json.load(open(p)).get(name, {})
    except (OSError, ValueError):
        return {}
