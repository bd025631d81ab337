"""Verus files for the enum_like crate, from rustc's own macro expansion of
/repo's current source: the impls of EnumLike (C10), Values (C11), PackedU8/16 (C12)."""
import os, re, subprocess
from rustlex import *
from emit import *
from gen_ev import split_commas, lex_at
import inline

HERE = os.path.dirname(os.path.abspath(__file__))
CONSTS = {'NUM_VARIANTS', 'NUM_VARIANTS_any'}
METH = {'next', 'size_hint', 'count', 'last', 'nth', 'eq'}
HEAD = '''#![allow(non_snake_case, unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_assignments)]
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
'''


def expand(repo, crate='enum_like'):
    p = subprocess.run(['rustc', '+stable', '--edition', '2015', '--crate-type', 'lib', '-Zunpretty=expanded', os.path.join(repo, crate, 'src/lib.rs')],
                       env=dict(os.environ, RUSTC_BOOTSTRAP='1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd='/tmp')
    if p.returncode != 0:
        raise Lost('rustc does not expand %s: %s' % (crate, p.stderr.decode('utf8', 'replace')[-300:]))
    return items(lex(p.stdout.decode()))


def tnames(toks):
    """the component type names of a tuple type"""
    return [src(x) for x in split_commas(toks[1:-1])]


def enumlike_spec(it):
    """(header bounds, spec text, laws body, {fn: entry}) for an impl of EnumLike"""
    ty = src(it.ty).replace(' ', '')
    gen = [src(x) for x in split_commas(it.generics[1:-1])] if it.generics else []
    names = [g.split(':')[0].strip() for g in gen]
    L = lambda *a: ''.join('%s::laws(); ' % x for x in a)
    if ty == '()' or re.match(r'^\[\w+;0\]$', ty):
        un = '()' if ty == '()' else '[]'
        hint = '' if ty == '()' else 'assert forall|v: Self| Self::dec(#[trigger] v.enc()) == v by { assert(Self::dec(0) =~= v); }'
        e = '' if ty == '()' else ''
        return ('1', '0', un, hint, dict(NUM_VARIANTS='', to_discr='', from_discr=e))
    if ty == 'bool':
        return ('2', 'if self { 1int } else { 0 }', 'x != 0', '', dict(NUM_VARIANTS='', to_discr='', from_discr=''))
    m = re.match(r'^Option<(\w+)>$', ty)
    if m:
        t = m.group(1)
        return ('1 + %s::nv()' % t, 'match self { None => %s::nv(), Some(v) => v.enc() }' % t, 'if x == %s::nv() { None } else { Some(%s::dec(x)) }' % (t, t),
                L(t), {k: L(t) for k in ('NUM_VARIANTS', 'to_discr', 'from_discr')})
    m = re.match(r'^Result<(\w+),(\w+)>$', ty)
    if m:
        t, s = m.groups()
        return ('%s::nv() + %s::nv()' % (t, s), 'match self { Ok(v) => v.enc(), Err(v) => %s::nv() + v.enc() }' % t,
                'if x < %s::nv() { Ok(%s::dec(x)) } else { Err(%s::dec(x - %s::nv())) }' % (t, t, s, t),
                L(t, s), {k: L(t, s) for k in ('NUM_VARIANTS', 'to_discr', 'from_discr')})
    m = re.match(r'^\[(\w+);(\d+)(usize)?\]$', ty)
    if m:
        a, n = m.group(1), int(m.group(2))
        tup = '(' + ', '.join([a] * n) + (',' if n == 1 else '') + ')'
        com = lambda f: '(' + ', '.join(f % k for k in range(n)) + (',' if n == 1 else '') + ')'
        q = '<%s as EnumLike>' % tup
        laws = ('%s::laws(); assert forall|v: Self| 0 <= #[trigger] v.enc() < Self::nv() && Self::dec(v.enc()) == v by { let n = %s; assert(n.enc() == v.enc()); assert(Self::dec(v.enc()) =~= v); }\n'
                'assert forall|x: int| 0 <= x < Self::nv() implies (#[trigger] Self::dec(x)).enc() == x by { let t = %s::dec(x); let d = Self::dec(x); assert(%s == t); }') % (q, com('v[%d]'), q, com('d[%d]'))
        return ('%s::nv()' % q, com('self[%d]') + '.enc()', 'let t = %s::dec(x); [%s]' % (q, ', '.join('t.%d' % k for k in range(n))),
                laws, dict(NUM_VARIANTS='', to_discr='', from_discr='', fin='assert(@ =~= Self::dec(x as int));'))
    if it.ty and it.ty[0].s == '(' and match(it.ty, 0) == len(it.ty) - 1:
        c = tnames(it.ty)
        if sorted(c) != sorted(names) or len(set(c)) != len(c):
            raise Lost('impl for ' + ty)
        n = len(c)
        if n == 1:
            t = c[0]
            return ('%s::nv()' % t, 'self.0.enc()', '(%s::dec(x),)' % t,
                    L(t) + 'assert forall|v: Self| Self::dec(#[trigger] v.enc()) == v by { assert(v == (v.0,)); }', {k: '' for k in ('NUM_VARIANTS', 'to_discr', 'from_discr')})
        if n == 2:
            t, s = c
            b = L(t, s) + 'lemma_mul(%s::nv(), %s::nv()); ' % (t, s)
            laws = (b + 'assert forall|v: Self| 0 <= #[trigger] v.enc() < Self::nv() && Self::dec(v.enc()) == v by { lemma_pair(v.0.enc(), v.1.enc(), %s::nv(), %s::nv()); }\n'
                    'assert forall|x: int| 0 <= x < Self::nv() implies (#[trigger] Self::dec(x)).enc() == x by { lemma_pair2(x, %s::nv(), %s::nv()); }') % (t, s, t, s)
            return ('%s::nv() * %s::nv()' % (t, s), 'self.0.enc() + self.1.enc() * %s::nv()' % t, '(%s::dec(x %% %s::nv()), %s::dec(x / %s::nv()))' % (t, t, s, t), laws,
                    dict(NUM_VARIANTS=b, to_discr=b + 'lemma_pair(self.0.enc(), self.1.enc(), %s::nv(), %s::nv());' % (t, s), from_discr=b + 'lemma_pair2(x as int, %s::nv(), %s::nv());' % (t, s)))
        nest = '((%s), %s)' % (', '.join(c[:-1]), c[-1])
        q = '<%s as EnumLike>' % nest
        nv = lambda v: '((%s), %s.%d)' % (', '.join('%s.%d' % (v, k) for k in range(n - 1)), v, n - 1)
        laws = ('%s::laws(); assert forall|v: Self| 0 <= #[trigger] v.enc() < Self::nv() && Self::dec(v.enc()) == v by { let n = %s; assert(n.enc() == v.enc()); }\n'
                'assert forall|x: int| 0 <= x < Self::nv() implies (#[trigger] Self::dec(x)).enc() == x by { let a = %s::dec(x); assert(a == ((%s), a.1)); }') % (
                    q, nv('v'), q, ', '.join('a.0.%d' % k for k in range(n - 1)))
        return ('%s::nv()' % q, nv('self') + '.enc()', 'let a = %s::dec(x); (%s, a.1)' % (q, ', '.join('a.0.%d' % k for k in range(n - 1))), laws,
                {k: '' for k in ('NUM_VARIANTS', 'to_discr', 'from_discr')})
    raise Lost('no contract for an impl of EnumLike for ' + ty)


def fits_of(it, nv):
    ty = src(it.ty).replace(' ', '')
    if ty in ('()', 'bool') or re.match(r'^\[\w+;0\]$', ty):
        return 'true'
    m = re.match(r'^\[(\w+);(\d+)(usize)?\]$', ty)
    if m:
        n = int(m.group(2))
        return '<(%s) as EnumLike>::fits()' % (', '.join([m.group(1)] * n) + (',' if n == 1 else ''))
    if ty.startswith('('):
        c = tnames(it.ty)
        if len(c) == 1:
            return '%s::fits()' % c[0]
        if len(c) > 2:
            return '<((%s), %s) as EnumLike>::fits()' % (', '.join(c[:-1]), c[-1])
    else:
        c = re.match(r'^\w+<(.*)>$', ty).group(1).split(',')
    return ' && '.join('%s::fits()' % x for x in c) + ' && %s <= usize::MAX' % nv


def checked(toks, pre='vp_k'):
    """arithmetic of a constant: `a + b` -> vp_kadd(a, b) and so on"""
    while toks and toks[0].s == '(' and match(toks, 0) == len(toks) - 1:
        inner = toks[1:-1]
        j, top = 0, False
        while j < len(inner):
            if inner[j].s in OPEN:
                j = match(inner, j)
            top = top or inner[j].s == ','
            j += 1
        if top:
            return toks
        toks = inner
    for ops in (('+', '-'), ('*',)):
        j, at = 0, None
        while j < len(toks):
            if toks[j].s in OPEN:
                j = match(toks, j)
            elif toks[j].k == 'op' and toks[j].s in ops and j > 0 and (toks[j - 1].k in ('id', 'num') or toks[j - 1].s in (')', ']')):
                at = j
            j += 1
        if at is not None:
            f = pre + {'+': 'add', '-': 'sub', '*': 'mul'}[toks[at].s]
            return lex_at(f + '(', toks[at].line) + checked(toks[:at], pre) + lex_at(',', toks[at].line) + checked(toks[at + 1:], pre) + lex_at(')', toks[at].line)
    return toks


def const_any(x):
    """the constant NUM_VARIANTS with checked arithmetic, built from those of the components"""
    eq = [k for k, t in enumerate(x.toks) if t.s == '='][0]
    y = Item('const', x.name + '_any', x.attrs, None)
    ren = lambda ts: [Tok(t.k, 'NUM_VARIANTS_any', t.line) if t.s == 'NUM_VARIANTS' else t for t in ts]
    y.toks = ren(x.toks[:eq + 1]) + checked(ren(x.toks[eq + 1:-1])) + x.toks[-1:]
    return y


def fn_parts(x):
    """(params, ret, body) of a fn or const item"""
    if x.kind == 'const':
        t = x.toks
        c = [k for k, y in enumerate(t) if y.s == ':'][0]
        eq = [k for k, y in enumerate(t) if y.s == '=' and k > c][0]
        return lex_at('fn %s()' % x.name, t[0].line), t[c + 1:eq], t[eq + 1:-1]
    sig = x.sig
    k = next(j for j, y in enumerate(sig) if y.s == '(')
    e = match(sig, k)
    r = sig[e + 1:]
    ret = []
    if r and r[0].s == '->':
        w = next((j for j, y in enumerate(r) if y.s == 'where'), len(r))
        ret = r[1:w]
    return sig[:e + 1], ret, x.body[1:-1]


def rw(toks):
    return rewrite(toks, CONSTS, None, 'A', field='@none', storage_alias='@none')


def emit_fn(o, x, where, req=(), ens=(), entry='', vac=False, pub=False, bind='', mode='A', body_map=None):
    p, ret, body = fn_parts(x)
    o.raw('\n')
    start = len(o.lines)
    if pub:
        o.raw('pub ')
    em = Emitter([], {}, where)
    o.toks(rw([y for k, y in enumerate(p) if not (y.s == 'mut' and k + 1 < len(p) and p[k + 1].s == 'self' and p[k - 1].s == '(')]))
    if ret:
        o.raw(' -> (r: ')
        o.toks(rw(ret))
        o.raw(')')
    if req:
        o.raw('\n    requires ' + ', '.join(req))
    if ens:
        o.raw('\n    ensures ' + ', '.join(ens))
    o.raw('\n{ %sproof { %s }\n' % ('assert(false); /* vp_vacuous */ ' if vac else '', entry))
    b = em.body(rw(tidy(body, {}, where, [])))
    if any(a.s == 'mut' and c.s == 'self' for a, c in zip(p, p[1:])) and not any(a.s == '&' for a in p):
        # `mut self` parameter: a mutable copy of it
        b = lex_at('let mut vp_self = self;', 0) + [Tok(y.k, 'vp_self', y.line) if y.k == 'id' and y.s == 'self' else y for y in b]
    if body_map:
        b = body_map(b)
    if bind:
        o.raw('let vr_ = {')
    o.toks(b)
    if bind:
        o.raw('}; proof { %s } vr_' % bind.replace('@', 'vr_'))
    o.raw('\n}\n')
    o.marks.append((start, len(o.lines), x.name, where))


def finish(o, extra=''):
    o.raw('\n} // verus!\nfn main() {}\n')
    o.map = [None] * len(o.lines)       # the lines are those of the expanded text


def helpers(its, ty, known, limits=False):
    """an inliner for the functions and constants without a contract"""
    hm, hac, hf, hc = {}, {}, {}, {}
    ex = lambda x: checked(inline.const_expr(x), 'vp_c') if limits else inline.const_expr(x)
    for it in its:
        if it.kind == 'impl' and it.trait is None and it.ty and it.ty[0].s == ty:
            for x in it.inner:
                if x.name in known:
                    continue
                if x.kind == 'fn':
                    hm[x.name] = x
                elif x.kind == 'const':
                    hac[x.name] = ex(x)
        elif it.kind == 'fn':
            hf[it.name] = it
        elif it.kind == 'const':
            hc[it.name] = ex(it)
    return inline.Inliner(hm, hf, hac, hc, {ty})


def is_trait(it, name):
    if it.kind != 'impl' or not it.trait:
        return False
    return re.sub(r'^(::)?(\w+::)*', '', src(it.trait).replace(' ', '')) == name


def arity_key(it):
    """(group, size) of an impl, to split the work"""
    ty = src(it.ty).replace(' ', '')
    m = re.match(r'^\[\w+;(\d+)\]$', ty)
    if m:
        return 'array', int(m.group(1))
    if ty.startswith('(') and ty != '()':
        return 'tuple', len(tnames(it.ty))
    return 'base', 0


def gen_impls(repo, which, vacuity=False):
    """which(group, size) -> verify here; every impl is emitted, the others with contracts only"""
    its = expand(repo)
    o = Out()
    o.raw(HEAD + open(os.path.join(HERE, 'el_prelude.rs')).read())
    done, missing, seen = [], [], set()
    inl = helpers(its, '@none', ())
    for it in its:
        if not is_trait(it, 'EnumLike'):
            continue
        g, n = arity_key(it)
        seen.add((g, n, src(it.ty) if g == 'base' else ''))
        nv, enc, dec, laws, entry = enumlike_spec(it)
        fits = fits_of(it, nv)
        here = which(g, n)
        head = 'impl' + (src(it.generics) if it.generics else '')
        head = re.sub(r': EnumLike', ': EnumLike + Copy', head)
        ext = '' if here else '#[verifier::external_body] '
        o.raw('\n%s EnumLike for %s {\n' % (head, src(it.ty)))
        o.raw('open spec fn nv() -> int { %s }\nopen spec fn enc(self) -> int { %s }\nopen spec fn dec(x: int) -> Self { %s }\nopen spec fn fits() -> bool { %s }\n' % (nv, enc, dec, fits))
        st = len(o.lines)
        o.raw(ext + 'proof fn laws() { %s }\n' % laws)
        if here:
            o.marks.append((st - 1, len(o.lines), 'laws', 'EnumLike for %s: one-to-one' % src(it.ty)))
        if {x.name for x in it.inner} != {'NUM_VARIANTS', 'to_discr', 'from_discr'}:
            raise Lost('items of the impl of EnumLike for ' + src(it.ty))
        for x in it.inner:
            w = 'EnumLike for %s: %s' % (src(it.ty), x.name)
            if here:
                x = inline.inline_item(inl, x)
                # the parameter of from_discr may have any name
                pm = src(fn_parts(x)[0])
                if x.name == 'from_discr':
                    v = re.search(r'\( (?:mut )?(\w+) :', pm).group(1)
                    x = renamed(x, v, 'x') if v != 'x' else x
                if x.name == 'NUM_VARIANTS':
                    emit_fn(o, const_any(x), w + ' (any type)', entry=entry[x.name], vac=vacuity)
                    done.append(w + ' (any type)')
                emit_fn(o, x, w, entry=entry[x.name], vac=vacuity, bind=entry.get('fin', '') if x.name == 'from_discr' else '')
                done.append(w)
            else:
                if x.name == 'NUM_VARIANTS':
                    o.raw(ext + 'fn NUM_VARIANTS_any() -> (r: usize) { unimplemented!() }\n')
                p, ret, body = fn_parts(x)
                o.raw(ext)
                o.toks(rw(p)); o.raw(' -> (r: '); o.toks(rw(ret)); o.raw(') { unimplemented!() }\n')
        o.raw('}\n')
    for k in range(1, 33):
        for g in ('tuple', 'array'):
            if (g, k, '') not in seen:
                missing.append('no impl of EnumLike for the %s of %d' % (g, k))
    for b in ('( )', 'bool', 'Option < T >', 'Result < T , S >'):
        if not any(g == 'base' and t.replace(' ', '').startswith(b.replace(' ', '').split('<')[0]) for g, n, t in seen):
            missing.append('no impl of EnumLike for ' + b)
    o.raw('\npub fn vp_must_fail<T: EnumLike + Copy, S: EnumLike + Copy>(v: Option<(T, Result<S, T>)>) { proof { T::laws(); S::laws(); <Option<(T, Result<S, T>)>>::laws(); } assert(false); }\n')
    o.marks.append((len(o.lines) - 3, len(o.lines), 'vp_must_fail', 'vp_must_fail'))
    finish(o)
    return o, dict(missing=missing, done=done, planted=done, inlined=sorted(inl.used))


def renamed(x, a, b):
    import copy
    y = copy.copy(x)
    def m(ts):
        out = []
        for i, t in enumerate(ts):
            if t.k == 'id' and t.s == b:
                raise Lost('name clash')
            out.append(Tok(t.k, b, t.line) if t.k == 'id' and t.s == a and (i == 0 or ts[i - 1].s != '.') else t)
        return out
    y.sig, y.body, y.toks = m(x.sig), m(x.body), m(x.toks)
    return y


PANICS = {'A': '''
#[verifier::external_body] pub fn vp_panic() -> ! requires false { panic!() }
pub fn vp_assert(c: bool) requires c { }
pub fn vp_debug_assert(c: bool) requires c { }
pub fn vp_csub(a: usize, b: usize) -> (r: usize) requires a >= b ensures r == a - b { a - b }
pub fn vp_cadd(a: usize, b: usize) -> (r: usize) requires a + b <= usize::MAX ensures r == a + b { a + b }
pub fn vp_cmul(a: usize, b: usize) -> (r: usize) requires a * b <= usize::MAX ensures r == a * b { a * b }
''', 'B': '''
#[verifier::external_body] pub fn vp_panic() -> ! { panic!() }
#[verifier::external_body] pub fn vp_assert(c: bool) ensures c { assert!(c) }
pub fn vp_debug_assert(c: bool) { }
// a constant whose arithmetic overflows does not compile: nothing returns
#[verifier::external_body] pub fn vp_cadd(a: usize, b: usize) -> (r: usize) ensures a + b <= usize::MAX, r == a + b { a + b }
#[verifier::external_body] pub fn vp_cmul(a: usize, b: usize) -> (r: usize) ensures a * b <= usize::MAX, r == a * b { a * b }
#[verifier::external_body] pub fn vp_csub(a: usize, b: usize) -> (r: usize) ensures a >= b, r == a - b { a - b }
'''}


def struct_fields(it):
    return [(f[k].s, src(f[k + 2:]).replace(' ', '')) for f in split_commas(it.inner_toks) for k in [strip_vis(f, 0)]]


def emit_struct(o, it):
    o.raw('pub ')
    o.toks(rw(it.header))
    o.raw(' {\n')
    for f in split_commas(it.inner_toks):
        k = strip_vis(f, 0)
        o.raw('pub ')
        o.toks(rw(f[k:]))
        o.raw(',\n')
    o.raw('}\n')


def drop_copy(text):
    return text


DEFAULTS = {
    'count': '#[verifier::external_body] fn vp_count(self) -> (r: usize) { unimplemented!() }\n',
    'last': '#[verifier::external_body] fn vp_last(self) -> (r: Option<Self::Item>) { unimplemented!() }\n',
    'nth': '#[verifier::external_body] fn vp_nth(&mut self, n: usize) -> (r: Option<Self::Item>) { unimplemented!() }\n',
}


def gen_values(repo, vacuity=False):
    its = expand(repo)
    o = Out()
    o.raw(HEAD + open(os.path.join(HERE, 'el_prelude.rs')).read() + PANICS['A'])
    missing, done = [], []
    st = [x for x in its if x.kind == 'struct' and x.name == 'Values']
    fl = struct_fields(st[0]) if st else []
    us = [a for a, t in fl if t == 'usize']
    if len(us) != 2 or any(not t.startswith('PhantomData') for a, t in fl if a not in us):
        raise Lost('fields of Values')
    # the field that starts at 0, and the other one
    of = [x for it in its if it.kind == 'impl' and it.ty and it.ty[0].s == 'Values' for x in it.inner if x.kind == 'fn' and x.name == 'of']
    cur = [a for a in us for b in [of[0].body if of else []] if find_pat(b, a + ': 0')]
    if len(cur) != 1:
        cur = [a for a in us if a == 'current']
    if len(cur) != 1:
        raise Lost('fields of Values')
    cur, mx = cur[0], [a for a in us if a != cur[0]][0]
    fix = lambda s: re.sub(r'\.(current|max)\b', lambda m: '.' + (cur if m.group(1) == 'current' else mx), s)
    emit_struct(o, st[0])
    if any(it.kind == 'impl' and is_trait(it, 'Copy') and it.ty[0].s == 'Values' for it in its):
        o.raw('impl<T: EnumLike> Copy for Values<T> {}\nimpl<T: EnumLike> Clone for Values<T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }\n')
    inl = helpers(its, 'Values', ('of',))
    soft = []
    raw = lambda t: o.raw(fix(t))
    raw('''
impl<T: EnumLike> Values<T> {
    /// the values not yielded yet are those with codes current, .., max - 1
    pub open spec fn wf(&self) -> bool { self.current <= self.max && self.max == T::nv() && T::fits() }
    pub open spec fn left(&self) -> int { self.max - self.current }
    pub open spec fn at(&self, k: int) -> T { T::dec(self.current + k) }
}
pub trait VpIterator: Sized { type Item;
    spec fn ok(&self) -> bool;
    spec fn seq(&self) -> Seq<Self::Item>;
    fn vp_next(&mut self) -> (r: Option<Self::Item>) requires old(self).ok()
        ensures final(self).ok(), old(self).seq().len() == 0 ==> r is None && final(self).seq().len() == 0, old(self).seq().len() > 0 ==> r == Some(old(self).seq()[0]) && final(self).seq() == old(self).seq().skip(1);
    fn vp_size_hint(&self) -> (r: (usize, Option<usize>)) requires self.ok() ensures r == (self.seq().len() as usize, Some(self.seq().len() as usize)), self.seq().len() <= usize::MAX;
    /// core's own body
    fn len(&self) -> (r: usize) requires self.ok() ensures r == self.seq().len() { let (a, b) = self.vp_size_hint(); a }
    fn vp_count(self) -> (r: usize) requires self.ok() ensures r == self.seq().len();
    fn vp_last(self) -> (r: Option<Self::Item>) requires self.ok() ensures r == (if self.seq().len() == 0 { None } else { Some(self.seq().last()) });
    fn vp_nth(&mut self, n: usize) -> (r: Option<Self::Item>) requires old(self).ok()
        ensures final(self).ok(), n >= old(self).seq().len() ==> r is None && final(self).seq().len() == 0, n < old(self).seq().len() ==> r == Some(old(self).seq()[n as int]) && final(self).seq() == old(self).seq().skip(n + 1);
}
/// codes 0, 1, 2, ..: every value of the type once
pub proof fn lemma_values_are_all<T: EnumLike>(v: Values<T>)
    requires v.wf(), v.current == 0
    ensures v.seq().len() == T::nv(), forall|x: T| #[trigger] v.seq().contains(x), v.seq().no_duplicates(),
        forall|i: int| 0 <= i < v.seq().len() ==> (#[trigger] v.seq()[i]).enc() == i
{
    T::laws();
    assert forall|x: T| #[trigger] v.seq().contains(x) by { assert(v.seq()[x.enc()] == x); }
    assert forall|i: int, j: int| 0 <= i < v.seq().len() && 0 <= j < v.seq().len() && i != j implies v.seq()[i] != v.seq()[j] by { assert(v.seq()[i].enc() == i && v.seq()[j].enc() == j); }
}
''')
    o.marks.append((0, len(o.lines), 'lemma', 'lemma_values_are_all'))
    seen = set()
    for it in its:
        if it.kind == 'impl' and it.ty and it.ty[0].s == 'Values':
            if it.trait is None:
                o.raw('\nimpl<T: EnumLike> Values<T> {\n')
                for x in it.inner:
                    if x.name != 'of':
                        soft.append('no contract for Values::' + x.name)
                        continue
                    x = inline.inline_item(inl, x)
                    emit_fn(o, x, 'Values::of', req=['T::fits()'], ens=['r.wf()', fix('r.current == 0')], entry='T::laws();', vac=vacuity, pub=True)
                    done.append('Values::of')
                o.raw('}\n')
            elif is_trait(it, 'Iterator'):
                o.raw('\nimpl<T: EnumLike> VpIterator for Values<T> {\n')
                raw('open spec fn ok(&self) -> bool { self.wf() }\nopen spec fn seq(&self) -> Seq<T> { Seq::new((self.max - self.current) as nat, |i: int| T::dec(self.current + i)) }\n')
                for x in it.inner:
                    if x.kind == 'type':
                        o.raw(src(x.toks) + '\n')
                        continue
                    if x.name not in METH:
                        missing.append('no contract for Values::' + x.name)
                        continue
                    seen.add(x.name)
                    x = inline.inline_item(inl, x)
                    end = ''
                    if x.name == 'next':
                        end = 'assert(old(self).seq().len() > 0 ==> self.seq() =~= old(self).seq().skip(1));'
                    if x.name == 'nth':
                        x = renamed(x, [t.s for t in x.sig if t.k == 'id' and t.s not in ('fn', 'nth', 'mut', 'self')][0], 'n') if 'n' not in [t.s for t in x.sig] else x
                        end = 'assert(n < old(self).seq().len() ==> self.seq() =~= old(self).seq().skip(n + 1));'
                    emit_fn(o, x, 'Values::' + x.name, entry='T::laws();', vac=vacuity, bind=end)
                    done.append('Values::' + x.name)
                if 'type' not in {x.kind for x in it.inner}:
                    raise Lost('Item')
                for m in ('next', 'size_hint', 'count', 'last', 'nth'):
                    if m not in seen:
                        if m in ('count', 'last', 'nth'):
                            # core's own, built on next
                            o.raw(DEFAULTS[m])
                        else:
                            missing.append('Values::%s is not overridden any more' % m)
                o.raw('}\n')
            elif not re.search(r'(Copy|Clone|Debug|ExactSizeIterator)$', src(it.trait).replace(' ', '')):
                missing.append('unknown impl of %s for Values' % src(it.trait))
    tr = [x for x in its if x.kind == 'trait' and x.name == 'EnumValues']
    fn = None
    if tr:
        inn = items(tr[0].inner_toks)
        fn = next((x for x in inn if x.kind == 'fn' and x.name == 'values' and x.body), None)
        if len(inn) != 1:
            missing.append('items of EnumValues')
    if fn is None:
        missing.append('EnumValues::values is gone')
    else:
        o.raw('\npub trait EnumValues: EnumLike {\n')
        emit_fn(o, fn, 'EnumValues::values', req=['Self::fits()'], ens=['r.wf()', fix('r.current == 0')], entry='Self::laws();', vac=vacuity)
        done.append('EnumValues::values')
        o.raw('}\n')
    o.raw('\npub fn vp_must_fail<T: EnumLike>(v: Values<T>) requires v.wf() { proof { T::laws(); } assert(false); }\n')
    o.marks.append((len(o.lines) - 3, len(o.lines), 'vp_must_fail', 'vp_must_fail'))
    finish(o)
    return o, dict(missing=missing, soft=soft, done=done, planted=done, inlined=sorted(inl.used))


def desugared_assert(toks):
    """rustc expands assert!(c) to `if !(c) { ::core::panicking::panic(..) };`"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == 'panic' and i > 3 and [t.s for t in toks[i - 5:i]] == ['::', 'core', '::', 'panicking', '::'] and toks[i + 1].s == '(':
            del out[-5:]
            out += lex_at('vp_panic()', toks[i].line)
            i = match(toks, i + 1) + 1
            continue
        if toks[i].s == 'panic_fmt' and [t.s for t in toks[i - 5:i]] == ['::', 'core', '::', 'panicking', '::'] and toks[i + 1].s == '(':
            del out[-5:]
            out += lex_at('vp_panic()', toks[i].line)
            i = match(toks, i + 1) + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def gen_packed(repo, mode, vacuity=False):
    """mode A: types that fit are packed without panic; B: any type: what returns is right"""
    its = expand(repo)
    o = Out()
    o.raw(HEAD + open(os.path.join(HERE, 'el_prelude.rs')).read() + PANICS[mode])
    o.raw('''
#[verifier::external_body] pub fn vp_phantom_eq<T>(a: &PhantomData<T>, b: &PhantomData<T>) -> (r: bool) ensures r { true }
''')
    missing, soft, done, used = [], [], [], set()
    for nm, W in (('PackedU8', 8), ('PackedU16', 16)):
        st = [x for x in its if x.kind == 'struct' and x.name == nm]
        if not st:
            raise Lost('struct ' + nm)
        fl = struct_fields(st[0])
        f = [a for a, t in fl if t == 'u%d' % W]
        ph = [a for a, t in fl if t == 'PhantomData<T>']
        if len(fl) != 2 or len(f) != 1 or len(ph) != 1:
            raise Lost('fields of ' + nm)
        f, ph = f[0], ph[0]
        emit_struct(o, st[0])
        inl = helpers(its, nm, ('new', 'get'), True)
        lim = 1 << W
        # what shifted literals are worth
        shifts = {(1, 8), (1, 16)}
        for it in its:
            if it.kind == 'impl' and it.ty and it.ty[0].s == nm:
                for x in it.inner:
                    t = x.toks or getattr(x, 'sig', []) + (getattr(x, 'body', None) or [])
                    for i in range(1, len(t) - 1):
                        m = [re.match(r'^(\d+)(?:_?usize|_?u8|_?u16|_?u32|_?i32)?$', y.s.replace('_', '')) for y in (t[i - 1], t[i + 1])]
                        if t[i].s == '<<' and all(m) and int(m[1].group(1)) < 64 and int(m[0].group(1)) << int(m[1].group(1)) < 2**64:
                            shifts.add((int(m[0].group(1)), int(m[1].group(1))))
        o.raw('''
impl<T: EnumLike> %(nm)s<T> {
    pub open spec fn wf(&self) -> bool { self.%(f)s < T::nv() <= %(lim)d && T::fits() }
    pub open spec fn val(&self) -> T { T::dec(self.%(f)s as int) }
}
/// equal packed values stand for equal originals and conversely
pub proof fn lemma_eq_%(nm)s<T: EnumLike>(a: %(nm)s<T>, b: %(nm)s<T>) requires a.wf(), b.wf() ensures a.%(f)s == b.%(f)s <==> a.val() == b.val()
{ T::laws(); assert(a.val().enc() == a.%(f)s && b.val().enc() == b.%(f)s); }
''' % dict(nm=nm, f=f, lim=lim))
        o.marks.append((len(o.lines) - 4, len(o.lines), 'lemma', 'lemma_eq_' + nm))
        for it in its:
            if it.kind != 'impl' or not it.ty or it.ty[0].s != nm:
                continue
            if it.trait is None:
                o.raw('\nimpl<T: EnumLike> %s<T> {\n' % nm)
                for x in it.inner:
                    w = '%s::%s' % (nm, x.name)
                    x = inline.inline_item(inl, x)
                    if x.name == 'new':
                        pm = [t.s for t in x.sig if t.k == 'id'][2]
                        hint = 'T::laws(); assert(%s.enc() < T::nv());' % pm
                        for k in sorted(shifts):
                            hint += ' assert((%dusize << %d) == %d) by (compute_only);' % (k[0], k[1], k[0] << k[1])
                        emit_fn(o, x, w, req=['T::fits()'] + (['T::nv() <= %d' % lim] if mode == 'A' else []), ens=['T::nv() <= %d' % lim, 'r.wf()', 'r.val() == %s' % pm],
                                entry=hint, vac=vacuity, pub=True, body_map=desugared_assert)
                    elif x.name == 'get':
                        emit_fn(o, x, w, req=['self.wf()'], ens=['r == self.val()'], entry='T::laws();', vac=vacuity, pub=True, body_map=desugared_assert)
                    else:
                        soft.append('no contract for ' + w)
                        continue
                    done.append(w)
                o.raw('}\n')
            elif is_trait(it, 'PartialEq'):
                for x in it.inner:
                    if x.name != 'eq':
                        missing.append('%s::%s' % (nm, x.name))
                        continue
                    import copy
                    x = copy.copy(x)
                    b = []
                    i = 0
                    t = x.body
                    oth = [y.s for y in x.sig if y.k == 'id'][3]
                    while i < len(t):
                        if [y.s for y in t[i:i + 7]] == ['self', '.', ph, '==', oth, '.', ph]:
                            b += lex_at('vp_phantom_eq(&self.%s, &%s.%s)' % (ph, oth, ph), t[i].line)
                            i += 7
                            continue
                        b.append(t[i])
                        i += 1
                    x.body = b
                    o.raw('\nimpl<T: EnumLike> %s<T> {\n' % nm)
                    emit_fn(o, x, '%s::eq' % nm, req=['self.wf()', '%s.wf()' % oth], ens=['r == (self.val() == %s.val())' % oth], entry='lemma_eq_%s(*self, *%s);' % (nm, oth), vac=vacuity, pub=True)
                    o.raw('}\n')
                    done.append('%s::eq' % nm)
            elif not re.search(r'(Copy|Clone|Debug|Hash|StructuralPartialEq|Eq|PartialOrd|Ord)$', src(it.trait).replace(' ', '')):
                missing.append('unknown impl of %s for %s' % (src(it.trait), nm))
        used |= inl.used
        for w in ('new', 'get', 'eq'):
            if '%s::%s' % (nm, w) not in done:
                missing.append('%s::%s is gone' % (nm, w))
    o.raw('\npub fn vp_must_fail<T: EnumLike>(v: PackedU8<T>, w: PackedU16<T>) requires v.wf(), w.wf() { proof { T::laws(); } assert(false); }\n')
    o.marks.append((len(o.lines) - 3, len(o.lines), 'vp_must_fail', 'vp_must_fail'))
    finish(o)
    soft = [w for w in soft if not w.endswith('::CHECK_LIMIT_VARIANTS')]
    return o, dict(missing=missing, soft=soft, done=done, planted=done, inlined=sorted(used))
