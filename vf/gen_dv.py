"""Verus files for #[derive(EnumLike)] (C13): a family of type definitions is
put through the derive of /repo (rustc's own macro expansion, on every run),
and the impls it generates are proved against the mixed-radix contract, for
all component types."""
import os, re, subprocess, threading
from rustlex import *
from emit import *
import families, shapes
from gen_ev import lex_at
from gen_el import HEAD, const_any, emit_fn, desugared_assert, finish, fn_parts, renamed, is_trait

PRELUDE = '''
pub assume_specification [usize::wrapping_rem] (x: usize, y: usize) -> (r: usize) requires y != 0, ensures r == x % y;
pub assume_specification [usize::wrapping_div] (x: usize, y: usize) -> (r: usize) requires y != 0, ensures r == x / y;
#[verifier::external_body] pub fn vp_panic() -> ! requires false { panic!() }

/// What a derived impl has to meet, and what is assumed of the components.
/// A type may have no value. fits(): its constants do not overflow (otherwise
/// rustc rejects the use).
pub trait EnumLike: Sized {
    spec fn nv() -> int;
    spec fn enc(self) -> int;
    spec fn dec(x: int) -> Self;
    spec fn fits() -> bool;
    proof fn laws()
        ensures 0 <= Self::nv(), Self::fits() ==> Self::nv() <= usize::MAX,
            forall|v: Self| 0 <= #[trigger] v.enc() < Self::nv(),
            forall|v: Self| Self::dec(#[trigger] v.enc()) == v,
            forall|x: int| 0 <= x < Self::nv() ==> (#[trigger] Self::dec(x)).enc() == x;
    fn NUM_VARIANTS() -> (r: usize) requires Self::fits(), ensures r == Self::nv();
    /// the same constant, of any type: an overflow is refused by the compiler
    /// (the operators below do not return), so what is there is the number of values
    fn NUM_VARIANTS_any() -> (r: usize) ensures r == Self::nv();
    fn to_discr(self) -> (r: usize) requires Self::fits(), ensures r == self.enc();
    fn from_discr(x: usize) -> (r: Self) requires x < Self::nv(), Self::fits(), ensures r == Self::dec(x as int);
}
#[verifier::external_body] pub fn vp_kadd(a: usize, b: usize) -> (r: usize) ensures r == a + b { a + b }
#[verifier::external_body] pub fn vp_ksub(a: usize, b: usize) -> (r: usize) ensures r == a - b { a - b }
#[verifier::external_body] pub fn vp_kmul(a: usize, b: usize) -> (r: usize) ensures r == a * b { a * b }
// components used in some shapes: their impls are those of enum_like (C10)
impl EnumLike for bool {
    open spec fn nv() -> int { 2 }
    open spec fn enc(self) -> int { if self { 1 } else { 0 } }
    open spec fn dec(x: int) -> bool { x != 0 }
    open spec fn fits() -> bool { true }
    proof fn laws() {}
    #[verifier::external_body] fn NUM_VARIANTS() -> usize { unimplemented!() }
    #[verifier::external_body] fn NUM_VARIANTS_any() -> usize { unimplemented!() }
    #[verifier::external_body] fn to_discr(self) -> usize { unimplemented!() }
    #[verifier::external_body] fn from_discr(x: usize) -> bool { unimplemented!() }
}
impl<T: EnumLike> EnumLike for Option<T> {
    open spec fn nv() -> int { 1 + T::nv() }
    open spec fn enc(self) -> int { match self { None => T::nv(), Some(v) => v.enc() } }
    open spec fn dec(x: int) -> Self { if x == T::nv() { None } else { Some(T::dec(x)) } }
    open spec fn fits() -> bool { T::fits() && 1 + T::nv() <= usize::MAX }
    proof fn laws() { T::laws(); }
    #[verifier::external_body] fn NUM_VARIANTS() -> usize { unimplemented!() }
    #[verifier::external_body] fn NUM_VARIANTS_any() -> usize { unimplemented!() }
    #[verifier::external_body] fn to_discr(self) -> usize { unimplemented!() }
    #[verifier::external_body] fn from_discr(x: usize) -> Self { unimplemented!() }
}
pub proof fn lemma_fac(p: int, n: int, e: int, h: int) ensures p * e + p * n * h == p * (e + n * h)
{ assert(p * e + p * n * h == p * (e + n * h)) by (nonlinear_arith); }
pub proof fn lemma_step(p: int, n: int, e: int) requires 0 <= e < n, 1 <= p
    ensures 0 <= p * e <= p * n - p, p * n >= p
{ assert(0 <= p * e <= p * n - p && p * n >= p) by (nonlinear_arith) requires 0 <= e < n, 1 <= p; }
pub proof fn lemma_nonneg(p: int, n: int) requires 0 <= p, 0 <= n ensures 0 <= p * n, p * n > 0 ==> p >= 1 && n >= 1
{
    assert(0 <= p * n) by (nonlinear_arith) requires 0 <= p, 0 <= n;
    if p == 0 { assert(p * n == 0) by (nonlinear_arith) requires p == 0; }
    if n == 0 { assert(p * n == 0) by (nonlinear_arith) requires n == 0; }
}
pub proof fn lemma_conv(x: int, d: int, q: int, r: int) requires 0 <= r < d, x == r + d * q ensures x / d == q, x % d == r
{ assert(d * q == q * d) by (nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, d, q, r); }
pub proof fn lemma_high(x: int, p: int, n: int) requires 0 <= x < p * n, 1 <= p ensures 0 <= x / p < n
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, p);
    assert(0 <= x / p) by (nonlinear_arith) requires 0 <= x, 1 <= p;
    assert(x / p < n) by (nonlinear_arith) requires x == p * (x / p) + x % p, 0 <= x % p, x < p * n, 1 <= p;
}
'''


def P(ns, j):
    """product of the first j"""
    return ' * '.join(ns[:j]) if j else '1'


def total(es, ns, k=None):
    k = len(es) if k is None else k
    return ' + '.join('%s * %s' % (P(ns, j), es[j]) for j in range(k)) or '0'


def digit(x, ns, j):
    k = len(ns)
    d = '((%s) / (%s))' % (x, P(ns, j))
    return d if j == k - 1 else '(%s %% %s)' % (d, ns[j])


def lemmas(k):
    ns = ['n%d' % i for i in range(k)]
    es = ['e%d' % i for i in range(k)]
    ar = ', '.join('%s: int' % n for n in ns)
    H = lambda j: es[k - 1] if j == k - 1 else '(%s + %s * %s)' % (es[j], ns[j], H(j + 1))
    t = 'pub proof fn lemma_prod%d(%s)\n    requires %s\n    ensures %s,\n        %s > 0 ==> %s\n{ %s }\n' % (
        k, ar, ', '.join('0 <= ' + n for n in ns), ', '.join('0 <= ' + P(ns, j) for j in range(1, k + 1)), P(ns, k), ' && '.join('%s >= 1' % P(ns, j) for j in range(1, k + 1)) + ' && ' + ' && '.join('%s >= 1' % n for n in ns),
        ' '.join('lemma_nonneg(%s, %s);' % (P(ns, j), ns[j]) for j in range(1, k)))
    body = 'let s = %s;\n' % total(es, ns)
    for j in range(k):
        body += 'lemma_step(%s, %s, %s);\n' % (P(ns, j), ns[j], es[j])
        if j == 0:
            body += 'assert(1 * n0 == n0);\n'
    body += 'assert(s == %s + %s * %s);\n' % (total(es, ns, k - 1), P(ns, k - 1), es[k - 1])
    for j in range(k - 2, -1, -1):
        body += 'lemma_fac(%s, %s, %s, %s);\n' % (P(ns, j), ns[j], es[j], H(j + 1))
        body += 'assert(s == (%s) + %s * %s);\n' % (total(es, ns, j), P(ns, j), H(j))
    for j in range(k):
        body += 'lemma_conv(s, %s, %s, %s);\n' % (P(ns, j), H(j), total(es, ns, j))
        if j < k - 1:
            body += 'lemma_conv(%s, %s, %s, %s);\n' % (H(j), ns[j], H(j + 1), es[j])
    t += 'pub proof fn lemma_flat%d(%s, %s)\n    requires %s\n    ensures %s,\n        0 <= %s < %s,\n        %s\n{\n%s}\n' % (
        k, ar, ', '.join('%s: int' % e for e in es), ', '.join('0 <= %s < %s' % x for x in zip(es, ns)),
        ', '.join('0 <= %s * %s' % (P(ns, j), es[j]) for j in range(k)) + ', ' + ', '.join('%s >= 1' % P(ns, j) for j in range(1, k + 1)),
        total(es, ns), P(ns, k), ',\n        '.join('%s == %s' % (digit(total(es, ns), ns, j), es[j]) for j in range(k)), body)
    # the digits of a number below the product
    ds = [digit('x', ns, j) for j in range(k)]
    b = 'lemma_prod%d(%s);\n' % (k, ', '.join(ns))
    b += 'lemma_high(x, %s, %s);\n' % (P(ns, k - 1), ns[k - 1])
    b += 'assert(x / 1 == x);\n'
    for j in range(k - 1):
        q, q1 = '(x / (%s))' % P(ns, j), '(x / (%s))' % P(ns, j + 1)
        b += 'vstd::arithmetic::div_mod::lemma_div_denominator(x, %s, %s); assert(1 * n0 == n0);\n' % (P(ns, j), ns[j])
        b += 'vstd::arithmetic::div_mod::lemma_fundamental_div_mod(%s, %s);\n' % (q, ns[j])
        b += 'vstd::arithmetic::div_mod::lemma_mod_bound(%s, %s);\n' % (q, ns[j])
        b += 'lemma_fac(%s, %s, %s %% %s, %s);\n' % (P(ns, j), ns[j], q, ns[j], q1)
        b += 'assert(x == %s + %s * %s);\n' % (total(ds, ns, j + 1), P(ns, j + 1), q1)
    t += 'pub proof fn lemma_undig%d(x: int, %s)\n    requires 0 <= x < %s, %s\n    ensures %s,\n        %s == x, %s\n{\n%s}\n' % (
        k, ar, P(ns, k), ', '.join('0 <= ' + n for n in ns), ', '.join('0 <= %s < %s' % x for x in zip(ds, ns)), total(ds, ns), ', '.join('%s >= 1' % P(ns, j) for j in range(1, k + 1)) + ', ' + ', '.join('%s >= 1' % n for n in ns), b)
    return t


def NV(t):
    return '<%s as EnumLike>::nv()' % t


class Spec:
    """contract of the derived impl of a shape"""
    def __init__(self, s):
        order = s.order()
        units = [v for v in order if not v.fields]
        datas = [v for v in order if v.fields]
        U = len(units)
        self.types = []
        for v in datas:
            for _, t in v.fields:
                if t not in self.types:
                    self.types.append(t)
        ns = {v.name: [NV(t) for _, t in v.fields] for v in datas}
        prods = [P(ns[v.name], len(v.fields)) for v in datas]
        off = ['%dint' % U + ''.join(' + ' + p for p in prods[:i]) for i in range(len(datas) + 1)]
        self.nv = off[-1]
        ok = []
        for t in self.types:
            ok.append('<%s as EnumLike>::fits()' % t)
        for v in datas:
            ok += ['%s <= usize::MAX' % P(ns[v.name], j) for j in range(2, len(v.fields))]
        self.fits = ' && '.join(ok + ['%s <= usize::MAX' % self.nv])
        arms, ifs, flat, undig, prod = [], [], [], [], []
        for i, v in enumerate(units):
            arms.append('%s => %d' % (s.mkpat(v)([]), i))
            ifs.append('if x == %d { %s }' % (i, s.mkpat(v)([])))
            flat.append('%s => {}' % s.mkpat(v)([]))
        for i, v in enumerate(datas):
            k = len(v.fields)
            n = ns[v.name]
            vs = ['v%d' % j for j in range(k)]
            es = ['v%d.enc()' % j for j in range(k)]
            arms.append('%s => %s + %s' % (s.mkpat(v)(vs), off[i], total(es, n)))
            y = 'x - (%s)' % off[i]
            ifs.append('if %s <= x < %s { %s }' % (off[i], off[i + 1], s.mkpat(v)(['<%s as EnumLike>::dec(%s)' % (t, digit(y, n, j)) for j, (_, t) in enumerate(v.fields)])))
            flat.append('%s => { lemma_flat%d(%s, %s); }' % (s.mkpat(v)(vs), k, ', '.join(n), ', '.join(es)))
            undig.append('if %s <= @ < %s { lemma_undig%d(@ - (%s), %s); }' % (off[i], off[i + 1], k, off[i], ', '.join(n)))
            prod.append('lemma_prod%d(%s);' % (k, ', '.join(n)))
        self.enc = 'match self { %s }' % ', '.join(arms)
        self.dec = ' else '.join(ifs + ['{ arbitrary() }'])
        self.laws0 = ' '.join('<%s as EnumLike>::laws();' % t for t in self.types) + ' ' + ' '.join(prod)
        self.flat = lambda w: 'match %s { %s }' % (w, ', '.join(flat))
        self.undig = lambda w: ' '.join(undig).replace('@', w)
        self.laws = ('%s assert forall|v: Self| 0 <= #[trigger] v.enc() < Self::nv() && Self::dec(v.enc()) == v by { %s }\n'
                     'assert forall|x: int| 0 <= x < Self::nv() implies (#[trigger] Self::dec(x)).enc() == x by { %s }') % (self.laws0, self.flat('v'), self.undig('x'))


_lock = threading.Lock()


def expand(ctx, fam):
    """{type name: (definition items, impl item)} of the family, as rustc expands it"""
    with _lock:
        if hasattr(ctx, 'dv'):
            if isinstance(ctx.dv, Exception):
                raise ctx.dv
            return ctx.dv
        try:
            ctx.dv = expand_(ctx, fam)
        except (Lost, LexError) as e:
            ctx.dv = e
            raise
        return ctx.dv


def expand_(ctx, fam):
    d = os.path.join(ctx.build, 'dv_expand')
    os.makedirs(os.path.join(d, 'src'))
    open(os.path.join(d, 'Cargo.toml'), 'w').write('[package]\nname = "dv_expand"\nversion = "0.1.0"\n[dependencies]\nenum_like = { path = "%s/enum_like" }\nenum_like_derive = { path = "%s/enum_like_derive" }\n[workspace]\n' % (ctx.repo, ctx.repo))
    open(os.path.join(d, 'src/lib.rs'), 'w').write('#![allow(warnings)]\n#[macro_use] extern crate enum_like_derive;\nextern crate enum_like;\n' + ''.join('#[derive(Copy, Clone, EnumLike)] %s%s\n' % (s.attr, s.decl()) for s in fam))
    p = subprocess.run(['cargo', 'rustc', '--offline', '--lib', '-q', '--', '-Zunpretty=expanded'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300,
                       env=dict(os.environ, RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=os.path.join(ctx.build, 'target_expand')))
    if p.returncode != 0:
        raise Lost('the family of types does not expand: ' + p.stderr.decode('utf8', 'replace')[-400:])
    out = {}
    for it in items(lex(p.stdout.decode())):
        if it.kind == 'impl' and is_trait(it, 'EnumLike'):
            nm = it.ty[0].s
            if nm in out:
                raise Lost('two impls for ' + nm)
            out[nm] = it
    return out


def strip_path(toks):
    """::enum_like::EnumLike -> EnumLike, ::core::panicking::panic(..) -> vp_panic()"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == '::' and [t.s for t in toks[i + 1:i + 4]] == ['enum_like', '::', 'EnumLike']:
            out.append(toks[i + 3])
            i += 4
            continue
        out.append(toks[i])
        i += 1
    return desugared_assert(out)


def derived(it):
    import copy
    r = copy.copy(it)
    r.inner = []
    for x in it.inner:
        y = copy.copy(x)
        y.toks = strip_path(x.toks)
        if x.kind == 'fn':
            y.sig, y.body = strip_path(x.sig), strip_path(x.body)
        r.inner.append(y)
    r.generics, r.trait, r.ty, r.where = [strip_path(z) if z else z for z in (it.generics, it.trait, it.ty, it.where)]
    return r


def needs(s, byname):
    t = ' '.join(ty for v in s.variants for _, ty in v.fields)
    return [n for n in byname if n != s.name and re.search(r'\b%s\b' % n, t)]


def gen(ctx, fam, part, parts, vacuity=False):
    """part: which shapes to verify in this file"""
    exp = expand(ctx, fam)
    by = {s.name: s for s in fam}
    mine = [s for i, s in enumerate(x for x in fam if x.verify) if i % parts == part]
    for s in list(mine):
        for n in needs(s, by):
            if by[n] not in mine:
                mine.append(by[n])
    o = Out()
    o.raw(HEAD + PRELUDE)
    for k in sorted({len(v.fields) for s in mine for v in s.variants if v.fields}):
        o.raw(lemmas(k))
    o.marks.append((0, len(o.lines), 'lemma', 'arithmetic of mixed radix'))
    done, missing = [], []
    for s in mine:
        if s.name not in exp:
            missing.append('no impl derived for ' + s.name)
            continue
        it = derived(exp[s.name])
        sp = Spec(s)
        o.raw('\n%s\n' % re.sub(r' = -?\d+', '', s.decl()))
        # Copy and Clone as the derive attributes make them
        cb = ', '.join(p + ': ' + '+'.join(b for b in ['Copy'] + ([s.bounds[p]] if p in s.bounds and s.bounds[p] != 'Copy' else [])) for p in s.params)
        w = ' where ' + s.where if s.where else ''
        o.raw('impl%s Copy for %s%s {}\nimpl%s Clone for %s%s { #[verifier::external_body] fn clone(&self) -> Self { *self } }\n' % ('<%s>' % cb if cb else '', s.ty(), w, '<%s>' % cb if cb else '', s.ty(), w))
        o.raw('impl%s EnumLike for %s %s {\n' % (src(it.generics), src(it.ty), src(it.where)))
        o.raw('open spec fn nv() -> int { %s }\nopen spec fn enc(self) -> int { %s }\nopen spec fn dec(x: int) -> Self { %s }\nopen spec fn fits() -> bool { %s }\n' % (sp.nv, sp.enc, sp.dec, sp.fits))
        st = len(o.lines)
        o.raw('proof fn laws() { %s }\n' % sp.laws)
        o.marks.append((st - 1, len(o.lines), 'laws', '%s: one-to-one' % s.name))
        names = sorted(x.name for x in it.inner)
        if names != ['NUM_VARIANTS', 'from_discr', 'to_discr']:
            raise Lost('items of the impl derived for ' + s.name)
        for x in it.inner:
            w = 'derived for %s: %s' % (s.name, x.name)
            e = sp.laws0
            if x.name == 'from_discr':
                v = re.search(r'\( (?:mut )?(\w+) :', src(fn_parts(x)[0])).group(1)
                e += ' ' + sp.undig('(%s as int)' % v)
                e = e.replace('(%s as int)' % v, 'vp_x')
                e = '} let ghost vp_x = %s as int; proof { ' % v + e
            elif x.name == 'to_discr':
                e = '} let ghost vp_s = self; proof { ' + e + ' ' + sp.flat('vp_s')
            emit_fn(o, x, w, entry=e, vac=vacuity)
            done.append(w)
            if x.name == 'NUM_VARIANTS':
                emit_fn(o, const_any(x), w + ' (any type)', entry=e, vac=vacuity)
                done.append(w + ' (any type)')
        o.raw('}\n')
    o.raw('\npub fn vp_must_fail<A: EnumLike, B: EnumLike>(a: A, b: Option<B>) { proof { A::laws(); B::laws(); <Option<B>>::laws(); lemma_flat%d; } assert(false); }\n'.replace('lemma_flat%d; ', ''))
    o.marks.append((len(o.lines) - 3, len(o.lines), 'vp_must_fail', 'vp_must_fail'))
    finish(o)
    return o, dict(missing=missing, done=done, planted=done)
