"""Verus file for the enum_set crate (C14), from /repo's current source."""
import os, re
from rustlex import *
from emit import *
import gen_el
from gen_el import HEAD, PANICS, fn_parts, renamed
import inline
from gen_ev import split_commas, lex_at

HERE = os.path.dirname(os.path.abspath(__file__))
ITS = {'iter': 'self.codes()', 'union': 'self.codes().union(other.codes())', 'intersection': 'self.codes().intersect(other.codes())',
       'difference': 'self.codes().difference(other.codes())', 'symmetric_difference': 'symdiff(self.codes(), other.codes())'}
SAYS = {'iter': 'self.has(v)', 'union': 'self.has(v) || other.has(v)', 'intersection': 'self.has(v) && other.has(v)', 'difference': 'self.has(v) && !other.has(v)',
        'symmetric_difference': 'self.has(v) != other.has(v)'}
ALL = lambda c, who='final(self)': 'forall|v: E| #[trigger] %s.has(v) <==> (%s)' % (who, c)
L = 'E::laws(); assert forall|vp_a: E, vp_b: E| #![trigger vp_a.enc(), vp_b.enc()] vp_a.enc() == vp_b.enc() implies vp_a == vp_b by { assert(E::dec(vp_a.enc()) == vp_a && E::dec(vp_b.enc()) == vp_b); } '
# name: (requires, ensures, entry hint, hint after the result)
SPEC = {
    'into_bit_set': (['self.wf()'], ['r@ == self.codes()'], '', ''),
    'get_ref': (['self.wf()'], ['r@ == self.codes()'], '', ''),
    'from_bit_set': (['forall|x: int| #[trigger] {0}@.contains(x) ==> 0 <= x < E::nv()'], ['r.wf()', 'r.codes() == {0}@'], '', ''),
    'new': ([], ['r.wf()', 'forall|v: E| !r.has(v)'], '', ''),
    'shrink_to_fit': (['old(self).wf()'], ['final(self).wf()', ALL('old(self).has(v)')], '', ''),
    'len': (['self.wf()'], ['r == self.vals().len()'], 'self.lemma_vals();', ''),
    'is_empty': (['self.wf()'], ['r == (forall|v: E| !self.has(v))'], L + 'self.lemma_vals(); self.lemma_empty();', ''),
    'clear': (['old(self).wf()'], ['final(self).wf()', 'forall|v: E| !final(self).has(v)'], '', ''),
    'contains': (['self.wf()'], ['r == self.has({1})'], L, ''),
    'is_disjoint': (['self.wf()', '{1}.wf()'], ['r == (forall|v: E| #![trigger self.has(v)] #![trigger {1}.has(v)] !(self.has(v) && {1}.has(v)))'], L + 'self.lemma_codes(); {1}.lemma_codes();', ''),
    'is_subset': (['self.wf()', '{1}.wf()'], ['r == (forall|v: E| #![trigger self.has(v)] #![trigger {1}.has(v)] self.has(v) ==> {1}.has(v))'], L + 'self.lemma_codes(); {1}.lemma_codes();', ''),
    'is_superset': (['self.wf()', '{1}.wf()'], ['r == (forall|v: E| #![trigger self.has(v)] #![trigger {1}.has(v)] {1}.has(v) ==> self.has(v))'], L + 'self.lemma_codes(); {1}.lemma_codes();', ''),
    'insert': (['old(self).wf()'], ['final(self).wf()', 'r == !old(self).has({1})', ALL('v == {1} || old(self).has(v)')], L + 'let vp_v0 = {1};', ''),
    'remove': (['old(self).wf()'], ['final(self).wf()', 'r == old(self).has({1})', ALL('v != {1} && old(self).has(v)')], L, ''),
    'union_with': (['old(self).wf()', '{1}.wf()'], ['final(self).wf()', ALL('old(self).has(v) || {1}.has(v)')], '', ''),
    'intersect_with': (['old(self).wf()', '{1}.wf()'], ['final(self).wf()', ALL('old(self).has(v) && {1}.has(v)')], '', ''),
    'difference_with': (['old(self).wf()', '{1}.wf()'], ['final(self).wf()', ALL('old(self).has(v) && !{1}.has(v)')], '', ''),
    'symmetric_difference_with': (['old(self).wf()', '{1}.wf()'], ['final(self).wf()', ALL('old(self).has(v) != {1}.has(v)')], '', ''),
}
for k, says in SAYS.items():
    o = [] if k == 'iter' else ['{1}.wf()']
    SPEC[k] = (['self.wf()'] + o, ['r.inv()', 'lists(r.@WIN@.seq(), %s)' % ITS[k].replace('other', '{1}'), 'once(r.seq())', 'forall|v: E| #![trigger r.seq().contains(v)] #![trigger self.has(v)] r.seq().contains(v) <==> (%s)' % says.replace('other', '{1}'),
                     'r.seq().len() > 0 ==> r.seq().contains(r.seq()[0])'],
               L + 'self.lemma_codes(); ' + ('' if k == 'iter' else '{1}.lemma_codes();'), '@.lemma_lists(%s);' % ITS[k].replace('other', '{1}'))
MODEL = '''
pub proof fn lemma_card<E: EnumLike>(s: Set<int>) requires forall|x: int| #[trigger] s.contains(x) ==> 0 <= x < E::nv()
    ensures s.map(|x: int| E::dec(x)).len() == s.len() decreases s.len()
{
    E::laws();
    let f = |x: int| E::dec(x);
    if s =~= Set::<int>::empty() { assert(s.map(f) =~= Set::<E>::empty()); }
    else {
        assert(exists|y: int| s.contains(y));
        let x = choose|y: int| s.contains(y);
        let t = s.remove(x);
        assert(t.len() < s.len());
        lemma_card::<E>(t);
        assert forall|v: E| s.map(f).contains(v) <==> t.map(f).insert(f(x)).contains(v) by {
            if s.map(f).contains(v) { let y = choose|y: int| s.contains(y) && f(y) == v; if y != x { assert(t.contains(y)); assert(t.map(f).contains(f(y))); } }
            if t.map(f).contains(v) { let y = choose|y: int| t.contains(y) && f(y) == v; assert(s.contains(y)); assert(s.map(f).contains(f(y))); }
            if v == f(x) { assert(s.map(f).contains(f(x))); }
        }
        assert(s.map(f) =~= t.map(f).insert(f(x)));
        if t.map(f).contains(f(x)) { let y = choose|y: int| t.contains(y) && f(y) == f(x); assert(E::dec(y).enc() == y && E::dec(x).enc() == x); }
    }
}
pub open spec fn once<A>(s: Seq<A>) -> bool { s.no_duplicates() }
impl<E: EnumLike> EnumSet<E> {
    #[verifier::inline] pub open spec fn codes(&self) -> Set<int> { self.@IN@@ }
    /// every code in the set stands for a value
    pub open spec fn wf(&self) -> bool { forall|x: int| #[trigger] self.codes().contains(x) ==> 0 <= x < E::nv() }
    pub open spec fn has(&self, v: E) -> bool { self.codes().contains(v.enc()) }
    pub open spec fn vals(&self) -> Set<E> { self.codes().map(|x: int| E::dec(x)) }
    pub proof fn lemma_codes(&self) requires self.wf()
        ensures forall|x: int| #[trigger] self.codes().contains(x) ==> self.has(E::dec(x)) && E::dec(x).enc() == x
    { E::laws(); }
    /// as many values as codes, and they are the members
    pub proof fn lemma_vals(&self) requires self.wf()
        ensures self.vals().len() == self.codes().len(), forall|v: E| #[trigger] self.vals().contains(v) <==> self.has(v)
    {
        E::laws();
        let f = |x: int| E::dec(x);
        assert forall|v: E| #[trigger] self.vals().contains(v) <==> self.has(v) by {
            if self.has(v) { assert(f(v.enc()) == v); assert(self.codes().contains(v.enc())); }
            if self.vals().contains(v) { let x = choose|x: int| self.codes().contains(x) && f(x) == v; assert(E::dec(x).enc() == x); }
        }
        assert forall|x: int, y: int| self.codes().contains(x) && self.codes().contains(y) && #[trigger] f(x) == #[trigger] f(y) implies x == y by {
            assert(E::dec(x).enc() == x && E::dec(y).enc() == y);
        }
        @MAPSIZE@
    }
    pub proof fn lemma_empty(&self) requires self.wf()
        ensures (self.codes() == Set::<int>::empty()) == (forall|v: E| !self.has(v))
    {
        E::laws(); self.lemma_codes();
        if forall|v: E| !self.has(v) { assert forall|x: int| !self.codes().contains(x) by { if self.codes().contains(x) { assert(self.has(E::dec(x))); } } assert(self.codes() =~= Set::<int>::empty()); }
    }
}
impl<E: EnumLike, I: VpBits> WrapIter<E, I> {
    pub open spec fn ok(&self) -> bool { increasing(self.@WIN@.seq()) && forall|k: int| 0 <= k < self.@WIN@.seq().len() ==> 0 <= #[trigger] self.@WIN@.seq()[k] < E::nv() }
    pub proof fn lemma_lists(&self, c: Set<int>) requires lists(self.@WIN@.seq(), c), forall|x: int| #[trigger] c.contains(x) ==> 0 <= x < E::nv()
        ensures self.ok(), once(self.seq()), forall|v: E| #[trigger] self.seq().contains(v) <==> c.contains(v.enc()), self.seq().len() > 0 ==> self.seq().contains(self.seq()[0])
    {
        E::laws();
        let s = self.@WIN@.seq();
        assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] s[k] < E::nv() by { assert(s.contains(s[k])); }
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies self.seq()[i] != self.seq()[j] by { assert(E::dec(s[i]).enc() == s[i] && E::dec(s[j]).enc() == s[j]); if i < j { assert(s[i] < s[j]); } else { assert(s[j] < s[i]); } }
        assert forall|v: E| #[trigger] self.seq().contains(v) <==> c.contains(v.enc()) by {
            if self.seq().contains(v) { let k = choose|k: int| 0 <= k < s.len() && self.seq()[k] == v; assert(E::dec(s[k]).enc() == s[k]); assert(s.contains(s[k])); }
            if c.contains(v.enc()) { assert(s.contains(v.enc())); let k = choose|k: int| 0 <= k < s.len() && s[k] == v.enc(); assert(self.seq()[k] == v); }
        }
    }
    /// increasing numbers below NUM_VARIANTS: at most that many are left
    pub proof fn lemma_few(&self) requires self.ok() ensures self.seq().len() <= E::nv()
    {
        E::laws();
        let s = self.@WIN@.seq();
        lemma_ge(s, s.len() as int - 1);
        if s.len() > 0 { assert(s[s.len() - 1] < E::nv()); }
    }
}
pub proof fn lemma_ge(s: Seq<int>, k: int) requires increasing(s), -1 <= k < s.len(), s.len() > 0 ==> s[0] >= 0 ensures k >= 0 ==> s[k] >= k decreases k + 1 { if k > 0 { lemma_ge(s, k - 1); assert(s[k - 1] < s[k]); } }
'''
TRAITS_TXT = '''
pub trait VpDefault: Sized { spec fn dpost(r: Self) -> bool; fn vp_default() -> (r: Self) ensures Self::dpost(r); }
pub trait VpExtend<A>: Sized {
    spec fn einv(&self) -> bool;
    spec fn epost(&self, s: Seq<A>, f: &Self) -> bool;
    fn vp_extend<I: VpIntoIterator<Item = A>>(&mut self, iter: I) requires old(self).einv(), iter.into_inv() ensures old(self).epost(iter.into_seq(), final(self));
}
pub trait VpFromIterator<A>: Sized {
    spec fn fpost(s: Seq<A>, r: &Self) -> bool;
    fn vp_from_iter<I: VpIntoIterator<Item = A>>(iter: I) -> (r: Self) requires iter.into_inv() ensures Self::fpost(iter.into_seq(), &r);
}
'''
TSPEC = {
    'Default': 'open spec fn dpost(r: Self) -> bool { r.wf() && forall|v: E| !r.has(v) }',
    'Extend': 'open spec fn einv(&self) -> bool { self.wf() }\nopen spec fn epost(&self, s: Seq<E>, f: &Self) -> bool { f.wf() && forall|v: E| #[trigger] f.has(v) <==> self.has(v) || s.contains(v) }',
    'FromIterator': 'open spec fn fpost(s: Seq<E>, r: &Self) -> bool { r.wf() && forall|v: E| #[trigger] r.has(v) <==> s.contains(v) }',
    'Iterator': 'open spec fn inv(&self) -> bool { self.ok() }\nopen spec fn seq(&self) -> Seq<E> { self.@WIN@.seq().map_values(|x: int| E::dec(x)) }',
    'IntoIterator': 'open spec fn into_inv(self) -> bool { self.wf() }\nuninterp spec fn into_seq(self) -> Seq<E>;',
}


def rw(toks):
    # the bound on the wrapped iterator: only bit-set's iterators are ever wrapped
    out, i = [], 0
    while i < len(toks):
        if [t.s for t in toks[i:i + 5]] == ['Iterator', '<', 'Item', '=', 'usize'] and toks[i + 5].s in ('>', '>>'):
            out += lex_at('VpBits' + toks[i + 5].s[1:], toks[i].line)
            i += 6
            continue
        t = toks[i]
        if t.s in ('cmp', 'partial_cmp') and out and out[-1].s in ('.', 'fn'):
            t = Tok(t.k, 'vp_' + t.s, t.line)
        out.append(t)
        i += 1
    return rewrite(out, {'NUM_VARIANTS'}, None, 'A', field='@none', storage_alias='@none')


def params(x):
    k = next(j for j, y in enumerate(x.sig) if y.s == '(')
    e = match(x.sig, k)
    out = []
    for g in split_commas(x.sig[k + 1:e]):
        w = [t.s for t in g if t.k == 'id' and t.s not in ('mut',)]
        out.append(w[0])
    return out


def emit_fn(o, x, where, req, ens, entry, post, vac, loops=(), closures=(), pub=True, sub=None, inl=None, soft=None):
    soft = [] if soft is None else soft
    if inl:
        x = inline.inline_item(inl, x)
    p, ret, body = fn_parts(x)
    ps = params(x)
    sb = lambda s: (sub or (lambda z: z))(re.sub(r'\{(\d)\}', lambda m: ps[int(m.group(1))], s))
    start = len(o.lines)
    o.raw('\n#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n' if loops or x.name in LOOPS else '\n')
    if pub:
        o.raw('pub ')
    o.toks(rw([y for k, y in enumerate(p) if not (y.s == 'mut' and k + 1 < len(p) and p[k + 1].s == 'self' and p[k - 1].s == '(')]))
    if ret:
        o.raw(' -> (r: ')
        o.toks(rw(ret))
        o.raw(')')
    if req:
        o.raw('\n    requires ' + ', '.join(sb(z) for z in req))
    if ens:
        o.raw('\n    ensures ' + ', '.join(sb(z) for z in ens))
    o.raw('\n{ %sproof { %s }\n' % ('assert(false); /* vp_vacuous */ ' if vac else '', sb(entry)))
    em = Emitter([], dict(loops=loops, closures=closures), where)
    loops_ = loops or member_loops(x, ps)
    em.loops = list(loops_)
    b = em.body(rw(collected(tidy(body, dict(closures=closures), where, soft), src(ret))))
    if any(a.s == 'mut' and c.s == 'self' for a, c in zip(p, p[1:])) and not any(a.s == '&' for a in p):
        b = lex_at('let mut vp_self = self;', 0) + [Tok(y.k, 'vp_self', y.line) if y.k == 'id' and y.s == 'self' else y for y in b]
    if post:
        o.raw('let vr_ = {')
    o.toks(b)
    if post:
        o.raw('}; proof { %s } vr_' % sb(post).replace('@.', 'vr_.'))
    o.raw('\n}\n')
    o.marks.append((start, len(o.lines), x.name, where))


def loop_over(src_name, inv, who='self', star='*'):
    return dict(end='proof { assert forall|vp_v: E| #[trigger] %s.has(vp_v) <==> (vp_p.has(vp_v) || vp_v == vp_all[vp_k - 1]) by { assert(vp_p.has(vp_v) || !vp_p.has(vp_v)); } }' % who, kind='iter', inv=['$it.inv()', 'vp_all == %s.into_seq()' % src_name, '0 <= vp_k <= vp_all.len()', '$it.seq() == vp_all.skip(vp_k)'] + list(inv), dec='$it.seq().len()', xb=True,
                ens=['vp_k == vp_all.len()'] + list(inv),
                pre='let ghost vp_all = %s.into_seq(); let ghost mut vp_k: int = 0; proof { assert(vp_all.skip(0) =~= vp_all); assert(vp_all.take(0) =~= Seq::<E>::empty()); }' % src_name,
                some='proof { assert(vp_all.skip(vp_k).skip(1) =~= vp_all.skip(vp_k + 1)); lemma_take(vp_all, vp_k); vp_k = vp_k + 1; } let ghost vp_p = %s%s;' % (star, who),
                post='proof { assert(vp_all.take(vp_k) =~= vp_all); }')


LOOPS = {
    # all of the members yielded so far are / are not in the other set
    'is_subset': ('{1}.has(vp_all[vp_j])', 'self', '{1}'), 'is_superset': ('self.has(vp_all[vp_j])', '{1}', 'self'), 'is_disjoint': ('!%s.has(vp_all[vp_j])', None, None),
}


def member_loops(x, ps):
    if x.name not in LOOPS:
        return []
    c = LOOPS[x.name][0]
    if x.name == 'is_disjoint':
        t = src(x.body)
        c = c % ('self' if re.search(r'in & ?%s\b|in %s \.' % (ps[1], ps[1]), t) or ' %s . iter' % ps[1] in t else ps[1])
    c = c.replace('{1}', ps[1])
    lp = loop_over('@src@', ('forall|vp_j: int| 0 <= vp_j < vp_k ==> %s' % c,))
    lp['pre'] = 'let ghost vp_all = $it.seq(); let ghost mut vp_k: int = 0; proof { assert(vp_all.skip(0) =~= vp_all); }'
    lp['inv'] = [i for i in lp['inv'] if '@src@' not in i]
    lp['some'] = 'proof { assert(vp_all.skip(vp_k).skip(1) =~= vp_all.skip(vp_k + 1)); assert(vp_all.contains(vp_all[vp_k])); vp_k = vp_k + 1; }'
    lp['end'] = ''
    lp['post'] = ''
    return [lp]


# what a derive writes for the fields of EnumSet
DERIVED = {'Clone': ('clone', "fn clone(&self) -> Self { Self { %s } }", lambda inn, fl: ', '.join('%s: %s' % (a, 'self.%s.clone()' % a if a == inn else 'PhantomData') for a, t in fl)),
           'PartialEq': ('eq', 'fn eq(&self, other: &Self) -> bool { %s }', lambda inn, fl: 'self.%s == other.%s' % (inn, inn)),
           'PartialOrd': ('partial_cmp', 'fn partial_cmp(&self, other: &Self) -> Option<Ordering> { %s }', lambda inn, fl: 'self.%s.partial_cmp(&other.%s)' % (inn, inn)),
           'Ord': ('cmp', 'fn cmp(&self, other: &Self) -> Ordering { %s }', lambda inn, fl: 'self.%s.cmp(&other.%s)' % (inn, inn)),
           'Hash': ('hash', 'fn hash<H: Hasher>(&self, state: &mut H) { %s }', lambda inn, fl: 'self.%s.hash(state);' % inn)}
CMP = {'clone': (['self.wf()'], ['r.wf()', ALL('self.has(v)', 'r')], '', ''),
       'eq': (['self.wf()', '{1}.wf()'], ['r == (forall|v: E| #![trigger self.has(v)] #![trigger {1}.has(v)] self.has(v) == {1}.has(v))'],
              L + 'self.lemma_codes(); {1}.lemma_codes(); if forall|v: E| self.has(v) == {1}.has(v) { assert forall|x: int| self.codes().contains(x) <==> {1}.codes().contains(x) by { if self.codes().contains(x) { assert(self.has(E::dec(x))); } if {1}.codes().contains(x) { assert({1}.has(E::dec(x))); } } assert(self.codes() =~= {1}.codes()); }', ''),
       'ne': (['self.wf()', '{1}.wf()'], ['r == !(forall|v: E| #![trigger self.has(v)] #![trigger {1}.has(v)] self.has(v) == {1}.has(v))'], '', ''),
       'hash': (['self.wf()'], ['final({1}).fed() == old({1}).fed() + fed_set(self.codes())'], '', '')}
# the order is the one of the sets of codes: total, and equal exactly on sets with the same members
SAME = L + 'self.lemma_codes(); {1}.lemma_codes(); law_order(self.codes(), {1}.codes(), self.codes()); law_order({1}.codes(), self.codes(), self.codes()); if forall|v: E| self.has(v) == {1}.has(v) { assert forall|x: int| self.codes().contains(x) <==> {1}.codes().contains(x) by { if self.codes().contains(x) { assert(self.has(E::dec(x))); } if {1}.codes().contains(x) { assert({1}.has(E::dec(x))); } } assert(self.codes() =~= {1}.codes()); }'
MEMB = '(forall|v: E| #![trigger self.has(v)] #![trigger {1}.has(v)] self.has(v) == {1}.has(v))'
CMP['cmp'] = (['self.wf()', '{1}.wf()'], ['r == set_cmp(self.codes(), {1}.codes())', '(r == Ordering::Equal) == ' + MEMB, '(r == Ordering::Less) == (set_cmp({1}.codes(), self.codes()) == Ordering::Greater)'], SAME, '')
CMP['partial_cmp'] = (['self.wf()', '{1}.wf()'], ['r == Some(set_cmp(self.codes(), {1}.codes()))', '(r == Some(Ordering::Equal)) == ' + MEMB], SAME, '')
for n, c in (('lt', '== Ordering::Less'), ('le', '!= Ordering::Greater'), ('gt', '== Ordering::Greater'), ('ge', '!= Ordering::Less')):
    CMP[n] = (['self.wf()', '{1}.wf()'], ['r == (set_cmp(self.codes(), {1}.codes()) %s)' % c], SAME, '')
ONLY15 = {'EnumSet::iter', 'WrapIter::new', 'Iterator for WrapIter: next', 'Iterator for WrapIter: size_hint', 'IntoIterator for &EnumSet'}
FMT = (['self.wf()'], ['exists|vp_s: Seq<E>| #![trigger shown(*old({1}), *final({1}), r, vp_s)] shown(*old({1}), *final({1}), r, vp_s) && once(vp_s) && (forall|v: E| #![trigger vp_s.contains(v)] #![trigger self.has(v)] vp_s.contains(v) <==> self.has(v))'], L + 'self.lemma_codes();', '')


def compare(o, x, tr, vac, inl, soft, done):
    o.raw('\nimpl<E: EnumLike> EnumSet<E> {\n')
    emit_fn(o, x, '%s for EnumSet: %s' % (tr, x.name), *CMP[x.name], vac=vac, inl=inl, soft=soft)
    o.raw('}\n')
    done.append('%s for EnumSet: %s' % (tr, x.name))


def gen(repo, vacuity=False, debug=False):
    its = items(lex(open(os.path.join(repo, 'enum_set/src/lib.rs')).read()))
    o = Out()
    o.raw(HEAD + open(os.path.join(HERE, 'es_prelude.rs')).read() + (open(os.path.join(HERE, 'fmt_prelude.rs')).read() if debug else '') + PANICS['A'])
    missing, done = [], []
    st = {x.name: x for x in its if x.kind == 'struct'}
    if not {'EnumSet', 'WrapIter'} <= set(st):
        raise Lost('structs of enum_set')
    fl = gen_el.struct_fields(st['EnumSet'])
    inn = [a for a, t in fl if t in ('BitSet', 'BitSet<u32>')]
    if len(inn) != 1 or any(not t.startswith('PhantomData') for a, t in fl if a not in inn):
        raise Lost('fields of EnumSet')
    fw = gen_el.struct_fields(st['WrapIter'])
    win = [a for a, t in fw if t == 'I']
    if len(win) != 1 or any(not t.startswith('PhantomData') for a, t in fw if a not in win):
        raise Lost('fields of WrapIter')
    inn, win = inn[0], win[0]
    fix = lambda s: s.replace('@IN@', inn).replace('@WIN@', win)
    for n in ('EnumSet', 'WrapIter'):
        o.raw('\npub ')
        o.toks(rw(st[n].header))
        o.raw(' {\n')
        for f in split_commas(st[n].inner_toks):
            o.raw('pub ')
            o.toks(rw(f[strip_vis(f, 0):]))
            o.raw(',\n')
        o.raw('}\n')
    a = len(o.lines)
    o.raw(fix(MODEL.replace('@MAPSIZE@', 'lemma_card::<E>(self.codes());')))
    o.marks.append((a, len(o.lines), 'lemma', 'lemmas about codes and values'))
    o.raw(TRAITS_TXT)
    for x in its:
        if x.kind == 'type':
            t = [y for y in x.toks if y.s != 'pub']
            o.raw('pub ' + src(rw(t)) + '\n')
    seen = set()
    hm, hac, hf, hc, soft = {}, {}, {}, {}, []
    for it in its:
        if it.kind == 'impl' and it.trait is None and it.ty[0].s in ('EnumSet', 'WrapIter'):
            for x in it.inner:
                if x.name in SPEC or x.name == 'new':
                    continue
                if x.kind == 'fn' and x.body is not None:
                    hm[x.name] = x
                elif x.kind == 'const':
                    hac[x.name] = inline.const_expr(x)
        elif it.kind == 'fn':
            hf[it.name] = it
        elif it.kind == 'const':
            hc[it.name] = inline.const_expr(it)
    inl = inline.Inliner(hm, hf, hac, hc, {'EnumSet', 'WrapIter'})
    for it in its:
        if it.kind != 'impl':
            continue
        ty = src(it.ty).replace(' ', '')
        tr = re.sub(r'^(::)?(\w+::)*', '', src(it.trait).replace(' ', '')).split('<')[0] if it.trait else None
        if tr == 'Debug':
            if debug and ty.startswith('EnumSet<'):
                for x in it.inner:
                    if x.kind != 'fn' or x.name != 'fmt':
                        missing.append('no contract for Debug: ' + x.name)
                        continue
                    y = inline.inline_item(inl, x)
                    y.sig, y.body = fmt_words(y.sig), fmt_words(y.body)
                    o.raw('\nimpl<E: EnumLike> EnumSet<E> {\n')
                    emit_fn(o, y, 'Debug for EnumSet', *FMT, vac=vacuity, soft=soft, loops=fmt_loops(y.body))
                    o.raw('}\n')
                    done.append('Debug for EnumSet')
            continue
        if ty.startswith('EnumSet<') and tr is None or ty.startswith('WrapIter<') and tr is None:
            o.raw('\nimpl' + src(rw(it.generics)) + ' ' + src(rw(it.ty)) + ' {\n')
            for x in it.inner:
                if x.kind == 'type' or x.kind == 'fn' and x.body is None:
                    continue
                w = ty.split('<')[0] + '::' + x.name
                if debug and w not in ONLY15:
                    continue
                if w == 'WrapIter::new':
                    emit_fn(o, x, w, [], ['r.%s == {0}' % win], '', '', vacuity, inl=inl, soft=soft)
                elif ty.startswith('EnumSet') and x.name in SPEC:
                    req, ens, entry, post = SPEC[x.name]
                    emit_fn(o, x, w, req, ens, entry, post, vacuity, sub=fix, inl=inl, soft=soft)
                else:
                    soft.append('no contract for ' + w)
                    continue
                done.append(w)
            o.raw('}\n')
        elif tr in DERIVED and ty.startswith('EnumSet<'):
            for x in it.inner:
                if x.kind != 'fn' or x.name not in CMP:
                    missing.append('no contract for %s: %s' % (tr, x.name))
                elif not debug:
                    compare(o, x, tr, vacuity, inl, soft, done)
        elif tr == 'Eq' and ty.startswith('EnumSet<'):
            continue
        elif debug and tr in TSPEC and tr not in ('Iterator', 'IntoIterator'):
            continue
        elif tr in TSPEC and (ty.startswith('EnumSet<') or ty.startswith('WrapIter<') or tr == 'IntoIterator'):
            sp = TSPEC[tr]
            if tr == 'IntoIterator':
                # states itself what it yields; a function of its own so that the contract can say so
                o.raw('\nimpl' + src(rw(it.generics)) + ' EnumSet<E> {\n')
                for x in it.inner:
                    if x.kind == 'fn':
                        y = renamed_fn(x, 'vp_into_iter')
                        y.sig = [z if z.s not in ('self',) else z for z in lex_at('fn vp_into_iter(&\'a self) -> WrapIter<E, bit_set::Iter<\'a, u32>>', x.line)]
                        if 'into_iter' != x.name:
                            missing.append('IntoIterator::' + x.name)
                        emit_fn(o, y, 'IntoIterator for &EnumSet', *SPEC['iter'], vac=vacuity, sub=fix, inl=inl, soft=soft)
                        done.append('IntoIterator for &EnumSet')
                o.raw('}\n')
                seen.add(tr)
                continue
            o.raw('\nimpl' + src(rw(it.generics)) + ' ' + src(rw(it.trait)) + ' for ' + src(rw(it.ty)) + ' {\n' + fix(sp) + '\n')
            for x in it.inner:
                if x.kind == 'type':
                    o.raw(src(rw(x.toks)) + '\n')
                    continue
                w = '%s for %s: %s' % (tr, ty.split('<')[0], x.name)
                kw = dict(pub=False, vac=vacuity, inl=inl, soft=soft)
                x = inline.inline_item(inl, x)
                if tr == 'Extend' and x.name == 'extend':
                    p1 = params(x)[1]
                    lp = loop_over(p1, ('self.wf()', 'forall|v: E| #[trigger] self.has(v) <==> old(self).has(v) || vp_all.take(vp_k).contains(v)'))
                    emit_fn(o, x, w, [], [], L, '', loops=[lp], **kw)
                elif tr == 'FromIterator' and x.name == 'from_iter':
                    lps = []
                    if any(t.s == 'for' for t in x.body):       # the loop written out here
                        nm = next((b.s for a, b in zip(x.body, x.body[1:]) if a.s == 'mut'), None)
                        p1 = params(x)[0]
                        if nm is None:
                            raise Lost('from_iter')
                        q = '%s.wf()' % nm, 'forall|v: E| #[trigger] %s.has(v) <==> vp_all.take(vp_k).contains(v)' % nm
                        lps = [loop_over(p1, q, nm, '')]
                    emit_fn(o, x, w, [], [], L, '', loops=lps, **kw)
                elif tr == 'Default' and x.name == 'default':
                    emit_fn(o, x, w, [], [], L, '', **kw)
                elif tr == 'Iterator' and x.name == 'next':
                    emit_fn(o, x, w, [], [], L + 'let vp_s = self.%s.seq(); assert(vp_s.len() > 0 ==> 0 <= vp_s[0] < E::nv()); assert(vp_s.len() > 0 ==> self.seq().skip(1) =~= vp_s.skip(1).map_values(|x: int| E::dec(x)));' % win, 'assert(self.seq().len() == self.%s.seq().len());' % win,
                            closures=[dict(params=['usize'], ret='E', req=['$p0 < E::nv()'], ens=['vr == E::dec($p0 as int)'])], **kw)
                elif tr == 'Iterator' and x.name == 'size_hint':
                    emit_fn(o, x, w, [], [], L + 'self.lemma_few();', '', **kw)
                else:
                    missing.append('no contract for ' + w)
                    continue
                seen.add(x.name)
                done.append(w)
            o.raw('}\n')
        else:
            missing.append('unknown impl of %s for %s' % (tr, ty))
    dv = re.findall(r'\w+', ' '.join(a for a in st['EnumSet'].attrs if a.startswith('derive')))
    for d, (n, text, fill) in DERIVED.items():
        if d in dv and not debug:
            x = items(lex(text % fill(inn, fl)))[0]
            compare(o, x, d, vacuity, None, soft, done)
        elif not debug and not any(z.startswith(d + ' for') for z in done):
            missing.append(d + ' is gone')
    for w in SPEC if not debug else ('iter',):
        if 'EnumSet::' + w not in done:
            missing.append('EnumSet::%s is gone' % w)
    if debug and 'Debug for EnumSet' not in done:
        missing.append('Debug for EnumSet is gone')
    for w in ('extend', 'from_iter', 'default', 'next', 'size_hint', 'IntoIterator') if not debug else ('next', 'size_hint'):
        if w not in seen:
            missing.append(w + ' is gone')
    o.raw('''
pub proof fn lemma_take<E>(s: Seq<E>, k: int) requires 0 <= k < s.len() ensures forall|v: E| #[trigger] s.take(k + 1).contains(v) <==> s.take(k).contains(v) || v == s[k]
{
    assert forall|v: E| #[trigger] s.take(k + 1).contains(v) <==> s.take(k).contains(v) || v == s[k] by {
        if s.take(k).contains(v) { let j = choose|j: int| 0 <= j < k && #[trigger] s.take(k)[j] == v; assert(s.take(k + 1)[j] == v); }
        if v == s[k] { assert(s.take(k + 1)[k] == v); }
        if s.take(k + 1).contains(v) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] s.take(k + 1)[j] == v; if j < k { assert(s.take(k)[j] == v); } }
    }
}
pub fn vp_must_fail<E: EnumLike>(v: &mut EnumSet<E>, w: &EnumSet<E>) requires old(v).wf(), w.wf() { proof { E::laws(); } @UW@ let it = v.iter(); assert(false); }
'''.replace('@UW@', '' if debug else 'v.union_with(w);'))
    o.marks.append((len(o.lines) - 3, len(o.lines), 'vp_must_fail', 'vp_must_fail'))
    o.raw('\n} // verus!\nfn main() {}\n')
    return o, dict(missing=missing, soft=soft, done=done, planted=done, inlined=sorted(inl.used))


def renamed_fn(x, n):
    import copy
    y = copy.copy(x)
    y.name = n
    return y
