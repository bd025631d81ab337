// ---- the trait under its documented laws ------------------------------------
pub trait EnumLike: Copy {
    const NUM_VARIANTS: usize;
    spec fn discr_of(self) -> usize;
    spec fn of_discr(d: usize) -> Self;
    proof fn laws()
        ensures 2 <= Self::NUM_VARIANTS, Self::NUM_VARIANTS as int <= @POW2W@,
            forall|x: Self| #[trigger] x.discr_of() < Self::NUM_VARIANTS,
            forall|x: Self| Self::of_discr(#[trigger] x.discr_of()) == x;
    fn to_discr(self) -> (r: usize) ensures r == self.discr_of();
    fn from_discr(x: usize) -> (r: Self) requires x < Self::NUM_VARIANTS, ensures r == Self::of_discr(x);
}

// ---- contracts assumed for std ------------------------------------------------
pub uninterp spec fn vcap(v: Storage) -> nat;
pub open spec fn max_blocks() -> int { @MAXBLOCKS@ }

pub fn vp_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vp_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
@PANICS@

#[verifier::external_body]
pub fn vp_storage_with_capacity(n: usize) -> (r: Storage)
    requires n <= max_blocks(),
    ensures r@ == Seq::<Blk>::empty(), vcap(r) >= n,
{ Vec::with_capacity(n) }

pub trait VpStorageExt: Sized {
    spec fn sv(&self) -> Seq<Blk>;
    spec fn sc(&self) -> nat;
    fn vp_get_unchecked(&self, i: usize) -> (r: &Blk) requires i < self.sv().len(), ensures *r == self.sv()[i as int];
    fn vp_get_unchecked_mut(&mut self, i: usize) -> (r: &mut Blk) requires i < old(self).sv().len(),
        ensures *r == old(self).sv()[i as int], final(self).sv() == old(self).sv().update(i as int, *final(r));
    fn vp_capacity(&self) -> (r: usize) ensures r == self.sc(), r >= self.sv().len();
    fn vp_push(&mut self, x: Blk) requires old(self).sv().len() < max_blocks(), ensures final(self).sv() == old(self).sv().push(x);
    fn vp_resize(&mut self, n: usize, x: Blk) requires n <= max_blocks(),
        ensures final(self).sv().len() == n,
            forall|i: int| 0 <= i < n ==> #[trigger] final(self).sv()[i] == (if i < old(self).sv().len() { old(self).sv()[i] } else { x });
    fn vp_reserve(&mut self, n: usize) requires old(self).sv().len() + n <= max_blocks(), ensures final(self).sv() == old(self).sv(), final(self).sc() >= old(self).sv().len() + n;
    fn vp_shrink_to_fit(&mut self) ensures final(self).sv() == old(self).sv();
    fn vp_truncate(&mut self, n: usize) ensures final(self).sv() == (if n <= old(self).sv().len() { old(self).sv().take(n as int) } else { old(self).sv() });
    fn vp_append(&mut self, o: &mut Self) requires old(self).sv().len() + old(o).sv().len() <= max_blocks(),
        ensures final(self).sv() == old(self).sv() + old(o).sv(), final(o).sv() == Seq::<Blk>::empty();
    fn vp_extend_from_slice(&mut self, o: &Self) requires old(self).sv().len() + o.sv().len() <= max_blocks(),
        ensures final(self).sv() == old(self).sv() + o.sv();
    fn vp_clone(&self) -> (r: Self) ensures r.sv() == self.sv();
    fn vp_clear(&mut self) ensures final(self).sv() == Seq::<Blk>::empty();
}
impl VpStorageExt for Storage {
    open spec fn sv(&self) -> Seq<Blk> { self@ }
    open spec fn sc(&self) -> nat { vcap(*self) }
    #[verifier::external_body] fn vp_get_unchecked(&self, i: usize) -> (r: &Blk) { &self[i] }
    #[verifier::external_body] fn vp_get_unchecked_mut(&mut self, i: usize) -> (r: &mut Blk) { &mut self[i] }
    #[verifier::external_body] fn vp_capacity(&self) -> (r: usize) { self.capacity() }
    #[verifier::external_body] fn vp_push(&mut self, x: Blk) { self.push(x) }
    #[verifier::external_body] fn vp_resize(&mut self, n: usize, x: Blk) { self.resize(n, x) }
    #[verifier::external_body] fn vp_reserve(&mut self, n: usize) { self.reserve(n) }
    #[verifier::external_body] fn vp_shrink_to_fit(&mut self) { self.shrink_to_fit() }
    #[verifier::external_body] fn vp_truncate(&mut self, n: usize) { self.truncate(n) }
    #[verifier::external_body] fn vp_append(&mut self, o: &mut Self) { self.append(o) }
    #[verifier::external_body] fn vp_extend_from_slice(&mut self, o: &Self) { for x in o { self.push(*x) } }
    #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { self.clone() }
    #[verifier::external_body] fn vp_clear(&mut self) { self.clear() }
}

// iterators: what is left to yield, front first; finite and lawful (size_hint is a bound)
pub trait VpIterator: Sized {
    type Item;
    spec fn inv(&self) -> bool;
    spec fn seq(&self) -> Seq<Self::Item>;
    fn vp_next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).inv(),
        ensures final(self).inv(),
            old(self).seq().len() == 0 ==> r is None && final(self).seq() == old(self).seq(),
            old(self).seq().len() > 0 ==> r == Some(old(self).seq()[0]) && final(self).seq() == old(self).seq().skip(1);
    fn vp_size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.inv(),
        ensures r.0 <= self.seq().len(), r.1 is Some ==> self.seq().len() <= r.1->0;
    fn vp_count(self) -> (r: usize)
        requires self.inv(), self.seq().len() <= usize::MAX,
        ensures r == self.seq().len();
    fn vp_nth(&mut self, n: usize) -> (r: Option<Self::Item>)
        requires old(self).inv(),
        ensures final(self).inv(),
            n >= old(self).seq().len() ==> r is None && final(self).seq().len() == 0,
            n < old(self).seq().len() ==> r == Some(old(self).seq()[n as int]) && final(self).seq() == old(self).seq().skip(n + 1);
}
pub trait VpDoubleEndedIterator: VpIterator {
    fn vp_next_back(&mut self) -> (r: Option<Self::Item>)
        requires old(self).inv(),
        ensures final(self).inv(),
            old(self).seq().len() == 0 ==> r is None && final(self).seq() == old(self).seq(),
            old(self).seq().len() > 0 ==> r == Some(old(self).seq().last()) && final(self).seq() == old(self).seq().drop_last();
}
pub trait VpExactSizeIterator: VpIterator { }
pub trait VpIntoIterator: Sized {
    type Item;
    type IntoIter: VpIterator<Item = Self::Item>;
    spec fn into_inv(self) -> bool;
    spec fn into_seq(self) -> Seq<Self::Item>;
    fn vp_into_iter(self) -> (r: Self::IntoIter)
        requires self.into_inv(),
        ensures r.inv(), r.seq() == self.into_seq();
}
impl<I: VpIterator> VpIntoIterator for I {
    type Item = I::Item;
    type IntoIter = I;
    open spec fn into_inv(self) -> bool { self.inv() }
    open spec fn into_seq(self) -> Seq<I::Item> { self.seq() }
    fn vp_into_iter(self) -> (r: I) { self }
}
pub trait VpExtend<A>: Sized {
    spec fn ext_pre(&self, s: Seq<A>) -> bool;
    spec fn ext_post(&self, s: Seq<A>, f: &Self) -> bool;
    fn vp_extend<I: VpIntoIterator<Item = A>>(&mut self, iter: I)
        requires iter.into_inv(), old(self).ext_pre(iter.into_seq()),
        ensures old(self).ext_post(iter.into_seq(), final(self));
}
impl<A> VpExtend<A> for Vec<A> {
    open spec fn ext_pre(&self, s: Seq<A>) -> bool { true }
    open spec fn ext_post(&self, s: Seq<A>, f: &Self) -> bool { f@ == self@ + s }
    #[verifier::external_body]
    fn vp_extend<I: VpIntoIterator<Item = A>>(&mut self, iter: I) { unimplemented!() }
}
pub open spec fn rseq(r: core::ops::Range<usize>) -> Seq<usize> { Seq::new((if r.end > r.start { r.end - r.start } else { 0 }) as nat, |i: int| (r.start + i) as usize) }
impl VpIterator for core::ops::Range<usize> {
    type Item = usize;
    open spec fn inv(&self) -> bool { true }
    open spec fn seq(&self) -> Seq<usize> { rseq(*self) }
    #[verifier::external_body] fn vp_next(&mut self) -> (r: Option<usize>)
        ensures final(self).end == old(self).end, old(self).start < old(self).end ==> r == Some(old(self).start) && final(self).start == old(self).start + 1, old(self).start >= old(self).end ==> final(self).start == old(self).start
    { self.next() }
    #[verifier::external_body] fn vp_size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.0 == rseq(*self).len(), r.1 == Some(r.0)
    { self.size_hint() }
    #[verifier::external_body] fn vp_count(self) -> (r: usize) { self.count() }
    #[verifier::external_body] fn vp_nth(&mut self, n: usize) -> (r: Option<usize>)
        ensures final(self).end == old(self).end, final(self).start <= old(self).end || final(self).start == old(self).start
    { self.nth(n) }
}
impl VpDoubleEndedIterator for core::ops::Range<usize> {
    #[verifier::external_body] fn vp_next_back(&mut self) -> (r: Option<usize>)
        ensures final(self).start == old(self).start, final(self).end <= old(self).end
    { self.next_back() }
}
// repeat(x).take(n)
#[verifier::external_body] #[verifier::accept_recursive_types(A)] pub struct VpRepeat<A> { x: A }
#[verifier::external_body] #[verifier::accept_recursive_types(A)] pub struct VpTake<A> { x: A, n: usize }
impl<A> VpRepeat<A> { pub uninterp spec fn x(self) -> A; 
    #[verifier::external_body] pub fn vp_take(self, n: usize) -> (r: VpTake<A>) ensures r.s() == Seq::new(n as nat, |i: int| self.x()) { unimplemented!() } }
impl<A> VpTake<A> { pub uninterp spec fn s(self) -> Seq<A>; }
#[verifier::external_body] pub fn vp_repeat<A>(x: A) -> (r: VpRepeat<A>) ensures r.x() == x { unimplemented!() }
impl<A> VpIterator for VpTake<A> {
    type Item = A;
    open spec fn inv(&self) -> bool { true }
    open spec fn seq(&self) -> Seq<A> { self.s() }
    #[verifier::external_body] fn vp_next(&mut self) -> (r: Option<A>) { unimplemented!() }
    #[verifier::external_body] fn vp_size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
    #[verifier::external_body] fn vp_count(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vp_nth(&mut self, n: usize) -> (r: Option<A>) { unimplemented!() }
}
// slice.iter().cloned(), vec.into_iter()
#[verifier::external_body] #[verifier::accept_recursive_types(A)] pub struct VpSeqIter<A> { x: Vec<A> }
impl<A> VpSeqIter<A> { pub uninterp spec fn s(self) -> Seq<A>; }
impl<A> VpIterator for VpSeqIter<A> {
    type Item = A;
    open spec fn inv(&self) -> bool { true }
    open spec fn seq(&self) -> Seq<A> { self.s() }
    #[verifier::external_body] fn vp_next(&mut self) -> (r: Option<A>) { unimplemented!() }
    #[verifier::external_body] fn vp_size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
    #[verifier::external_body] fn vp_count(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vp_nth(&mut self, n: usize) -> (r: Option<A>) { unimplemented!() }
}
pub trait VpCloned<A: Copy> { spec fn sl(&self) -> Seq<A>; fn vp_cloned(self) -> (r: VpSeqIter<A>) ensures r.s() == self.sl(); }
pub uninterp spec fn slice_iter_seq<'a, A>(i: core::slice::Iter<'a, A>) -> Seq<A>;
impl<'a, A: Copy> VpCloned<A> for VpSliceIter<'a, A> { open spec fn sl(&self) -> Seq<A> { self.s() }
    #[verifier::external_body] fn vp_cloned(self) -> (r: VpSeqIter<A>) { unimplemented!() } }
#[verifier::external_body] #[verifier::accept_recursive_types(A)] pub struct VpSliceIter<'a, A> { x: &'a [A] }
impl<'a, A> VpSliceIter<'a, A> { pub uninterp spec fn s(self) -> Seq<A>; }
#[verifier::external_body] pub fn vp_slice_iter<'a, A>(x: &'a [A]) -> (r: VpSliceIter<'a, A>) ensures r.s() == x@ { unimplemented!() }
impl<A> VpIntoIterator for Vec<A> {
    type Item = A;
    type IntoIter = VpSeqIter<A>;
    open spec fn into_inv(self) -> bool { true }
    open spec fn into_seq(self) -> Seq<A> { self@ }
    #[verifier::external_body] fn vp_into_iter(self) -> (r: VpSeqIter<A>) { unimplemented!() }
}
pub trait VpDefault: Sized { fn vp_default() -> Self; }
// hashing: the sequence of words fed to the hasher
pub trait VpHasher { spec fn fed(&self) -> Seq<usize>; }
pub trait VpHash { fn vp_hash<H: VpHasher>(&self, state: &mut H); }
impl VpHash for usize {
    #[verifier::external_body] fn vp_hash<H: VpHasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed().push(*self) { unimplemented!() }
}
