use core::cmp::Ordering;
pub trait EnumLike: Copy {
    spec fn nv() -> int;
    spec fn enc(self) -> int;
    spec fn dec(x: int) -> Self;
    proof fn laws()
        ensures 0 <= Self::nv() <= usize::MAX,
            forall|v: Self| 0 <= #[trigger] v.enc() < Self::nv(),
            forall|v: Self| Self::dec(#[trigger] v.enc()) == v,
            forall|x: int| 0 <= x < Self::nv() ==> (#[trigger] Self::dec(x)).enc() == x;
    fn NUM_VARIANTS() -> (r: usize) ensures r == Self::nv();
    fn to_discr(self) -> (r: usize) ensures r == self.enc();
    fn from_discr(x: usize) -> (r: Self) requires x < Self::nv(), ensures r == Self::dec(x as int);
}

// iterators: what is left to yield
pub trait VpIterator: Sized {
    type Item;
    spec fn inv(&self) -> bool;
    spec fn seq(&self) -> Seq<Self::Item>;
    fn vp_next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).inv(),
        ensures final(self).inv(),
            old(self).seq().len() == 0 ==> r is None && final(self).seq() == old(self).seq(),
            old(self).seq().len() > 0 ==> r == Some(old(self).seq()[0]) && final(self).seq() == old(self).seq().skip(1);
    fn vp_size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.inv(),
        ensures r.0 <= self.seq().len(), r.1 is Some ==> self.seq().len() <= r.1->0;
}
// the iterators of bit-set: the same, but the upper bound they hint at is not
// relied on (it is wrong in the version used), and they yield increasing numbers
pub trait VpBits: Sized {
    spec fn seq(&self) -> Seq<int>;
    fn vp_next(&mut self) -> (r: Option<usize>)
        ensures 
            old(self).seq().len() == 0 ==> r is None && final(self).seq() == old(self).seq(),
            old(self).seq().len() > 0 ==> r is Some && r->0 == old(self).seq()[0] && final(self).seq() == old(self).seq().skip(1);
    fn vp_size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 <= self.seq().len();
}
pub trait VpIntoIterator: Sized {
    type Item;
    type IntoIter: VpIterator<Item = Self::Item>;
    spec fn into_inv(self) -> bool;
    spec fn into_seq(self) -> Seq<Self::Item>;
    fn vp_into_iter(self) -> (r: Self::IntoIter)
        requires self.into_inv(),
        ensures r.inv(), r.seq() == self.into_seq();
}
impl<I: VpIterator> VpIntoIterator for I {
    type Item = I::Item;
    type IntoIter = I;
    open spec fn into_inv(self) -> bool { self.inv() }
    open spec fn into_seq(self) -> Seq<I::Item> { self.seq() }
    fn vp_into_iter(self) -> (r: I) { self }
}
pub open spec fn increasing(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
pub open spec fn lists(s: Seq<int>, c: Set<int>) -> bool { increasing(s) && forall|x: int| s.contains(x) <==> c.contains(x) }

// ---- bit_set: contracts assumed ------------------------------------------------
pub mod bit_set {
    use vstd::prelude::*;
    #[verifier::external_body] #[verifier::reject_recursive_types(B)] pub struct Iter<'a, B> { x: &'a B }
    #[verifier::external_body] #[verifier::reject_recursive_types(B)] pub struct Union<'a, B> { x: &'a B }
    #[verifier::external_body] #[verifier::reject_recursive_types(B)] pub struct Intersection<'a, B> { x: &'a B }
    #[verifier::external_body] #[verifier::reject_recursive_types(B)] pub struct Difference<'a, B> { x: &'a B }
    #[verifier::external_body] #[verifier::reject_recursive_types(B)] pub struct SymmetricDifference<'a, B> { x: &'a B }
    #[verifier::external_body] pub struct BitSet { x: Vec<u32> }
    impl<'a, B> Iter<'a, B> { pub uninterp spec fn s(&self) -> Seq<int>; }
    impl<'a, B> Union<'a, B> { pub uninterp spec fn s(&self) -> Seq<int>; }
    impl<'a, B> Intersection<'a, B> { pub uninterp spec fn s(&self) -> Seq<int>; }
    impl<'a, B> Difference<'a, B> { pub uninterp spec fn s(&self) -> Seq<int>; }
    impl<'a, B> SymmetricDifference<'a, B> { pub uninterp spec fn s(&self) -> Seq<int>; }
    impl BitSet { pub uninterp spec fn view(&self) -> Set<int>; }
}
use bit_set::BitSet;
impl<'a> VpBits for bit_set::Iter<'a, u32> {
    open spec fn seq(&self) -> Seq<int> { self.s() }
    #[verifier::external_body] fn vp_next(&mut self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vp_size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
}
impl<'a> VpBits for bit_set::Union<'a, u32> {
    open spec fn seq(&self) -> Seq<int> { self.s() }
    #[verifier::external_body] fn vp_next(&mut self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vp_size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
}
impl<'a> VpBits for bit_set::Intersection<'a, u32> {
    open spec fn seq(&self) -> Seq<int> { self.s() }
    #[verifier::external_body] fn vp_next(&mut self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vp_size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
}
impl<'a> VpBits for bit_set::Difference<'a, u32> {
    open spec fn seq(&self) -> Seq<int> { self.s() }
    #[verifier::external_body] fn vp_next(&mut self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vp_size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
}
impl<'a> VpBits for bit_set::SymmetricDifference<'a, u32> {
    open spec fn seq(&self) -> Seq<int> { self.s() }
    #[verifier::external_body] fn vp_next(&mut self) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vp_size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for BitSet { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl PartialEq for BitSet { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
// the order of two bit sets: total, and equal only on equal sets (BitSet compares the ascending elements as words)
pub uninterp spec fn set_cmp(a: Set<int>, b: Set<int>) -> Ordering;
pub open spec fn le(a: Set<int>, b: Set<int>) -> bool { set_cmp(a, b) != Ordering::Greater }
#[verifier::external_body] pub proof fn law_order(a: Set<int>, b: Set<int>, c: Set<int>)
    ensures (set_cmp(a, b) == Ordering::Equal) == (a == b), (set_cmp(a, b) == Ordering::Less) == (set_cmp(b, a) == Ordering::Greater), le(a, b) && le(b, c) ==> le(a, c) {}
// hashing: what a hasher was fed; a BitSet feeds a function of its contents
pub trait VpHasher: Sized { spec fn fed(&self) -> Seq<u64>; fn finish(&self) -> u64; }
pub uninterp spec fn fed_set(s: Set<int>) -> Seq<u64>;
pub open spec fn symdiff(a: Set<int>, b: Set<int>) -> Set<int> { a.union(b).difference(a.intersect(b)) }
impl BitSet {
    #[verifier::external_body] pub fn new() -> (r: BitSet) ensures r@ == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: BitSet) ensures r@ == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vp_default() -> (r: BitSet) ensures r@ == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vp_clone(&self) -> (r: BitSet) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vp_eq(&self, o: &BitSet) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_hash<H: VpHasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + fed_set(self@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_cmp(&self, o: &BitSet) -> (r: Ordering) ensures r == set_cmp(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_partial_cmp(&self, o: &BitSet) -> (r: Option<Ordering>) ensures r == Some(set_cmp(self@, o@)) { unimplemented!() }
    #[verifier::external_body] pub fn shrink_to_fit(&mut self) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn reserve_len(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: bit_set::Iter<'_, u32>) ensures lists(r.s(), self@) { unimplemented!() }
    #[verifier::external_body] pub fn vp_into_iter(&self) -> (r: bit_set::Iter<'_, u32>) ensures lists(r.s(), self@) { unimplemented!() }
    #[verifier::external_body] pub fn union<'a>(&'a self, o: &'a BitSet) -> (r: bit_set::Union<'a, u32>) ensures lists(r.s(), self@.union(o@)) { unimplemented!() }
    #[verifier::external_body] pub fn intersection<'a>(&'a self, o: &'a BitSet) -> (r: bit_set::Intersection<'a, u32>) ensures lists(r.s(), self@.intersect(o@)) { unimplemented!() }
    #[verifier::external_body] pub fn difference<'a>(&'a self, o: &'a BitSet) -> (r: bit_set::Difference<'a, u32>) ensures lists(r.s(), self@.difference(o@)) { unimplemented!() }
    #[verifier::external_body] pub fn symmetric_difference<'a>(&'a self, o: &'a BitSet) -> (r: bit_set::SymmetricDifference<'a, u32>) ensures lists(r.s(), symdiff(self@, o@)) { unimplemented!() }
    #[verifier::external_body] pub fn union_with(&mut self, o: &BitSet) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body] pub fn intersect_with(&mut self, o: &BitSet) ensures final(self)@ == old(self)@.intersect(o@) { unimplemented!() }
    #[verifier::external_body] pub fn difference_with(&mut self, o: &BitSet) ensures final(self)@ == old(self)@.difference(o@) { unimplemented!() }
    #[verifier::external_body] pub fn symmetric_difference_with(&mut self, o: &BitSet) ensures final(self)@ == symdiff(old(self)@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r == 0 <==> self@ == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<int>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Set::<int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: usize) -> (r: bool) ensures r == self@.contains(x as int) { unimplemented!() }
    #[verifier::external_body] pub fn is_disjoint(&self, o: &BitSet) -> (r: bool) ensures r == (forall|x: int| !(self@.contains(x) && o@.contains(x))) { unimplemented!() }
    #[verifier::external_body] pub fn is_subset(&self, o: &BitSet) -> (r: bool) ensures r == (forall|x: int| self@.contains(x) ==> o@.contains(x)) { unimplemented!() }
    #[verifier::external_body] pub fn is_superset(&self, o: &BitSet) -> (r: bool) ensures r == (forall|x: int| o@.contains(x) ==> self@.contains(x)) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: usize) -> (r: bool) ensures r == !old(self)@.contains(x as int), final(self)@ == old(self)@.insert(x as int) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: usize) -> (r: bool) ensures r == old(self)@.contains(x as int), final(self)@ == old(self)@.remove(x as int) { unimplemented!() }
}
