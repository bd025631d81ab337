
// ---- core::fmt: contracts assumed for the list and set builders ---------------
// shown(f0, f1, r, s): what was written between the states f0 and f1 of the formatter
// and the outcome r are those of a delimited list of exactly the values s, in this order
#[verifier::external_body] pub struct VpFormatter { x: u8 }
pub struct VpFmtError;
pub type VpFmtResult = Result<(), VpFmtError>;
pub uninterp spec fn shown<A>(f0: VpFormatter, f1: VpFormatter, r: VpFmtResult, s: Seq<A>) -> bool;
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct VpDebugList<A> { x: Vec<A> }
impl VpFormatter {
    #[verifier::external_body] pub fn vp_debug_list<A>(&mut self) -> (r: VpDebugList<A>)
        ensures r.log() == Seq::<A>::empty(), r.start() == *old(self), r.end() == *final(self) { unimplemented!() }
    #[verifier::external_body] pub fn vp_debug_set<A>(&mut self) -> (r: VpDebugList<A>)
        ensures r.log() == Seq::<A>::empty(), r.start() == *old(self), r.end() == *final(self) { unimplemented!() }
}
impl<A> VpDebugList<A> {
    pub uninterp spec fn log(&self) -> Seq<A>;
    pub uninterp spec fn start(&self) -> VpFormatter;
    pub uninterp spec fn end(&self) -> VpFormatter;
    #[verifier::external_body] pub fn vp_entries<I: VpIntoIterator<Item = A>>(&mut self, i: I) -> (r: &mut Self)
        requires i.into_inv(),
        ensures r.log() == old(self).log() + i.into_seq(), old(self).log().len() == 0 ==> r.log() == i.into_seq(),
            r.start() == old(self).start(), r.end() == old(self).end(), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn vp_entry(&mut self, x: &A) -> (r: &mut Self)
        ensures r.log() == old(self).log().push(*x), r.start() == old(self).start(), r.end() == old(self).end(), *final(self) == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn vp_finish(&mut self) -> (r: VpFmtResult)
        ensures shown(old(self).start(), old(self).end(), r, old(self).log()) { unimplemented!() }
}
// a Vec or slice formats as the list of its elements
pub trait VpDebug { type D; spec fn shows(&self) -> Seq<Self::D>; fn vp_fmt(&self, f: &mut VpFormatter) -> (r: VpFmtResult) ensures shown(*old(f), *final(f), r, self.shows()); }
impl<A> VpDebug for Vec<A> { type D = A; open spec fn shows(&self) -> Seq<A> { self@ }
    #[verifier::external_body] fn vp_fmt(&self, f: &mut VpFormatter) -> (r: VpFmtResult) { unimplemented!() } }
