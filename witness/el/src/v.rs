use enum_like::EnumLike;
use std::cell::RefCell;
thread_local! { pub static BAD: RefCell<Option<String>> = RefCell::new(None); }

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct N<const K: usize>(pub usize);
impl<const K: usize> std::fmt::Debug for N<K> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
unsafe impl<const K: usize> EnumLike for N<K> {
    const NUM_VARIANTS: usize = K;
    fn to_discr(self) -> usize { self.0 }
    fn from_discr(x: usize) -> Self {
        if x >= K { BAD.with(|b| *b.borrow_mut() = Some(format!("from_discr({}) was called for a component with {} variants", x, K))); return N(x % K) }
        N(x)
    }
}
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut g = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) | 1); for _ in 0..4 { g.n(); } g }
    pub fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 8 }
    pub fn b(&mut self, k: u128) -> u128 { (((self.n() as u128) << 56) | self.n() as u128) % k }
}
/// an enumeration of the values that does not depend on the code under test
pub trait V: EnumLike {
    fn cnt() -> u128;
    fn ith(k: u128) -> Self;
    fn same(&self, o: &Self) -> bool;
    fn show(&self) -> String;
}
impl<const K: usize> V for N<K> { fn cnt() -> u128 { K as u128 } fn ith(k: u128) -> Self { N(k as usize) } fn same(&self, o: &Self) -> bool { self == o } fn show(&self) -> String { self.0.to_string() } }
impl V for () { fn cnt() -> u128 { 1 } fn ith(_: u128) -> Self {} fn same(&self, _: &Self) -> bool { true } fn show(&self) -> String { "()".into() } }
impl V for bool { fn cnt() -> u128 { 2 } fn ith(k: u128) -> Self { k == 0 } fn same(&self, o: &Self) -> bool { self == o } fn show(&self) -> String { self.to_string() } }
impl<T: V> V for Option<T> { fn cnt() -> u128 { T::cnt() + 1 } fn ith(k: u128) -> Self { if k == 0 { None } else { Some(T::ith(k - 1)) } }
    fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } } fn show(&self) -> String { match self { None => "None".into(), Some(x) => format!("Some({})", x.show()) } } }
impl<T: V, S: V> V for Result<T, S> { fn cnt() -> u128 { T::cnt() + S::cnt() } fn ith(k: u128) -> Self { if k < S::cnt() { Err(S::ith(k)) } else { Ok(T::ith(k - S::cnt())) } }
    fn same(&self, o: &Self) -> bool { match (self, o) { (Ok(a), Ok(b)) => a.same(b), (Err(a), Err(b)) => a.same(b), _ => false } } fn show(&self) -> String { match self { Ok(x) => format!("Ok({})", x.show()), Err(x) => format!("Err({})", x.show()) } } }
macro_rules! tup { ($($a:ident $i:tt)+) => {
    impl<$($a: V),+> V for ($($a,)+) {
        fn cnt() -> u128 { 1 $(* $a::cnt())+ }
        #[allow(unused_assignments)]
        fn ith(k: u128) -> Self { let mut k = k; ($({ let x = $a::ith(k % $a::cnt()); k /= $a::cnt(); x },)+) }
        fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))+ }
        fn show(&self) -> String { let mut s = String::from("("); $(s += &self.$i.show(); s += ",";)+ s + ")" }
    }
} }
macro_rules! arr { ($($n:tt)+) => { $(
    impl<A: V> V for [A; $n] {
        fn cnt() -> u128 { A::cnt().pow($n) }
        fn ith(k: u128) -> Self { let mut k = k; let mut r: [Option<A>; $n] = [None; $n]; for x in r.iter_mut() { *x = Some(A::ith(k % A::cnt())); k /= A::cnt(); } let mut i = 0; [(); $n].map(|_| { i += 1; r[i - 1].unwrap() }) }
        fn same(&self, o: &Self) -> bool { (0..$n).all(|i| self[i].same(&o[i])) }
        fn show(&self) -> String { let mut s = String::from("["); for x in self { s += &x.show(); s += ","; } s + "]" }
    } )+
} }
arr! { 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 }
tup! { A0 0 }
tup! { A0 0 A1 1 }
tup! { A0 0 A1 1 A2 2 }
tup! { A0 0 A1 1 A2 2 A3 3 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 A22 22 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 A22 22 A23 23 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 A22 22 A23 23 A24 24 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 A22 22 A23 23 A24 24 A25 25 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 A22 22 A23 23 A24 24 A25 25 A26 26 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 A22 22 A23 23 A24 24 A25 25 A26 26 A27 27 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 A22 22 A23 23 A24 24 A25 25 A26 26 A27 27 A28 28 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 A22 22 A23 23 A24 24 A25 25 A26 26 A27 27 A28 28 A29 29 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 A22 22 A23 23 A24 24 A25 25 A26 26 A27 27 A28 28 A29 29 A30 30 }
tup! { A0 0 A1 1 A2 2 A3 3 A4 4 A5 5 A6 6 A7 7 A8 8 A9 9 A10 10 A11 11 A12 12 A13 13 A14 14 A15 15 A16 16 A17 17 A18 18 A19 19 A20 20 A21 21 A22 22 A23 23 A24 24 A25 25 A26 26 A27 27 A28 28 A29 29 A30 30 A31 31 }
