//! Runs operation histories on the real EnumVec of /repo next to `Vec`.
//! Used to replay a failed obligation on the real code, and as the bounded
//! stand-in where the verifier cannot follow the code.
#[macro_use]
extern crate enum_vec;
use enum_vec::EnumLike;
use std::cell::RefCell;

thread_local! { pub static BAD: RefCell<Option<String>> = RefCell::new(None); }
pub static NONTRIV: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub static CASES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct N<const K: usize>(pub usize);
impl<const K: usize> std::fmt::Debug for N<K> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
unsafe impl<const K: usize> EnumLike for N<K> {
    const NUM_VARIANTS: usize = K;
    fn to_discr(self) -> usize { self.0 }
    fn from_discr(x: usize) -> Self {
        if x >= K { BAD.with(|b| *b.borrow_mut() = Some(format!("from_discr({}) was called for a type with {} variants", x, K))); return N(x % K) }
        N(x)
    }
}
impl<const K: usize> N<K> {
    fn pick(g: &mut Rng) -> Self { match g.b(6) { 0 => N(0), 1 => N(K - 1), 2 => N(1), 3 => N(K / 2), _ => N(g.b(K)) } }
}
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut g = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) | 1); for _ in 0..4 { g.n(); } g }
    fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 8 }
    pub fn b(&mut self, k: usize) -> usize { (self.n() as usize) % k }
    // lengths around the block boundaries, including past four and five blocks
    pub fn len(&mut self, epb: usize) -> usize {
        // now and then past 2^8, 2^10, 2^12, 2^16
        match self.b(1500) { 0 => return 65530 + self.b(300), 1 | 2 => return 4000 + self.b(200), 3..=6 => return 1000 + self.b(60), 7..=12 => return 240 + self.b(40), _ => () }
        match self.b(8) { 0 => self.b(4), 1 => epb * (self.b(3) + 1) - 1, 2 => epb * (self.b(7)), 3 => epb * (self.b(5)) + 1, 4 => self.b(2 * epb + 2), 5 => 5 * epb + self.b(epb + 1), 6 => self.b(epb + 1), _ => self.b(3 * epb) + self.b(4 * epb) }
    }
    pub fn idx(&mut self, len: usize, epb: usize) -> usize {
        let i = match self.b(6) { 0 => 0, 1 => len - 1, 2 => (self.b(len) / epb) * epb, 3 => (self.b(len) / epb) * epb + epb - 1, _ => self.b(len) };
        if i < len { i } else { self.b(len) }
    }
}
pub enum Stop { Bad(String), Other }
pub struct Log { on: bool, pub quiet: bool, pub own: usize, pub ops: Vec<String>, last: String }
impl Log {
    pub fn new(on: bool) -> Self { Log { on, quiet: false, own: 0, ops: vec![], last: String::new() } }
    pub fn op<F: FnOnce() -> String>(&mut self, f: F) { let s = f(); if self.on { if !self.quiet { println!("op {}", s); } self.ops.push(s.clone()); } self.last = s; }
    pub fn last(&self) -> &str { &self.last }
}
pub fn own(p: &str, d: &str) -> bool { p == d || p == "C07" && false }
/// does the operation that panicked belong to the property?
pub fn own_op(p: &str, last: &str) -> bool {
    let l = last;
    let has = |xs: &[&str]| xs.iter().any(|x| l.contains(x));
    match p {
        "C01" => has(&["push", "pop(", ".get(", ".set(", ".swap", "truncate(", "clear(", ".len()", "EnumVec::new", "with_capacity"]),
        "C02" => has(&[".insert(", ".remove("]),
        "C03" => has(&["append(", "split_off(", ".extend(", "resize(", "from_elem", "from_slice", "retain(", "collect", "convert", "macro"]),
        "C04" => has(&["v.any(", "v.all("]),
        "C05" => has(&["iter()", "to_vec", "for_each"]),
        "C06" => has(&["eq on", "hash on", "clone on"]),
        "C15" => has(&["debug("]),
        "C08" => has(&["reserve(", "shrink", "with_capacity", "capacity"]) && !l.contains(&usize::MAX.to_string()),
        _ => false,
    }
}
pub struct Rec(pub Vec<u64>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.0.push(*c as u64) } }
}
pub struct Hint<I> { pub it: I, pub lo: usize, pub hi: Option<usize> }
impl<I: Iterator> Iterator for Hint<I> { type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.it.next() } fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, self.hi) } }
pub fn mark(m: &str, k: usize, s: u64, n: usize) {
    use std::io::Write;
    let o = std::io::stdout(); let mut o = o.lock();
    let _ = writeln!(o, "H {} {} {} {}", m, k, s, n);
}

include!("mods.rs");

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let p = a[1].as_str();
    let seed: u64 = a[2].parse().unwrap();
    let quick: usize = a[3].parse().unwrap();
    let only = if a.len() > 7 { Some((a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap())) } else { None };
    let only_mod = if a.len() > 4 { Some(a[4].as_str()) } else { None };
    let bad = run_all(p, seed, quick, only_mod, only);
    println!("NONTRIV {}", NONTRIV.load(std::sync::atomic::Ordering::Relaxed));
    println!("CASES {}", CASES.load(std::sync::atomic::Ordering::Relaxed));
    std::process::exit(if bad { 3 } else { 0 });
}
