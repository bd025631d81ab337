//! Replays histories of calls on the real EnumSet against BTreeSet.
use enum_like::EnumLike;
use enum_set2::EnumSet;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
thread_local! { static BAD: RefCell<Option<String>> = RefCell::new(None); }
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct N<const K: usize>(usize);
/// value v has code (v * 7 + 3) % K: order of values and of codes differ
fn mul(k: usize) -> usize { if k % 7 == 0 { 1 } else { 7 } }
unsafe impl<const K: usize> EnumLike for N<K> {
    const NUM_VARIANTS: usize = K;
    fn to_discr(self) -> usize { (self.0 * mul(K) + 3) % K }
    fn from_discr(x: usize) -> Self {
        if x >= K { BAD.with(|b| *b.borrow_mut() = Some(format!("from_discr({}) was called, NUM_VARIANTS is {}", x, K))); return N(0) }
        N((0..K).find(|v| (v * mul(K) + 3) % K == x).unwrap())
    }
}
impl<const K: usize> std::fmt::Debug for N<K> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
struct Rng(u64);
impl Rng {
    fn new(s: u64) -> Self { let mut g = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) | 1); for _ in 0..4 { g.n(); } g }
    fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 8 }
    fn b(&mut self, k: usize) -> usize { (self.n() % k as u64) as usize }
}
type R = Result<(), String>;
fn drain<E: EnumLike + Ord + std::fmt::Debug + std::hash::Hash + Copy, I: Iterator<Item = E>>(what: &str, mut it: I, want: &BTreeSet<E>, g: &mut Rng) -> R {
    let mut got = vec![];
    let stop = want.len() + 3;
    loop {
        let h = it.size_hint();
        let left = want.len().saturating_sub(got.len());
        if h.0 > left || h.1.map_or(false, |u| u < left) { return Err(format!("{}: size_hint is {:?} with {} left", what, h, left)) }
        match g.b(160) {
            0 | 1 => { let rest: Vec<E> = it.collect(); got.extend(rest); break }
            2 => { it.for_each(|x| got.push(x)); break }
            3 => { let c = it.count(); if c != left { return Err(format!("{}: count() is {} with {} left", what, c, left)) } return Ok(()) }
            4 => { let l = it.last(); if l.is_some() != (left > 0) || l.map_or(false, |x| !want.contains(&x) || got.contains(&x)) { return Err(format!("{}: last() is {:?} after {:?} of {:?}", what, l, got, want)) } return Ok(()) }
            5 => { let n = g.b(left + 2); let x = it.nth(n); let mut rest: Vec<E> = it.collect(); rest.extend(x); rest.extend(got.iter().cloned());
                let s: BTreeSet<E> = rest.iter().cloned().collect();
                if x.is_some() != (n < left) || s.len() != rest.len() || !s.is_subset(want) || rest.len() != want.len() - n.min(left) { return Err(format!("{}: nth({}) is {:?} after {:?} of {:?}, then the rest", what, n, x, got, want)) } return Ok(()) }
            _ => {}
        }
        match it.next() { Some(x) => got.push(x), None => break }
        if got.len() > stop { break }
    }
    let s: BTreeSet<E> = got.iter().cloned().collect();
    if s != *want || got.len() != want.len() { return Err(format!("{} yields {:?}, the members are {:?}", what, got, want)) }
    Ok(())
}
fn look<E: EnumLike + Ord + std::fmt::Debug + std::hash::Hash + Copy>(name: &str, a: &EnumSet<E>, w: &BTreeSet<E>, all: &[E], g: &mut Rng) -> R {
    if a.len() != w.len() { return Err(format!("{}.len() is {}, want {}", name, a.len(), w.len())) }
    if a.is_empty() != w.is_empty() { return Err(format!("{}.is_empty() is {}", name, a.is_empty())) }
    for &x in all { if a.contains(x) != w.contains(&x) { return Err(format!("{}.contains({:?}) is {}", name, x, a.contains(x))) } }
    if g.b(2) == 0 { drain(&format!("{}.iter()", name), a.iter(), w, g) } else { drain(&format!("&{}", name), a.into_iter(), w, g) }
}
fn hist<E: EnumLike + Ord + std::fmt::Debug + std::hash::Hash + Copy>(all: &[E], g: &mut Rng, log: &mut String) -> R {
    let k = all.len();
    let mut s: [EnumSet<E>; 3] = [EnumSet::new(), EnumSet::default(), EnumSet::new()];
    let mut w: [BTreeSet<E>; 3] = [BTreeSet::new(), BTreeSet::new(), BTreeSet::new()];
    let dense = g.b(3);
    let hi = 1 + g.b(k);
    for _ in 0..1 + g.b(14) {
        let (i, j) = (g.b(3), g.b(3));
        let v = all[g.b(hi)];
        let nm = ["a", "b", "c"];
        match g.b(17) {
            0 | 1 => { *log += &format!("{}.insert({:?}); ", nm[i], v); let r = s[i].insert(v); let e = w[i].insert(v); if r != e { return Err(format!("returned {}", r)) } }
            2 => { *log += &format!("{}.remove({:?}); ", nm[i], v); let r = s[i].remove(v); let e = w[i].remove(&v); if r != e { return Err(format!("returned {}", r)) } }
            3 => { let xs: Vec<E> = (0..g.b([3, 12, 3 * k][dense])).map(|_| all[g.b(hi)]).collect(); *log += &format!("{}.extend({:?}); ", nm[i], xs); w[i].extend(xs.iter().cloned()); if g.b(2) == 0 { s[i].extend(xs) } else { let t: Vec<E> = xs; s[i].extend(t.iter().cloned().filter(|_| true)) } }
            4 => { let xs: Vec<E> = (0..g.b([3, 12, 3 * k][dense])).map(|_| all[g.b(hi)]).collect(); *log += &format!("{} = {:?}.collect(); ", nm[i], xs); w[i] = xs.iter().cloned().collect(); s[i] = xs.into_iter().collect() }
            5 => if g.b(3) == 0 { *log += &format!("{}.clear(); ", nm[i]); s[i].clear(); w[i].clear() },
            6 => { *log += &format!("{}.shrink_to_fit(); ", nm[i]); s[i].shrink_to_fit() }
            7 if i != j => { *log += &format!("{}.union_with({}); ", nm[i], nm[j]); let o = s[j].clone(); s[i].union_with(&o); w[i] = w[i].union(&w[j]).cloned().collect() }
            8 if i != j => { *log += &format!("{}.intersect_with({}); ", nm[i], nm[j]); let o = s[j].clone(); s[i].intersect_with(&o); w[i] = w[i].intersection(&w[j]).cloned().collect() }
            9 if i != j => { *log += &format!("{}.difference_with({}); ", nm[i], nm[j]); let o = s[j].clone(); s[i].difference_with(&o); w[i] = w[i].difference(&w[j]).cloned().collect() }
            10 if i != j => { *log += &format!("{}.symmetric_difference_with({}); ", nm[i], nm[j]); let o = s[j].clone(); s[i].symmetric_difference_with(&o); w[i] = w[i].symmetric_difference(&w[j]).cloned().collect() }
            11 => { let t = s[i].clone(); *log += &format!("{} = from_bit_set(into_bit_set({})); ", nm[i], nm[i]); if t.get_ref().len() != w[i].len() { return Err("get_ref().len()".into()) } s[i] = EnumSet::from_bit_set(t.into_bit_set()) }
            _ => { *log += &format!("compare {} {}; ", nm[i], nm[j]);
                let (a, b, x, y) = (&s[i], &s[j], &w[i], &w[j]);
                let p = format!("{} and {}", nm[i], nm[j]);
                if a.is_subset(b) != x.is_subset(y) { return Err(format!("is_subset of {} is {}", p, a.is_subset(b))) }
                if a.is_superset(b) != x.is_superset(y) { return Err(format!("is_superset of {} is {}", p, a.is_superset(b))) }
                if a.is_disjoint(b) != x.is_disjoint(y) { return Err(format!("is_disjoint of {} is {}", p, a.is_disjoint(b))) }
                if (a == b) != (x == y) || (a != b) == (x == y) { return Err(format!("== of {} is {}, != is {}", p, a == b, a != b)) }
                let code = |w: &BTreeSet<E>| -> BTreeSet<usize> { w.iter().map(|v| v.to_discr()).collect() };
                let o = code(x).cmp(&code(y));
                if a.cmp(b) != o || a.partial_cmp(b) != Some(o) || (a < b) != o.is_lt() || (a <= b) != o.is_le() || (a > b) != o.is_gt() || (a >= b) != o.is_ge() { return Err(format!("cmp of {} is {:?}, partial_cmp is {:?}, and the members in code order compare {:?}", p, a.cmp(b), a.partial_cmp(b), o)) }
                if *std::cmp::max(a, b) != *(if o.is_gt() { a } else { b }) { return Err(format!("max of {}", p)) }
                let h = |s: &EnumSet<E>| { use std::hash::{Hash, Hasher}; let mut d = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut d); d.finish() };
                if x == y && h(a) != h(b) { return Err(format!("{} have the same members and hash differently", p)) }
                let c = if g.b(3) == 0 { let mut c = b.clone(); c.clone_from(a); c } else { a.clone() }; look("the clone", &c, x, all, g)?; if c != *a || h(&c) != h(a) { return Err(format!("the clone of {} differs", nm[i])) }
                { let mut c = b.clone(); c.extend(x.difference(y).cloned()); for v in y.difference(x) { c.remove(*v); } if c != *a || h(&c) != h(a) { return Err(format!("{} rebuilt from {} differs or hashes differently", nm[i], nm[j])) } }
                drain(&format!("union of {}", p), a.union(b), &x.union(y).cloned().collect(), g)?;
                drain(&format!("intersection of {}", p), a.intersection(b), &x.intersection(y).cloned().collect(), g)?;
                drain(&format!("difference of {}", p), a.difference(b), &x.difference(y).cloned().collect(), g)?;
                drain(&format!("symmetric_difference of {}", p), a.symmetric_difference(b), &x.symmetric_difference(y).cloned().collect(), g)?;
            }
        }
        look(nm[i], &s[i], &w[i], all, g)?;
        if let Some(b) = BAD.with(|b| b.borrow_mut().take()) { return Err(b) }
    }
    look("a", &s[0], &w[0], all, g)?; look("b", &s[1], &w[1], all, g)?; look("c", &s[2], &w[2], all, g)
}
// C15: the text of {:?} and {:#?}: the members, each once, between braces
fn shown<E: EnumLike + Ord + std::fmt::Debug + std::hash::Hash + Copy>(a: &EnumSet<E>, w: &BTreeSet<E>) -> R {
    struct D<'a, X>(&'a [X]);
    impl<'a, X: std::fmt::Debug> std::fmt::Debug for D<'a, X> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.debug_set().entries(self.0.iter()).finish() } }
    let mut o: Vec<E> = w.iter().cloned().collect();
    o.sort_by_key(|x| x.to_discr());
    let (x, y) = (format!("{:?}", a), format!("{:?}", D(&o)));
    if x != y { return Err(format!("{{:?}} prints {}, the members are {}", x, y)) }
    let (x, y) = (format!("{:#?}", a), format!("{:#?}", D(&o)));
    if x != y { return Err(format!("{{:#?}} prints {}, the members are {}", x, y)) }
    Ok(())
}
fn hist15<E: EnumLike + Ord + std::fmt::Debug + std::hash::Hash + Copy>(all: &[E], g: &mut Rng, log: &mut String) -> R {
    let (mut s, mut w) = (EnumSet::new(), BTreeSet::new());
    for _ in 0..1 + g.b(14) {
        let v = all[g.b(all.len())];
        match g.b(8) {
            0 => { *log += &format!("a.remove({:?}); ", v); s.remove(v); w.remove(&v); }
            1 => { let xs: Vec<E> = (0..g.b(3 * all.len())).map(|_| all[g.b(all.len())]).collect(); *log += &format!("a = {:?}.collect(); ", xs); w = xs.iter().cloned().collect(); s = xs.into_iter().collect() }
            2 if g.b(3) == 0 => { *log += "a.clear(); "; s.clear(); w.clear() }
            _ => { *log += &format!("a.insert({:?}); ", v); s.insert(v); w.insert(v); }
        }
        if s.len() != w.len() || !all.iter().all(|x| s.contains(*x) == w.contains(x)) { return Ok(()) }   // not the formatting
        shown(&s, &w)?;
    }
    Ok(())
}
fn run<E: EnumLike + Ord + std::fmt::Debug + std::hash::Hash + Copy>(name: &str, all: Vec<E>, q: usize, g: &mut Rng, n: &mut usize, fail: &mut Option<String>) {
    for h in 0..q {
        if fail.is_some() { return }
        let mut log = String::new();
        let r = catch_unwind(AssertUnwindSafe(|| if std::env::args().nth(3).is_some() { hist15(&all, g, &mut log) } else { hist(&all, g, &mut log) }));
        *n += 1;
        if h == 0 && *n < 400 { println!("SAMPLE {}: {}", name, log); }
        match r { Ok(Ok(())) => (), Ok(Err(e)) => *fail = Some(format!("{}: {}=> {}", name, log, e)),
            Err(e) => *fail = Some(format!("{}: {}=> panics: {}", name, log, e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let q: usize = a[2].parse().unwrap();
    let mut g = Rng::new(a[1].parse().unwrap());
    let (mut n, mut fail) = (0, None);
    macro_rules! ks { ($($k:tt)+) => { $( run(concat!("EnumSet of ", $k, " values"), (0..$k).map(N::<$k>).collect(), q, &mut g, &mut n, &mut fail); )+ } }
    ks!(1 2 3 5 8 31 32 33 60 64 65 96 100 130 300);
    run("EnumSet<()>", vec![()], q, &mut g, &mut n, &mut fail);
    run("EnumSet<bool>", vec![true, false], q, &mut g, &mut n, &mut fail);
    run("EnumSet<Option<bool>>", vec![Some(true), None, Some(false)], q, &mut g, &mut n, &mut fail);
    let mut t = vec![]; for i in 0..5 { for j in 0..9 { for b in [true, false] { t.push((N::<5>(i), b, N::<9>(j))) } } }
    run("EnumSet<(5 values, bool, 9 values)>", t, q, &mut g, &mut n, &mut fail);
    if let Some(f) = &fail { println!("FAIL {}", f); }
    println!("CASES {}\nNONTRIV {}", n, n);
    std::process::exit(if fail.is_some() { 3 } else { 0 });
}
