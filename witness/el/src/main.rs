//! Replays the properties of enum_like on the real crate.
#[cfg(any(feature = "reject8", feature = "reject16"))]
mod reject;
mod v;
use enum_like::{EnumLike, EnumValues, PackedU16, PackedU8};
use std::panic::{catch_unwind, AssertUnwindSafe};
use v::*;
include!("types.rs");
include!("codes.rs");

fn one<T: V>(c: &mut Ck, name: &str) {
    println!("H {}", name);
    if c.samples < 8 { c.samples += 1; println!("SAMPLE {} with {} values", name, T::cnt()); }
    match &c.prop[..] { "C10" => codes::<T>(c, name), _ => vals::<T>(c, name) }
}
fn vals<T: V>(c: &mut Ck, name: &str) {
    let n = T::NUM_VARIANTS;
    if n <= 4096 {
        let r = guard("values()".into(), || { let mut k = 0; for x in T::values() { if k >= n { return Err("yields more values than the type has".into()) } if !x.same(&T::from_discr(k)) { return Err(format!("yields {} at position {}", x.show(), k)) } k += 1; } if k != n { return Err(format!("yields {} values of {}", k, n)) } Ok(()) });
        c.chk(name, r);
    }
    for _ in 0..c.q / 3 + 2 {
        let mut g = Rng::new(c.g.n());
        let mut log = String::from("values()");
        let lg = &mut log;
        let mut it = T::values(); let mut cur: usize = 0;
        let r = guard("values()".into(), || {
            for _ in 0..g.b(8) {
                let left = n - cur;
                match g.b(4) {
                    0 | 1 => { *lg += ".next()"; let a = it.next(); let ok = match &a { None => left == 0, Some(x) => left > 0 && x.same(&T::from_discr(cur)) }; if !ok { return Err(format!("{} is {:?}, {} values left", lg, a.map(|x| x.show()), left)) } if left > 0 { cur += 1 } }
                    2 => { let k = match g.b(8) { 0 => usize::MAX, 1 => left, 2 => left.wrapping_sub(1), 3 => usize::MAX - cur, 4 => n, 5 => g.b(left as u128 + 1) as usize, _ => g.b(4) as usize }; *lg += &format!(".nth({})", k); let a = it.nth(k);
                        let ok = match &a { None => k >= left, Some(x) => k < left && x.same(&T::from_discr(cur + k)) }; if !ok { return Err(format!("{} is {:?}, {} values left", lg, a.map(|x| x.show()), left)) } cur = if k < left { cur + k + 1 } else { n } }
                    _ => { *lg += ".size_hint()"; let h = it.size_hint(); if h != (left, Some(left)) { return Err(format!("{} is {:?}, {} values left", lg, h, left)) } if it.len() != left { return Err(format!("{}.len() is {}, {} values left", lg, it.len(), left)) } }
                }
            }
            let left = n - cur;
            match g.b(6) {
                0 => { *lg += ".count()"; let k = it.count(); if k != left { return Err(format!("{} is {}, {} values left", lg, k, left)) } }
                1 => { *lg += ".last()"; let a = it.last(); let ok = match &a { None => left == 0, Some(x) => left > 0 && x.same(&T::from_discr(n - 1)) }; if !ok { return Err(format!("{} is {:?}, {} values left", lg, a.map(|x| x.show()), left)) } }
                4 if left <= 4096 => { *lg += ".fold()"; let mut bad = None; it.fold((), |_, x| { if bad.is_none() && (cur >= n || !x.same(&T::from_discr(cur))) { bad = Some(format!("yields {} at code {} of {}", x.show(), cur, n)) } cur += 1 }); if let Some(b) = bad { return Err(format!("{} {}", lg, b)) } if cur != n { return Err(format!("{}: {} of {} values", lg, cur, n)) } }
                5 if left <= 4096 => { let k = g.b(4) as usize + 1; *lg += &format!(".step_by({})", k); for x in it.step_by(k) { if cur >= n || !x.same(&T::from_discr(cur)) { return Err(format!("{} yields {} at code {} of {}", lg, x.show(), cur, n)) } cur += k } if cur < n { return Err(format!("{} ends before code {} of {}", lg, cur, n)) } }
                2 if left <= 4096 => { *lg += " rest"; for x in it { if cur >= n || !x.same(&T::from_discr(cur)) { return Err(format!("{} yields {} at code {} of {}", lg, x.show(), cur, n)) } cur += 1 } if cur != n { return Err(format!("{}: {} of {} values", lg, cur, n)) } }
                _ => { if left == 0 { *lg += ".next()"; if it.next().is_some() { return Err(format!("{} is something, nothing is left", lg)) } } }
            }
            Ok(())
        });
        let r = r.map_err(|e| format!("{} (after {})", e, log));
        c.chk(name, r);
        if c.bad() { return }
    }
}
macro_rules! packed { ($f:ident $P:ident $name:expr) => {
fn $f<T: V + PartialEq>(c: &mut Ck, name: &str) {
    let n = T::cnt();
    if c.samples < 8 { c.samples += 1; println!("SAMPLE {} of {} with {} values", $name, name, n); }
    let ks: Vec<u128> = if n <= 512 { (0..n).collect() } else { (0..4 * c.q as u128).map(|_| c.g.b(n)).chain(vec![0, n - 1, 255, 256, 257].into_iter().filter(|k| *k < n)).collect() };
    for &k in &ks {
        let v = T::ith(k);
        for w in vec![T::ith(ks[c.g.b(ks.len() as u128) as usize]), T::ith((k + 256) % n), v] {
            let same = v.same(&w);
            let r = guard(format!("{} of {}", $name, v.show()), || {
                let p = $P::new(v); let q = $P::new(w); let x = p.get();
                if !x.same(&v) { return Err(format!("get() is {}", x.show())) }
                if (p == q) != same { return Err(format!("== with the packed {} is {}", w.show(), p == q)) }
                Ok(()) });
            c.chk(name, r);
        }
        if c.bad() { return }
    }
} } }
packed!(p8 PackedU8 "PackedU8");
packed!(p16 PackedU16 "PackedU16");
include!("small.rs");
fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(feature = "reject8")] { reject::eight(); return }
    #[cfg(feature = "reject16")] { reject::sixteen(); return }
    #[allow(unreachable_code)] {
    std::panic::set_hook(Box::new(|_| {}));
    let q = a[3].parse().unwrap();
    let mut c = Ck { prop: a[1].clone(), q, g: Rng::new(a[2].parse().unwrap()), fail: None, cases: 0, nontriv: 0, samples: 0 };
    if c.prop == "C12" { small_types(&mut c) } else { all_types(&mut c); }
    if let Some(f) = &c.fail { println!("FAIL {}", f); }
    println!("CASES {}\nNONTRIV {}", c.cases, c.nontriv);
    std::process::exit(if c.fail.is_some() { 3 } else { 0 });
    }
}
