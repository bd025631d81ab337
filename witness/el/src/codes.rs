// the codes of a type against an enumeration of its values
pub struct Ck { prop: String, q: usize, g: Rng, fail: Option<String>, cases: usize, nontriv: usize, samples: usize }
impl Ck {
    fn bad(&self) -> bool { self.fail.is_some() }
    fn chk(&mut self, name: &str, r: Result<(), String>) {
        self.cases += 1; self.nontriv += 1;
        let b = BAD.with(|b| b.borrow_mut().take());
        if self.fail.is_none() { match (r, b) { (Err(e), _) => self.fail = Some(format!("{}: {}", name, e)), (_, Some(e)) => self.fail = Some(format!("{}: {}", name, e)), _ => () } }
    }
}
fn guard<F: FnOnce() -> Result<(), String>>(what: String, f: F) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(r) => r.map_err(|e| format!("{}: {}", what, e)), Err(e) => Err(format!("{} panics: {}", what, e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) }
}
fn codes<T: V>(c: &mut Ck, name: &str) {
    let n = T::cnt();
    c.chk(name, if T::NUM_VARIANTS as u128 == n { Ok(()) } else { Err(format!("NUM_VARIANTS is {}, the type has {} values", T::NUM_VARIANTS, n)) });
    if c.bad() { return }
    let small = n <= 4096;
    let m = if small { n } else { (4 * c.q as u128).min(n) };
    let mut seen = vec![false; if small { n as usize } else { 0 }];
    for k in 0..m {
        let k = if small { k } else { match c.g.b(4) { 0 => c.g.b(m), 1 => n - 1 - c.g.b(m), _ => c.g.b(n) } };
        let v = T::ith(k);
        let sn = &mut seen;
        let r = guard(format!("value {}", v.show()), || {
            let d = v.to_discr();
            if d as u128 >= n { return Err(format!("to_discr is {}, not below {}", d, n)) }
            if small { if sn[d] { return Err(format!("another value has the same code {}", d)) } sn[d] = true; }
            let w = T::from_discr(d);
            if !w.same(&v) { return Err(format!("to_discr is {}, from_discr of it is {}", d, w.show())) }
            Ok(())
        });
        c.chk(name, r);
        let x = k as usize;
        let r = guard(format!("code {}", x), || {
            let w = T::from_discr(x);
            let d = w.to_discr();
            if d != x { return Err(format!("from_discr is {}, to_discr of it is {}", w.show(), d)) }
            Ok(())
        });
        c.chk(name, r);
        if c.bad() { return }
    }
}
