// Included once per storage module, with `EnumVec` in scope.
type V<const K: usize> = EnumVec<N<K>>;

fn obs<const K: usize>(v: &V<K>) -> Vec<N<K>> { (0..v.len()).map(|i| v.get(i).expect("get inside the length")).collect() }
fn blocks(n: usize, epb: usize) -> usize { (n + epb - 1) / epb }
fn feed<const K: usize>(v: &V<K>) -> (Vec<u64>, u64) {
    use std::hash::{Hash, Hasher};
    let mut r = Rec(vec![]); v.hash(&mut r);
    let mut d = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut d);
    (r.0, d.finish())
}
macro_rules! ens { ($own:expr, $p:expr, $c:expr, $($m:tt)*) => { if !$c { return if own($own, $p) { Err(Stop::Bad(format!($($m)*))) } else { Err(Stop::Other) }; } } }

fn build<const K: usize>(g: &mut Rng, n: usize) -> (V<K>, Vec<N<K>>) {
    let m: Vec<N<K>> = (0..n).map(|_| N::pick(g)).collect();
    let mut v: V<K> = match g.b(4) { 0 => m.iter().cloned().collect(), 1 => m.clone().into(), 2 => EnumVec::from_slice(&m), _ => { let mut v = EnumVec::new(); for x in &m { v.push(*x) } v } };
    if g.b(3) == 0 { // junk beyond the length
        for _ in 0..g.b(40) { v.push(N::pick(g)); }
        v.truncate(n);
    }
    (v, m)
}

/// one step; `lg` receives the operation before it runs
fn step<const K: usize>(p: &str, g: &mut Rng, v: &mut V<K>, m: &mut Vec<N<K>>, lg: &mut Log) -> Result<(), Stop> {
    let bits = { let mut b = 0; while b < 64 && (1u128 << b) < K as u128 { b += 1 } b };
    let epb = WIDTH / bits;
    let x = N::<K>::pick(g);
    let wild = p == "C07";
    let ops: &[&str] = match p {
        "C01" => &["push", "push", "pop", "get", "set", "swap", "swap_remove", "truncate", "clear", "len", "new", "with_capacity", "fill", "remove", "resize"],
        "C02" => &["insert", "insert", "remove", "remove", "push", "pop", "truncate", "fill", "resize", "retain", "reserve", "fresh"],
        "C03" => &["append", "append", "split_off", "split_off", "extend", "resize", "from_elem", "from_slice", "retain", "collect", "convert", "push", "truncate", "reserve", "macro"],
        "C04" => &["any", "all", "any", "all", "resize", "fill", "truncate", "push", "fresh", "all"],
        "C05" => &["iter", "into_iter", "to_vec", "for_each", "fill", "truncate", "fresh", "resize"],
        "C06" => &["eq", "hash", "clone", "eq", "fill", "truncate", "fresh", "resize", "push", "reserve"],
        "C08" => &["reserve", "reserve_big", "shrink", "with_capacity", "cap", "push", "insert", "append", "split_off", "extend", "resize", "from_elem", "from_slice", "collect", "remove", "truncate", "new", "pop"],
        "C15" => &["debug", "debug", "fill", "truncate", "fresh", "resize", "push", "pop", "clear", "insert"],
        "C09" => &["oob", "oob", "push", "truncate", "pop", "fill", "reserve", "resize", "fresh"],
        _ => &["push", "pop", "get", "set", "swap", "swap_remove", "truncate", "clear", "new", "with_capacity", "fill", "remove", "resize", "insert", "append", "split_off", "extend",
               "from_elem", "from_slice", "retain", "collect", "convert", "reserve", "reserve_big", "shrink", "cap", "any", "all", "iter", "into_iter", "to_vec", "for_each", "eq", "hash", "clone", "oob", "lying", "panicky", "macro"],
    };
    let op = ops[g.b(ops.len())];
    let n = g.len(epb);
    let at = if m.len() == 0 { 0 } else { g.idx(m.len(), epb) };
    let before = v.storage().len();
    let mut done = "C00"; // property that owns the operation
    match op {
        "new" => { done = "C01"; lg.op(|| "v = EnumVec::new()".into()); *v = if g.b(2) == 0 { EnumVec::new() } else { Default::default() }; m.clear();
            ens!(p, "C01", v.len() == 0 && v.is_empty(), "new(): len {} is_empty {}", v.len(), v.is_empty());
            ens!(p, "C08", v.storage().len() == 0, "new(): storage has {} blocks", v.storage().len()); }
        "with_capacity" => { done = "C01"; lg.op(|| format!("v = EnumVec::with_capacity({})", n)); *v = EnumVec::with_capacity(n); m.clear();
            ens!(p, "C01", v.len() == 0 && v.is_empty() && v.get(0) == None, "with_capacity({}): len {}", n, v.len());
            ens!(p, "C08", v.capacity() >= n, "with_capacity({}): capacity {}", n, v.capacity());
            ens!(p, "C08", v.storage().len() == 0 , "with_capacity({}): storage has {} blocks", n, v.storage().len()); }
        "push" => { done = "C01"; let c = 1 + g.b(3); for _ in 0..c { let x = N::<K>::pick(g); lg.op(|| format!("v.push({:?})", x)); let b = v.storage().len(); v.push(x); m.push(x);
            ens!(p, "C08", v.storage().len() <= b.max(blocks(m.len(), epb)), "push: {} elements of {} bits take {} blocks of {} bits", m.len(), bits, v.storage().len(), WIDTH); } }
        "pop" => { done = "C01"; lg.op(|| "v.pop()".into()); let a = v.pop(); let b = m.pop(); ens!(p, "C01", a == b, "pop() returned {:?}, expected {:?}", a, b); }
        "get" => { done = "C01"; for i in [at, m.len(), m.len() + 1, n, usize::MAX] { lg.op(|| format!("v.get({})", i)); let a = v.get(i); let b = m.get(i).cloned(); ens!(p, "C01", a == b, "get({}) returned {:?}, expected {:?}", i, a, b); } }
        "set" => if m.len() > 0 { done = "C01"; lg.op(|| format!("v.set({}, {:?})", at, x)); v.set(at, x); m[at] = x; }
        "swap" => if m.len() > 0 { done = "C01"; let b = g.idx(m.len(), epb); lg.op(|| format!("v.swap({}, {})", at, b)); v.swap(at, b); m.swap(at, b); }
        "swap_remove" => if m.len() > 0 { done = "C01"; lg.op(|| format!("v.swap_remove({})", at)); let a = v.swap_remove(at); let b = m.swap_remove(at); ens!(p, "C01", a == b, "swap_remove({}) returned {:?}, expected {:?}", at, a, b); }
        "truncate" => { done = "C01"; let n = if g.b(3) == 0 { n } else { at }; lg.op(|| format!("v.truncate({})", n)); v.truncate(n); m.truncate(n); }
        "clear" => { done = "C01"; lg.op(|| "v.clear()".into()); v.clear(); m.clear(); }
        "len" => { done = "C01"; lg.op(|| "v.len()".into()); ens!(p, "C01", v.len() == m.len() && v.is_empty() == m.is_empty(), "len() {} is_empty() {}, expected {}", v.len(), v.is_empty(), m.len()); }
        "fill" => { lg.op(|| format!("push {} elements", n)); for _ in 0..n { let x = N::<K>::pick(g); v.push(x); m.push(x); } if p == "C01" { done = "C01" } }
        "fresh" => { lg.op(|| format!("v = {} new elements", n)); let (a, b) = build::<K>(g, n); *v = a; *m = b; }
        "insert" => { done = "C02"; let i = if m.len() == 0 { 0 } else if g.b(4) == 0 { m.len() } else { at }; lg.op(|| format!("v.insert({}, {:?}) [len {}]", i, x, m.len())); v.insert(i, x); m.insert(i, x);
            ens!(p, "C08", v.storage().len() <= before.max(blocks(m.len(), epb)), "insert: {} elements of {} bits take {} blocks of {} bits", m.len(), bits, v.storage().len(), WIDTH); }
        "remove" => if m.len() > 0 { done = "C02"; lg.op(|| format!("v.remove({}) [len {}]", at, m.len())); let a = v.remove(at); let b = m.remove(at); ens!(p, "C02", a == b, "remove({}) returned {:?}, expected {:?}", at, a, b);
            ens!(p, "C08", v.storage().len() <= before, "remove() grew the storage to {} blocks", v.storage().len()); }
        "append" => { done = "C03"; let (mut w, mut mw) = build::<K>(g, n); if g.b(3) == 0 { let k = g.b(n + 1); w.truncate(k); mw.truncate(k) }
            lg.op(|| format!("v.append(&mut {:?}) [len {}]", mw, m.len())); v.append(&mut w); m.append(&mut mw);
            ens!(p, "C03", w.len() == 0 && w.is_empty() && w.get(0) == None && w.to_vec().len() == 0, "append() left {} elements in the other vector", w.len());
            w.push(x); ens!(p, "C03", w.len() == 1 && w.get(0) == Some(x), "the vector emptied by append() is broken");
            ens!(p, "C08", v.storage().len() <= before.max(blocks(m.len(), epb) + 1), "append: {} elements of {} bits take {} blocks of {} bits", m.len(), bits, v.storage().len(), WIDTH); }
        "split_off" => { done = "C03"; let i = if m.len() == 0 { 0 } else if g.b(5) == 0 { m.len() } else { at }; lg.op(|| format!("w = v.split_off({}) [len {}]", i, m.len())); let w = v.split_off(i); let mw = m.split_off(i);
            ens!(p, "C03", obs(&w) == mw, "split_off({}) returned {:?}, expected {:?}", i, obs(&w), mw);
            ens!(p, "C08", w.storage().len() <= blocks(mw.len(), epb) + 1, "split_off: {} elements of {} bits take {} blocks of {} bits", mw.len(), bits, w.storage().len(), WIDTH);
            if g.b(2) == 0 { lg.op(|| "v = w".into()); *v = w; *m = mw; } }
        "extend" => { done = "C03"; let e: Vec<N<K>> = (0..n).map(|_| N::pick(g)).collect(); let h = g.b(4); lg.op(|| format!("v.extend({:?}) [len {}, size_hint kind {}]", e, m.len(), h));
            match h { 0 => v.extend(e.clone()), 1 => v.extend(e.iter().cloned().filter(|_| true)), 2 => { let lo = match g.b(3) { 0 => 0, 1 => (n + 1) / 2, _ => g.b(n + 1) }; let hi = match g.b(4) { 0 => None, 1 => Some(n), 2 => Some(std::cmp::max(n, 2 * lo)), _ => Some(n + 1 + g.b(9)) }; lg.op(|| format!("v.extend({:?}) with size_hint ({}, {:?})", e, lo, hi)); v.extend(Hint { it: e.clone().into_iter(), lo, hi }) } _ => { let w: V<K> = e.iter().cloned().collect(); if g.b(2) == 0 { v.extend(w) } else { v.extend(&w) } } }
            m.extend(e);
            ens!(p, "C08", v.storage().len() <= before.max(blocks(m.len(), epb) + 1), "extend: {} elements of {} bits take {} blocks of {} bits", m.len(), bits, v.storage().len(), WIDTH); }
        "resize" => { done = "C03"; let n = if g.b(2) == 0 { n } else { m.len() + n }; lg.op(|| format!("v.resize({}, {:?}) [len {}]", n, x, m.len())); v.resize(n, x); m.resize(n, x);
            ens!(p, "C08", v.storage().len() <= before.max(blocks(m.len(), epb) + 1), "resize: {} elements of {} bits take {} blocks of {} bits", m.len(), bits, v.storage().len(), WIDTH); }
        "from_elem" | "from_slice" | "collect" | "convert" | "macro" => { done = "C03"; lg.op(|| format!("v = {} of {} elements", op, n)); let e: Vec<N<K>> = (0..n).map(|_| N::pick(g)).collect();
            match op { "from_elem" => { lg.op(|| format!("v = EnumVec::from_elem({:?}, {})", x, n)); *v = EnumVec::from_elem(x, n); *m = vec![x; n]; }
              "macro" => match g.b(5) {
                  3 => { let mut c = 0; lg.op(|| format!("v = enum_vec![x; n] where x and n are expressions with an effect, n = {}", n)); *v = enum_vec![{ c += 1; x }; { c += 100; n }]; ens!(p, "C03", c == 101, "enum_vec![x; n] evaluated x {} times and n {} times", c % 100, c / 100); *m = vec![x; n]; }
                  4 => { let ys = [N::pick(g), x, N::pick(g), N::pick(g)]; let mut it = ys.iter().cloned(); lg.op(|| format!("v = enum_vec![it.next(), it.next(), it.next()] of {:?}", ys)); *v = enum_vec![it.next().unwrap_or(x), it.next().unwrap_or(x), it.next().unwrap_or(x)]; *m = ys[..3].to_vec(); ens!(p, "C03", it.next() == Some(ys[3]), "enum_vec![it.next(), it.next(), it.next()] took another number of elements than three"); } 0 => { *v = enum_vec![x; n]; *m = vec![x; n]; } 1 => { let y = N::pick(g); *v = enum_vec![x, y, x]; *m = vec![x, y, x]; } _ => { *v = enum_vec![]; m.clear(); } },
              "from_slice" => { *v = EnumVec::from_slice(&e); *m = e; }
              "collect" => { *v = match g.b(3) { 0 => e.iter().cloned().collect(), 1 => e.iter().cloned().filter(|_| true).collect(), _ => Hint { it: e.clone().into_iter(), lo: 0, hi: Some(n + 3) }.collect() }; *m = e; }
              _ => { *v = e.clone().into(); ens!(p, "C03", obs(v) == e, "conversion from Vec gave {:?}, expected {:?}", obs(v), e);
                     let w = v.clone(); let b: Vec<N<K>> = w.into(); ens!(p, "C03", b == e, "conversion into Vec gave {:?}, expected {:?}", b, e); *m = e; } }
            ens!(p, "C08", v.storage().len() <= blocks(m.len(), epb) + 1, "{}: {} elements of {} bits take {} blocks of {} bits", op, m.len(), bits, v.storage().len(), WIDTH); }
        "retain" => { done = "C03"; let k = g.b(5); let y = if m.len() > 0 { m[at] } else { x }; lg.op(|| format!("v.retain(keep kind {} {:?}) [len {}]", k, y, m.len()));
            let mut c = 0; let mut seen = vec![]; let mut f = |e: &N<K>, s: &mut Vec<N<K>>| { c += 1; s.push(*e); match k { 0 => *e == y, 1 => *e != y, 2 => c % 2 == 0, 3 => c % 3 != 0, _ => e.0 < K / 2 } };
            let want_seen = m.clone();
            v.retain(|e| f(e, &mut seen)); ens!(p, "C03", seen == want_seen, "retain() showed {:?} to the predicate, the elements are {:?}", seen, want_seen);
            let mut c = 0; m.retain(|e| { c += 1; match k { 0 => *e == y, 1 => *e != y, 2 => c % 2 == 0, 3 => c % 3 != 0, _ => e.0 < K / 2 } }); }
        "reserve" => { done = "C08"; lg.op(|| format!("v.reserve({}) [len {}]", n, m.len())); v.reserve(n);
            ens!(p, "C08", v.capacity() >= m.len() + n, "reserve({}) at length {}: capacity {}", n, m.len(), v.capacity());
            ens!(p, "C08", v.storage().len() <= before.max(blocks(m.len() + n, epb) + 1), "reserve({}) at length {}: {} blocks", n, m.len(), v.storage().len()); }
        "reserve_big" => { done = "C08"; let a = match g.b(3) { 0 => usize::MAX, 1 => usize::MAX - m.len(), _ => usize::MAX - g.b(m.len() + 2) }; lg.op(|| format!("v.reserve({}) [len {}]", a, m.len()));
            if epb == 1 || m.len().checked_add(a).is_none() { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.reserve(a)));
            ens!(p, "C08", r.is_err(), "reserve({}) at length {} returned with capacity {}", a, m.len(), v.capacity()); } }
        "shrink" => { done = "C08"; lg.op(|| "v.shrink_to_fit()".into()); v.shrink_to_fit();
            ens!(p, "C08", v.storage().len() == blocks(m.len(), epb), "shrink_to_fit(): {} elements of {} bits take {} blocks of {} bits", m.len(), bits, v.storage().len(), WIDTH);
            ens!(p, "C08", SMALL || v.storage().capacity() == blocks(m.len(), epb), "shrink_to_fit(): {} blocks stay allocated for {} elements of {} bits", v.storage().capacity(), m.len(), bits); }
        "cap" => { done = "C08"; lg.op(|| "v.capacity()".into()); let c = v.storage().capacity().saturating_mul(epb); ens!(p, "C08", v.capacity() == c, "capacity() is {} with {} blocks allocated of {} elements each", v.capacity(), v.storage().capacity(), epb);
            let c = v.capacity(); if c < 2000 { let q = v.storage().as_ptr(); let mut w = 0; while v.len() < c { v.push(x); m.push(x); w += 1; } lg.op(|| format!("push {} elements up to the capacity", w));
              ens!(p, "C08", v.storage().as_ptr() == q, "pushing up to the reported capacity {} reallocated", c); } }
        "any" => { done = "C04"; let xs = cand(g, m, x); for x in xs { lg.op(|| format!("v.any({:?}) [{:?}]", x, m)); let a = v.any(x); let b = m.iter().any(|y| *y == x); ens!(p, "C04", a == b, "any({:?}) is {}, expected {}", x, a, b); } }
        "all" => { done = "C04"; if g.b(2) == 0 && m.len() > 0 { let y = m[at]; let n = m.len(); lg.op(|| format!("v = from_elem({:?}, {}), at most one changed", y, n)); *v = EnumVec::from_elem(y, n); *m = vec![y; n]; if g.b(2) == 0 { v.set(at, x); m[at] = x; } }
            let xs = cand(g, m, x); for x in xs { lg.op(|| format!("v.all({:?}) [{:?}]", x, m)); let a = v.all(x); let b = m.iter().all(|y| *y == x); ens!(p, "C04", a == b, "all({:?}) is {}, expected {}", x, a, b); } }
        "iter" => { done = "C05"; let mut it = v.iter(); let mut w: std::collections::VecDeque<N<K>> = m.iter().cloned().collect();
            let rf: Vec<N<K>> = (&*v).into_iter().collect(); ens!(p, "C05", rf == *m, "for x in &v yields {:?}, expected {:?}", rf, m);
            for _ in 0..g.b(12) + 1 { let n = g.b(5).min(g.b(40)); let c = if g.b(3) == 0 { 3 } else { g.b(6) }; lg.op(|| format!("iter() of {} elements: {}", m.len(), ["next()", "next_back()", "size_hint()", "nth", "len()", "next()"][c]));
              match c { 0 | 5 => { let a = it.next(); let b = w.pop_front(); ens!(p, "C05", a == b, "iter().next() is {:?}, expected {:?}", a, b); }
                1 => { let a = it.next_back(); let b = w.pop_back(); ens!(p, "C05", a == b, "iter().next_back() is {:?}, expected {:?}", a, b); }
                2 => { ens!(p, "C05", it.size_hint() == (w.len(), Some(w.len())), "iter().size_hint() is {:?} with {} left", it.size_hint(), w.len()); }
                3 => { let a = it.nth(n); for _ in 0..n { w.pop_front(); } let b = w.pop_front(); ens!(p, "C05", a == b, "iter().nth({}) is {:?}, expected {:?}", n, a, b); }
                _ => { ens!(p, "C05", it.len() == w.len(), "iter().len() is {} with {} left", it.len(), w.len()); } } }
            let mut it2 = v.iter(); let mut w2 = m.len(); for _ in 0..g.b(m.len() + 1) { it2.next(); w2 -= 1; } let c = it2.count(); ens!(p, "C05", c == w2, "iter().count() is {} with {} left", c, w2);
            if g.b(4) == 0 { let a = it.nth(usize::MAX); ens!(p, "C05", a == None && it.next() == None, "iter().nth(usize::MAX) is {:?}", a); }
            else { let w: Vec<N<K>> = w.into(); let k = g.b(9); lg.op(|| format!("iter() then {}", ["collect", "collect", "count", "last", "rev", "fold", "nth_back", "rfold", "step_by"][k])); match k {
                2 => { let c = it.count(); ens!(p, "C05", c == w.len(), "iter().count() is {} with {} left", c, w.len()); }
                3 => { let c = it.last(); ens!(p, "C05", c == w.last().cloned(), "iter().last() is {:?} with {:?} left", c, w); }
                4 => { let rest: Vec<N<K>> = it.rev().collect(); ens!(p, "C05", rest.iter().eq(w.iter().rev()), "iter().rev() yields {:?} with {:?} left", rest, w); }
                5 => { let rest = it.fold(Vec::new(), |mut a, x| { a.push(x); a }); ens!(p, "C05", rest == w, "iter().fold() sees {:?}, expected {:?}", rest, w); }
                6 => { let n = g.b(w.len() + 2); let a = it.nth_back(n); let e = if n < w.len() { Some(w[w.len() - 1 - n]) } else { None }; ens!(p, "C05", a == e, "iter().nth_back({}) is {:?} with {:?} left", n, a, w);
                    let rest: Vec<N<K>> = it.collect(); ens!(p, "C05", rest[..] == w[..w.len().saturating_sub(n + 1)], "after nth_back({}) {:?} is left of {:?}", n, rest, w); }
                7 => { let rest = it.rfold(Vec::new(), |mut a, x| { a.push(x); a }); ens!(p, "C05", rest.iter().eq(w.iter().rev()), "iter().rfold() sees {:?} with {:?} left", rest, w); }
                8 => { let n = g.b(5) + 1; let rest: Vec<N<K>> = it.skip(n - 1).step_by(n).collect(); ens!(p, "C05", rest.iter().eq(w.iter().skip(n - 1).step_by(n)), "iter().skip({}).step_by({}) yields {:?} with {:?} left", n - 1, n, rest, w); }
                _ => { let rest: Vec<N<K>> = it.collect(); ens!(p, "C05", rest == w, "iter() yields the rest {:?}, expected {:?}", rest, w); } } } }
        "into_iter" => { done = "C05"; let mut it = v.clone().into_iter(); let mut w: std::collections::VecDeque<N<K>> = m.iter().cloned().collect();
            for _ in 0..g.b(12) + 1 { let n = g.b(5).min(g.b(40)); let c = if g.b(3) == 0 { 3 } else { g.b(6) }; lg.op(|| format!("into_iter() of {} elements: {}", m.len(), ["next()", "next_back()", "size_hint()", "nth", "len()", "next()"][c]));
              match c { 0 | 5 => { let a = it.next(); let b = w.pop_front(); ens!(p, "C05", a == b, "into_iter().next() is {:?}, expected {:?}", a, b); }
                1 => { let a = it.next_back(); let b = w.pop_back(); ens!(p, "C05", a == b, "into_iter().next_back() is {:?}, expected {:?}", a, b); }
                2 => { ens!(p, "C05", it.size_hint() == (w.len(), Some(w.len())), "into_iter().size_hint() is {:?} with {} left", it.size_hint(), w.len()); }
                3 => { let a = it.nth(n); for _ in 0..n { w.pop_front(); } let b = w.pop_front(); ens!(p, "C05", a == b, "into_iter().nth({}) is {:?}, expected {:?}", n, a, b); }
                _ => { ens!(p, "C05", it.len() == w.len(), "into_iter().len() is {} with {} left", it.len(), w.len()); } } }
            let mut it2 = v.clone().into_iter(); let mut w2 = m.len(); for _ in 0..g.b(m.len() + 1) { it2.next(); w2 -= 1; } let c = it2.count(); ens!(p, "C05", c == w2, "into_iter().count() is {} with {} left", c, w2);
            if g.b(4) == 0 { let a = it.nth(usize::MAX); ens!(p, "C05", a == None && it.next() == None, "into_iter().nth(usize::MAX) is {:?}", a); }
            else { let w: Vec<N<K>> = w.into(); let k = g.b(9); lg.op(|| format!("iter() then {}", ["collect", "collect", "count", "last", "rev", "fold", "nth_back", "rfold", "step_by"][k])); match k {
                2 => { let c = it.count(); ens!(p, "C05", c == w.len(), "into_iter().count() is {} with {} left", c, w.len()); }
                3 => { let c = it.last(); ens!(p, "C05", c == w.last().cloned(), "into_iter().last() is {:?} with {:?} left", c, w); }
                4 => { let rest: Vec<N<K>> = it.rev().collect(); ens!(p, "C05", rest.iter().eq(w.iter().rev()), "into_iter().rev() yields {:?} with {:?} left", rest, w); }
                5 => { let rest = it.fold(Vec::new(), |mut a, x| { a.push(x); a }); ens!(p, "C05", rest == w, "into_iter().fold() sees {:?}, expected {:?}", rest, w); }
                6 => { let n = g.b(w.len() + 2); let a = it.nth_back(n); let e = if n < w.len() { Some(w[w.len() - 1 - n]) } else { None }; ens!(p, "C05", a == e, "into_iter().nth_back({}) is {:?} with {:?} left", n, a, w);
                    let rest: Vec<N<K>> = it.collect(); ens!(p, "C05", rest[..] == w[..w.len().saturating_sub(n + 1)], "after nth_back({}) {:?} is left of {:?}", n, rest, w); }
                7 => { let rest = it.rfold(Vec::new(), |mut a, x| { a.push(x); a }); ens!(p, "C05", rest.iter().eq(w.iter().rev()), "into_iter().rfold() sees {:?} with {:?} left", rest, w); }
                8 => { let n = g.b(5) + 1; let rest: Vec<N<K>> = it.skip(n - 1).step_by(n).collect(); ens!(p, "C05", rest.iter().eq(w.iter().skip(n - 1).step_by(n)), "into_iter().skip({}).step_by({}) yields {:?} with {:?} left", n - 1, n, rest, w); }
                _ => { let rest: Vec<N<K>> = it.collect(); ens!(p, "C05", rest == w, "into_iter() yields the rest {:?}, expected {:?}", rest, w); } } } }
        "debug" => { done = "C15"; lg.op(|| format!("debug() of {:?}", m));
            let (a, b) = (format!("{:?}", v), format!("{:?}", m)); ens!(p, "C15", a == b, "{{:?}} prints {}, expected {}", a, b);
            let (a, b) = (format!("{:#?}", v), format!("{:#?}", m)); ens!(p, "C15", a == b, "{{:#?}} prints {}, expected {}", a, b); }
        "to_vec" => { done = "C05"; lg.op(|| "v.to_vec()".into()); let a = v.to_vec(); ens!(p, "C05", a == *m, "to_vec() is {:?}, expected {:?}", a, m); }
        "for_each" => { done = "C05"; let k = g.b(4); lg.op(|| format!("v.for_each(kind {}) [len {}]", k, m.len())); let mut c = 0; let mut seen = vec![]; let was = m.clone();
            v.for_each(|e| { seen.push(*e); c += 1; if k == 0 || k == 1 && c % 2 == 0 { *e = N(K - 1 - e.0) } else if k == 2 { *e = N(c % K) } });
            ens!(p, "C05", seen == was, "for_each() visited {:?}, expected {:?}", seen, was);
            let mut c = 0; for e in m.iter_mut() { c += 1; if k == 0 || k == 1 && c % 2 == 0 { *e = N(K - 1 - e.0) } else if k == 2 { *e = N(c % K) } } }
        "eq" | "hash" | "clone" => { done = "C06"; lg.op(|| format!("{} on {:?} and other histories", op, m));
            let c = if g.b(3) == 0 { let mut c: V<K> = EnumVec::from_elem(x, n); c.clone_from(v); c } else { v.clone() }; ens!(p, "C06", obs(&c) == *m && c == *v, "clone() is {:?}, expected {:?}", obs(&c), m);
            let mut c2 = v.clone(); c2.push(x); if m.len() > 0 { c2.set(0, x); } ens!(p, "C06", obs(v) == *m, "changing a clone changed the original");
            let mut o: Vec<N<K>> = m.clone(); let mut w: V<K> = match g.b(5) { 0 => o.iter().cloned().collect(), 1 => { let mut w: V<K> = EnumVec::with_capacity(o.len() + n); for y in &o { w.push(*y) } w }, 2 => { let mut w = c.clone(); for _ in 0..n { w.push(x) } w.truncate(o.len()); w },
                3 => { let mut w = c.clone(); w.reserve(n); w } _ => { let mut w: V<K> = EnumVec::from_elem(N(K - 1), o.len() + epb + 1); w.truncate(o.len()); for i in 0..o.len() { w.set(i, o[i]) } w } };
            ens!(p, "C06", w == *v && *v == w && !(w != *v), "two vectors with the elements {:?} are not equal", m);
            let (ha, hb) = (feed(v), feed(&w)); ens!(p, "C06", ha.1 == hb.1 && ha.0 == hb.0, "two equal vectors {:?} feed {:?} and {:?} to the hasher", m, ha.0, hb.0);
            match g.b(4) { 0 => { w.push(x); o.push(x) } 1 => { w.pop(); o.pop(); } 2 => if o.len() > 0 { let y = N::pick(g); w.set(at, y); o[at] = y } _ => if o.len() > 0 { let i = o.len() - 1; w.set(i, x); o[i] = x } }
            ens!(p, "C06", (w == *v) == (o == *m) && (*v == w) == (o == *m) && (w != *v) == (o != *m), "{:?} == {:?} is {}", o, m, w == *v);
            if o == *m { let (ha, hb) = (feed(v), feed(&w)); ens!(p, "C06", ha.1 == hb.1, "two equal vectors {:?} hash differently", m); } }
        "oob" => { done = "C09"; let l = m.len(); let e = match g.b(6) { 0 => l + 1, 1 => l + epb, 2 => l + g.b(200), 3 => usize::MAX, 4 => usize::MAX - g.b(3), _ => (blocks(l, epb) * epb).max(l) };
            let k = g.b(8); let nm = ["get", "set", "swap", "swap_remove", "insert", "remove", "split_off", "swap"][k];
            let e1 = if k == 4 || k == 6 { if e == l { l + 1 } else { e } } else { if g.b(3) == 0 { l } else { e } };
            lg.op(|| format!("v.{}({}) [len {}]", nm, e1, l));
            if nm == "get" { ens!(p, "C09", v.get(e1) == None, "get({}) on {} elements returned {:?}", e1, l, v.get(e1)); }
            else { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match k { 1 => v.set(e1, x), 2 => v.swap(at, e1), 3 => { v.swap_remove(e1); } 4 => v.insert(e1, x), 5 => { v.remove(e1); } 6 => { v.split_off(e1); } _ => v.swap(e1, at) }));
              ens!(p, "C09", r.is_err(), "{}({}) on {} elements returned instead of panicking", nm, e1, l); }
            if p == "C09" && obs(v) != *m { return Err(Stop::Other) } }
        "lying" => { done = "C07"; lg.op(|| "v.extend(iterator with a wrong size_hint)".into()); let e: Vec<N<K>> = (0..n).map(|_| N::pick(g)).collect(); let k = g.b(2); let lo = match g.b(3) { 0 => n + 50, 1 if k == 0 && m.len() > 0 => usize::MAX, _ => 0 };
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if k == 0 { v.extend(Hint { it: e.clone().into_iter(), lo, hi: Some(0) }) } else { *v = Hint { it: e.clone().into_iter(), lo, hi: Some(0) }.collect() })); *m = obs(v); }
        "panicky" => { done = "C07"; let k = g.b(3); let s = g.b(m.len() + 1); lg.op(|| format!("a callback panics at step {} [kind {}]", s, k)); let mut c = 0;
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match k { 0 => v.retain(|_| { c += 1; if c > s { panic!() } c % 2 == 0 }), 1 => v.for_each(|e| { c += 1; if c > s { panic!() } *e = x; }), _ => v.extend((0..n + 1).map(|i| { if i > s { panic!() } x })) })); *m = obs(v); }
        _ => unreachable!("{}", op),
    }
    if wild { lg.own += 1; let _ = obs(v); *m = v.to_vec(); return Ok(()); }
    if own(p, done) { lg.own += 1 }
    let o = obs(v);
    if o != *m { return if own(p, done) { Err(Stop::Bad(format!("the vector is {:?}, expected {:?}", o, m))) } else { Err(Stop::Other) } }
    Ok(())
}

fn cand<const K: usize>(g: &mut Rng, m: &[N<K>], x: N<K>) -> Vec<N<K>> {
    let mut r = vec![x, N(0), N(K - 1)];
    if m.len() > 0 { let i = g.b(m.len()); r.push(m[i]); r.push(m[m.len() - 1]); r.push(m[0]); let y = m[i]; r.push(N((y.0 ^ 1) % K)); }
    if K <= 8 { r.extend((0..K).map(N)) }
    r
}

pub fn history<const K: usize>(p: &str, seed: u64, steps: usize, lg: &mut Log) -> Result<(), String> {
    let mut g = Rng::new(seed ^ ((K as u64) << 7));
    let mut v: V<K> = EnumVec::new();
    let mut m: Vec<N<K>> = vec![];
    BAD.with(|b| *b.borrow_mut() = None);
    for _ in 0..steps {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step::<K>(p, &mut g, &mut v, &mut m, lg)));
        if let Some(b) = BAD.with(|b| b.borrow_mut().take()) { if p == "C07" { return Err(b) } }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(Stop::Bad(s))) => return Err(s),
            Ok(Err(Stop::Other)) => return Ok(()),
            Err(e) => {
                let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if p == "C07" { let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m = obs(&v); })); if let Some(b) = BAD.with(|b| b.borrow_mut().take()) { return Err(b) } if r.is_err() { return Ok(()) } continue }
                if own_op(p, lg.last()) { return Err(format!("panicked: {}", s)) }
                return Ok(());
            }
        }
    }
    Ok(())
}

pub fn run(p: &str, seed: u64, quick: usize, only: Option<(usize, u64, usize)>, ks: &[usize]) -> bool {
    let _ = ks;
    let mut bad = false;
    KCASES!(p, seed, quick, only, bad);
    bad
}

fn case<const K: usize>(p: &str, seed: u64, quick: usize, only: Option<(usize, u64, usize)>, bad: &mut bool) {
    if *bad { return }
    if let Some((k, s, n)) = only {
        if k != K { return }
        let mut lg = Log::new(true);
        if let Err(e) = history::<K>(p, s, n, &mut lg) { println!("FAIL {} K={} seed={} steps={}\n  {}\n  => {}", NAME, K, s, n, lg.ops.join("\n  "), e); *bad = true }
        return
    }
    for (steps, reps) in [(1usize, 30usize), (2, 60), (3, 80), (5, 100), (9, 80), (20, 40)] {
        for r in 0..reps * quick {
            let s = seed.wrapping_mul(1_000_003).wrapping_add((steps * 100_000 + r) as u64);
            CASES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            mark(NAME, K, s, steps);
            let sample = r == 1 && (steps == 2 || steps == 5) && (K == 5 || K == 2);
            let mut lg = Log::new(sample); lg.quiet = true;
            let res = history::<K>(p, s, steps, &mut lg);
            if lg.own > 0 { NONTRIV.fetch_add(1, std::sync::atomic::Ordering::Relaxed); }
            if sample { println!("SAMPLE {} K={}: {}", NAME, K, lg.ops.join("; ")) }
            if let Err(e) = res {
                let mut lg = Log::new(true);
                let e2 = history::<K>(p, s, steps, &mut lg).err().unwrap_or(e);
                println!("FAIL {} K={} seed={} steps={}\n  {}\n  => {}", NAME, K, s, steps, lg.ops.join("\n  "), e2);
                *bad = true; return
            }
        }
    }
}
