pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub proof fn lemma_p2_unfold(n: nat) requires n > 0, ensures p2(n) == 2 * p2((n - 1) as nat) { }
pub proof fn lemma_p2_pos(n: nat) ensures p2(n) > 0 decreases n { if n > 0 { lemma_p2_pos((n - 1) as nat); } }
pub proof fn lemma_p2_mono(m: nat, n: nat) requires m < n, ensures p2(m) < p2(n) decreases n { lemma_p2_pos((n - 1) as nat); if m < n - 1 { lemma_p2_mono(m, (n - 1) as nat); } }
// ---- block-level bit lemmas (all proved) -------------------------------------
pub open spec fn mk(b: int) -> Blk { (!0@BLK@) >> ((@W@ - b) as Blk) }
#[verifier::opaque]
pub open spec fn el(x: Blk, o: int, b: int) -> Blk { (x >> (o as Blk)) & mk(b) }

pub open spec fn bits_for(n: nat) -> nat decreases n { if n <= 1 { 0 } else { 1 + bits_for((n + 1) / 2) } }

pub proof fn lemma_bits_for(n: nat, k: nat)
    requires 1 <= k, p2((k - 1) as nat) < n <= p2(k),
    ensures bits_for(n) == k,
    decreases k,
{
    
    lemma_p2_unfold(k);
    reveal_with_fuel(bits_for, 2);
    if k == 1 {
        assert(p2(0) == 1) by (compute_only);
        assert(n == 2);
        assert(bits_for(1) == 0);
    } else {
        lemma_p2_unfold((k - 1) as nat);
        lemma_p2_pos((k - 2) as nat);
        lemma_bits_for((n + 1) / 2, (k - 1) as nat);
    }
}

pub proof fn lemma_bits_range(n: nat) -> (k: nat)
    requires n >= 2,
    ensures k == bits_for(n), 1 <= k, p2((k - 1) as nat) < n <= p2(k),
    decreases n,
{
    
    reveal_with_fuel(bits_for, 2);
    assert(p2(0) == 1) by (compute_only);
    assert(p2(1) == 2) by (compute_only);
    if n == 2 { assert(bits_for(1) == 0); 1 }
    else {
        let k0 = lemma_bits_range((n + 1) / 2);
        lemma_p2_unfold(k0 + 1);
        lemma_p2_unfold(k0);
        k0 + 1
    }
}

pub proof fn lemma_mk(b: int)
    requires 1 <= b <= @W@,
    ensures mk(b) as int == p2(b as nat) - 1,
{
@MKCASES@
}

pub proof fn lemma_el_le(x: Blk, o: int, b: int)
    ensures el(x, o, b) <= mk(b),
{
    reveal(el);
    let m = mk(b);
    let y = x >> (o as Blk);
    assert(y & m <= m) by (bit_vector);
}

pub proof fn lemma_par(b: int)
    requires 1 <= b <= @W@,
    ensures 1 <= @W@int / b <= @W@, (@W@int / b) * b <= @W@, @W@int < (@W@int / b) * b + b,
{
    assert(1 <= @W@int / b <= @W@ && (@W@int / b) * b <= @W@ && @W@int < (@W@int / b) * b + b) by (nonlinear_arith) requires 1 <= b <= @W@;
}

pub proof fn lemma_off(j: int, b: int)
    requires 1 <= b <= @W@, 0 <= j < @W@int / b,
    ensures 0 <= j * b, j * b + b <= @W@,
{
    lemma_par(b);
    assert(0 <= j * b && j * b + b <= (@W@int / b) * b) by (nonlinear_arith) requires 0 <= j, j + 1 <= @W@int / b, 1 <= b;
}

pub proof fn lemma_order(j: int, k: int, b: int)
    requires 1 <= b, j < k,
    ensures j * b + b <= k * b,
{
    assert(j * b + b <= k * b) by (nonlinear_arith) requires j + 1 <= k, 1 <= b;
}

pub open spec fn put(x: Blk, o: int, b: int, d: Blk) -> Blk { (x & !(mk(b) << (o as Blk))) | (d << (o as Blk)) }

pub proof fn lemma_put_same(x: Blk, o: int, b: int, d: Blk)
    requires 1 <= b <= @W@, 0 <= o, o + b <= @W@, d <= mk(b),
    ensures el(put(x, o, b, d), o, b) == d,
{
    reveal(el);
    let oo = o as Blk; let bb = b as Blk;
    assert(((((x & !((!0@BLK@ >> sub(@W@@BLK@, bb)) << oo)) | (d << oo))) >> oo) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == d) by (bit_vector)
        requires 1 <= bb <= @W@, oo <= @W@, add(oo, bb) <= @W@, d <= !0@BLK@ >> sub(@W@@BLK@, bb);
}

pub proof fn lemma_put_other(x: Blk, o: int, b: int, d: Blk, p: int)
    requires 1 <= b <= @W@, 0 <= o, o + b <= @W@, 0 <= p, p + b <= @W@, p + b <= o || o + b <= p, d <= mk(b),
    ensures el(put(x, o, b, d), p, b) == el(x, p, b),
{
    reveal(el);
    let oo = o as Blk; let bb = b as Blk; let pp = p as Blk;
    assert(((((x & !((!0@BLK@ >> sub(@W@@BLK@, bb)) << oo)) | (d << oo))) >> pp) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == (x >> pp) & (!0@BLK@ >> sub(@W@@BLK@, bb))) by (bit_vector)
        requires 1 <= bb <= @W@, oo <= @W@, pp <= @W@, add(oo, bb) <= @W@, add(pp, bb) <= @W@, add(pp, bb) <= oo || add(oo, bb) <= pp, d <= !0@BLK@ >> sub(@W@@BLK@, bb);
}

// shift one element up: ((x << (b-1)) << 1) | z
pub open spec fn shl_blk(x: Blk, b: int, z: Blk) -> Blk { ((x << ((b - 1) as Blk)) << 1@BLK@) | z }
pub proof fn lemma_shl(x: Blk, b: int, z: Blk)
    requires 1 <= b <= @W@, z <= mk(b),
    ensures el(shl_blk(x, b, z), 0, b) == z,
        forall|j: int| 1 <= j < @W@int / b ==> #[trigger] el(shl_blk(x, b, z), j * b, b) == el(x, (j - 1) * b, b),
{
    let bb = b as Blk;
    assert(el(shl_blk(x, b, z), 0, b) == z) by {
        reveal(el);
        assert((((x << sub(bb, 1)) << 1@BLK@ | z) >> 0@BLK@) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == z) by (bit_vector) requires 1 <= bb <= @W@, z <= !0@BLK@ >> sub(@W@@BLK@, bb);
    }
    assert forall|j: int| 1 <= j < @W@int / b implies #[trigger] el(shl_blk(x, b, z), j * b, b) == el(x, (j - 1) * b, b) by {
        reveal(el);
        lemma_off(j, b);
        lemma_off(j - 1, b);
        assert(j * b == (j - 1) * b + b) by (nonlinear_arith);
        let oo = ((j - 1) * b) as Blk;
        assert((((x << sub(bb, 1)) << 1@BLK@ | z) >> add(oo, bb)) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == (x >> oo) & (!0@BLK@ >> sub(@W@@BLK@, bb))) by (bit_vector)
            requires 1 <= bb <= @W@, oo <= @W@, add(oo, add(bb, bb)) <= @W@, z <= !0@BLK@ >> sub(@W@@BLK@, bb), add(oo, bb) <= @W@;
        assert(add(oo, bb) == (j * b) as Blk);
    }
}

// shift one element down, clear the wasted top bits, put z in the last element
pub open spec fn shr_blk(x: Blk, b: int, e: int, z: Blk) -> Blk { (((x >> ((b - 1) as Blk)) >> 1@BLK@) & !(mk(b) << (e as Blk))) | (z << (e as Blk)) }
pub proof fn lemma_shr(x: Blk, b: int, e: int, z: Blk)
    requires 1 <= b <= @W@, z <= mk(b), e == (@W@int / b - 1) * b,
    ensures el(shr_blk(x, b, e, z), e, b) == z,
        forall|j: int| 0 <= j < @W@int / b - 1 ==> #[trigger] el(shr_blk(x, b, e, z), j * b, b) == el(x, (j + 1) * b, b),
{
    let bb = b as Blk;
    lemma_par(b);
    lemma_off(@W@int / b - 1, b);
    let ee = e as Blk;
    let y = (x >> sub(bb, 1)) >> 1@BLK@;
    assert(shr_blk(x, b, e, z) == put(y, e, b, z));
    lemma_put_same(y, e, b, z);
    assert forall|j: int| 0 <= j < @W@int / b - 1 implies #[trigger] el(shr_blk(x, b, e, z), j * b, b) == el(x, (j + 1) * b, b) by {
        lemma_off(j, b);
        lemma_off(j + 1, b);
        lemma_order(j, @W@int / b - 1, b);
        lemma_put_other(y, e, b, z, j * b);
        reveal(el);
        assert((j + 1) * b == j * b + b) by (nonlinear_arith);
        let oo = (j * b) as Blk;
        assert((((x >> sub(bb, 1)) >> 1@BLK@) >> oo) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == (x >> add(oo, bb)) & (!0@BLK@ >> sub(@W@@BLK@, bb))) by (bit_vector)
            requires 1 <= bb <= @W@, oo <= @W@, add(oo, add(bb, bb)) <= @W@, add(oo, bb) <= @W@;
        assert(add(oo, bb) == ((j + 1) * b) as Blk);
    }
}

// ---- sequences of blocks ----------------------------------------------------
#[verifier::opaque]
pub open spec fn raw_at(s: Seq<Blk>, i: int, b: int) -> Blk { el(s[i / (@W@int / b)], (i % (@W@int / b)) * b, b) }

pub open spec fn capn(s: Seq<Blk>, b: int) -> int { s.len() * (@W@int / b) }

pub proof fn lemma_index(i: int, n: int, b: int)
    requires 1 <= b <= @W@, 0 <= i < n * (@W@int / b),
    ensures 0 <= i / (@W@int / b) < n, 0 <= i % (@W@int / b) < @W@int / b,
        0 <= (i % (@W@int / b)) * b, (i % (@W@int / b)) * b + b <= @W@,
        i == (i / (@W@int / b)) * (@W@int / b) + i % (@W@int / b),
{
    lemma_par(b);
    let e = @W@int / b;
    assert(0 <= i / e < n && 0 <= i % e < e && i == (i / e) * e + i % e) by (nonlinear_arith) requires 0 <= i < n * e, 1 <= e;
    lemma_off(i % e, b);
}

pub proof fn lemma_raw_le(s: Seq<Blk>, i: int, b: int)
    ensures raw_at(s, i, b) <= mk(b),
{
    reveal(raw_at);
    lemma_el_le(s[i / (@W@int / b)], (i % (@W@int / b)) * b, b);
}

// position of element j of block q
pub proof fn lemma_pos(q: int, j: int, b: int)
    requires 1 <= b <= @W@, 0 <= q, 0 <= j < @W@int / b,
    ensures (q * (@W@int / b) + j) / (@W@int / b) == q, (q * (@W@int / b) + j) % (@W@int / b) == j,
        q * (@W@int / b) >= 0,
{
    lemma_par(b);
    lemma_fundamental_div_mod_converse(q * (@W@int / b) + j, @W@int / b, q, j);
    assert(q * (@W@int / b) >= 0) by (nonlinear_arith) requires q >= 0, @W@int / b >= 1;
}

pub proof fn lemma_raw_pos(s: Seq<Blk>, q: int, j: int, b: int)
    requires 1 <= b <= @W@, 0 <= q < s.len(), 0 <= j < @W@int / b,
    ensures raw_at(s, q * (@W@int / b) + j, b) == el(s[q], j * b, b), 0 <= q * (@W@int / b) + j < capn(s, b),
{
    lemma_pos(q, j, b);
    reveal(raw_at);
    assert(q * (@W@int / b) + j < s.len() * (@W@int / b)) by (nonlinear_arith) requires 0 <= q, q + 1 <= s.len(), 0 <= j < @W@int / b;
}

pub proof fn lemma_put_raw(s: Seq<Blk>, i: int, d: Blk, b: int)
    requires 1 <= b <= @W@, 0 <= i < capn(s, b), d <= mk(b),
    ensures ({
        let q = i / (@W@int / b); let o = (i % (@W@int / b)) * b;
        let t = s.update(q, put(s[q], o, b, d));
        &&& raw_at(t, i, b) == d
        &&& forall|k: int| 0 <= k < capn(s, b) && k != i ==> #[trigger] raw_at(t, k, b) == raw_at(s, k, b)
    }),
{
    let e = @W@int / b;
    let q = i / e; let o = (i % e) * b;
    let t = s.update(q, put(s[q], o, b, d));
    lemma_index(i, s.len() as int, b);
    reveal(raw_at);
    lemma_put_same(s[q], o, b, d);
    assert forall|k: int| 0 <= k < capn(s, b) && k != i implies #[trigger] raw_at(t, k, b) == raw_at(s, k, b) by {
        lemma_index(k, s.len() as int, b);
        if k / e == q {
            let jk = k % e; let ji = i % e;
            assert(jk != ji);
            if jk < ji { lemma_order(jk, ji, b); } else { lemma_order(ji, jk, b); }
            lemma_put_other(s[q], o, b, d, jk * b);
        }
    }
}

// equal blocks hold equal elements
pub proof fn lemma_raw_ext(s: Seq<Blk>, t: Seq<Blk>, b: int)
    requires 1 <= b <= @W@,
    ensures forall|k: int| 0 <= k < capn(s, b) && 0 <= k < capn(t, b) && s[k / (@W@int / b)] == t[k / (@W@int / b)] ==> #[trigger] raw_at(s, k, b) == raw_at(t, k, b),
{
    reveal(raw_at);
}

// a common prefix of blocks holds the same elements
pub proof fn lemma_raw_prefix(s: Seq<Blk>, t: Seq<Blk>, n: int, b: int)
    requires 1 <= b <= @W@, 0 <= n <= s.len(), n <= t.len(), forall|q: int| 0 <= q < n ==> s[q] == t[q],
    ensures forall|k: int| 0 <= k < n * (@W@int / b) ==> #[trigger] raw_at(s, k, b) == raw_at(t, k, b),
{
    reveal(raw_at);
    assert forall|k: int| 0 <= k < n * (@W@int / b) implies #[trigger] raw_at(s, k, b) == raw_at(t, k, b) by {
        lemma_index(k, n, b);
    }
}

// blocks needed for n elements
pub open spec fn blocks(n: int, b: int) -> int { (n + @W@int / b - 1) / (@W@int / b) }

pub proof fn lemma_blocks(n: int, b: int)
    requires 1 <= b <= @W@, 0 <= n,
    ensures 0 <= blocks(n, b) <= n, n <= blocks(n, b) * (@W@int / b), blocks(n, b) * (@W@int / b) < n + @W@int / b,
        blocks(n, b) <= n / (@W@int / b) + 1,
        forall|m: int| 0 <= m && n <= #[trigger] (m * (@W@int / b)) ==> blocks(n, b) <= m,
        n % (@W@int / b) == 0 ==> blocks(n, b) * (@W@int / b) == n && blocks(n, b) == n / (@W@int / b),
        n % (@W@int / b) != 0 ==> blocks(n, b) == n / (@W@int / b) + 1,
{
    lemma_par(b);
    let e = @W@int / b;
    let q = (n + e - 1) / e;
    assert(0 <= q && n <= q * e && q * e < n + e && q <= n) by (nonlinear_arith) requires q == (n + e - 1) / e, 0 <= n, 1 <= e;
    assert forall|m: int| 0 <= m && n <= #[trigger] (m * e) implies q <= m by {
        assert(q <= m) by (nonlinear_arith) requires q * e < n + e, n <= m * e, 1 <= e;
    }
    lemma_fundamental_div_mod(n, e);
    let d = n / e;
    assert(e * d == d * e) by (nonlinear_arith);
    assert(0 <= n % e < e) by (nonlinear_arith) requires 1 <= e, 0 <= n;
    assert(q <= d + 1) by (nonlinear_arith) requires q * e < n + e, n < d * e + e, 1 <= e;
    if n % e == 0 {
        assert(q == d) by (nonlinear_arith) requires q * e < n + e, n <= q * e, n == d * e, 1 <= e;
    } else {
        assert(q == d + 1) by (nonlinear_arith) requires q * e < n + e, n <= q * e, d * e < n, n < d * e + e, 1 <= e;
    }
}

pub proof fn lemma_blocks_mono(n: int, m: int, b: int)
    requires 1 <= b <= @W@, 0 <= n <= m,
    ensures blocks(n, b) <= blocks(m, b),
{
    lemma_par(b);
    lemma_div_is_ordered(n + @W@int / b - 1, m + @W@int / b - 1, @W@int / b);
}

pub proof fn lemma_cap_mono(n: int, m: int, b: int)
    requires 1 <= b <= @W@, 0 <= n <= m,
    ensures n * (@W@int / b) <= m * (@W@int / b), n <= n * (@W@int / b), n * (@W@int / b) <= n * @W@,
{
    lemma_par(b);
    assert(n * (@W@int / b) <= m * (@W@int / b)) by (nonlinear_arith) requires n <= m, 0 <= @W@int / b;
    assert(n <= n * (@W@int / b) && n * (@W@int / b) <= n * @W@) by (nonlinear_arith) requires 0 <= n, 1 <= @W@int / b <= @W@;
}
// ---- searching a whole block at once ------------------------------------------
pub open spec fn one_of(b: int) -> Blk { ((!0@BLK@ as int / mk(b) as int) as Blk) >> ((@W@int % b) as Blk) }
pub open spec fn rep(x: int, b: int, n: nat) -> int decreases n { if n == 0 { 0 } else { rep(x, b, (n - 1) as nat) + x * p2(((n - 1) * b) as nat) } }
pub open spec fn some_zero(v: Blk, b: int) -> bool { exists|j: int| 0 <= j < @W@int / b && #[trigger] el(v, j * b, b) == 0 }
pub open spec fn wsub(v: Blk, o: Blk) -> Blk { sub(v, o) }

pub proof fn lemma_one_of(b: int)
    requires 1 <= b <= @W@,
    ensures one_of(b) as int == rep(1, b, (@W@int / b) as nat),
{
@ONECASES@
}
pub proof fn lemma_p2_add(m: nat, n: nat)
    ensures p2(m + n) == p2(m) * p2(n),
    decreases n,
{
    if n == 0 { assert(p2(0) == 1); assert(p2(m) * 1 == p2(m)); }
    else {
        lemma_p2_add(m, (n - 1) as nat);
        lemma_p2_unfold(n); lemma_p2_unfold(m + n);
        assert(p2(m) * (2 * p2((n - 1) as nat)) == 2 * (p2(m) * p2((n - 1) as nat))) by (nonlinear_arith);
    }
}
pub proof fn lemma_rep_mul(x: int, b: int, n: nat)
    ensures rep(x, b, n) == x * rep(1, b, n),
    decreases n,
{
    if n > 0 {
        lemma_rep_mul(x, b, (n - 1) as nat);
        let p = p2(((n - 1) * b) as nat); let r = rep(1, b, (n - 1) as nat);
        assert(x * (r + 1 * p) == x * r + x * p) by (nonlinear_arith);
    } else { assert(x * 0 == 0) by (nonlinear_arith); }
}
pub proof fn lemma_rep_bound(x: int, b: int, n: nat)
    requires 1 <= b, 0 <= x < p2(b as nat),
    ensures 0 <= rep(x, b, n) < p2((n * b) as nat),
    decreases n,
{
    assert(p2(0) == 1) by (compute_only);
    if n > 0 {
        lemma_rep_bound(x, b, (n - 1) as nat);
        let m = (n - 1) * b;
        assert(m >= 0) by (nonlinear_arith) requires m == (n - 1) * b, n >= 1, b >= 1;
        assert(n * b == m + b) by (nonlinear_arith) requires m == (n - 1) * b;
        lemma_p2_add(m as nat, b as nat);
        lemma_p2_pos(m as nat);
        let p = p2(m as nat); let q = p2(b as nat); let r = rep(x, b, (n - 1) as nat);
        assert(0 <= r + x * p < p * q) by (nonlinear_arith) requires 0 <= r < p, 0 <= x, x + 1 <= q, p > 0;
    } else { assert(n * b == 0) by (nonlinear_arith) requires n == 0; }
}
pub proof fn lemma_shl_mul(d: Blk, o: nat)
    requires o < @W@, d as int * p2(o) < p2(@W@),
    ensures (d << (o as Blk)) as int == d as int * p2(o),
    decreases o,
{
    assert(p2(@W@) == @POW2W@) by (compute_only);
    if o == 0 { assert(p2(0) == 1) by (compute_only); assert(d << 0@BLK@ == d) by (bit_vector); }
    else {
        lemma_p2_unfold(o);
        let p = p2((o - 1) as nat);
        lemma_p2_pos((o - 1) as nat);
        assert(d as int * (2 * p) == 2 * (d as int * p)) by (nonlinear_arith);
        assert(d as int * p >= 0) by (nonlinear_arith) requires d as int >= 0, p > 0;
        lemma_shl_mul(d, (o - 1) as nat);
        let y = d << ((o - 1) as Blk); let oo = o as Blk;
        assert((d << oo) == (d << sub(oo, 1)) << 1@BLK@) by (bit_vector) requires 1 <= oo < @W@;
        assert(y << 1@BLK@ == add(y, y)) by (bit_vector);
    }
}
pub proof fn lemma_rep_el(x: Blk, z: Blk, b: int, n: nat)
    requires 1 <= b <= @W@, x <= mk(b), n <= @W@int / b, z as int == rep(x as int, b, n),
    ensures forall|j: int| 0 <= j < n ==> #[trigger] el(z, j * b, b) == x,
        n * b < @W@ ==> z >> ((n * b) as Blk) == 0,
    decreases n,
{
    lemma_mk(b);
    if n == 0 {
        assert(n * b == 0) by (nonlinear_arith) requires n == 0;
        assert(0@BLK@ >> 0@BLK@ == 0) by (bit_vector);
    } else {
        let m = (n - 1) as nat;
        lemma_rep_bound(x as int, b, m);
        lemma_rep_bound(x as int, b, n);
        lemma_off(m as int, b);
        assert(n * b == m * b + b) by (nonlinear_arith) requires m == n - 1;
        assert(p2(@W@) == @POW2W@) by (compute_only);
        if n * b < @W@ { lemma_p2_mono((n * b) as nat, @W@); }
        let r = rep(x as int, b, m) as Blk;
        let o = (m * b) as Blk; let bb = b as Blk;
        lemma_p2_pos((m * b) as nat);
        assert(x as int * p2((m * b) as nat) >= 0) by (nonlinear_arith) requires x as int >= 0, p2((m * b) as nat) > 0;
        lemma_shl_mul(x, (m * b) as nat);
        lemma_rep_el(x, r, b, m);
        assert(r >> o == 0);
        assert(z as int == r as int + (x << o) as int);
        assert(add(r, x << o) == r | (x << o)) by (bit_vector) requires r >> o == 0, o < @W@;
        assert(z == r | (x << o));
        assert forall|j: int| 0 <= j < n implies #[trigger] el(z, j * b, b) == x by {
            reveal(el);
            lemma_off(j, b);
            let p = (j * b) as Blk;
            if j < m {
                lemma_order(j, m as int, b);
                assert(el(r, j * b, b) == x);
                assert(((r | (x << o)) >> p) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == (r >> p) & (!0@BLK@ >> sub(@W@@BLK@, bb))) by (bit_vector)
                    requires 1 <= bb <= @W@, o < @W@, add(p, bb) <= o, p < @W@, bb <= o;
            } else {
                assert(((r | (x << o)) >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == x) by (bit_vector)
                    requires r >> o == 0, 1 <= bb <= @W@, o < @W@, add(o, bb) <= @W@, x <= !0@BLK@ >> sub(@W@@BLK@, bb);
            }
        }
        if n * b < @W@ {
            assert((r | (x << o)) >> add(o, bb) == 0) by (bit_vector)
                requires r >> o == 0, 1 <= bb < @W@, o < @W@, add(o, bb) < @W@, x <= !0@BLK@ >> sub(@W@@BLK@, bb);
            assert(add(o, bb) == (n * b) as Blk);
        }
    }
}
pub proof fn lemma_masks(x: Blk, b: int)
    requires 1 <= b <= @W@, x <= mk(b),
    ensures
        x as int * one_of(b) as int <= @BLK@::MAX as int,
        forall|j: int| 0 <= j < @W@int / b ==> #[trigger] el((x as int * one_of(b) as int) as Blk, j * b, b) == x,
        (@W@int / b) * b < @W@ ==> ((x as int * one_of(b) as int) as Blk) >> (((@W@int / b) * b) as Blk) == 0,
{
    lemma_par(b); lemma_mk(b); lemma_one_of(b);
    let e = @W@int / b;
    lemma_rep_mul(x as int, b, e as nat);
    lemma_rep_bound(x as int, b, e as nat);
    assert(p2(@W@) == @POW2W@) by (compute_only);
    if e * b < @W@ { lemma_p2_mono((e * b) as nat, @W@); }
    lemma_rep_el(x, (x as int * one_of(b) as int) as Blk, b, e as nat);
}
pub open spec fn high_of(b: int) -> Blk { one_of(b) << ((b - 1) as Blk) }
pub proof fn lemma_high(b: int)
    requires 1 <= b <= @W@,
    ensures
        forall|j: int| 0 <= j < @W@int / b ==> #[trigger] el(one_of(b), j * b, b) == 1,
        forall|j: int| 0 <= j < @W@int / b ==> #[trigger] el(high_of(b), j * b, b) == 1@BLK@ << ((b - 1) as Blk),
        (@W@int / b) * b < @W@ ==> high_of(b) >> (((@W@int / b) * b) as Blk) == 0,
{
    lemma_par(b); lemma_mk(b); lemma_one_of(b);
    let e = @W@int / b; let bb = b as Blk;
    let h = 1@BLK@ << ((b - 1) as Blk);
    assert(p2(@W@) == @POW2W@) by (compute_only);
    lemma_p2_mono((b - 1) as nat, b as nat);
    lemma_p2_pos((b - 1) as nat);
    if b < @W@ { lemma_p2_mono(b as nat, @W@); }
    assert(1 * p2((b - 1) as nat) == p2((b - 1) as nat)) by (nonlinear_arith);
    lemma_shl_mul(1, (b - 1) as nat);
    assert(h <= mk(b));
    lemma_masks(1, b);
    assert(1 * one_of(b) as int == one_of(b) as int) by (nonlinear_arith);
    lemma_masks(h, b);
    assert(h as int * one_of(b) as int == one_of(b) as int * p2((b - 1) as nat)) by (nonlinear_arith) requires h as int == p2((b - 1) as nat);
    lemma_shl_mul(one_of(b), (b - 1) as nat);
    let z = (h as int * one_of(b) as int) as Blk;
    assert(z == high_of(b));
    assert forall|j: int| 0 <= j < e implies #[trigger] el(high_of(b), j * b, b) == h by { assert(el(z, j * b, b) == h); }
}
pub proof fn lemma_sub_shl(v: Blk, w: Blk, s: nat)
    requires s < @W@,
    ensures sub(v, w) << (s as Blk) == sub(v << (s as Blk), w << (s as Blk)),
    decreases s,
{
    if s == 0 {
        assert(v << 0@BLK@ == v && w << 0@BLK@ == w && sub(v, w) << 0@BLK@ == sub(v, w)) by (bit_vector);
    } else {
        lemma_sub_shl(v, w, (s - 1) as nat);
        let t = (s - 1) as Blk; let a = v << t; let c = w << t; let d = sub(v, w);
        let t1 = s as Blk;
        assert(v << t1 == (v << t) << 1@BLK@ && w << t1 == (w << t) << 1@BLK@ && d << t1 == (d << t) << 1@BLK@) by (bit_vector) requires t1 == add(t, 1), t1 < @W@, t < t1;
        assert(sub(a, c) << 1@BLK@ == sub(a << 1@BLK@, c << 1@BLK@)) by (bit_vector);
    }
}
pub open spec fn low(v: Blk, k: Blk) -> Blk { v & !(!0@BLK@ << k) }
pub proof fn lemma_split(v: Blk, k: Blk)
    requires k < @W@,
    ensures v == add((v >> k) << k, low(v, k)), low(v, k) >> k == 0,
{
    let y = (v >> k) << k; let l = low(v, k);
    assert(v == (v >> k) << k | (v & !(!0@BLK@ << k)) && ((v >> k) << k) & (v & !(!0@BLK@ << k)) == 0) by (bit_vector) requires k < @W@;
    assert(add(y, l) == y | l) by (bit_vector) requires y & l == 0;
    assert((v & !(!0@BLK@ << k)) >> k == 0) by (bit_vector) requires k < @W@;
}
// subtraction of words whose low k bits do not borrow
pub proof fn lemma_sub_top(v: Blk, w: Blk, k: Blk)
    requires k < @W@, low(v, k) >= low(w, k),
    ensures sub(v, w) >> k == (sub(v >> k, w >> k) << k) >> k,
{
    let lv = low(v, k); let lw = low(w, k);
    let tv = v >> k; let tw = w >> k;
    let yv = tv << k; let yw = tw << k;
    lemma_split(v, k); lemma_split(w, k);
    assert(sub(add(yv, lv), add(yw, lw)) == add(sub(yv, yw), sub(lv, lw))) by (bit_vector);
    lemma_sub_shl(tv, tw, k as nat);
    let a = sub(tv, tw); let b = sub(lv, lw); let ak = a << k;
    assert(sub(v, w) == add(ak, b));
    assert(sub(lv, lw) <= lv) by (bit_vector) requires lw <= lv;
    assert(b >> k == 0) by (bit_vector) requires b <= lv, lv >> k == 0, k < @W@;
    assert((a << k) & b == 0) by (bit_vector) requires b >> k == 0, k < @W@;
    assert(add(ak, b) == ak | b) by (bit_vector) requires ak & b == 0;
    assert(((a << k) | b) >> k == (a << k) >> k) by (bit_vector) requires b >> k == 0, k < @W@;
}
// the low o bits of v are at least those of the mask of ones
pub open spec fn low_ge(v: Blk, w: Blk, o: int) -> bool { low(v, o as Blk) >= low(w, o as Blk) }
pub proof fn lemma_low_add(v: Blk, o: int, b: int)
    requires 1 <= b, 0 <= o, o + b < @W@,
    ensures low(v, (o + b) as Blk) as int == (el(v, o, b) << (o as Blk)) as int + low(v, o as Blk) as int,
{
    let oo = o as Blk; let bb = b as Blk; let t = (o + b) as Blk;
    reveal(el);
    let p = ((v >> oo) & (!0@BLK@ >> sub(@W@@BLK@, bb))) << oo; let q = low(v, oo);
    assert(v & !(!0@BLK@ << t) == (((v >> oo) & (!0@BLK@ >> sub(@W@@BLK@, bb))) << oo) | (v & !(!0@BLK@ << oo))) by (bit_vector) requires t == add(oo, bb), 1 <= bb < @W@, oo < @W@, t < @W@, oo < t;
    assert((((v >> oo) & (!0@BLK@ >> sub(@W@@BLK@, bb))) << oo) & (v & !(!0@BLK@ << oo)) == 0) by (bit_vector) requires oo < @W@;
    assert((p | q) >= p && sub(p | q, p) == q) by (bit_vector) requires p & q == 0;
}
pub proof fn lemma_low_step(v: Blk, w: Blk, o: int, b: int)
    requires 1 <= b, 0 <= o, o + b < @W@, low_ge(v, w, o), el(v, o, b) != 0, el(w, o, b) == 1,
    ensures low_ge(v, w, o + b),
{
    lemma_low_add(v, o, b); lemma_low_add(w, o, b);
    lemma_el_le(v, o, b);
    let oo = o as Blk; let bb = b as Blk; let x = el(v, o, b); let m = mk(b);
    assert((x << oo) >= (1@BLK@ << oo)) by (bit_vector) requires x != 0, x <= !0@BLK@ >> sub(@W@@BLK@, bb), 1 <= bb < @W@, oo < @W@, add(oo, bb) < @W@, oo < add(oo, bb);
}
// the test, for one element, when the elements below are not zero
pub proof fn lemma_zero_at(v: Blk, w: Blk, h: Blk, o: int, b: int)
    requires 1 <= b, 0 <= o, o + b <= @W@, low_ge(v, w, o), el(w, o, b) == 1, el(h, o, b) == 1@BLK@ << ((b - 1) as Blk),
    ensures (el(wsub(v, w) & !v & h, o, b) == 0) == (el(v, o, b) != 0),
{
    let oo = o as Blk; let bb = b as Blk; let s = (@W@ - b) as Blk;
    lemma_sub_top(v, w, oo);
    let tv = v >> oo; let tw = w >> oo; let x = sub(tv, tw); let m = !0@BLK@ >> s; let d = sub(v, w);
    let ev = tv & m; let ew = tw & m;
    assert(ev == el(v, o, b) && ew == 1) by { reveal(el); }
    assert(((x << oo) >> oo) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == x & (!0@BLK@ >> sub(@W@@BLK@, bb))) by (bit_vector) requires 1 <= bb <= @W@, oo < @W@, add(oo, bb) <= @W@, oo < add(oo, bb);
    assert((d >> oo) & m == x & m);
    lemma_sub_shl(tv, tw, s as nat);
    lemma_sub_shl(ev, ew, s as nat);
    assert(tv << s == (tv & (!0@BLK@ >> s)) << s) by (bit_vector) requires s < @W@;
    assert(tw << s == (tw & (!0@BLK@ >> s)) << s) by (bit_vector) requires s < @W@;
    let y = sub(ev, ew);
    assert(x << s == y << s);
    assert(x & (!0@BLK@ >> s) == y & (!0@BLK@ >> s)) by (bit_vector) requires x << s == y << s, s < @W@;
    let r = wsub(v, w) & !v & h; let he = (h >> oo) & m;
    assert(he == 1@BLK@ << ((b - 1) as Blk)) by { reveal(el); }
    assert(el(r, o, b) == (y & m) & (!ev) & he) by {
        reveal(el);
        assert(((d & !v & h) >> oo) & m == ((d >> oo) & m) & (!((v >> oo) & m)) & ((h >> oo) & m)) by (bit_vector);
    }
    assert(ev <= m) by { lemma_el_le(v, o, b); }
    assert((((sub(ev, 1) & (!0@BLK@ >> sub(@W@@BLK@, bb))) & (!ev) & (1@BLK@ << sub(bb, 1))) == 0) == (ev != 0)) by (bit_vector) requires 1 <= bb <= @W@, ev <= !0@BLK@ >> sub(@W@@BLK@, bb);
}
pub proof fn lemma_low_zero(v: Blk, w: Blk)
    ensures low_ge(v, w, 0),
{
    assert(v & !(!0@BLK@ << 0@BLK@) == 0) by (bit_vector);
    assert(w & !(!0@BLK@ << 0@BLK@) == 0) by (bit_vector);
}
pub proof fn lemma_zero_none(v: Blk, b: int, n: int)
    requires 1 <= b <= @W@, 0 <= n <= @W@int / b, forall|j: int| 0 <= j < n ==> #[trigger] el(v, j * b, b) != 0,
    ensures n * b < @W@ ==> low_ge(v, one_of(b), n * b),
        forall|j: int| 0 <= j < n ==> #[trigger] el(wsub(v, one_of(b)) & !v & high_of(b), j * b, b) == 0,
    decreases n,
{
    if n == 0 {
        assert(0 * b == 0) by (nonlinear_arith);
        lemma_low_zero(v, one_of(b));
    } else {
        lemma_zero_none(v, b, n - 1);
        lemma_off(n - 1, b);
        lemma_high(b);
        assert(n * b == (n - 1) * b + b) by (nonlinear_arith);
        let w = one_of(b); let h = high_of(b);
        assert(el(v, (n - 1) * b, b) != 0);
        assert(el(w, (n - 1) * b, b) == 1);
        assert(el(h, (n - 1) * b, b) == 1@BLK@ << ((b - 1) as Blk));
        lemma_zero_at(v, w, h, (n - 1) * b, b);
        if n * b < @W@ { lemma_low_step(v, w, (n - 1) * b, b); }
        assert forall|j: int| 0 <= j < n implies #[trigger] el(wsub(v, w) & !v & h, j * b, b) == 0 by {
            if j == n - 1 { } else { }
        }
    }
}
pub proof fn lemma_zero_some(v: Blk, b: int, n: int)
    requires 1 <= b <= @W@, 0 <= n < @W@int / b, forall|j: int| 0 <= j < n ==> #[trigger] el(v, j * b, b) != 0, el(v, n * b, b) == 0,
    ensures wsub(v, one_of(b)) & !v & high_of(b) != 0,
{
    lemma_zero_none(v, b, n);
    lemma_off(n, b);
    lemma_high(b);
    let w = one_of(b); let h = high_of(b);
    assert(el(w, n * b, b) == 1);
    assert(el(h, n * b, b) == 1@BLK@ << ((b - 1) as Blk));
    lemma_zero_at(v, w, h, n * b, b);
    let r = wsub(v, w) & !v & h;
    assert(el(r, n * b, b) != 0);
    let o = (n * b) as Blk; let m = mk(b);
    reveal(el);
    assert(r != 0) by (bit_vector) requires (r >> o) & m != 0;
}
pub proof fn lemma_shr_shr(x: Blk, o: int, b: nat)
    requires 0 <= o, o + b < @W@,
    ensures x >> ((o + b) as Blk) == (x >> (o as Blk)) >> (b as Blk),
    decreases b,
{
    let y = x >> (o as Blk);
    if b == 0 { assert(y >> 0@BLK@ == y) by (bit_vector); }
    else {
        lemma_shr_shr(x, o, (b - 1) as nat);
        let t = (o + b - 1) as Blk; let u = (o + b) as Blk; let c = (b - 1) as Blk; let d = b as Blk;
        assert(x >> u == (x >> t) >> 1@BLK@) by (bit_vector) requires u == add(t, 1), t < u, u < @W@;
        assert(y >> d == (y >> c) >> 1@BLK@) by (bit_vector) requires d == add(c, 1), c < d, d < @W@;
    }
}
// words whose first n elements and remaining bits agree are equal
pub proof fn lemma_word_eq(x: Blk, y: Blk, b: int, n: int)
    requires 1 <= b <= @W@, 0 <= n <= @W@int / b, forall|j: int| 0 <= j < n ==> #[trigger] el(x, j * b, b) == el(y, j * b, b),
        n * b < @W@ ==> x >> ((n * b) as Blk) == y >> ((n * b) as Blk),
    ensures x == y,
    decreases n,
{
    if n == 0 {
        assert(0 * b == 0) by (nonlinear_arith);
        assert(x == y) by (bit_vector) requires x >> 0@BLK@ == y >> 0@BLK@;
    } else {
        lemma_off(n - 1, b);
        assert(n * b == (n - 1) * b + b) by (nonlinear_arith);
        let o = ((n - 1) * b) as Blk; let bb = b as Blk;
        assert(el(x, (n - 1) * b, b) == el(y, (n - 1) * b, b));
        reveal(el);
        let p = x >> o; let q = y >> o;
        if n * b < @W@ {
            lemma_shr_shr(x, (n - 1) * b, b as nat); lemma_shr_shr(y, (n - 1) * b, b as nat);
            assert(p == ((p >> bb) << bb) | (p & (!0@BLK@ >> sub(@W@@BLK@, bb)))) by (bit_vector) requires 1 <= bb < @W@;
            assert(q == ((q >> bb) << bb) | (q & (!0@BLK@ >> sub(@W@@BLK@, bb)))) by (bit_vector) requires 1 <= bb < @W@;
        } else {
            assert((x >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == x >> o && (y >> o) & (!0@BLK@ >> sub(@W@@BLK@, bb)) == y >> o) by (bit_vector) requires 1 <= bb <= @W@, o < @W@, add(o, bb) == @W@;
        }
        lemma_word_eq(x, y, b, n - 1);
    }
}
pub proof fn lemma_haszero(v: Blk, b: int)
    requires 1 <= b <= @W@,
    ensures (wsub(v, one_of(b)) & !v & high_of(b) != 0) == some_zero(v, b),
{
    let r = wsub(v, one_of(b)) & !v & high_of(b);
    let e = @W@int / b;
    lemma_par(b);
    if some_zero(v, b) {
        let k = lemma_first_zero(v, b, 0);
        lemma_zero_some(v, b, k);
    } else {
        lemma_zero_none(v, b, e);
        lemma_high(b);
        assert forall|j: int| 0 <= j < e implies #[trigger] el(r, j * b, b) == el(0, j * b, b) by {
            let o = (j * b) as Blk; let m = mk(b);
            reveal(el);
            assert((0@BLK@ >> o) & m == 0) by (bit_vector);
        }
        if e * b < @W@ {
            let o = (e * b) as Blk; let h = high_of(b); let a = wsub(v, one_of(b)) & !v;
            assert((a & h) >> o == 0@BLK@ >> o) by (bit_vector) requires h >> o == 0;
        }
        lemma_word_eq(r, 0, b, e);
    }
}
pub proof fn lemma_first_zero(v: Blk, b: int, i: int) -> (k: int)
    requires 1 <= b <= @W@, 0 <= i <= @W@int / b, some_zero(v, b), forall|j: int| 0 <= j < i ==> #[trigger] el(v, j * b, b) != 0,
    ensures 0 <= k < @W@int / b, el(v, k * b, b) == 0, forall|j: int| 0 <= j < k ==> #[trigger] el(v, j * b, b) != 0,
    decreases @W@int / b - i,
{
    if i == @W@int / b {
        let j = choose|j: int| 0 <= j < @W@int / b && #[trigger] el(v, j * b, b) == 0;
        assert(el(v, j * b, b) != 0);
        0
    } else if el(v, i * b, b) == 0 { i } else {
        lemma_first_zero(v, b, i + 1)
    }
}
pub proof fn lemma_wsub(v: Blk, w: Blk)
    ensures v >= w ==> wsub(v, w) as int == v as int - w as int,
        v < w ==> wsub(v, w) as int == v as int - w as int + @POW2W@,
{
    if v < w {
        assert(sub(v, w) == add(sub(!0@BLK@, sub(w, v)), 1)) by (bit_vector) requires v < w;
        assert(!0@BLK@ == @BLK@::MAX) by (bit_vector);
    }
}
