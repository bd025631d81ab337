pub assume_specification [usize::wrapping_rem] (x: usize, y: usize) -> (r: usize) requires y != 0, ensures r == x % y;
pub assume_specification [usize::wrapping_div] (x: usize, y: usize) -> (r: usize) requires y != 0, ensures r == x / y;

/// The contract every encodable type has to meet (proved below for each impl
/// of the crate; assumed for the component types).
pub trait EnumLike: Sized {
    spec fn nv() -> int;
    spec fn enc(self) -> int;
    spec fn dec(x: int) -> Self;
    /// the constants the type is built from do not overflow
    spec fn fits() -> bool;
    /// a type may have no value at all
    proof fn laws()
        ensures 0 <= Self::nv(), Self::fits() ==> Self::nv() <= usize::MAX,
            forall|v: Self| 0 <= #[trigger] v.enc() < Self::nv(),
            forall|v: Self| Self::dec(#[trigger] v.enc()) == v,
            forall|x: int| 0 <= x < Self::nv() ==> (#[trigger] Self::dec(x)).enc() == x;
    fn NUM_VARIANTS() -> (r: usize) requires Self::fits(), ensures r == Self::nv();
    /// the same constant, of any type: an overflow is refused by the compiler
    /// (the operators below do not return), so what is there is the number of values
    fn NUM_VARIANTS_any() -> (r: usize) ensures r == Self::nv();
    fn to_discr(self) -> (r: usize) requires Self::fits(), ensures r == self.enc();
    fn from_discr(x: usize) -> (r: Self) requires x < Self::nv(), Self::fits(), ensures r == Self::dec(x as int);
}
#[verifier::external_body] pub fn vp_kadd(a: usize, b: usize) -> (r: usize) ensures r == a + b { a + b }
#[verifier::external_body] pub fn vp_ksub(a: usize, b: usize) -> (r: usize) ensures r == a - b { a - b }
#[verifier::external_body] pub fn vp_kmul(a: usize, b: usize) -> (r: usize) ensures r == a * b { a * b }
pub fn vp_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vp_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub proof fn lemma_mul(a: int, b: int)
    requires 0 <= a, 0 <= b, ensures 0 <= a * b, 1 <= a && 1 <= b ==> a <= a * b && b <= a * b
{
    assert(0 <= a * b) by (nonlinear_arith) requires 0 <= a, 0 <= b;
    if 1 <= a && 1 <= b { assert(a <= a*b && b <= a*b) by (nonlinear_arith) requires 1 <= a, 1 <= b; }
}
pub proof fn lemma_pair(x: int, y: int, n: int, m: int)
    requires 0 <= x < n, 0 <= y < m,
    ensures 0 <= x + y * n < n * m, (x + y * n) % n == x, (x + y * n) / n == y, 0 <= y * n <= n * m - n
{
    assert(y * n <= (m - 1) * n) by (nonlinear_arith) requires y <= m - 1, 0 <= n;
    assert((m - 1) * n == n * m - n) by (nonlinear_arith);
    assert(0 <= y * n) by (nonlinear_arith) requires 0 <= y, 0 <= n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x + y * n, n, y, x);
}
pub proof fn lemma_pair2(x: int, n: int, m: int)
    requires 0 <= n, 0 <= m, 0 <= x < n * m,
    ensures 1 <= n, 1 <= m, 0 <= x % n < n, 0 <= x / n < m, x % n + (x / n) * n == x
{
    if n == 0 { assert(n * m == 0) by (nonlinear_arith) requires n == 0; }
    if m == 0 { assert(n * m == 0) by (nonlinear_arith) requires m == 0; }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, n);
    assert(x / n < m) by (nonlinear_arith) requires x == n * (x / n) + x % n, 0 <= x % n, x < n * m, 1 <= n;
    assert(n * (x / n) == (x / n) * n) by (nonlinear_arith);
    assert(0 <= x / n) by (nonlinear_arith) requires 0 <= x, 1 <= n;
}
