/// x rounded down to a multiple of m, up, and to the nearest (halves down)
pub open spec fn fdown(x: int, m: int) -> int { x - x % m }
pub open spec fn fup(x: int, m: int) -> int { if x % m == 0 { x } else { x - x % m + m } }
pub open spec fn fnear(x: int, m: int) -> int { if 2 * (x % m) > m { x - x % m + m } else { x - x % m } }
pub mod fixmath {
use super::*;
pub proof fn lemma_down(x: int, m: int)
    requires m >= 1,
    ensures x / m * m == fdown(x, m), 0 <= x % m < m,
{ lemma_fundamental_div_mod(x, m); lemma_mod_bound(x, m); assert(x / m * m == m * (x / m)) by(nonlinear_arith); }
/// remainder of truncating division, positive divisor
pub proof fn lemma_trem(x: int, m: int)
    requires m >= 1,
    ensures x >= 0 ==> trem(x, m) == x % m, x < 0 && x % m == 0 ==> trem(x, m) == 0, x < 0 && x % m != 0 ==> trem(x, m) == x % m - m, 0 <= x % m < m,
{
    lemma_mod_bound(x, m);
    if x < 0 {
        let y = 0 - x;
        lemma_fundamental_div_mod(x, m);
        let q = x / m; let r = x % m;
        if r == 0 { assert(y == (0 - q) * m + 0) by(nonlinear_arith) requires y == 0 - x, x == m * q + r, r == 0; lemma_fundamental_div_mod_converse(y, m, 0 - q, 0); }
        else { assert(y == (0 - q - 1) * m + (m - r)) by(nonlinear_arith) requires y == 0 - x, x == m * q + r; lemma_fundamental_div_mod_converse(y, m, 0 - q - 1, m - r); }
    }
}
}
pub use fixmath::*;
