pub mod gcdmath {
use super::*;
pub proof fn lemma_tdiv_bound(a: int, b: int)
    requires b != 0,
    ensures 0 <= iabs(a) / iabs(b) <= iabs(a), (b == 1 || b == -1) ==> iabs(a) / iabs(b) == iabs(a), !(b == 1 || b == -1) ==> 2 * (iabs(a) / iabs(b)) <= iabs(a),
        b < 0 ==> a / b == 0 - a / (0 - b) && (0 - a) / b == 0 - (0 - a) / (0 - b),
{
    if b < 0 { let c = 0 - b; let a2 = 0 - a; assert(a / b == 0 - a / c) by(nonlinear_arith) requires c == 0 - b, b < 0; assert(a2 / b == 0 - a2 / c) by(nonlinear_arith) requires c == 0 - b, b < 0; }
    let (x, y) = (iabs(a), iabs(b));
    let q = x / y;
    assert(q >= 0 && y * q <= x && (y == 1 ==> q == x)) by(nonlinear_arith) requires q == x / y, y >= 1, x >= 0;
    assert(q <= x) by(nonlinear_arith) requires y * q <= x, y >= 1, q >= 0;
    if y >= 2 { assert(2 * q <= x) by(nonlinear_arith) requires y * q <= x, y >= 2, q >= 0; }
}
pub open spec fn igcd(a: nat, b: nat) -> nat decreases b { if b == 0 { a } else { igcd(b, a % b) } }
pub open spec fn divides(d: nat, x: nat) -> bool { exists|q: nat| #![trigger dq(d, q)] x == dq(d, q) }
pub open spec fn dq(d: nat, q: nat) -> nat { d * q }
pub proof fn lemma_igcd_sym(a: nat, b: nat) ensures igcd(a, b) == igcd(b, a)
{
    reveal_with_fuel(igcd, 2);
    if a < b { assert(a % b == a) by(nonlinear_arith) requires a < b; assert(igcd(a, b) == igcd(b, a)); }
    else if b < a { assert(b % a == b) by(nonlinear_arith) requires b < a; }
}
/// it divides both operands
pub proof fn lemma_igcd_divides(a: nat, b: nat) ensures divides(igcd(a, b), a), divides(igcd(a, b), b) decreases b
{
    if b == 0 { assert(a == dq(a, 1)) by(nonlinear_arith); assert(dq(a, 0) == a * 0 && a * 0 == 0) by(nonlinear_arith) requires dq(a, 0) == a * 0; }
    else {
        lemma_igcd_divides(b, a % b);
        let g = igcd(b, a % b);
        let q1 = choose|q: nat| #![trigger dq(g, q)] b == dq(g, q);
        let q2 = choose|q: nat| #![trigger dq(g, q)] a % b == dq(g, q);
        let k = a / b;
        assert(a == b * k + a % b) by(nonlinear_arith) requires b > 0, k == a / b;
        assert(a == dq(g, (q1 * k + q2) as nat)) by(nonlinear_arith) requires a == b * k + a % b, b == g * q1, a % b == g * q2, dq(g, (q1 * k + q2) as nat) == g * (q1 * k + q2);
    }
}
/// and every common divisor divides it
pub proof fn lemma_igcd_greatest(a: nat, b: nat, d: nat) requires divides(d, a), divides(d, b) ensures divides(d, igcd(a, b)) decreases b
{
    if b != 0 {
        let q1 = choose|q: nat| #![trigger dq(d, q)] a == dq(d, q);
        let q2 = choose|q: nat| #![trigger dq(d, q)] b == dq(d, q);
        let k = a / b;
        assert(a == b * k + a % b) by(nonlinear_arith) requires b > 0, k == a / b;
        assert(d * (q1 - q2 * k) == d * q1 - (d * q2) * k) by(nonlinear_arith); assert(d * (q1 - q2 * k) == a % b);
        assert(q1 - q2 * k >= 0) by(nonlinear_arith) requires d * (q1 - q2 * k) == a % b, a % b >= 0, d * q2 == b, b > 0, d >= 0;
        assert(a % b == dq(d, (q1 - q2 * k) as nat));
        lemma_igcd_greatest(b, a % b, d);
    }
}
}
