// long division: bit by bit and digit by digit
pub mod divmath {
use super::*;
/// the quotient and remainder a division must deliver
pub open spec fn is_quot_rem(n: int, d: int, q: int, r: int) -> bool { n == q * d + r && 0 <= r < d }
pub proof fn lemma_quot_rem(n: int, d: int, q: int, r: int)
    requires is_quot_rem(n, d, q, r),
    ensures q == n / d, r == n % d,
{ lemma_div_mod_unique(n, d, q, r); }

/// one more binary digit of n
pub proof fn lemma_bit_prefix(n: int, k: nat)
    requires n >= 0,
    ensures n / e2(k) == 2 * (n / e2(k + 1)) + b2i(nbit(n, k)),
        n % e2(k + 1) == n % e2(k) + b2i(nbit(n, k)) * e2(k),
        e2(k + 1) == 2 * e2(k), e2(k) >= 1, 0 <= n % e2(k) < e2(k), n == e2(k) * (n / e2(k)) + n % e2(k), n / e2(k) >= 0, n / e2(k) <= n,
{
    lemma_pow2_unfold(k + 1); lemma_pow2_pos(k);
    let p = e2(k);
    lemma_fundamental_div_mod(n, p);
    lemma_mod_bound(n, p);
    lemma_div_pos_is_pos(n, p);
    let q = n / p; let r = n % p;
    let h = q / 2; let b = q % 2;
    assert(p * q == p * (2 * h) + p * b) by(nonlinear_arith) requires q == 2 * h + b;
    assert(n == h * (2 * p) + (b * p + r)) by(nonlinear_arith) requires n == p * q + r, q == 2 * h + b;
    assert(0 <= b * p + r < 2 * p) by(nonlinear_arith) requires 0 <= b <= 1, 0 <= r < p;
    lemma_div_mod_unique(n, 2 * p, h, b * p + r);
    assert(q <= n) by(nonlinear_arith) requires n == p * q + r, p >= 1, r >= 0, q >= 0;
}
pub proof fn lemma_nbit_multiple(q: int, k: nat)
    requires q >= 0,
    ensures !nbit(q * e2(k + 1), k), nbit((2 * q + 1) * e2(k), k),
{
    lemma_pow2_unfold(k + 1); lemma_pow2_pos(k);
    let p = e2(k);
    assert(q * (2 * p) == (2 * q) * p + 0) by(nonlinear_arith);
    lemma_div_mod_unique(q * (2 * p), p, 2 * q, 0);
    lemma_div_mod_unique((2 * q + 1) * p, p, 2 * q + 1, 0);
    assert((2 * q) % 2 == 0 && (2 * q + 1) % 2 == 1);
}
pub proof fn lemma_nbit_zero()
    ensures forall|x: int| #![trigger nbit(2 * x, 0)] !nbit(2 * x, 0), pow2(0) == 1, e2(0) == 1, e2(1) == 2,
{ lemma2_to64(); }

/// long division state after the binary digits from k up were processed
pub open spec fn div_inv(n: int, d: int, k: nat, q: int, r: int) -> bool {
    d > 0 && q >= 0 && is_quot_rem(n / e2(k), d, q, r)
}
pub proof fn lemma_div_init(n: int, d: int, k: nat)
    requires 0 <= n < e2(k), d > 0,
    ensures div_inv(n, d, k, 0, 0),
{ lemma_basic_div(n, e2(k)); assert(0 * d == 0); }
/// bring down one digit: the shifted remainder still fits
pub proof fn lemma_div_down(n: int, d: int, k: nat, q: int, r: int)
    requires div_inv(n, d, k + 1, q, r), n >= 0,
    ensures 0 <= 2 * r, 2 * r + b2i(nbit(n, k)) <= n, n / e2(k) == (2 * q) * d + (2 * r + b2i(nbit(n, k))),
        2 * r + b2i(nbit(n, k)) < 2 * d,
{
    lemma_bit_prefix(n, k); lemma_bit_prefix(n, k + 1);
    let x = n / e2(k + 1);
    assert(x == q * d + r);
    assert(q * d >= 0) by(nonlinear_arith) requires q >= 0, d > 0;
    assert((2 * q) * d == 2 * (q * d)) by(nonlinear_arith);
}
pub proof fn lemma_div_step(n: int, d: int, k: nat, q: int, r: int, b: bool)
    requires div_inv(n, d, k + 1, q, r), n >= 0, b == (2 * r + b2i(nbit(n, k)) >= d),
    ensures div_inv(n, d, k, 2 * q + b2i(b), 2 * r + b2i(nbit(n, k)) - b2i(b) * d),
{
    lemma_div_down(n, d, k, q, r);
    assert((2 * q + 1) * d == (2 * q) * d + d) by(nonlinear_arith);
    assert(1 * d == d && 0 * d == 0);
}
/// a quotient so far, scaled to its place, fits beside the rest of the dividend
pub proof fn lemma_quot_fits(n: int, d: int, k: nat, q: int, r: int)
    requires div_inv(n, d, k, q, r), n >= 0,
    ensures 0 <= q * e2(k) <= n, q <= n / e2(k), q * e2(k) + n % e2(k) <= n,
{
    lemma_bit_prefix(n, k);
    let x = n / e2(k);
    assert(q <= q * d) by(nonlinear_arith) requires q >= 0, d >= 1;
    assert(q * e2(k) <= x * e2(k)) by(nonlinear_arith) requires q <= x, e2(k) >= 1;
    assert(x * e2(k) == e2(k) * x) by(nonlinear_arith);
    assert(q * e2(k) >= 0) by(nonlinear_arith) requires q >= 0, e2(k) >= 1;
}
/// writing the next quotient digit
pub proof fn lemma_quot_bit(q: int, k: nat, b: bool)
    requires q >= 0,
    ensures (2 * q + b2i(b)) * e2(k) == q * e2(k + 1) + (b2i(b) - b2i(nbit(q * e2(k + 1), k))) * e2(k),
{
    lemma_nbit_multiple(q, k); lemma_pow2_unfold(k + 1); lemma_pow2_pos(k);
    assert((2 * q + b2i(b)) * e2(k) == q * (2 * e2(k)) + (b2i(b) - 0) * e2(k)) by(nonlinear_arith);
}
/// in place: quotient digits above, the dividend's own digits below
pub open spec fn mixed(n: int, k: nat, q: int) -> int { q * e2(k) + n % e2(k) }
pub proof fn lemma_mixed_bit(n: int, k: nat, q: int)
    requires n >= 0, q >= 0,
    ensures nbit(mixed(n, k + 1, q), k) == nbit(n, k), mixed(n, k + 1, q) >= 0,
{
    lemma_bit_prefix(n, k);
    lemma_mod_bound(n, e2(k + 1));
    let p = e2(k); let m = mixed(n, k + 1, q); let c = b2i(nbit(n, k));
    assert(m == (2 * q + c) * p + n % p) by(nonlinear_arith) requires m == q * (2 * p) + (n % p + c * p);
    lemma_div_mod_unique(m, p, 2 * q + c, n % p);
    assert((2 * q + c) % 2 == c);
    assert(q * e2(k + 1) >= 0) by(nonlinear_arith) requires q >= 0, e2(k + 1) >= 1;
}
pub proof fn lemma_mixed_step(n: int, k: nat, q: int, b: bool)
    requires n >= 0, q >= 0,
    ensures mixed(n, k, 2 * q + b2i(b)) == mixed(n, k + 1, q) + (b2i(b) - b2i(nbit(mixed(n, k + 1, q), k))) * e2(k),
{
    lemma_mixed_bit(n, k, q);
    lemma_bit_prefix(n, k);
    let p = e2(k); let c = b2i(nbit(n, k)); let bb = b2i(b);
    assert((2 * q + bb) * p + n % p == q * (2 * p) + (n % p + c * p) + (bb - c) * p) by(nonlinear_arith);
}
pub proof fn lemma_mixed_init(n: int, k: nat)
    requires 0 <= n < e2(k),
    ensures mixed(n, k, 0) == n,
{ lemma_small_mod(n as nat, pow2(k)); assert(0 * e2(k) == 0); }
pub proof fn lemma_e2_0(n: int)
    ensures n / e2(0) == n, n % e2(0) == 0, e2(0) == 1,
{ lemma2_to64(); lemma_div_basics(n); }
/// above the dividend's digits the quotient so far is zero
pub proof fn lemma_quot_high(n: int, d: int, k: nat, q: int, r: int, w: nat)
    requires div_inv(n, d, k, q, r), 0 <= n < e2(w), w <= k,
    ensures q == 0, r == 0, mixed(n, k, q) == n,
{
    lemma_e2_mono(w, k);
    lemma_basic_div(n, e2(k));
    if q >= 1 { assert(q * d >= 1) by(nonlinear_arith) requires q >= 1, d >= 1; }
    lemma_mixed_init(n, k);
}
pub proof fn lemma_e2_mono(a: nat, b: nat)
    requires a <= b,
    ensures e2(a) <= e2(b), e2(a) >= 1,
{ lemma_pow2_pos(a); if a < b { lemma_pow2_strictly_increases(a, b); } }
/// width of a slice in bits
pub proof fn lemma_width(s: Seq<Limb>, k: nat)
    requires k >= s.len() * LB(),
    ensures 0 <= num(s) < e2(k), e2(s.len() * LB()) == pw(s.len()),
{ lemma_num_bound(s); lemma_pow2_limbs(s.len()); lemma_e2_mono(s.len() * LB(), k); }
pub proof fn lemma_len_mul(a: nat, b: nat)
    requires a <= b,
    ensures a * LB() <= b * LB(), a >= 1 ==> a * LB() >= 8,
{ assert(a * LB() <= b * LB()) by(nonlinear_arith) requires a <= b, LB() >= 8; if a >= 1 { assert(a * LB() >= 8) by(nonlinear_arith) requires a >= 1, LB() >= 8; } }
pub proof fn lemma_len_mul_lt(a: nat, b: nat)
    ensures a * LB() < b * LB() <==> a < b,
{ if a < b { assert(a * LB() + LB() <= b * LB()) by(nonlinear_arith) requires a + 1 <= b; } else { assert(a * LB() >= b * LB()) by(nonlinear_arith) requires a >= b; } }
pub proof fn lemma_zero_slice()
    ensures forall|s: Seq<Limb>| #![trigger num(s)] s.len() == 1 && s[0] == 0 ==> num(s) == 0,
        forall|s: Seq<Limb>| #![trigger num(s)] s.len() == 0 ==> num(s) == 0,
{
    assert forall|s: Seq<Limb>| #![trigger num(s)] s.len() <= 1 && (s.len() == 1 ==> s[0] == 0) implies num(s) == 0 by { lemma_num_zeros(s); }
}
/// doubling and adding a digit inside the width
pub proof fn lemma_dbl(r: int, len: nat)
    requires 0 <= r, 2 * r < pw(len),
    ensures (r * e2(1)) % pw(len) == 2 * r, r * e2(1) == 2 * r,
{ lemma2_to64(); assert(r * e2(1) == 2 * r) by(nonlinear_arith) requires e2(1) == 2; lemma_small_mod((2 * r) as nat, pw(len) as nat); }
pub proof fn lemma_wrap_one(len: nat)
    requires len >= 1,
    ensures wrap_amt(1, len) == 1, len * LB() >= 8,
{ lemma_len_mul(1, len); lemma_small_mod(1, len * LB()); }
}
pub use divmath::*;
pub mod bdiv {
use super::*;
pub trait BitwiseDiv: BitSliceExt {
//@fn BitwiseDiv::div_long bits/src/algos/bitwise/div.rs trait:BitwiseDiv/div_long limb params=num,div 
    requires fits(num.v()), fits(div.v()),
    ensures nv(div.v()) != 0, is_quot_rem(nv(num.v()), nv(div.v()), nv(r.0@), nv(r.1@)),
        r.0@.len() == r.1@.len(), r.0@.len() == (if num.v().len() > div.v().len() { num.v().len() } else { div.v().len() }),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost n = nv(num.v()); let ghost d = nv(div.v());
    proof { lemma_zero_slice(); lemma_num_bound(num.v()); lemma_num_bound(div.v()); }
//@assert 0
    (nv(div.v()) != 0)
//@loop 0
    invariant __e0 == 0, __k0 <= bit_len, quotient@.len() == len, remainder@.len() == len,
        div_inv(n, d, __k0 as nat, qg, nv(remainder@)), nv(quotient@) == qg * e2(__k0 as nat),
    decreases __k0,
//@let remainder#0
    let ghost mut qg = 0int;
    proof {
        lemma_num_zeros(quotient@); lemma_num_zeros(remainder@);
        lemma_len_mul(num.v().len(), len as nat); lemma_len_mul(div.v().len(), len as nat);
        assert(bit_len == len * LB());
        lemma_pw_mono(num.v().len(), len as nat);
        lemma_width(num.v(), bit_len as nat);
        lemma_div_init(n, d, bit_len as nat);
        assert(0 * e2(bit_len as nat) == 0);
        lemma_wrap_one(len as nat);
    }
//@start 0
    let ghost r0 = nv(remainder@); let ghost q0 = nv(quotient@); let ghost k = idx as nat;
    proof {
        lemma_div_down(n, d, k, qg, r0); lemma_num_bound(num.v()); lemma_pw_mono(num.v().len(), len as nat);
        lemma_dbl(r0, len as nat); lemma_nbit_zero();
        assert(!nbit(2 * r0, 0));
        lemma_div_step(n, d, k, qg, r0, 2 * r0 + b2i(nbit(n, k)) >= d);
        lemma_quot_bit(qg, k, 2 * r0 + b2i(nbit(n, k)) >= d);
        lemma_nbit_multiple(qg, k);
        lemma_get_bit_opt(num.v(), idx);
        assert((0 - 0) * e2(k) == 0 && (1 - 0) * e2(k) == e2(k));
    }
//@end 0
    proof {
        let b = 2 * r0 + b2i(nbit(n, k)) >= d;
        lemma_num_bound(remainder@);
        if b { lemma_small_mod((2 * r0 + b2i(nbit(n, k)) - d) as nat, pw(len as nat) as nat); }
        qg = 2 * qg + b2i(b);
        assert(1 * d == d && 0 * d == 0);
    }
//@after 0
    proof { lemma_e2_0(n); assert(qg * 1 == qg); }
//@endfn
//@fn BitwiseDiv::div_long_overflowing bits/src/algos/bitwise/div.rs trait:BitwiseDiv/div_long_overflowing limb params=num,div,remainder
    requires fits(old(num).v()), fits(div.v()), fits(old(remainder)@), nv(old(remainder)@) == 0,
        old(remainder)@.len() >= old(num).v().len(), old(remainder)@.len() >= 1,
    ensures nv(div.v()) != 0, !r.1, final(r.0).v() == final(num).v(), r.0.v().len() == old(num).v().len(),
        is_quot_rem(nv(old(num).v()), nv(div.v()), nv(r.0.v()), nv(final(remainder)@)), final(remainder)@.len() == old(remainder)@.len(),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost n = nv(num.v()); let ghost d = nv(div.v()); let ghost w = num.v().len() * LB(); let ghost len = remainder@.len();
    let ghost mut qg = 0int; let ghost nl = num.v().len();
    proof { lemma_zero_slice(); lemma_num_bound(num.v()); lemma_num_bound(div.v()); lemma_pw_mono(num.v().len(), len); lemma_wrap_one(len); lemma_width(num.v(), w); }
//@assert 0
    (nv(div.v()) != 0)
//@loop 0
    invariant __e0 == 0, __k0 <= bit_len, num.v().len() == nl, remainder@.len() == len,
        div_inv(n, d, __k0 as nat, qg, nv(remainder@)), nv(num.v()) == mixed(n, __k0 as nat, qg),
    decreases __k0,
//@let bit_len#0
    proof {
        lemma_width(num.v(), bit_len as nat);
        lemma_div_init(n, d, bit_len as nat);
        lemma_mixed_init(n, bit_len as nat);
    }
//@start 0
    let ghost r0 = nv(remainder@); let ghost k = idx as nat; let ghost b = 2 * r0 + b2i(nbit(n, k)) >= d;
    proof {
        lemma_div_down(n, d, k, qg, r0);
        lemma_dbl(r0, len); lemma_nbit_zero();
        assert(!nbit(2 * r0, 0));
        lemma_div_step(n, d, k, qg, r0, b);
        lemma_mixed_bit(n, k, qg); lemma_mixed_step(n, k, qg, b);
        lemma_get_bit_opt(num.v(), idx);
        if k >= w { lemma_quot_high(n, d, k + 1, qg, r0, w); lemma_quot_high(n, d, k, 2 * qg + b2i(b), 2 * r0 + b2i(nbit(n, k)) - b2i(b) * d, w); }
        assert((0 - 0) * e2(k) == 0 && (1 - 0) * e2(k) == e2(k));
        assert(1 * d == d && 0 * d == 0);
    }
//@end 0
    proof {
        lemma_num_bound(remainder@);
        if b { lemma_small_mod((2 * r0 + b2i(nbit(n, k)) - d) as nat, pw(len) as nat); }
        qg = 2 * qg + b2i(b);
    }
//@tail
    proof { lemma_e2_0(n); assert(qg * 1 == qg); }
//@endfn
//@fn BitwiseDiv::div_long_checked bits/src/algos/bitwise/div.rs trait:BitwiseDiv/div_long_checked limb params=left,right,scratch
    requires fits(old(left).v()), fits(right.v()), fits(old(scratch)@), nv(old(scratch)@) == 0,
        old(scratch)@.len() >= old(left).v().len(), old(scratch)@.len() >= 1,
    ensures r is None <==> nv(right.v()) == 0,
        r is None ==> final(left).v() == old(left).v(),
        r matches Some(x) ==> final(x).v() == final(left).v() && x.v().len() == old(left).v().len()
            && is_quot_rem(nv(old(left).v()), nv(right.v()), nv(x.v()), nv(final(scratch)@)), final(scratch)@.len() == old(scratch)@.len(),
//@entry
    proof { lemma_zero_slice(); }
//@endfn
//@fn BitwiseDiv::div_long_wrapping bits/src/algos/bitwise/div.rs trait:BitwiseDiv/div_long_wrapping limb params=left,right,scratch
    requires fits(old(left).v()), fits(right.v()), fits(old(scratch)@), nv(old(scratch)@) == 0,
        old(scratch)@.len() >= old(left).v().len(), old(scratch)@.len() >= 1,
    ensures nv(right.v()) != 0, final(r).v() == final(left).v(), r.v().len() == old(left).v().len(),
        is_quot_rem(nv(old(left).v()), nv(right.v()), nv(r.v()), nv(final(scratch)@)), final(scratch)@.len() == old(scratch)@.len(),
//@endfn
//@fn BitwiseDiv::rem_long_overflowing bits/src/algos/bitwise/div.rs trait:BitwiseDiv/rem_long_overflowing limb params=num,div,remainder
    requires fits(old(num).v()), fits(div.v()), fits(old(remainder)@), nv(old(remainder)@) == 0,
        old(remainder)@.len() == old(num).v().len(), old(remainder)@.len() >= 1,
    ensures nv(div.v()) != 0, !r.1, final(r.0).v() == final(num).v(), r.0.v().len() == old(num).v().len(),
        nv(r.0.v()) == nv(old(num).v()) % nv(div.v()), final(remainder)@.len() == old(remainder)@.len(),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost n = nv(num.v()); let ghost d = nv(div.v()); let ghost len = remainder@.len();
    let ghost mut qg = 0int; let ghost n0 = num.v();
    proof { lemma_zero_slice(); lemma_num_bound(num.v()); lemma_num_bound(div.v()); lemma_wrap_one(len); }
//@assert 0
    (nv(div.v()) != 0)
//@loop 0
    invariant __e0 == 0, __k0 <= bit_len, num.v() == n0, remainder@.len() == len,
        div_inv(n, d, __k0 as nat, qg, nv(remainder@)),
    decreases __k0,
//@let bit_len#0
    proof {
        lemma_width(num.v(), bit_len as nat);
        lemma_div_init(n, d, bit_len as nat);
    }
//@start 0
    let ghost r0 = nv(remainder@); let ghost k = idx as nat; let ghost b = 2 * r0 + b2i(nbit(n, k)) >= d;
    proof {
        lemma_div_down(n, d, k, qg, r0);
        lemma_dbl(r0, len); lemma_nbit_zero();
        assert(!nbit(2 * r0, 0));
        lemma_div_step(n, d, k, qg, r0, b);
        lemma_get_bit_opt(num.v(), idx);
        assert(1 * d == d && 0 * d == 0);
    }
//@end 0
    proof {
        lemma_num_bound(remainder@);
        if b { lemma_small_mod((2 * r0 + b2i(nbit(n, k)) - d) as nat, pw(len) as nat); }
        qg = 2 * qg + b2i(b);
    }
//@after 0
    proof { lemma_e2_0(n); lemma_quot_rem(n, d, qg, nv(remainder@)); }
//@endfn
//@fn BitwiseDiv::rem_long_checked bits/src/algos/bitwise/div.rs trait:BitwiseDiv/rem_long_checked limb params=left,right,scratch
    requires fits(old(left).v()), fits(right.v()), fits(old(scratch)@), nv(old(scratch)@) == 0,
        old(scratch)@.len() == old(left).v().len(), old(scratch)@.len() >= 1,
    ensures r is None <==> nv(right.v()) == 0,
        r is None ==> final(left).v() == old(left).v(),
        r matches Some(x) ==> final(x).v() == final(left).v() && x.v().len() == old(left).v().len()
            && nv(x.v()) == nv(old(left).v()) % nv(right.v()),
//@entry
    proof { lemma_zero_slice(); }
//@endfn
//@fn BitwiseDiv::rem_long_wrapping bits/src/algos/bitwise/div.rs trait:BitwiseDiv/rem_long_wrapping limb params=left,right,scratch
    requires fits(old(left).v()), fits(right.v()), fits(old(scratch)@), nv(old(scratch)@) == 0,
        old(scratch)@.len() == old(left).v().len(), old(scratch)@.len() >= 1,
    ensures nv(right.v()) != 0, final(r).v() == final(left).v(), r.v().len() == old(left).v().len(),
        nv(r.v()) == nv(old(left).v()) % nv(right.v()),
//@endfn
}
impl<T: ?Sized + BitSliceExt> BitwiseDiv for T {}
}
pub use bdiv::*;
pub mod ediv {
use super::*;
/// digit-wise long division state after the digits from k up were processed
pub open spec fn ediv_inv(n: int, d: int, k: nat, q: int, r: int) -> bool {
    d > 0 && q >= 0 && is_quot_rem(n / pw(k), d, q, r)
}
pub proof fn lemma_ediv_down(s: Seq<Limb>, d: int, k: nat, q: int, r: int)
    requires ediv_inv(num(s), d, k + 1, q, r),
    ensures num(s) / pw(k) == (BB() * q) * d + (BB() * r + dg(s, k as int)), 0 <= r * BB(), r * BB() == BB() * r, r * BB() + dg(s, k as int) <= num(s), 0 <= dg(s, k as int) < BB(),
        (BB() * q) * pw(k) == q * pw(k + 1),
{
    lemma_hi(s, k);
    lemma_pw_step(k);
    let n = num(s); let x = n / pw(k + 1); let b = BB();
    assert(b * (q * d + r) == (b * q) * d + b * r) by(nonlinear_arith);
    assert((b * q) * d >= 0) by(nonlinear_arith) requires b >= 0, q >= 0, d >= 0;
    assert(r * b == b * r && 0 <= r * b) by(nonlinear_arith) requires r >= 0, b >= 0;
    lemma_fundamental_div_mod(n, pw(k)); lemma_mod_bound(n, pw(k));
    let y = n / pw(k);
    assert(y >= 0);
    assert(y <= n) by(nonlinear_arith) requires n == pw(k) * y + n % pw(k), n % pw(k) >= 0, pw(k) >= 1, y >= 0;
    assert((b * q) * pw(k) == q * (b * pw(k))) by(nonlinear_arith);
}
pub proof fn lemma_shl_digit(r: int, len: nat)
    requires len >= 1, 0 <= r, r * BB() < pw(len), len == 1 ==> r == 0,
    ensures (r * pow2(wrap_amt(LB(), len))) % pw(len) == r * BB(),
{
    lemma_limb_pow2();
    if len == 1 {
        assert(1 * LB() == LB());
        lemma_mod_self_0(LB() as int);
        lemma2_to64();
        assert(0 * pow2(0) == 0 && 0 * BB() == 0);
        lemma_small_mod(0, pw(len) as nat);
    } else {
        assert(len * LB() > LB()) by(nonlinear_arith) requires len >= 2, LB() >= 8;
        lemma_small_mod(LB(), len * LB());
        lemma_small_mod((r * BB()) as nat, pw(len) as nat);
    }
}
pub proof fn lemma_shr_digit(k: nat, len: nat)
    requires len >= 1, k < len,
    ensures k > 0 ==> pw(k) / (pow2(wrap_amt(LB(), len)) as int) == pw((k - 1) as nat),
{
    lemma_limb_pow2();
    if k > 0 {
        assert(len * LB() > LB()) by(nonlinear_arith) requires len >= 2, LB() >= 8;
        lemma_small_mod(LB(), len * LB());
        lemma_pw_step((k - 1) as nat);
        let p = pw((k - 1) as nat);
        assert(BB() * p == p * BB() + 0) by(nonlinear_arith);
        lemma_div_mod_unique(BB() * p, BB(), p, 0);
    }
}
/// value of a sequence whose lowest digit was replaced, when that digit was zero
pub proof fn lemma_low_digit(s: Seq<Limb>, x: int, d: Limb)
    requires s.len() >= 1, num(s) == x * BB(),
    ensures num(s.update(0, d)) == x * BB() + d as int,
{
    lemma_mod(s, 1);
    lemma_val_step(s, 0); lemma_pw_step(0);
    assert(x * BB() == x * BB() + 0);
    lemma_div_mod_unique(x * BB(), BB(), x, 0);
    assert(dg(s, 0) * pw(0) == dg(s, 0)) by(nonlinear_arith) requires pw(0) == 1;
    lemma_val_update(s, 0, d, s.len());
    assert((d as int - s[0] as int) * pw(0) == d as int - s[0] as int) by(nonlinear_arith) requires pw(0) == 1;
}
pub proof fn lemma_single(s: Seq<Limb>, k: nat)
    requires k < s.len(), forall|i: int| 0 <= i < s.len() ==> s[i] == (if i == k { 1 as Limb } else { 0 as Limb }),
    ensures num(s) == pw(k),
{
    lemma_val_zeros(s, k + 1, s.len());
    lemma_val_step(s, k);
    lemma_val_zeros(s, 0, k);
    lemma_val_step(s, 0);
    assert(1 * pw(k) == pw(k));
}
pub proof fn lemma_q_step(q: int, qd: int, d: int, r: int, p: int)
    ensures (q + 1) * d + (r - d) == q * d + r, (q + 1) * p == q * p + p,
{ assert((q + 1) * d == q * d + d) by(nonlinear_arith); assert((q + 1) * p == q * p + p) by(nonlinear_arith); }
pub proof fn lemma_q_fits(n: int, d: int, k: nat, q: int, r: int)
    requires n >= 0, d > 0, q >= 0, r >= 0, n / pw(k) == q * d + r,
    ensures 0 <= q * pw(k) <= n,
{
    lemma_pw_pos(k);
    lemma_fundamental_div_mod(n, pw(k)); lemma_mod_bound(n, pw(k));
    let x = n / pw(k); let p = pw(k);
    assert(q <= q * d) by(nonlinear_arith) requires q >= 0, d >= 1;
    assert(q * p <= x * p) by(nonlinear_arith) requires q <= x, p >= 1;
    assert(x * p == p * x) by(nonlinear_arith);
    assert(q * p >= 0) by(nonlinear_arith) requires q >= 0, p >= 1;
}
pub trait ElementDiv: BitSliceExt {
//@fn ElementDiv::div_long bits/src/algos/element/div.rs trait:ElementDiv/div_long limb params=left,right methods=set->bset
    requires fits(left.v()), fits(right.v()),
    ensures num(right.v()) != 0, is_quot_rem(num(left.v()), num(right.v()), num(r.0@), num(r.1@)), norm(r.0@), norm(r.1@),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost n = num(left.v()); let ghost d = num(right.v());
    let ghost mut qg = 0int;
    proof { lemma_zero_slice(); lemma_num_bound(left.v()); lemma_num_bound(right.v()); }
//@assert 0
    (num(right.v()) != 0)
//@loop 0
    invariant __e0 == 0, __k0 <= len, quotient@.len() == len, remainder@.len() == len, one@.len() == len,
        ediv_inv(n, d, __k0 as nat, qg, num(remainder@)), num(quotient@) == qg * pw(__k0 as nat),
        __k0 > 0 ==> num(one@) == pw((__k0 - 1) as nat),
        __k0 == len ==> num(remainder@) == 0,
    decreases __k0,
//@let one#0
    proof {
        lemma_num_zeros(quotient@); lemma_num_zeros(remainder@);
        lemma_pw_mono(left.v().len(), len as nat);
        lemma_basic_div(n, pw(len as nat));
        assert(0 * d == 0 && 0 * pw(len as nat) == 0);
        lemma_single(one@.update(len - 1, 1), (len - 1) as nat);
    }
//@start 0
    let ghost r0 = num(remainder@); let ghost k = idx as nat;
    proof {
        lemma_ediv_down(left.v(), d, k, qg, r0);
        lemma_num_bound(left.v()); lemma_pw_mono(left.v().len(), len as nat);
        lemma_shl_digit(r0, len as nat);
        assert forall|s: Seq<Limb>, x: Limb| #![trigger s.update(0, x)] s.len() == len && num(s) == r0 * BB() implies num(s.update(0, x)) == r0 * BB() + x as int by { lemma_low_digit(s, r0, x); }
        assert(BB() * qg >= 0) by(nonlinear_arith) requires BB() >= 0, qg >= 0;
        qg = BB() * qg;
        lemma_shr_digit(k, len as nat);
    }
//@loop 1
    invariant quotient@.len() == len, remainder@.len() == len, one@.len() == len, num(one@) == pw(k),
        qg >= 0, n / pw(k) == qg * d + num(remainder@), num(remainder@) >= 0, num(quotient@) == qg * pw(k),
    decreases num(remainder@),
//@start 1
    let ghost r1 = num(remainder@);
    proof {
        lemma_q_step(qg, 0, d, r1, pw(k));
        lemma_num_bound(remainder@);
        lemma_small_mod((r1 - d) as nat, pw(len as nat) as nat);
        lemma_q_fits(n, d, k, qg + 1, r1 - d);
        lemma_num_bound(left.v()); lemma_pw_mono(left.v().len(), len as nat);
        assert((qg + 1) * pw(k) < pw(len as nat));
        lemma_small_mod(((qg + 1) * pw(k)) as nat, pw(len as nat) as nat);
        qg = qg + 1;
    }
//@after 1
    proof { lemma_num_bound(remainder@); }
//@after 0
    proof { lemma_pw_step(0); lemma_div_basics(n); assert(qg * 1 == qg); }
//@endfn
}
impl<T: ?Sized + BitSliceExt> ElementDiv for T {}
}
pub use ediv::*;
