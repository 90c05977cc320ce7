// bit-by-bit algorithms
pub trait BitSliceIter: BitSliceExt {
//@fn BitSliceExt::iter_bits bits/src/bit_slice.rs trait:BitSliceExt/iter_bits limb subst=BitIter<'_,Self::Bit>->BitIter<'_,Limb>
    requires fits(self.v()),
    ensures bi_at(r, self.v()), r.idx == 0,
//@endfn
}
impl<T: ?Sized + BitSliceExt> BitSliceIter for T {}
pub mod bwmath {
use super::*;
/// the k lowest binary digits
pub open spec fn low(n: int, k: nat) -> int { n % e2(k) }
pub proof fn lemma_low(n: int, k: nat)
    requires n >= 0,
    ensures low(n, k + 1) == low(n, k) + b2i(nbit(n, k)) * e2(k), e2(k + 1) == 2 * e2(k), e2(k) >= 1, 0 <= low(n, k) < e2(k),
        b2i(nbit(n, k)) * e2(k) == (if nbit(n, k) { e2(k) } else { 0 }),
{ lemma_bit_prefix(n, k); assert(1 * e2(k) == e2(k) && 0 * e2(k) == 0); }
pub proof fn lemma_low_all(n: int, k: nat)
    requires 0 <= n < e2(k),
    ensures low(n, k) == n,
{ lemma_small_mod(n as nat, pow2(k)); }
pub proof fn lemma_low_0(n: int)
    ensures low(n, 0) == 0, e2(0) == 1,
{ lemma_e2_0(n); }
/// no bit at or above the value
pub proof fn lemma_bit_above(n: int, k: nat)
    requires 0 <= n < e2(k),
    ensures !nbit(n, k),
{ lemma_basic_div(n, e2(k)); }
/// out + carry is the sum of the low parts
pub open spec fn badd_inv(l: int, r: int, out: int, k: nat, c: bool) -> bool {
    0 <= out < e2(k) && low(l, k) + low(r, k) == out + (if c { e2(k) } else { 0 })
}
pub proof fn lemma_badd_step(l: int, r: int, out: int, k: nat, c: bool, c2: bool, new: bool)
    requires badd_inv(l, r, out, k, c), l >= 0, r >= 0, b2i(c) + b2i(nbit(l, k)) + b2i(nbit(r, k)) == b2i(new) + 2 * b2i(c2),
    ensures badd_inv(l, r, out + (if new { e2(k) } else { 0 }), k + 1, c2), !nbit(out, k),
{ lemma_low(l, k); lemma_low(r, k); lemma_bit_above(out, k); }
pub open spec fn bsub_inv(l: int, r: int, out: int, k: nat, c: bool) -> bool {
    0 <= out < e2(k) && low(l, k) - low(r, k) == out - (if c { e2(k) } else { 0 })
}
pub proof fn lemma_bsub_step(l: int, r: int, out: int, k: nat, c: bool, c2: bool, new: bool)
    requires bsub_inv(l, r, out, k, c), l >= 0, r >= 0, b2i(nbit(l, k)) - b2i(nbit(r, k)) - b2i(c) == b2i(new) - 2 * b2i(c2),
    ensures bsub_inv(l, r, out + (if new { e2(k) } else { 0 }), k + 1, c2), !nbit(out, k),
{ lemma_low(l, k); lemma_low(r, k); lemma_bit_above(out, k); }
/// e2(w) divides e2(k)
pub proof fn lemma_mod_high(x: int, b: bool, w: nat, k: nat)
    requires w <= k,
    ensures (x + (if b { e2(k) } else { 0 })) % e2(w) == x % e2(w),
{
    lemma_pow2_adds(w, (k - w) as nat); lemma_pow2_pos(w);
    let m = e2((k - w) as nat);
    assert(e2(k) == e2(w) * m);
    if b { lemma_mod_multiples_vanish(m, x, e2(w)); assert(e2(w) * m + x == x + e2(k)); }
}
/// in place: the sum's bits below k, the operand's own bits from k on
pub proof fn lemma_low_part_bit(l: int, s: int, k: nat)
    requires l >= 0, 0 <= s < e2(k),
    ensures nbit(s + l - low(l, k), k) == nbit(l, k), s + l - low(l, k) >= 0,
{
    lemma_bit_prefix(l, k);
    let p = e2(k);
    let q = l / p;
    assert(s + l - low(l, k) == q * p + s) by(nonlinear_arith) requires l == p * q + low(l, k);
    lemma_div_mod_unique(s + l - low(l, k), p, q, s);
}
pub proof fn lemma_norm_ge(s: Seq<Limb>)
    requires norm(s), s.len() > 1,
    ensures num(s) >= pw((s.len() - 1) as nat),
{
    let k = (s.len() - 1) as nat;
    lemma_val_step(s, k); lemma_val_bound(s, k); lemma_pw_pos(k);
    assert(dg(s, k as int) * pw(k) >= pw(k)) by(nonlinear_arith) requires dg(s, k as int) >= 1, pw(k) >= 1;
}
/// a trimmed number below pw(m) has at most m digits
pub proof fn lemma_norm_len(s: Seq<Limb>, m: nat)
    requires norm(s), num(s) < pw(m),
    ensures s.len() <= m || s.len() <= 1,
{ if s.len() > 1 { lemma_norm_ge(s); if s.len() > m { lemma_pw_mono(m, (s.len() - 1) as nat); } } }
}
pub use bwmath::*;
pub mod bwadd {
use super::*;
pub trait BitwiseAdd: BitSliceExt {
//@fn BitwiseAdd::add bits/src/algos/bitwise/add.rs trait:BitwiseAdd/add limb params=left,right calls=u8::from->vbool_u8
    requires fits(left.v()), fits(right.v()),
    ensures num(r@) == num(left.v()) + num(right.v()),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost gl = num(left.v()); let ghost rr = num(right.v());
    proof { lemma_num_bound(left.v()); lemma_num_bound(right.v()); }
//@loop 0
    invariant __e0 == bit_len, __k0 <= bit_len + 1, badd_inv(gl, rr, num(out@), __k0 as nat, carry),
    decreases bit_len + 1 - __k0,
//@let carry#0
    proof {
        lemma_num_zeros(out@); lemma_low_0(gl); lemma_low_0(rr);
        lemma_width(left.v(), bit_len as nat); lemma_width(right.v(), bit_len as nat);
    }
//@start 0
    let ghost c0 = carry; let ghost o0 = num(out@); let ghost k = idx as nat;
    proof { lemma_get_bit_opt(left.v(), idx); lemma_get_bit_opt(right.v(), idx); lemma_low(gl, k); lemma_bit_above(o0, k); assert(1 * e2(k) == e2(k)); }
//@end 0
    proof { lemma_badd_step(gl, rr, o0, k, c0, carry, new); }
//@after 0
    proof { lemma_low(gl, bit_len as nat); lemma_low_all(gl, bit_len as nat + 1); lemma_low_all(rr, bit_len as nat + 1); }
//@endfn
//@fn BitwiseAdd::add_in_place bits/src/algos/bitwise/add.rs trait:BitwiseAdd/add_in_place limb params=left,right calls=u8::from->vbool_u8
    requires fits(old(left).v()), fits(right.v()),
    ensures final(r).v() == final(left).v(), r.v().len() == old(left).v().len(),
        num(r.v()) == (num(old(left).v()) + num(right.v())) % pw(old(left).v().len()),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost gl = num(left.v()); let ghost rr = num(right.v()); let ghost len = left.v().len(); let ghost w = len * LB();
    let ghost mut s = 0int; let ghost mut c1 = false;
    proof { lemma_num_bound(left.v()); lemma_num_bound(right.v()); lemma_width(left.v(), w); }
//@loop 0
    invariant __e0 == bit_len, __k0 <= bit_len, badd_inv(gl, rr, s, __k0 as nat, carry), left.v().len() == len,
        __k0 <= w ==> num(left.v()) == s + gl - low(gl, __k0 as nat),
        __k0 >= w ==> num(left.v()) == s % e2(w),
    decreases bit_len - __k0,
//@let carry#0
    proof {
        lemma_low_0(gl); lemma_low_0(rr);
        lemma_width(left.v(), bit_len as nat); lemma_width(right.v(), bit_len as nat);
        lemma_small_mod(0, pow2(w));
    }
//@start 0
    let ghost c0 = carry; let ghost k = idx as nat; let ghost s0 = s;
    proof { lemma_get_bit_opt(left.v(), idx); lemma_get_bit_opt(right.v(), idx); lemma_low(gl, k); lemma_bit_above(s, k); assert(1 * e2(k) == e2(k));
        if k < w { lemma_low_part_bit(gl, s, k); } else { lemma_bit_high_n(gl, w, k); } }
//@end 0
    proof {
        lemma_badd_step(gl, rr, s0, k, c0, carry, new);
        s = s0 + (if new { e2(k) } else { 0 });
        let nb = nbit(gl, k);
        assert((1 - 1) * e2(k) == 0 && (1 - 0) * e2(k) == e2(k) && (0 - 0) * e2(k) == 0 && (0 - 1) * e2(k) == -e2(k)) by(nonlinear_arith);
        if k >= w { lemma_mod_high(s0, new, w, k); }
        if k + 1 == w { lemma_low_all(gl, w); lemma_small_mod(s as nat, pow2(w)); }
    }
//@after 0
    proof { c1 = carry;
        lemma_low_all(gl, bit_len as nat); lemma_low_all(rr, bit_len as nat);
        lemma_mod_high(s, carry, w, bit_len as nat); }
//@endfn
}
impl<T: ?Sized + BitSliceExt> BitwiseAdd for T {}
pub proof fn lemma_bit_high_n(n: int, w: nat, k: nat)
    requires 0 <= n < e2(w), k >= w,
    ensures !nbit(n, k),
{ lemma_e2_mono(w, k); lemma_bit_above(n, k); }
pub trait BitwiseSub: BitSliceExt {
//@fn BitwiseSub::sub bits/src/algos/bitwise/sub.rs trait:BitwiseSub/sub limb params=left,right
    requires fits(left.v()), fits(right.v()),
    ensures r.1 == (num(left.v()) < num(right.v())),
        num(r.0@) == (if r.1 { num(right.v()) - num(left.v()) } else { num(left.v()) - num(right.v()) }),
        r.0@.len() == (if left.v().len() > right.v().len() { left.v().len() } else { right.v().len() }),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost gl = num(left.v()); let ghost rr = num(right.v());
    proof { lemma_num_bound(left.v()); lemma_num_bound(right.v()); }
//@loop 0
    invariant __e0 == bit_len, __k0 <= bit_len, out@.len() == len, bsub_inv(gl, rr, num(out@), __k0 as nat, carry),
    decreases bit_len - __k0,
//@let carry#0
    proof {
        lemma_num_zeros(out@); lemma_low_0(gl); lemma_low_0(rr);
        lemma_len_mul(left.v().len(), len as nat); lemma_len_mul(right.v().len(), len as nat);
        assert(bit_len == len * LB());
        lemma_width(left.v(), bit_len as nat); lemma_width(right.v(), bit_len as nat);
        lemma_pow2_limbs(len as nat);
    }
//@start 0
    let ghost c0 = carry; let ghost o0 = num(out@); let ghost k = idx as nat;
    proof { lemma_get_bit_opt(left.v(), idx); lemma_get_bit_opt(right.v(), idx); lemma_low(gl, k); lemma_bit_above(o0, k); assert((1 - 0) * e2(k) == e2(k) && (0 - 0) * e2(k) == 0); }
//@end 0
    proof { lemma_bsub_step(gl, rr, o0, k, c0, carry, new); }
//@after 0
    proof {
        lemma_low_all(gl, bit_len as nat); lemma_low_all(rr, bit_len as nat); lemma_one_seq();
        if carry { lemma_small_mod((rr - gl) as nat, pw(len as nat) as nat); }
    }
//@endfn
}
impl<T: ?Sized + BitSliceExt> BitwiseSub for T {}
}
pub use bwadd::*;
pub mod bwmul {
use super::*;
pub trait BitwiseMul: BitSliceExt {
//@fn BitwiseMul::mul bits/src/algos/bitwise/mul.rs trait:BitwiseMul/mul limb params=left,right
    requires left.v().len() + right.v().len() <= 0x1f_ffff_ffff_ff00,
    ensures num(r@) == num(left.v()) * num(right.v()),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost l = num(left.v()); let ghost rr = num(right.v()); let ghost lim = left.v().len() + right.v().len() + 1;
    proof { lemma_num_bound(left.v()); lemma_num_bound(right.v()); }
//@loop 0
    invariant __e0 == right.v().len() * LB(), __k0 <= __e0, num(new_self@) == l * e2(__k0 as nat), num(out@) == l * low(rr, __k0 as nat),
        norm(new_self@), new_self@.len() > 0, fits(out@),
    decreases __e0 - __k0,
//@let out#0
    proof { lemma_num_zeros(out@); lemma_low_0(rr); lemma2_to64(); assert(l * 1 == l && l * 0 == 0); }
//@start 0
    let ghost k = idx as nat; let ghost o0 = num(out@);
    proof {
        lemma_low(rr, k); lemma2_to64();
        assert((l * e2(k)) * e2(1) == l * e2(k + 1)) by(nonlinear_arith) requires e2(k + 1) == 2 * e2(k), e2(1) == 2;
        lemma_mul_lens(left.v(), new_self@, right.v().len(), k);
        lemma_mul_low(l, low(rr, k), e2(k), nbit(rr, k));
        lemma_prod_fits(left.v(), right.v().len(), low(rr, k + 1), k + 1);
        assert forall|s: Seq<Limb>| #![trigger num(s)] norm(s) && num(s) == l * low(rr, k + 1) implies s.len() <= lim by { lemma_norm_len(s, lim as nat); }
    }
//@after 0
    proof { lemma_width(right.v(), right.v().len() * LB()); lemma_low_all(rr, right.v().len() * LB()); }
//@endfn
}
impl<T: ?Sized + BitSliceExt> BitwiseMul for T {}
pub proof fn lemma_mul_low(l: int, a: int, p: int, b: bool)
    ensures l * (a + b2i(b) * p) == l * a + (if b { l * p } else { 0 }),
{
    assert(1 * p == p && 0 * p == 0);
    assert(l * (a + p) == l * a + l * p) by(nonlinear_arith);
}
pub proof fn lemma_prod_fits(s: Seq<Limb>, m: nat, x: int, k: nat)
    requires 0 <= x < e2(k), k <= m * LB(),
    ensures num(s) * x < pw(s.len() + m + 1), num(s) * x >= 0,
{
    lemma_num_bound(s); lemma_pw_add(s.len(), m); lemma_pow2_limbs(m); lemma_e2_mono(k, m * LB()); lemma_pw_ge2(s.len() + m); lemma_pw_pos(m);
    let n = num(s);
    assert(n * x <= pw(s.len()) * pw(m)) by(nonlinear_arith) requires 0 <= n < pw(s.len()), 0 <= x < pw(m);
    assert(n * x >= 0) by(nonlinear_arith) requires n >= 0, x >= 0;
}
pub proof fn lemma_mul_lens(s: Seq<Limb>, t: Seq<Limb>, m: nat, k: nat)
    requires norm(t), num(t) == num(s) * e2(k), k <= m * LB(),
    ensures t.len() <= s.len() + m + 1,
{
    lemma_num_bound(s); lemma_pw_add(s.len(), m); lemma_pow2_limbs(m); lemma_e2_mono(k, m * LB()); lemma_pw_ge2(s.len() + m); lemma_pw_pos(m);
    let n = num(s);
    assert(n * e2(k) <= pw(s.len()) * pw(m)) by(nonlinear_arith) requires 0 <= n < pw(s.len()), 0 <= e2(k) <= pw(m);
    lemma_norm_len(t, s.len() + m + 1);
}
}
pub use bwmul::*;
pub mod bwshift {
use super::*;
pub trait BitwiseShl: BitSliceExt {
//@fn BitwiseShl::shl bits/src/algos/bitwise/shl.rs trait:BitwiseShl/shl limb params=left,right
    requires fits(left.v()), right <= 0x7fff_ffff_ffff_ffff,
    ensures num(r@) == num(left.v()) * pow2(right as nat),
//@attr
#[verifier::allow_complex_invariants]
#[verifier::loop_isolation(false)]
//@entry
    let ghost l = num(left.v()); let ghost p = e2(right as nat); let ghost w = left.v().len() * LB();
    proof { lemma_num_bound(left.v()); lemma_pow2_pos(right as nat); lemma_width(left.v(), w); }
//@loop 0
    invariant __k0 <= w, bi_at(__it0, left.v()), __it0.idx == __k0, num(out@) == low(l, __k0 as nat) * p,
    ensures __k0 == w, num(out@) == low(l, __k0 as nat) * p,
    decreases w - __k0,
//@let out#0
    proof { lemma_num_zeros(out@); lemma_low_0(l); assert(0 * p == 0); }
//@start 0
    let ghost k = idx as nat; let ghost o0 = num(out@);
    proof {
        lemma_low(l, k); lemma_pow2_adds(k, right as nat); lemma_shl_bits(low(l, k), k, right as nat);
        assert((low(l, k) + e2(k)) * p == low(l, k) * p + e2(k) * p) by(nonlinear_arith);
        assert((1 - 0) * e2(k + right as nat) == e2(k + right as nat) && (0 - 0) * e2(k + right as nat) == 0);
    }
//@after 0
    proof { lemma_low_all(l, w); }
//@endfn
}
impl<T: ?Sized + BitSliceExt> BitwiseShl for T {}
pub proof fn lemma_shl_bits(x: int, k: nat, r: nat)
    requires 0 <= x < e2(k),
    ensures !nbit(x * e2(r), k + r),
{
    lemma_pow2_adds(k, r); lemma_pow2_pos(r);
    assert(0 <= x * e2(r) < e2(k) * e2(r)) by(nonlinear_arith) requires 0 <= x < e2(k), e2(r) >= 1;
    lemma_bit_above(x * e2(r), k + r);
}
pub trait BitwiseShr: BitSliceExt {
//@fn BitwiseShr::shr bits/src/algos/bitwise/shr.rs trait:BitwiseShr/shr limb params=left,right
    requires fits(left.v()),
    ensures num(r@) == num(left.v()) / (pow2(right as nat) as int), norm(r@), r@.len() <= left.v().len(),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost l = num(left.v()); let ghost w = left.v().len() * LB(); let ghost q = l / e2(right as nat);
    proof { lemma_num_bound(left.v()); lemma_pow2_pos(right as nat); lemma_width(left.v(), w); lemma_len_small(left.v().len()); }
//@loop 0
    invariant __e0 == 0, __k0 <= w + 1, out@.len() == left.v().len(),
        num(out@) == (if __k0 <= right { q } else { q - low(q, (__k0 - right) as nat) }),
    decreases __k0,
//@let out#0
    proof { lemma_num_zeros(out@); lemma_shr_bits_init(l, w, right as nat); }
//@start 0
    let ghost k = idx as nat; let ghost o0 = num(out@); let ghost idx0 = idx;
    proof {
        lemma_get_bit_opt(left.v(), idx);
        lemma_shr_bits_step(l, w, right as nat, k);
        if idx >= right { let j = (idx - right) as nat; assert((1 - 0) * e2(j) == e2(j) && (0 - 0) * e2(j) == 0); }
    }
//@endfn
}
impl<T: ?Sized + BitSliceExt> BitwiseShr for T {}
pub proof fn lemma_len_small(n: nat)
    requires n <= 0x3f_ffff_ffff_ffff,
    ensures n * LB() < 0x3fff_ffff_ffff_ffff,
{ assert(n * LB() < 0x3fff_ffff_ffff_ffff) by(nonlinear_arith) requires n <= 0x3f_ffff_ffff_ffff, LB() <= 128; }
pub proof fn lemma_shr_bits_init(l: int, w: nat, r: nat)
    requires 0 <= l < e2(w),
    ensures w + 1 > r ==> low(l / e2(r), (w + 1 - r) as nat) == l / e2(r), w + 1 <= r ==> l / e2(r) == 0,
{
    lemma_pow2_pos(r);
    let q = l / e2(r);
    if w + 1 > r {
        if w >= r {
            lemma_pow2_adds((w - r) as nat, r);
            lemma_pow2_pos((w - r) as nat);
            lemma_fundamental_div_mod(l, e2(r)); lemma_mod_bound(l, e2(r)); lemma_div_pos_is_pos(l, e2(r));
            let m = e2((w - r) as nat);
            if q >= m { assert(e2(r) * q >= m * e2(r)) by(nonlinear_arith) requires q >= m, e2(r) >= 1; assert(m * e2(r) == e2(w)); }
            lemma_e2_mono((w - r) as nat, (w + 1 - r) as nat);
            lemma_low_all(q, (w + 1 - r) as nat);
        }
    } else {
        lemma_e2_mono(w, r); lemma_basic_div(l, e2(r));
    }
}
pub proof fn lemma_shr_bits_step(l: int, w: nat, r: nat, k: nat)
    requires 0 <= l < e2(w),
    ensures k >= r ==> ({
        let j = (k - r) as nat; let q = l / e2(r);
        &&& nbit(q, j) == nbit(l, k)
        &&& low(q, j + 1) == low(q, j) + (if nbit(l, k) { e2(j) } else { 0 })
        &&& low(q, 0) == 0 && q >= 0
        &&& !nbit(q - low(q, j + 1), j)
        &&& k >= w ==> !nbit(l, k)
    }),
{
    if k >= r {
        let j = (k - r) as nat; let q = l / e2(r);
        lemma_pow2_adds(r, j); lemma_pow2_pos(r); lemma_pow2_pos(j);
        lemma_div_denominator(l, e2(r), e2(j));
        lemma_div_pos_is_pos(l, e2(r));
        lemma_low(q, j); lemma_low_0(q);
        lemma_bit_prefix(q, j + 1);
        let h = q / e2(j + 1);
        assert(q - low(q, j + 1) == h * e2(j + 1)) by(nonlinear_arith) requires q == e2(j + 1) * h + low(q, j + 1);
        lemma_nbit_multiple(h, j);
        if k >= w { lemma_bit_high_n(l, w, k); }
    }
}
}
pub use bwshift::*;
