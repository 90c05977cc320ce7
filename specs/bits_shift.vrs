pub mod shiftmath {
use super::*;
/// x << b keeps the low bits of x * 2^b
pub proof fn lemma_limb_shl(x: Limb, b: usize)
    requires b < LB(),
    ensures (x << b) as int == (x as int * pow2(b as nat)) % BB(),
    decreases b,
{
    lemma_limb_pow2();
    if b == 0 {
        lemma2_to64();
        assert(x << 0usize == x) by(bit_vector);
        lemma_small_mod(x as nat, BB() as nat);
        assert(x as int * 1 == x);
    } else {
        let y = x << ((b - 1) as usize);
        lemma_limb_shl(x, (b - 1) as usize);
        lemma_pow2_unfold(b as nat);
        let z = x << b;
        assert(z == add(y, y)) by(bit_vector) requires 0 < b < $LBITS, y == x << ((b - 1) as usize), z == x << b;
        let p = pow2((b - 1) as nat) as int;
        let v = x as int * p;
        assert(x as int * (2 * p) == 2 * v) by(nonlinear_arith) requires v == x as int * p;
        lemma_mul_mod_noop_right(2, v, BB());
        lemma_add_wrap_digit(y, z);
    }
}
pub proof fn lemma_add_wrap_digit(y: Limb, z: Limb)
    requires z == add(y, y),
    ensures z as int == (2 * y as int) % BB(),
{
    let h = (1 as Limb) << (($LBITS - 1) as usize);
    lemma_limb_one_shl(($LBITS - 1) as usize);
    lemma_limb_pow2(); lemma_pow2_unfold(LB());
    assert(2 * h as int == BB());
    if y >= h {
        assert(z == mul(2, sub(y, h))) by(bit_vector) requires z == add(y, y), y >= h, h == (1 as Limb) << (($LBITS - 1) as usize);
        assert(z as int == 2 * (y as int - h as int));
        lemma_div_mod_unique(2 * y as int, BB(), 1, 2 * y as int - BB());
    } else { lemma_small_mod((2 * y) as nat, BB() as nat); }
}
pub open spec fn e2(k: nat) -> int { pow2(k) as int }

// ------------------------------------------------------------------ left shift
/// the low and the high part of a digit shifted left by es bits
pub open spec fn shl_lo(d: int, es: nat) -> int { (d * e2(es)) % BB() }
pub open spec fn shl_hi(d: int, es: nat) -> int { (d * e2(es)) / BB() }
pub proof fn lemma_shl_parts(x: Limb, y: Limb, es: usize, inv: usize, mask: Limb, m: Limb)
    requires es < LB(), inv == (LIMB_BIT_LEN - es) % (LIMB_BIT_LEN as int), m as int == BB() - 1, mask == !(m << es),
    ensures
        ((x << es) & !mask) as int == shl_lo(x as int, es as nat),
        ((((x << es) & !mask) & !mask) | ((y >> inv) & mask)) as int == shl_lo(x as int, es as nat) + shl_hi(y as int, es as nat),
        ((0 as Limb & !mask) | ((y >> inv) & mask)) as int == shl_hi(y as int, es as nat),
        shl_lo(x as int, es as nat) + shl_hi(y as int, es as nat) < BB(), shl_hi(y as int, es as nat) < BB(), 0 <= shl_hi(y as int, es as nat), 0 <= shl_lo(x as int, es as nat),
{
    assert(!(0 as Limb) == Limb::MAX) by(bit_vector);
    assert(m == !(0 as Limb));
    lemma_limb_shl(x, es);
    lemma_limb_pow2();
    if es == 0 {
        lemma2_to64();
        assert(inv == 0);
        assert((x << 0usize) & !(!(!(0 as Limb) << 0usize)) == x && (((x << 0usize) & !(!(!(0 as Limb) << 0usize))) & !(!(!(0 as Limb) << 0usize)) | ((y >> 0usize) & !(!(0 as Limb) << 0usize))) == x
            && ((0 as Limb & !(!(!(0 as Limb) << 0usize))) | ((y >> 0usize) & !(!(0 as Limb) << 0usize))) == 0) by(bit_vector);
        lemma_small_mod(x as nat, BB() as nat);
        lemma_basic_div(y as int, BB());
        assert(x as int * 1 == x && y as int * 1 == y);
    } else {
        assert(inv == $LBITS - es);
        lemma_limb_shr(y, inv);
        lemma_pow2_adds(es as nat, inv as nat);
        let p = e2(es as nat); let q = e2(inv as nat);
        lemma_pow2_pos(es as nat); lemma_pow2_pos(inv as nat);
        assert(BB() == q * p) by(nonlinear_arith) requires BB() == p * q;
        // (y * p) / (q * p) == y / q
        lemma_mul_is_commutative(y as int, p);
        lemma_div_multiples_vanish_quotient(p, y as int, q);
        assert(p * q == BB());
        let lo = x << es; let hi = y >> inv;
        assert((lo & !mask) == lo && (hi & mask) == hi && ((lo & !mask) & !mask | (hi & mask)) >= lo && sub(((lo & !mask) & !mask | (hi & mask)), lo) == hi
            && ((0 as Limb & !mask) | (hi & mask)) == hi) by(bit_vector)
            requires lo == x << es, hi == y >> inv, 0 < es < $LBITS, inv == sub($LBITS, es), mask == !(!(0 as Limb) << es);
    }
}
/// `t` holds s shifted left by es bits in its first digits
pub open spec fn shl_dg(s: Seq<Limb>, es: nat, j: int) -> int { shl_lo(dg(s, j), es) + shl_hi(dg(s, j - 1), es) }
pub proof fn lemma_shl_val(s: Seq<Limb>, t: Seq<Limb>, es: nat, o: nat, k: nat)
    requires
        forall|i: int| 0 <= i < o ==> dg(t, i) == 0,
        forall|j: int| 0 <= j < k ==> #[trigger] dg(t, j + o) == shl_dg(s, es, j),
    ensures val(t, k + o) + shl_hi(dg(s, k - 1), es) * pw(k + o) == (val(s, k) * e2(es)) * pw(o),
    decreases k,
{
    let p = e2(es);
    if k == 0 {
        lemma_val_zeros(t, 0, o); lemma_val_step(t, 0); lemma_val_step(s, 0);
        assert(0int / BB() == 0) by(nonlinear_arith) requires BB() >= 2;
        assert(dg(s, -1) * p == 0) by(nonlinear_arith) requires dg(s, -1) == 0;
        assert(0 * pw(o) == 0 && (0 * p) * pw(o) == 0) by(nonlinear_arith);
    } else {
        let j = (k - 1) as nat;
        lemma_shl_val(s, t, es, o, j);
        lemma_val_step(s, j); lemma_val_step(t, j + o);
        assert(dg(t, j as int + o) == shl_dg(s, es, j as int));
        lemma_pw_step(j + o); lemma_pw_add(j, o);
        assert(j + o + 1 == k + o);
        let d = dg(s, j as int); let P = pw(j + o);
        lemma_fundamental_div_mod(d * p, BB());
        let (lo, h) = (shl_lo(d, es), shl_hi(d, es)); let h0 = shl_hi(dg(s, j - 1), es);
        assert((lo + h0) * P + h * (BB() * P) == (d * p) * P + h0 * P) by(nonlinear_arith) requires d * p == BB() * h + lo;
        assert((d * p) * P == ((d * pw(j)) * p) * pw(o)) by(nonlinear_arith) requires P == pw(j) * pw(o);
        assert((val(s, k) * p) * pw(o) == (val(s, j) * p) * pw(o) + ((d * pw(j)) * p) * pw(o)) by(nonlinear_arith) requires val(s, k) == val(s, j) + d * pw(j);
    }
}
/// 2^right = 2^es * B^o
pub proof fn lemma_shift_split(right: nat)
    ensures e2(right) == e2(right % LB()) * pw(right / LB()), e2(right) >= 1, e2(right % LB()) >= 1, right % LB() < LB(),
{
    let (o, es) = (right / LB(), right % LB());
    lemma_fundamental_div_mod(right as int, LB() as int);
    lemma_mod_bound(right as int, LB() as int);
    assert(LB() * o == o * LB()) by(nonlinear_arith);
    lemma_pow2_limbs(o); lemma_pow2_adds(o * LB(), es);
    lemma_pow2_pos(right); lemma_pow2_pos(es);
    assert(e2(right) == pw(o) * e2(es));
    assert(pw(o) * e2(es) == e2(es) * pw(o)) by(nonlinear_arith);
}
pub proof fn lemma_shl_full(s: Seq<Limb>, t: Seq<Limb>, right: nat)
    requires t.len() == s.len() + right / LB() + 1,
        forall|i: int| 0 <= i < right / LB() ==> t[i] == 0,
        forall|j: int| 0 <= j <= s.len() ==> #[trigger] dg(t, j + (right / LB()) as int) == shl_dg(s, right % LB(), j),
    ensures num(t) == num(s) * e2(right),
{
    let o = right / LB(); let es = right % LB(); let k = s.len() + 1;
    assert forall|i: int| 0 <= i < o implies dg(t, i) == 0 by {}
    lemma_shl_val(s, t, es, o, k);
    lemma_val_pad(s, k);
    lemma_shift_split(right);
    let p = e2(es);
    assert(dg(s, k - 1) * p == 0) by(nonlinear_arith) requires dg(s, k - 1) == 0;
    assert(0int / BB() == 0) by(nonlinear_arith) requires BB() >= 2;
    assert(0 * pw(k + o) == 0);
    assert((num(s) * p) * pw(o) == num(s) * (p * pw(o))) by(nonlinear_arith);
}
/// the in-place shift keeps the low digits
pub proof fn lemma_shl_trunc(s: Seq<Limb>, t: Seq<Limb>, right: nat)
    requires t.len() == s.len(), right / LB() <= s.len(),
        forall|i: int| 0 <= i < right / LB() ==> t[i] == 0,
        forall|j: int| 0 <= j && j + right / LB() < s.len() ==> #[trigger] dg(t, j + (right / LB()) as int) == shl_dg(s, right % LB(), j),
    ensures num(t) == (num(s) * e2(right)) % pw(s.len()),
{
    let o = right / LB(); let es = right % LB(); let n = s.len();
    let k = (n - o) as nat;
    assert forall|i: int| 0 <= i < o implies dg(t, i) == 0 by {}
    lemma_shl_val(s, t, es, o, k);
    lemma_shift_split(right);
    lemma_num_bound(t); lemma_pw_pos(n);
    let p = e2(es);
    let h = shl_hi(dg(s, k - 1), es);
    // num(s) = val(s, k) + m * pw(k)
    let m = lemma_mod_up(s, k, n);
    lemma_pw_add(k, o);
    assert((num(s) * p) * pw(o) == (val(s, k) * p) * pw(o) + (m * p) * pw(n)) by(nonlinear_arith)
        requires num(s) == val(s, k) + m * pw(k), pw(n) == pw(k) * pw(o);
    assert((num(s) * p) * pw(o) == num(s) * (p * pw(o))) by(nonlinear_arith);
    let q = h + m * p;
    assert(num(s) * e2(right) == q * pw(n) + num(t)) by(nonlinear_arith)
        requires num(s) * e2(right) == num(t) + h * pw(n) + (m * p) * pw(n), q == h + m * p;
    lemma_div_mod_unique(num(s) * e2(right), pw(n), q, num(t));
}

// ------------------------------------------------------------------ right shift
pub open spec fn shr_lo(d: int, es: nat) -> int { d / e2(es) }
pub open spec fn shr_hi(d: int, es: nat) -> int { (d % e2(es)) * e2((LB() - es) as nat) }
pub proof fn lemma_shr_parts(x: Limb, y: Limb, es: usize, inv: usize, mask: Limb, m: Limb)
    requires es < LB(), inv == (LIMB_BIT_LEN - es) % (LIMB_BIT_LEN as int), m as int == BB() - 1, mask == !(m >> es),
    ensures
        ((x >> es) & !mask) as int == shr_lo(x as int, es as nat),
        ((0 as Limb & mask) | ((x >> es) & !mask)) as int == shr_lo(x as int, es as nat),
        ((((0 as Limb & mask) | ((x >> es) & !mask)) & !mask) | ((y << inv) & mask)) as int == shr_lo(x as int, es as nat) + shr_hi(y as int, es as nat),
        ((((x >> es) & !mask) & !mask) | ((y << inv) & mask)) as int == shr_lo(x as int, es as nat) + shr_hi(y as int, es as nat),
        shr_lo(x as int, es as nat) + shr_hi(y as int, es as nat) < BB(), 0 <= shr_hi(y as int, es as nat), 0 <= shr_lo(x as int, es as nat),
{
    assert(!(0 as Limb) == Limb::MAX) by(bit_vector);
    assert(m == !(0 as Limb));
    lemma_limb_shr(x, es);
    lemma_limb_pow2();
    lemma_pow2_pos(es as nat);
    lemma_div_pos_is_pos(x as int, e2(es as nat));
    if es == 0 {
        lemma2_to64();
        assert(inv == 0);
        assert((x >> 0usize) & !(!(!(0 as Limb) >> 0usize)) == x
            && ((0 as Limb & !(!(0 as Limb) >> 0usize)) | ((x >> 0usize) & !(!(!(0 as Limb) >> 0usize)))) == x
            && ((((0 as Limb & !(!(0 as Limb) >> 0usize)) | ((x >> 0usize) & !(!(!(0 as Limb) >> 0usize)))) & !(!(!(0 as Limb) >> 0usize))) | ((y << 0usize) & !(!(0 as Limb) >> 0usize))) == x
            && (((x >> 0usize) & !(!(!(0 as Limb) >> 0usize))) & !(!(!(0 as Limb) >> 0usize)) | ((y << 0usize) & !(!(0 as Limb) >> 0usize))) == x) by(bit_vector);
        assert(y as int % 1 == 0);
        assert(0 * e2(LB()) == 0);
        lemma_div_basics(x as int);
    } else {
        assert(inv == $LBITS - es);
        lemma_limb_shl(y, inv);
        lemma_pow2_adds(es as nat, inv as nat);
        let p = e2(es as nat); let q = e2(inv as nat);
        lemma_pow2_pos(inv as nat);
        lemma_truncate_middle(y as int, q, p);
        lemma_mul_is_commutative(y as int, q); lemma_mul_is_commutative(p, q); lemma_mul_is_commutative(y as int % p, q);
        assert((LB() - es) as nat == inv as nat);
        lemma_mod_bound(y as int, p);
        assert(shr_hi(y as int, es as nat) >= 0) by(nonlinear_arith) requires shr_hi(y as int, es as nat) == (y as int % p) * q, y as int % p >= 0, q >= 1;
        let lo = x >> es; let hi = y << inv;
        assert((lo & !mask) == lo && (hi & mask) == hi && ((lo & !mask) & !mask | (hi & mask)) >= lo && sub(((lo & !mask) & !mask | (hi & mask)), lo) == hi
            && ((0 as Limb & mask) | (lo & !mask)) == lo) by(bit_vector)
            requires lo == x >> es, hi == y << inv, 0 < es < $LBITS, inv == sub($LBITS, es), mask == !(!(0 as Limb) >> es);
    }
}
pub open spec fn shr_dg(s: Seq<Limb>, es: nat, j: int) -> int { shr_lo(dg(s, j), es) + shr_hi(dg(s, j + 1), es) }
/// the digits of s from position o up
pub open spec fn from(s: Seq<Limb>, o: nat) -> Seq<Limb> { if o <= s.len() { s.subrange(o as int, s.len() as int) } else { Seq::empty() } }
pub proof fn lemma_shr_val(u: Seq<Limb>, t: Seq<Limb>, es: nat, k: nat)
    requires es < LB(), forall|j: int| 0 <= j < k ==> #[trigger] dg(t, j) == shr_dg(u, es, j),
    ensures val(t, k) * e2(es) + dg(u, 0) % e2(es) == val(u, k) + (dg(u, k as int) % e2(es)) * pw(k),
    decreases k,
{
    let p = e2(es);
    lemma_pow2_pos(es);
    if k == 0 { lemma_val_step(t, 0); lemma_val_step(u, 0); lemma_pw_step(0); assert(0 * p == 0); assert((dg(u, 0) % p) * 1 == dg(u, 0) % p); }
    else {
        let j = (k - 1) as nat;
        lemma_shr_val(u, t, es, j);
        lemma_val_step(t, j); lemma_val_step(u, j); lemma_pw_step(j);
        assert(dg(t, j as int) == shr_dg(u, es, j as int));
        let d = dg(u, j as int); let x = dg(u, k as int) % p; let P = pw(j); let q = e2((LB() - es) as nat);
        lemma_fundamental_div_mod(d, p);
        lemma_limb_pow2(); lemma_pow2_adds(es, (LB() - es) as nat);
        // (d/p + x q) P p = (d - d%p) P + x B P
        assert(((d / p + x * q) * P) * p == (p * (d / p)) * P + x * ((p * q) * P)) by(nonlinear_arith);
        assert(p * q == BB());
        assert((p * (d / p)) * P == d * P - (d % p) * P) by(nonlinear_arith) requires d == p * (d / p) + d % p;
        assert((val(t, j) + (d / p + x * q) * P) * p == val(t, j) * p + ((d / p + x * q) * P) * p) by(nonlinear_arith);
    }
}
/// dropping o whole digits divides by B^o
pub proof fn lemma_from(s: Seq<Limb>, o: nat)
    ensures num(from(s, o)) == num(s) / pw(o),
    decreases s.len() - o,
{
    lemma_num_bound(s);
    if o >= s.len() {
        lemma_pw_mono(s.len(), o);
        lemma_basic_div(num(s), pw(o));
        let u = from(s, o);
        assert(u.len() == 0);
        lemma_val_step(u, 0);
    } else {
        lemma_from(s, o + 1);
        lemma_hi(s, o);
        let u = from(s, o); let w = from(s, o + 1);
        lemma_cons(u, w);
    }
}
pub proof fn lemma_cons(u: Seq<Limb>, w: Seq<Limb>)
    requires u.len() == w.len() + 1, forall|i: int| 0 <= i < w.len() ==> w[i] == u[i + 1],
    ensures num(u) == u[0] as int + BB() * num(w),
{ lemma_cons_k(u, w, w.len()); }
pub proof fn lemma_cons_k(u: Seq<Limb>, w: Seq<Limb>, k: nat)
    requires u.len() == w.len() + 1, k <= w.len(), forall|i: int| 0 <= i < w.len() ==> w[i] == u[i + 1],
    ensures val(u, k + 1) == u[0] as int + BB() * val(w, k),
    decreases k,
{
    if k == 0 { lemma_val_step(u, 0); lemma_val_step(w, 0); lemma_pw_step(0); assert(BB() * 0 == 0); }
    else {
        let j = (k - 1) as nat;
        lemma_cons_k(u, w, j);
        lemma_val_step(u, k); lemma_val_step(w, j); lemma_pw_step(j);
        assert(dg(u, k as int) == dg(w, j as int));
        let d = dg(w, j as int);
        assert(BB() * (val(w, j) + d * pw(j)) == BB() * val(w, j) + d * (BB() * pw(j))) by(nonlinear_arith);
    }
}
pub proof fn lemma_shr_full(s: Seq<Limb>, t: Seq<Limb>, right: nat)
    requires t.len() == s.len(),
        forall|j: int| 0 <= j && j + right / LB() < s.len() ==> #[trigger] dg(t, j) == shr_dg(from(s, right / LB()), right % LB(), j),
        forall|j: int| 0 <= j < s.len() && j + right / LB() >= s.len() ==> #[trigger] dg(t, j) == 0,
    ensures num(t) == num(s) / e2(right),
{
    let o = right / LB(); let es = right % LB();
    let u = from(s, o); let k = u.len(); let p = e2(es);
    lemma_shift_split(right);
    lemma_from(s, o);
    lemma_shr_val(u, t, es, k);
    lemma_val_zeros(t, k, t.len());
    lemma_pow2_pos(es); lemma_pw_pos(o);
    lemma_mod_bound(dg(u, 0), p);
    assert(0int % p == 0) by { lemma_small_mod(0, p as nat); }
    assert(0 * pw(k) == 0);
    lemma_div_mod_unique(num(u), p, num(t), dg(u, 0) % p);
    lemma_num_bound(s);
    lemma_div_denominator(num(s), pw(o), p);
    lemma_mul_is_commutative(p, pw(o));
}
}
pub use shiftmath::*;
pub mod shift {
use super::*;
pub open spec fn shl_arr(right: nat) -> int { (right / LB()) as int }

pub trait ElementShl: BitSliceExt {
//@fn ElementShl::shl bits/src/algos/element/shl.rs trait:ElementShl/shl limb params=left,right
    requires fits(left.v()),
    ensures num(r@) == num(left.v()) * pow2(right as nat), norm(r@), r@.len() > 0, r@.len() <= left.v().len() + right as nat / LB() + 1,
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost l = left.v(); let ghost o = (right as nat / LB()) as int; let ghost es = right as nat % LB(); let ghost n = l.len() as int;
    proof { assert(right / LIMB_BIT_LEN == o); lemma_shift_split(right as nat); }
//@loop 0
    invariant __s0@ == l, __k0 <= n, out@.len() == n + o + 1, arr_shift == o + 1, elem_shift == es, zero == 0,
        inverse_elem_shift == (LIMB_BIT_LEN - elem_shift) % (LIMB_BIT_LEN as int), exists|m: Limb| m as int == BB() - 1 && elem_mask == !(m << elem_shift),
        forall|p: int| 0 <= p < __k0 + o && p < out@.len() ==> out@[p] == 0,
        __k0 < n ==> out@[__k0 + o] as int == shl_lo(l[__k0 as int] as int, es),
        __k0 == n ==> out@[n + o] == 0,
        forall|j: int| __k0 < j <= n ==> #[trigger] dg(out@, j + o) == shl_dg(l, es, j),
    decreases __k0,
//@start 0
    let ghost out0 = out@;
    proof {
        let m = choose|m: Limb| m as int == BB() - 1 && elem_mask == !(m << elem_shift);
        lemma_shl_parts(val, val, elem_shift, inverse_elem_shift, elem_mask, m);
        if idx + 1 < n { lemma_shl_parts(l[idx + 1], val, elem_shift, inverse_elem_shift, elem_mask, m); }
        lemma_shl_of_zero(es);
    }
//@end 0
    proof {
        assert forall|j: int| idx < j <= n implies #[trigger] dg(out@, j + o) == shl_dg(l, es, j) by {
            if j > idx + 1 { assert(dg(out0, j + o) == shl_dg(l, es, j)); }
        }
    }
//@after 0
    proof {
        lemma_shl_of_zero(es);
        assert forall|j: int| 0 <= j <= n implies #[trigger] dg(out@, j + o) == shl_dg(l, es, j) by {}
        lemma_shl_full(l, out@, right as nat);
    }
//@endfn
//@fn ElementShl::inner_shl_wrap_and_mask bits/src/algos/element/shl.rs trait:ElementShl/inner_shl_wrap_and_mask limb params=left,right
    requires fits(old(left).v()), right <= old(left).v().len() * LB(),
    ensures final(r).v() == final(left).v(), r.v().len() == old(left).v().len(),
        num(r.v()) == (num(old(left).v()) * pow2(right as nat)) % pw(old(left).v().len()),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost mut done = left.v();
    let ghost l = left.v(); let ghost o = (right as nat / LB()) as int; let ghost es = right as nat % LB(); let ghost n = l.len() as int;
    proof { assert(right / LIMB_BIT_LEN == o); lemma_shift_split(right as nat); lemma_shift_le(right as nat, l.len()); }
//@loop 0
    invariant __e0 == 0, __k0 <= n, left.v().len() == n, arr_shift == o + 1, elem_shift == es, zero == 0,
        inverse_elem_shift == (LIMB_BIT_LEN - elem_shift) % (LIMB_BIT_LEN as int), exists|m: Limb| m as int == BB() - 1 && elem_mask == !(m << elem_shift),
        forall|p: int| 0 <= p < __k0 + o && p < n ==> left.v()[p] == l[p],
        __k0 + o < n ==> left.v()[__k0 + o] as int == shl_lo(l[__k0 as int] as int, es),
        forall|j: int| __k0 < j && j + o < n ==> #[trigger] dg(left.v(), j + o) == shl_dg(l, es, j),
    decreases __k0,
//@start 0
    let ghost out0 = left.v();
    proof {
        let m = choose|m: Limb| m as int == BB() - 1 && elem_mask == !(m << elem_shift);
        assert(out0[idx as int] == l[idx as int]);
        lemma_shl_parts(l[idx as int], l[idx as int], elem_shift, inverse_elem_shift, elem_mask, m);
        if idx + 1 < n { lemma_shl_parts(l[idx + 1], l[idx as int], elem_shift, inverse_elem_shift, elem_mask, m); }
    }
//@end 0
    proof {
        assert forall|j: int| idx < j && j + o < n implies #[trigger] dg(left.v(), j + o) == shl_dg(l, es, j) by {
            if j > idx + 1 { assert(dg(out0, j + o) == shl_dg(l, es, j)); }
        }
    }
//@after 0
    proof { done = left.v(); }
//@tail
    proof {
        lemma_shl_of_zero(es);
        assert forall|j: int| 0 <= j && j + o < n implies #[trigger] dg(__ret.v(), j + o) == shl_dg(l, es, j) by {
            if j > 0 { assert(dg(done, j + o) == shl_dg(l, es, j)); }
        }
        lemma_shl_trunc(l, __ret.v(), right as nat);
    }
//@endfn
//@fn ElementShl::shl_checked bits/src/algos/element/shl.rs trait:ElementShl/shl_checked limb params=left,right
    requires fits(old(left).v()),
    ensures r is None <==> right > old(left).v().len() * LB(),
        r is None ==> final(left).v() == old(left).v(),
        r matches Some(x) ==> final(x).v() == final(left).v() && x.v().len() == old(left).v().len()
            && num(x.v()) == (num(old(left).v()) * pow2(right as nat)) % pw(old(left).v().len()),
//@endfn
//@fn ElementShl::shl_wrapping bits/src/algos/element/shl.rs trait:ElementShl/shl_wrapping limb params=left,right
    requires fits(old(left).v()),
    ensures final(r).v() == final(left).v(), r.v().len() == old(left).v().len(),
        num(r.v()) == (num(old(left).v()) * pow2(wrap_amt(right as nat, old(left).v().len()))) % pw(old(left).v().len()),
//@entry
    proof { lemma_wrap_amt(right as nat, left.v().len()); }
//@endfn
}
impl<T: ?Sized + BitSliceExt> ElementShl for T {}

/// a shift amount modulo the bit length
pub open spec fn wrap_amt(right: nat, len: nat) -> nat { if len == 0 { 0 } else { right % (len * LB()) } }
pub proof fn lemma_wrap_amt(right: nat, len: nat)
    ensures wrap_amt(right, len) == right % (if len * LB() > 1 { len * LB() } else { 1 }), wrap_amt(right, len) <= len * LB(),
{
    if len > 0 { assert(len * LB() >= 8) by(nonlinear_arith) requires len >= 1, LB() >= 8; lemma_mod_bound(right as int, (len * LB()) as int); }
    else { assert(len * LB() == 0) by(nonlinear_arith) requires len == 0; }
}
pub proof fn lemma_shift_le(right: nat, len: nat)
    requires right <= len * LB(),
    ensures right / LB() <= len,
{
    lemma_fundamental_div_mod(right as int, LB() as int);
    lemma_mod_bound(right as int, LB() as int);
    let q = right / LB();
    if q > len { assert(LB() * q > len * LB()) by(nonlinear_arith) requires q >= len + 1, LB() >= 8; }
}
pub proof fn lemma_shl_of_zero(es: nat)
    ensures shl_lo(0, es) == 0, shl_hi(0, es) == 0,
{
    assert(0 * e2(es) == 0);
    lemma_small_mod(0, BB() as nat);
    lemma_basic_div(0, BB());
}
pub proof fn lemma_shr_of_zero(es: nat)
    ensures shr_lo(0, es) == 0, shr_hi(0, es) == 0,
{
    lemma_pow2_pos(es);
    lemma_small_mod(0, pow2(es));
    lemma_basic_div(0, e2(es));
    assert(0 * e2((LB() - es) as nat) == 0);
}

pub trait ElementShr: BitSliceExt {
//@fn ElementShr::shr bits/src/algos/element/shr.rs trait:ElementShr/shr limb params=left,right
    requires fits(left.v()),
    ensures num(r@) == num(left.v()) / (pow2(right as nat) as int), norm(r@), r@.len() <= left.v().len(), left.v().len() > 0 ==> r@.len() > 0,
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost l = left.v(); let ghost o = (right as nat / LB()) as int; let ghost es = right as nat % LB(); let ghost n = l.len() as int;
    proof { assert(right / LIMB_BIT_LEN == o); lemma_shift_split(right as nat); }
//@loop 0
    invariant __s0@ == l, __k0 <= n, out@.len() == n, arr_shift == o + 1, elem_shift == es, zero == 0,
        inverse_elem_shift == (LIMB_BIT_LEN - elem_shift) % (LIMB_BIT_LEN as int), exists|m: Limb| m as int == BB() - 1 && elem_mask == !(m >> elem_shift),
        forall|p: int| 0 <= p < n && p + o >= __k0 ==> #[trigger] out@[p] == 0,
        0 <= __k0 - 1 - o ==> out@[__k0 - 1 - o] as int == shr_lo(l[__k0 - 1] as int, es),
        forall|j: int| 0 <= j && j + o < __k0 - 1 ==> #[trigger] dg(out@, j) == shr_dg(from(l, o as nat), es, j),
    decreases n - __k0,
//@start 0
    let ghost out0 = out@; let ghost i0 = idx as int;
    proof {
        let m = choose|m: Limb| m as int == BB() - 1 && elem_mask == !(m >> elem_shift);
        lemma_shr_parts(val, val, elem_shift, inverse_elem_shift, elem_mask, m);
        if idx >= 1 { lemma_shr_parts(l[idx - 1], val, elem_shift, inverse_elem_shift, elem_mask, m); }
        if idx - 1 - o >= 0 { lemma_shr_keep(out0[idx - 1 - o], val, l[idx - 1], elem_shift, inverse_elem_shift, elem_mask, m); }
    }
//@end 0
    proof {
        assert forall|j: int| 0 <= j && j + o < i0 implies #[trigger] dg(out@, j) == shr_dg(from(l, o as nat), es, j) by {
            if j + o < i0 - 1 { assert(dg(out0, j) == shr_dg(from(l, o as nat), es, j)); }
            else { assert(from(l, o as nat)[j] == l[i0 - 1] && from(l, o as nat)[j + 1] == l[i0]); }
        }
    }
//@after 0
    proof {
        lemma_shr_of_zero(es);
        assert forall|j: int| 0 <= j && j + o < n implies #[trigger] dg(out@, j) == shr_dg(from(l, o as nat), es, j) by {
            if j + o == n - 1 { assert(dg(from(l, o as nat), j + 1) == 0); assert(from(l, o as nat)[j] == l[n - 1]); }
        }
        lemma_shr_full(l, out@, right as nat);
    }
//@endfn
//@fn ElementShr::inner_shr_wrap_and_mask bits/src/algos/element/shr.rs trait:ElementShr/inner_shr_wrap_and_mask limb params=left,right
    requires fits(old(left).v()), right <= old(left).v().len() * LB(),
    ensures final(r).v() == final(left).v(), r.v().len() == old(left).v().len(),
        num(r.v()) == num(old(left).v()) / (pow2(right as nat) as int),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost mut done = left.v();
    let ghost l = left.v(); let ghost o = (right as nat / LB()) as int; let ghost es = right as nat % LB(); let ghost n = l.len() as int;
    proof { assert(right / LIMB_BIT_LEN == o); lemma_shift_split(right as nat); lemma_shift_le(right as nat, l.len()); }
//@loop 0
    invariant __e0 == n, __k0 <= n, left.v().len() == n, arr_shift == o + 1, elem_shift == es, zero == 0,
        inverse_elem_shift == (LIMB_BIT_LEN - elem_shift) % (LIMB_BIT_LEN as int), exists|m: Limb| m as int == BB() - 1 && elem_mask == !(m >> elem_shift),
        forall|p: int| 0 <= p < n && p + o >= __k0 ==> #[trigger] left.v()[p] == l[p],
        0 <= __k0 - 1 - o ==> left.v()[__k0 - 1 - o] as int == shr_lo(l[__k0 - 1] as int, es),
        forall|j: int| 0 <= j && j + o < __k0 - 1 ==> #[trigger] dg(left.v(), j) == shr_dg(from(l, o as nat), es, j),
    decreases n - __k0,
//@start 0
    let ghost out0 = left.v(); let ghost i0 = idx as int;
    proof {
        let m = choose|m: Limb| m as int == BB() - 1 && elem_mask == !(m >> elem_shift);
        assert(out0[idx as int] == l[idx as int]);
        lemma_shr_parts(l[idx as int], l[idx as int], elem_shift, inverse_elem_shift, elem_mask, m);
        if idx >= 1 { lemma_shr_parts(l[idx - 1], l[idx as int], elem_shift, inverse_elem_shift, elem_mask, m); }
        if idx - 1 - o >= 0 { lemma_shr_keep(out0[idx - 1 - o], l[idx as int], l[idx - 1], elem_shift, inverse_elem_shift, elem_mask, m); }
    }
//@end 0
    proof {
        assert forall|j: int| 0 <= j && j + o < i0 implies #[trigger] dg(left.v(), j) == shr_dg(from(l, o as nat), es, j) by {
            if j + o < i0 - 1 { assert(dg(out0, j) == shr_dg(from(l, o as nat), es, j)); }
            else { assert(from(l, o as nat)[j] == l[i0 - 1] && from(l, o as nat)[j + 1] == l[i0]); }
        }
    }
//@after 0
    proof { done = left.v(); }
//@tail
    proof {
        lemma_shr_of_zero(es);
        assert forall|j: int| 0 <= j && j + o < n implies #[trigger] dg(__ret.v(), j) == shr_dg(from(l, o as nat), es, j) by {
            if j + o == n - 1 { assert(dg(from(l, o as nat), j + 1) == 0); assert(from(l, o as nat)[j] == l[n - 1]); }
            else { assert(dg(done, j) == shr_dg(from(l, o as nat), es, j)); }
        }
        lemma_shr_full(l, __ret.v(), right as nat);
    }
//@endfn
//@fn ElementShr::shr_checked bits/src/algos/element/shr.rs trait:ElementShr/shr_checked limb params=left,right
    requires fits(old(left).v()),
    ensures r is None <==> right > old(left).v().len() * LB(),
        r is None ==> final(left).v() == old(left).v(),
        r matches Some(x) ==> final(x).v() == final(left).v() && x.v().len() == old(left).v().len()
            && num(x.v()) == num(old(left).v()) / (pow2(right as nat) as int),
//@endfn
//@fn ElementShr::shr_wrapping bits/src/algos/element/shr.rs trait:ElementShr/shr_wrapping limb params=left,right
    requires fits(old(left).v()),
    ensures final(r).v() == final(left).v(), r.v().len() == old(left).v().len(),
        num(r.v()) == num(old(left).v()) / (pow2(wrap_amt(right as nat, old(left).v().len())) as int),
//@entry
    proof { lemma_wrap_amt(right as nat, left.v().len()); }
//@endfn
}
impl<T: ?Sized + BitSliceExt> ElementShr for T {}
/// a digit holding only the low part keeps it when the high part is merged in
pub proof fn lemma_shr_keep(z: Limb, y: Limb, x: Limb, es: usize, inv: usize, mask: Limb, m: Limb)
    requires es < LB(), inv == (LIMB_BIT_LEN - es) % (LIMB_BIT_LEN as int), m as int == BB() - 1, mask == !(m >> es), z as int == shr_lo(x as int, es as nat),
    ensures ((z & !mask) | ((y << inv) & mask)) as int == shr_lo(x as int, es as nat) + shr_hi(y as int, es as nat),
{
    lemma_shr_parts(x, y, es, inv, mask, m);
    assert(z == ((x >> es) & !mask));
}
pub proof fn lemma_shl_keep(z: Limb, y: Limb, x: Limb, es: usize, inv: usize, mask: Limb, m: Limb)
    requires es < LB(), inv == (LIMB_BIT_LEN - es) % (LIMB_BIT_LEN as int), m as int == BB() - 1, mask == !(m << es), z as int == shl_lo(x as int, es as nat),
    ensures ((z & !mask) | ((y >> inv) & mask)) as int == shl_lo(x as int, es as nat) + shl_hi(y as int, es as nat),
{
    lemma_shl_parts(x, y, es, inv, mask, m);
    assert(z == ((x << es) & !mask));
}
}
pub use shift::*;
