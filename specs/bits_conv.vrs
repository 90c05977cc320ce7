// splitting integers into digits and joining digits into integers, for every pair of unsigned types,
// plus signed targets for joining
pub mod convmath {
use super::*;
/// contracts of the digit type's traits (proved for every primitive under P17 / P18)
pub fn l_zero() -> (r: Limb) ensures r == 0 { 0 }
pub fn l_max() -> (r: Limb) ensures r as int == BB() - 1 { Limb::MAX }
pub trait LIsZero { fn l_is_zero(&self) -> bool; }
impl LIsZero for Limb { fn l_is_zero(&self) -> (r: bool) ensures r == (*self == 0) { *self == 0 } }
/// one more digit split off
pub proof fn lemma_split_step(left: int, q: int, d: int, p: int, b: int, v: int, done: int)
    requires left * p + done == v, left == q * b + d,
    ensures q * (b * p) + (done + d * p) == v,
{ assert((q * b + d) * p == q * (b * p) + d * p) by(nonlinear_arith); }
/// all digits written, the rest is cut off
pub proof fn lemma_split_end(left: int, p: int, v: int, done: int)
    requires left * p + done == v, 0 <= done < p, 0 <= left,
    ensures v % p == done,
{ lemma_div_mod_unique(v, p, left, done); }
pub proof fn lemma_small(v: int, p: int)
    requires 0 <= v < p,
    ensures v % p == v,
{ lemma_small_mod(v as nat, p as nat); }
/// a non-zero digit makes the number at least as big as its place
pub proof fn lemma_digit_ge(s: Seq<Limb>, k: nat, n: nat, c: int)
    requires k < n <= s.len(), s[k as int] as int >= c, c >= 0,
    ensures val(s, n) >= c * pw(k),
    decreases n,
{
    lemma_val_step(s, (n - 1) as nat);
    lemma_pw_pos((n - 1) as nat);
    lemma_val_bound(s, (n - 1) as nat);
    let d = dg(s, n - 1);
    let p = pw((n - 1) as nat);
    if n == k + 1 { assert(d * p >= c * p) by(nonlinear_arith) requires d >= c, p >= 1; }
    else { lemma_digit_ge(s, k, (n - 1) as nat, c); assert(d * p >= 0) by(nonlinear_arith) requires d >= 0, p >= 1; }
}
}
//%for T,UB,MX in u8,8,0x100int u16,16,0x10000int u32,32,0x100000000int u64,64,0x10000000000000000int u128,128,0x100000000000000000000000000000000int usize,64,0x10000000000000000int
pub mod split_$T {
use super::*;
use super::convmath::*;
fn l_from(x: $T) -> (r: Option<Limb>) ensures r == (if (x as int) < BB() { Some(x as Limb) } else { None::<Limb> }) { if (x as u128) <= (Limb::MAX as u128) { Some(x as Limb) } else { None } }
#[verifier::external_body]
fn t_trunc_from(x: Limb) -> (r: $T) ensures r as int == (x as int) % $MX { x as $T }
fn t_one() -> (r: $T) ensures r == 1 { 1 }
trait LTrunc { fn l_trunc(self) -> Limb; }
impl LTrunc for $T { fn l_trunc(self) -> (r: Limb) ensures (self as int) < BB() ==> r as int == self as int { #[verifier::truncate] let r = self as Limb; r } }
//@fn int_to_arr<$T,$LIMB> bits/src/utils.rs fn:int_to_arr pub subst=T->$T;U->Limb params=gval calls=Limb::zero->l_zero;Limb::max_value->l_max;Limb::from_checked->l_from;$T::truncate_from->t_trunc_from;$T::one->t_one methods=truncate->l_trunc
    requires N > 0,
    ensures num(r@) == gval as int % pw(N as nat), (gval as int) < pw(N as nat) ==> num(r@) == gval,
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@assert 0
true
//@entry
    let ghost g = gval as int;
    proof { lemma_pw_step(0); lemma_pw_pos(N as nat); if g < pw(N as nat) { lemma_small(g, pw(N as nat)); } }
//@let out#0
    proof {
        lemma_num_zeros(out@); lemma_val_step(out@, 0); assert(g * 1 == g);
        if g < BB() {
            let o2 = out@.update(0, gval as Limb);
            lemma_val_update(out@, 0, gval as Limb, N as nat);
            reveal_with_fuel(pw, 1); reveal_with_fuel(val, 1);
            assert(g * 1 == g);
            lemma_pw_mono(1, N as nat); lemma_pw_step(0);
            lemma_small(g, pw(N as nat));
        } else { lemma_small(BB() - 1, $MX); }
    }
//@loop 0
    invariant_except_break __k0 <= N, left * pw(__k0 as nat) + val(out@, __k0 as nat) == g, forall|i: int| __k0 <= i < N ==> out@[i] == 0, __k0 == N ==> val(out@, N as nat) == g % pw(N as nat),
    ensures num(out@) == g % pw(N as nat),
    decreases N - __k0,
//@start 0
    let ghost o0 = out@;
    let ghost k = (__k0 - 1) as nat;
    proof {
        lemma_val_bound(o0, k); lemma_pw_step(k); lemma_pw_pos(k);
        lemma_div_split(left as int);
        let d = (if (left as int) < BB() { left as int } else { left as int % BB() }) as Limb;
        let o1 = o0.update(k as int, d);
        lemma_val_ext(o0, o1, k); lemma_val_step(o1, k);
        assert(dg(o1, k as int) == d);
        if (left as int) < BB() {
            lemma_val_zeros(o1, k + 1, N as nat);
            lemma_val_bound(o1, N as nat);
            lemma_small(g, pw(N as nat));
        } else {
            lemma_split_step(left as int, left as int / BB(), d as int, pw(k), BB(), g, val(o0, k));
            lemma_val_bound(o1, k + 1);
            if k + 1 == N { lemma_split_end(left as int / BB(), pw(N as nat), g, val(o1, N as nat)); }
        }
    }
//@after 0
    proof { }
//@endfn
proof fn lemma_div_split(left: int)
    requires 0 <= left,
    ensures left == (left / BB()) * BB() + left % BB(), 0 <= left % BB() < BB(), 0 <= left / BB() <= left,
{ lemma_fundamental_div_mod(left, BB()); lemma_mod_bound(left, BB()); lemma_div_nonincreasing(left, BB()); lemma_div_pos_is_pos(left, BB()); assert(BB() * (left / BB()) == (left / BB()) * BB()) by(nonlinear_arith); }
}
//%endfor
//%for T,UT,UB,VB,MX in u8,u8,8,8,0x100int u16,u16,16,16,0x10000int u32,u32,32,32,0x100000000int u64,u64,64,64,0x10000000000000000int u128,u128,128,128,0x100000000000000000000000000000000int usize,usize,64,64,0x10000000000000000int i8,u8,8,7,0x80int i16,u16,16,15,0x8000int i32,u32,32,31,0x80000000int i64,u64,64,63,0x8000000000000000int i128,u128,128,127,0x80000000000000000000000000000000int isize,usize,64,63,0x8000000000000000int
pub mod join_$T {
use super::*;
use super::convmath::*;
fn t_zero() -> (r: $T) ensures r == 0 { 0 }
#[verifier::external_body]
fn t_from(x: Limb) -> (r: Option<$T>) ensures r == (if (x as int) < $MX { Some(x as $T) } else { None::<$T> }) { x.try_into().ok() }
trait TShl: Sized { fn t_checked_shl(self, b: usize) -> Option<Self>; }
impl TShl for $T { fn t_checked_shl(self, b: usize) -> (r: Option<$T>) ensures r == (if b < $UB { Some(self << b) } else { None::<$T> }) { if b < $UB { Some(self << b) } else { None } } }
proof fn lemma_top(k: nat)
    ensures k * LB() < $UB && LB() <= $UB ==> (k + 1) * LB() <= $UB,
        (k * LB() < $UB) ==> (k == 0 || LB() < $UB),
        pow2($UB) == $MX || pow2($UB) == 2 * $MX, pow2($VB) == $MX,
{
    lemma2_to64(); lemma2_to64_rest(); lemma_pow2_adds(64, 64); lemma_pow2_unfold(128); lemma_pow2_unfold(64);
    assert((k + 1) * LB() == k * LB() + LB()) by(nonlinear_arith);
    if k >= 1 { assert(k * LB() >= LB()) by(nonlinear_arith) requires k >= 1, LB() >= 0; }
    // both widths are powers of two
    if LB() <= $UB && k * LB() < $UB {
        let m: int = ($UBint) / (LB() as int);
        assert(m * LB() == $UB);
        assert(k < m) by(nonlinear_arith) requires k * LB() < m * LB(), LB() >= 0;
        assert((k + 1) * LB() <= m * LB()) by(nonlinear_arith) requires k + 1 <= m, LB() >= 0;
    }
}
/// shifting left keeps the value while it stays below the top
proof fn lemma_shl(x: $T, b: usize)
    requires b < $UB, 0 <= x, x as int * pow2(b as nat) < pow2($UB),
    ensures x as int * pow2(b as nat) < $MX ==> (x << b) as int == x as int * pow2(b as nat),
        x as int * pow2(b as nat) >= $MX ==> ((x << b) as int) < 0,
    decreases b,
{
    let w: $UT = x as $UT;
    lemma_shl_u(w, b);
    let z: $UT = w << b;
    lemma2_to64(); lemma2_to64_rest(); lemma_pow2_adds(64, 64); lemma_pow2_unfold(128); lemma_pow2_unfold(64);
    assert((z as $T) == x << b) by(bit_vector) requires b < $UB, w == x as $UT, z == w << b;
//%if UB!=$VB
    assert((z as int) < $MX ==> (z as $T) as int == z as int) by(bit_vector);
    assert((z as int) >= $MX ==> ((z as $T) as int) < 0) by(bit_vector);
//%endif
}
proof fn lemma_shl_u(x: $UT, b: usize)
    requires b < $UB, x as int * pow2(b as nat) < pow2($UB),
    ensures (x << b) as int == x as int * pow2(b as nat),
    decreases b,
{
    lemma2_to64(); lemma2_to64_rest(); lemma_pow2_adds(64, 64); lemma_pow2_unfold(128); lemma_pow2_unfold(64);
    if b == 0 { assert(x << 0usize == x) by(bit_vector); assert(x as int * 1 == x as int); }
    else {
        let p = pow2((b - 1) as nat) as int;
        lemma_pow2_unfold(b as nat);
        lemma_pow2_pos((b - 1) as nat);
        assert(x as int * (2 * p) == 2 * (x as int * p)) by(nonlinear_arith);
        assert(x as int * p >= 0) by(nonlinear_arith) requires x as int >= 0, p >= 0;
        lemma_shl_u(x, (b - 1) as usize);
        let y: $UT = x << ((b - 1) as usize);
        let z: $UT = x << b;
        assert(y as int == x as int * p);
        assert(2 * (y as int) < pow2($UB));
        assert(z == (y << 1usize)) by(bit_vector) requires 0 < b < $UB, y == x << ((b - 1) as usize), z == x << b;
        lemma_dbl(y);
    }
}
proof fn lemma_dbl(y: $UT)
    requires 2 * (y as int) <= $UT::MAX as int,
    ensures (y << 1usize) as int == 2 * (y as int),
{
    assert(y <= $UT::MAX / 2) by(nonlinear_arith) requires 2 * (y as int) <= $UT::MAX as int;
    assert((y << 1usize) as int == 2 * (y as int)) by(bit_vector) requires y <= $UT::MAX / 2;
}
//@fn arr_to_int<$LIMB,$T> bits/src/utils.rs fn:arr_to_int pub subst=T->Limb;U->$T params=arr calls=$T::zero->t_zero;$T::from_checked->t_from methods=is_zero->l_is_zero;checked_shl->t_checked_shl
    requires arr@.len() * LB() < usize::MAX,
    ensures num(arr@) < $MX ==> r == Some(num(arr@) as $T), num(arr@) >= $MX ==> r is None,
//@attr
#[verifier::loop_isolation(false)]
//@entry
    proof { lemma_val_step(arr@, 0); lemma_num_bound(arr@); lemma_limb_pow2(); }
//@loop 0
    invariant __k0 <= arr@.len(), __s0@ == arr@, out as int == val(arr@, __k0 as nat), 0 <= val(arr@, __k0 as nat) < $MX,
    decreases arr@.len() - __k0,
//@start 0
    proof {
        let k = (__k0 - 1) as nat;
        lemma_val_step(arr@, k); lemma_val_bound(arr@, k); lemma_val_bound(arr@, k + 1); lemma_pw_pos(k);
        let d = i as int;
        assert(dg(arr@, k as int) == d);
        assert(k * LB() <= arr@.len() * LB()) by(nonlinear_arith) requires k <= arr@.len(), LB() >= 0;
        assert(idx * $LBITS == k * LB()) by(nonlinear_arith) requires idx as int == k as int, LB() == $LBITS as nat;
        if d == 0 { assert(0 * pw(k) == 0); }
        else {
            lemma_top(k);
            lemma_pow2_limbs(k);
            lemma_val_mono(arr@, k + 1, arr@.len());
            assert(d * pw(k) >= pw(k)) by(nonlinear_arith) requires d >= 1, pw(k) >= 1;
            assert(d * pw(k) >= d) by(nonlinear_arith) requires d >= 1, pw(k) >= 1;
            if d < $MX && k * LB() < $UB {
                // the shifted digit stays inside the bits of the target
                if LB() <= $UB {
                    lemma_pow2_limbs(k + 1);
                    lemma_pow2_mono((k + 1) * LB(), $UB);
                    lemma_pw_step(k);
                    assert(d * pw(k) < BB() * pw(k)) by(nonlinear_arith) requires d < BB(), pw(k) >= 1;
                } else { assert(k == 0); lemma_pw_step(0); assert(d * 1 == d); }
                lemma_shl(i as $T, (k * LB()) as usize);
                if d * pw(k) < $MX { lemma_sum_below(arr@, k); }
            } else if k * LB() >= $UB {
                lemma_pow2_mono($UB, k * LB());
            }
        }
    }
//@endfn
proof fn lemma_pow2_mono(a: nat, b: nat) requires a <= b ensures pow2(a) <= pow2(b)
{ if a < b { lemma_pow2_strictly_increases(a, b); } }
proof fn lemma_val_mono(s: Seq<Limb>, a: nat, b: nat)
    requires a <= b <= s.len(),
    ensures val(s, a) <= val(s, b),
    decreases b,
{ if a < b { lemma_val_mono(s, a, (b - 1) as nat); lemma_val_step(s, (b - 1) as nat); lemma_pw_pos((b - 1) as nat); let d = dg(s, b - 1); let p = pw((b - 1) as nat); assert(d * p >= 0) by(nonlinear_arith) requires d >= 0, p >= 1; } }
/// a digit that fits together with the digits below it fits as a whole
proof fn lemma_sum_below(s: Seq<Limb>, k: nat)
    requires k < s.len(), k * LB() < $UB, dg(s, k as int) * pw(k) < $MX,
    ensures val(s, k + 1) < $MX,
{
    lemma_val_step(s, k); lemma_val_bound(s, k); lemma_pw_pos(k); lemma_top(k); lemma_pow2_limbs(k); lemma_limb_pow2();
    let d = dg(s, k as int);
    let p = pw(k);
    // $MX is a multiple of p: the next multiple is still within
    lemma_pow2_adds(k * LB(), ($VB - k * LB()) as nat);
    let m = pow2(($VB - k * LB()) as nat) as int;
    assert(p * m == $MX);
    assert(d < m) by(nonlinear_arith) requires d * p < p * m, p >= 1;
    assert((d + 1) * p <= p * m) by(nonlinear_arith) requires d + 1 <= m, p >= 1;
    assert((d + 1) * p == d * p + p) by(nonlinear_arith);
}
}
//%endfor
//%include bits_rev.vrs
