// numeric-bits: limb primitives and the slice access trait
/// addressable: far above what a 64-bit machine can allocate; keeps index arithmetic in range
pub open spec fn fits(s: Seq<Limb>) -> bool { s.len() <= 0x3f_ffff_ffff_ffff }
/// bit i of a number
pub open spec fn nbit(n: int, i: nat) -> bool { (n / (pow2(i) as int)) % 2 == 1 }

pub trait VLimb: Sized {
    spec fn lv(self) -> int;
    fn v_zero() -> (r: Self) ensures r.lv() == 0;
    fn v_one() -> (r: Self) ensures r.lv() == 1;
    fn v_max_value() -> (r: Self) ensures r.lv() == BB() - 1;
    fn v_overflowing_add(self, rhs: Self) -> (r: (Self, bool))
        ensures self.lv() + rhs.lv() == r.0.lv() + b2i(r.1) * BB();
    fn v_overflowing_sub(self, rhs: Self) -> (r: (Self, bool))
        ensures self.lv() - rhs.lv() == r.0.lv() - b2i(r.1) * BB();
    fn v_widening_mul(self, mul: Self, add: Self) -> (r: (Self, Self))
        ensures r.0.lv() + r.1.lv() * BB() == self.lv() * mul.lv() + add.lv();
}
pub mod limb {
use super::*;
//%if LIMB=u128
pub open spec fn HH() -> int { 0x1_0000_0000_0000_0000 }
pub proof fn lemma_halves(x: u128, m: u128)
    requires m == u128::MAX >> 64u32,
    ensures x as int == (x >> 64u32) as int * HH() + (x & m) as int, (x & m) < HH(), (x >> 64u32) < HH(), (x << 64u32) as int == (x & m) as int * HH(),
        (x & m) as int == x as int % HH(), (x >> 64u32) as int == x as int / HH(),
{
    assert(u128::MAX == 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128) by(compute);
    let q = x >> 64u32; let r = x & m;
    assert(q < 0x1_0000_0000_0000_0000 && r < 0x1_0000_0000_0000_0000 && x == add(mul(q, 0x1_0000_0000_0000_0000), r) && (x << 64u32) == mul(r, 0x1_0000_0000_0000_0000)) by(bit_vector)
        requires m == 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffffu128 >> 64u32, q == x >> 64u32, r == x & m;
    lemma_div_mod_unique(x as int, HH(), q as int, r as int);
}
pub proof fn lemma_half_prods(al: int, ah: int, bl: int, bh: int)
    requires 0 <= al < HH(), 0 <= ah < HH(), 0 <= bl < HH(), 0 <= bh < HH(),
    ensures 0 <= al * bl < BB(), 0 <= al * bh < BB(), 0 <= ah * bl < BB(), 0 <= ah * bh < BB(),
{
    assert(0 <= al * bl < HH() * HH()) by(nonlinear_arith) requires 0 <= al < HH(), 0 <= bl < HH();
    assert(0 <= al * bh < HH() * HH()) by(nonlinear_arith) requires 0 <= al < HH(), 0 <= bh < HH();
    assert(0 <= ah * bl < HH() * HH()) by(nonlinear_arith) requires 0 <= ah < HH(), 0 <= bl < HH();
    assert(0 <= ah * bh < HH() * HH()) by(nonlinear_arith) requires 0 <= ah < HH(), 0 <= bh < HH();
}
pub proof fn lemma_u128_alg(h: int, a: int, b: int, al: int, ah: int, bl: int, bh: int, t1: int, t2: int, q1: int, q2: int, r1: int, r2: int, k: int)
    requires a == ah * h + al, b == bh * h + bl, t1 == al * bh, t2 == ah * bl, t1 == h * q1 + r1, t2 == h * q2 + r2,
    ensures a * b + k * (h * h) == al * bl + r1 * h + r2 * h + (ah * bh + q1 + q2 + k) * (h * h),
{
    assert(a * b == (ah * h) * (bh * h) + (ah * h) * bl + al * (bh * h) + al * bl) by(nonlinear_arith) requires a == ah * h + al, b == bh * h + bl;
    assert((ah * h) * (bh * h) == (ah * bh) * (h * h)) by(nonlinear_arith);
    assert((ah * h) * bl == t2 * h) by(nonlinear_arith) requires t2 == ah * bl;
    assert(al * (bh * h) == t1 * h) by(nonlinear_arith) requires t1 == al * bh;
    assert(t1 * h == q1 * (h * h) + r1 * h) by(nonlinear_arith) requires t1 == h * q1 + r1;
    assert(t2 * h == q2 * (h * h) + r2 * h) by(nonlinear_arith) requires t2 == h * q2 + r2;
    assert((ah * bh + q1 + q2 + k) * (h * h) == (ah * bh) * (h * h) + q1 * (h * h) + q2 * (h * h) + k * (h * h)) by(nonlinear_arith);
}
pub proof fn lemma_u128_mul(a: int, b: int, c: int, al: int, ah: int, bl: int, bh: int, s: int, k: int)
    requires 0 <= a < BB(), 0 <= b < BB(), 0 <= c < BB(), a == ah * HH() + al, b == bh * HH() + bl, 0 <= s < BB(), 0 <= k <= 3,
        0 <= al * bh, 0 <= ah * bl, 0 <= ah * bh,
        s + k * BB() == al * bl + ((al * bh) % HH()) * HH() + ((ah * bl) % HH()) * HH() + c,
    ensures ({
        let hi = ah * bh + (al * bh) / HH() + (ah * bl) / HH() + k;
        s + hi * BB() == a * b + c && 0 <= hi < BB()
    }),
{
    let H = HH();
    let (t1, t2) = (al * bh, ah * bl);
    lemma_fundamental_div_mod(t1, H); lemma_fundamental_div_mod(t2, H);
    lemma_div_pos_is_pos(t1, H); lemma_div_pos_is_pos(t2, H);
    let hi = ah * bh + t1 / H + t2 / H + k;
    lemma_u128_alg(H, a, b, al, ah, bl, bh, t1, t2, t1 / H, t2 / H, t1 % H, t2 % H, k);
    assert(H * H == BB());
    assert(a * b + c < BB() * BB()) by(nonlinear_arith) requires 0 <= a <= BB() - 1, 0 <= b <= BB() - 1, 0 <= c <= BB() - 1;
    assert(hi < BB()) by(nonlinear_arith) requires s + hi * BB() < BB() * BB(), s >= 0, BB() >= 1;
}
//%endif
//%if LIMB!=u128
//@fn limb::widen @traits impl:FromTruncating<$LIMB>~for~$WIDE/truncate_from name=widen params=val subst=Self->$WIDE
    ensures r == val as $WIDE,
//@endfn
//@fn limb::narrow @traits impl:FromTruncating<$WIDE>~for~$LIMB/truncate_from name=narrow params=val subst=Self->$LIMB
    ensures r == val as $LIMB,
//@endfn
pub trait VNarrow { fn v_narrow(self) -> Limb; }
impl VNarrow for $WIDE {
//@fn limb::narrow_into @traits impl:IntoTruncating<U>~for~T/truncate name=v_narrow subst=U->Limb calls=Limb::truncate_from->narrow
    ensures r == self as Limb,
//@endfn
}
pub const LIMB_BITS: u32 = $LBITS;
pub proof fn lemma_wide_fits(a: Limb, b: Limb, c: Limb)
    ensures 0 <= a as int * b as int <= $WIDE::MAX, a as int * b as int + c as int <= $WIDE::MAX,
{
    assert(0 <= a as int * b as int <= (BB() - 1) * (BB() - 1)) by(nonlinear_arith) requires 0 <= a < BB(), 0 <= b < BB();
    assert((BB() - 1) * (BB() - 1) + BB() - 1 <= $WIDE::MAX) by(compute);
}
pub proof fn lemma_widening(a: Limb, b: Limb, c: Limb, w: $WIDE)
    requires w as int == a as int * b as int + c as int,
    ensures (w as Limb) as int + ((w >> LIMB_BITS) as Limb) as int * BB() == a as int * b as int + c as int,
{
    assert(w == ((w >> LIMB_BITS) as Limb) as $WIDE * $LBASE + (w as Limb) as $WIDE) by(bit_vector);
}
//%endif
impl VLimb for Limb {
    open spec fn lv(self) -> int { self as int }
//@fn limb::zero @traits impl:Zero~for~$LIMB/zero name=v_zero
//@entry
    proof { assert((0 as Limb).lv() == 0); }
//@endfn
//@fn limb::one @traits impl:One~for~$LIMB/one name=v_one
//@entry
    proof { assert((1 as Limb).lv() == 1); }
//@endfn
//@fn limb::max_value @traits impl:Bounded~for~$LIMB/max_value name=v_max_value
//@endfn
//@fn limb::overflowing_add @traits impl:OverflowingAdd~for~$LIMB/overflowing_add name=v_overflowing_add subst=Self::Output->Self
//@endfn
//@fn limb::overflowing_sub @traits impl:OverflowingSub~for~$LIMB/overflowing_sub name=v_overflowing_sub subst=Self::Output->Self
//@endfn
//%if LIMB!=u128
//@fn limb::widening_mul @traits impl:WideningMul~for~$LIMB/widening_mul name=v_widening_mul params=mul,add calls=<$WIDE>::truncate_from->widen;<$LIMB>::BITS->LIMB_BITS methods=truncate->v_narrow
//@entry
    proof { lemma_wide_fits(self, mul, add); }
//@let wide#0
    proof { lemma_widening(self, mul, add, wide); }
//@endfn
//%endif
//%if LIMB=u128
//@fn limb::widening_mul @traits impl:WideningMul~for~$LIMB/widening_mul name=v_widening_mul params=mul,add calls=u128::from->vbool_u128
//@let rhs_hi#0
    proof { lemma_halves(self, lo_mask); lemma_halves(mul, lo_mask); lemma_half_prods(lhs_lo as int, lhs_hi as int, rhs_lo as int, rhs_hi as int); }
//@let tmp3#0
    proof {
        lemma_halves(tmp1, lo_mask); lemma_halves(tmp2, lo_mask);
        assert(tmp0 as int == lhs_lo as int * rhs_lo as int && tmp1 as int == lhs_lo as int * rhs_hi as int);
        assert(tmp2 as int == lhs_hi as int * rhs_lo as int && tmp3 as int == lhs_hi as int * rhs_hi as int);
    }
//@let carry2#0
    proof { lemma_u128_mul(self as int, mul as int, add as int, lhs_lo as int, lhs_hi as int, rhs_lo as int, rhs_hi as int, sum0 as int, b2i(carry0) + b2i(carry1) + b2i(carry2)); }
//@endfn
//%endif
}
}

pub mod bitmath {
use super::*;

pub proof fn lemma_limb_pow2()
    ensures pow2(LB()) == BB(), LB() >= 8,
{ lemma2_to64(); lemma2_to64_rest(); lemma_pow2_unfold(65); lemma_pow2_adds(64, 64); }

pub proof fn lemma_pow2_limbs(q: nat)
    ensures pow2(q * LB()) == pw(q),
    decreases q,
{
    if q == 0 { lemma2_to64(); reveal_with_fuel(pw, 1); assert(0 * LB() == 0); }
    else {
        lemma_pow2_limbs((q - 1) as nat);
        lemma_pw_step((q - 1) as nat);
        lemma_limb_pow2();
        lemma_pow2_adds(((q - 1) as nat) * LB(), LB());
        assert(((q - 1) as nat) * LB() + LB() == q * LB()) by(nonlinear_arith) requires q >= 1;
        assert(pow2(((q - 1) as nat) * LB()) * pow2(LB()) == BB() * pw((q - 1) as nat)) by(nonlinear_arith)
            requires pow2(((q - 1) as nat) * LB()) == pw((q - 1) as nat), pow2(LB()) == BB();
    }
}

/// n = hi * 2^k + lo splits the bits
pub proof fn lemma_div_mod_unique(n: int, d: int, q: int, r: int)
    requires n == q * d + r, 0 <= r < d,
    ensures n / d == q, n % d == r,
{ lemma_fundamental_div_mod_converse(n, d, q, r); }

/// the digits above position k
pub open spec fn hi(s: Seq<Limb>, k: nat) -> int { num(s) / pw(k) }

pub proof fn lemma_hi(s: Seq<Limb>, k: nat)
    ensures num(s) / pw(k) == dg(s, k as int) + BB() * (num(s) / pw(k + 1)),
        num(s) % pw(k) == val(s, k),
        num(s) >= 0, pw(k) >= 1,
{
    lemma_num_bound(s);
    lemma_mod(s, k);
    lemma_mod(s, k + 1);
    lemma_pw_step(k); lemma_pw_step(k + 1);
    lemma_val_step(s, k);
    lemma_val_bound(s, k);
    let q1 = num(s) / pw(k + 1);
    let d = dg(s, k as int);
    lemma_fundamental_div_mod(num(s), pw(k + 1));
    assert(num(s) == (d + BB() * q1) * pw(k) + val(s, k)) by(nonlinear_arith)
        requires num(s) == pw(k + 1) * q1 + (val(s, k) + d * pw(k)), pw(k + 1) == BB() * pw(k);
    lemma_div_mod_unique(num(s), pw(k), d + BB() * q1, val(s, k));
}

pub proof fn lemma_mod(s: Seq<Limb>, k: nat)
    ensures num(s) % pw(k) == val(s, k),
{
    lemma_num_bound(s);
    lemma_pw_pos(k);
    lemma_val_bound(s, k);
    if k >= s.len() {
        lemma_val_pad(s, k);
        lemma_pw_mono(s.len(), k);
        lemma_small_mod(num(s) as nat, pw(k) as nat);
    } else {
        let m = lemma_mod_up(s, k, s.len());
        lemma_div_mod_unique(num(s), pw(k), m, val(s, k));
    }
}

pub proof fn lemma_mod_up(s: Seq<Limb>, k: nat, j: nat) -> (m: int)
    requires k <= j,
    ensures val(s, j) == val(s, k) + m * pw(k),
    decreases j - k,
{
    if k == j { assert(val(s, j) == val(s, k) + 0 * pw(k)); 0 }
    else {
        let m = lemma_mod_up(s, k, (j - 1) as nat);
        lemma_val_step(s, (j - 1) as nat);
        lemma_pw_add(k, (j - 1 - k) as nat);
        let d = dg(s, j - 1); let q = pw((j - 1 - k) as nat);
        assert(d * (pw(k) * q) == (d * q) * pw(k)) by(nonlinear_arith);
        assert(m * pw(k) + (d * q) * pw(k) == (m + d * q) * pw(k)) by(nonlinear_arith);
        assert(val(s, j) == val(s, k) + (m + d * q) * pw(k));
        m + d * q
    }
}

/// bit i of the number is bit i%LB of digit i/LB
pub proof fn lemma_bit_of_digit(s: Seq<Limb>, q: nat, b: nat)
    requires b < LB(),
    ensures nbit(num(s), q * LB() + b) == ((dg(s, q as int) / (pow2(b) as int)) % 2 == 1),
{
    lemma_pow2_limbs(q);
    lemma_pow2_adds(q * LB(), b);
    lemma_hi(s, q);
    lemma_pow2_pos(b);
    lemma_num_bound(s);
    let n = num(s); let d = dg(s, q as int); let h = n / pw(q + 1);
    // n / 2^(qLB+b) == (n / pw(q)) / 2^b
    lemma_div_denominator(n, pw(q), pow2(b) as int);
    assert(n / (pow2(q * LB() + b) as int) == (d + BB() * h) / (pow2(b) as int));
    // (d + B h) / 2^b == d / 2^b + (B / 2^b) h, and B / 2^b is even
    lemma_limb_pow2();
    let c = (LB() - b - 1) as nat;
    lemma_pow2_adds(b, c + 1);
    lemma_pow2_unfold(c + 1);
    let p = pow2(b) as int; let e = pow2(c) as int;
    assert(BB() == p * (2 * e));
    assert(BB() * h == p * (2 * (e * h))) by(nonlinear_arith) requires BB() == p * (2 * e);
    lemma_fundamental_div_mod(d, p);
    assert(d + BB() * h == (d / p + 2 * (e * h)) * p + d % p) by(nonlinear_arith)
        requires d == p * (d / p) + d % p, BB() * h == p * (2 * (e * h));
    lemma_mod_bound(d, p);
    lemma_div_mod_unique(d + BB() * h, p, d / p + 2 * (e * h), d % p);
    assert((d / p + 2 * (e * h)) % 2 == (d / p) % 2);
}

/// bits at or above the length are zero
pub proof fn lemma_bit_high(s: Seq<Limb>, i: nat)
    requires i >= s.len() * LB(),
    ensures !nbit(num(s), i),
{
    lemma_num_bound(s);
    lemma_pow2_limbs(s.len());
    if i > s.len() * LB() { lemma_pow2_strictly_increases(s.len() * LB(), i); }
    lemma_basic_div(num(s), pow2(i) as int);
}

pub proof fn lemma_limb_getbit(x: Limb, b: usize)
    requires b < LB(),
    ensures ((x & ((1 as Limb) << b)) != 0) == ((x as int / (pow2(b as nat) as int)) % 2 == 1),
{
    assert(((x & ((1 as Limb) << b)) != 0) == ((x >> b) % 2 == 1)) by(bit_vector) requires b < $LBITS;
    assert(x >> b == x >> (b as Limb)) by(bit_vector) requires b < $LBITS;
    lemma_limb_shr(x, b);
}

/// x >> b is division by 2^b
pub proof fn lemma_limb_shr(x: Limb, b: usize)
    requires b < LB(),
    ensures (x >> b) as int == x as int / (pow2(b as nat) as int),
    decreases b,
{
    if b == 0 {
        lemma2_to64();
        assert(x >> 0usize == x) by(bit_vector);
        lemma_div_basics(x as int);
    } else {
        lemma_limb_shr(x, (b - 1) as usize);
        lemma_pow2_unfold(b as nat);
        let y = x >> ((b - 1) as usize);
        let z = x >> b;
        assert(z == y / 2) by(bit_vector) requires 0 < b < $LBITS, y == x >> ((b - 1) as usize), z == x >> b;
        lemma_pow2_pos((b - 1) as nat);
        let p = pow2((b - 1) as nat) as int;
        lemma_div_denominator(x as int, p, 2);
        assert(pow2(b as nat) == p * 2);
        assert(y as int == x as int / p);
        assert(z as int == (x as int / p) / 2);
    }
}

/// 1 << b is 2^b
pub proof fn lemma_limb_one_shl(b: usize)
    requires b < LB(),
    ensures ((1 as Limb) << b) as int == pow2(b as nat), pow2(b as nat) < BB(),
    decreases b,
{
    lemma_limb_pow2();
    lemma_pow2_strictly_increases(b as nat, LB());
    if b == 0 {
        lemma2_to64();
        assert((1 as Limb) << 0usize == 1) by(bit_vector);
    } else {
        lemma_limb_one_shl((b - 1) as usize);
        lemma_pow2_unfold(b as nat);
        assert((1 as Limb) << b == mul((1 as Limb) << ((b - 1) as usize), 2)) by(bit_vector) requires 0 < b < $LBITS;
        lemma_pow2_strictly_increases((b - 1) as nat, b as nat);
    }
}

pub proof fn lemma_limb_setbit(x: Limb, b: usize, v: bool)
    requires b < LB(),
    ensures ({
        let y0 = x & !((1 as Limb) << b);
        let y = if v { y0 | ((1 as Limb) << b) } else { y0 };
        y as int == x as int + (b2i(v) - b2i((x as int / (pow2(b as nat) as int)) % 2 == 1)) * pow2(b as nat)
    }),
{
    lemma_limb_getbit(x, b);
    lemma_limb_one_shl(b);
    let o = (1 as Limb) << b;
    let y0 = x & !o;
    assert((x & o) != 0 ==> x >= o && y0 == sub(x, o) && (y0 | o) == x) by(bit_vector) requires o == (1 as Limb) << b, y0 == x & !o, b < $LBITS;
    assert((x & o) == 0 ==> y0 == x && (y0 | o) >= o && sub(y0 | o, o) == x) by(bit_vector) requires o == (1 as Limb) << b, y0 == x & !o, b < $LBITS;
    lemma_pow2_pos(b as nat);
    let f = b2i((x as int / (pow2(b as nat) as int)) % 2 == 1);
    let p = pow2(b as nat) as int;
    assert((0 - 1) * p == 0 - p && (1 - 0) * p == p && 0 * p == 0 && (1 - 1) * p == 0 && (0 - 0) * p == 0) by(nonlinear_arith);
    if (x & o) != 0 { assert(f == 1); assert(y0 as int == x - p); assert((y0 | o) == x); }
    else { assert(f == 0); assert(y0 == x); assert((y0 | o) as int == x + p); }
}

/// replacing one digit so that only one bit changes
pub proof fn lemma_set_bit(s: Seq<Limb>, q: nat, b: nat, y: Limb, v: bool)
    requires q < s.len(), b < LB(),
        y as int == s[q as int] as int + (b2i(v) - b2i((s[q as int] as int / (pow2(b) as int)) % 2 == 1)) * pow2(b),
    ensures num(s.update(q as int, y)) == num(s) + (b2i(v) - b2i(nbit(num(s), q * LB() + b))) * pow2(q * LB() + b),
{
    lemma_val_update(s, q as int, y, s.len());
    lemma_bit_of_digit(s, q, b);
    lemma_pow2_limbs(q);
    lemma_pow2_adds(q * LB(), b);
    let d = b2i(v) - b2i(nbit(num(s), q * LB() + b));
    assert((d * pow2(b)) * pw(q) == d * (pow2(q * LB()) * pow2(b))) by(nonlinear_arith) requires pow2(q * LB()) == pw(q);
}
}
pub use bitmath::*;

//@fn idx_bit bits/src/bit_slice.rs fn:idx_bit limb pub params=idx subst=T->Limb
    ensures r.0 == idx / LIMB_BIT_LEN, r.1 == idx % LIMB_BIT_LEN,
//@endfn

pub trait BitSliceExt {
    spec fn v(&self) -> Seq<Limb>;

    fn slice(&self) -> (r: &[Limb]) ensures r@ == self.v();
    fn slice_mut(&mut self) -> (r: &mut [Limb])
        ensures r@ == old(self).v(), final(self).v() == final(r)@;

//@fn BitSliceExt::len bits/src/bit_slice.rs trait:BitSliceExt/len limb
    ensures r == self.v().len(),
//@endfn
//@fn BitSliceExt::is_empty bits/src/bit_slice.rs trait:BitSliceExt/is_empty limb
    ensures r == (self.v().len() == 0),
//@endfn
//@fn BitSliceExt::bit_len bits/src/bit_slice.rs trait:BitSliceExt/bit_len limb
    requires fits(self.v()),
    ensures r == self.v().len() * LB(),
//@endfn
//@fn BitSliceExt::get bits/src/bit_slice.rs trait:BitSliceExt/get limb params=idx unwrap
    ensures idx < self.v().len(), r == self.v()[idx as int],
//@unwrap 0
    (idx < self.v().len())
//@endfn
//@fn BitSliceExt::get_opt bits/src/bit_slice.rs trait:BitSliceExt/get_opt limb params=idx
    ensures r == (if idx < self.v().len() { Some(self.v()[idx as int]) } else { None }),
//@endfn
//@fn BitSliceExt::get_bit bits/src/bit_slice.rs trait:BitSliceExt/get_bit limb params=idx unwrap
    ensures idx < self.v().len() * LB(), r == nbit(num(self.v()), idx as nat),
//@unwrap 0
    (idx < self.v().len() * LB())
//@endfn
//@fn BitSliceExt::get_bit_opt bits/src/bit_slice.rs trait:BitSliceExt/get_bit_opt limb params=idx calls=idx_bit::<Self>->idx_bit
    ensures r == (if idx < self.v().len() * LB() { Some(nbit(num(self.v()), idx as nat)) } else { None }),
//@entry
    proof { lemma_get_bit_opt(self.v(), idx); }
//@endfn
//@fn BitSliceExt::set bits/src/bit_slice.rs trait:BitSliceExt/set limb name=bset params=idx,val
    ensures idx < old(self).v().len(), final(self).v() == old(self).v().update(idx as int, val),
//@panic 0
    (idx < old(self).v().len())
//@endfn
//@fn BitSliceExt::set_opt bits/src/bit_slice.rs trait:BitSliceExt/set_opt limb params=idx,val
    ensures
        idx < old(self).v().len() ==> r is Some && final(self).v() == old(self).v().update(idx as int, val),
        idx >= old(self).v().len() ==> r is None && final(self).v() == old(self).v(),
//@endfn
//@fn BitSliceExt::set_bit bits/src/bit_slice.rs trait:BitSliceExt/set_bit limb params=idx,val calls=idx_bit::<Self>->idx_bit
    ensures idx < old(self).v().len() * LB(), final(self).v().len() == old(self).v().len(),
        num(final(self).v()) == num(old(self).v()) + (b2i(val) - b2i(nbit(num(old(self).v()), idx as nat))) * pow2(idx as nat),
//@entry
    let ghost idx0 = idx;
//@panic 0
    (idx0 < old(self).v().len() * LB())
//@endfn
//@fn BitSliceExt::set_bit_opt bits/src/bit_slice.rs trait:BitSliceExt/set_bit_opt limb params=idx,val calls=idx_bit::<Self>->idx_bit
    ensures final(self).v().len() == old(self).v().len(),
        idx < old(self).v().len() * LB() ==> r is Some &&
            num(final(self).v()) == num(old(self).v()) + (b2i(val) - b2i(nbit(num(old(self).v()), idx as nat))) * pow2(idx as nat),
        idx >= old(self).v().len() * LB() ==> r is None && final(self).v() == old(self).v(),
//@entry
    proof { lemma_set_bit_opt(self.v(), idx, val); }
//@endfn
//@fn BitSliceExt::set_ignore bits/src/bit_slice.rs trait:BitSliceExt/set_ignore limb params=pos,val
    ensures
        pos < old(self).v().len() ==> final(self).v() == old(self).v().update(pos as int, val),
        pos >= old(self).v().len() ==> final(self).v() == old(self).v(),
//@endfn
//@fn BitSliceExt::set_bit_ignore bits/src/bit_slice.rs trait:BitSliceExt/set_bit_ignore limb params=pos,val
    ensures final(self).v().len() == old(self).v().len(),
        pos < old(self).v().len() * LB() ==>
            num(final(self).v()) == num(old(self).v()) + (b2i(val) - b2i(nbit(num(old(self).v()), pos as nat))) * pow2(pos as nat),
        pos >= old(self).v().len() * LB() ==> final(self).v() == old(self).v(),
//@endfn
}

pub proof fn lemma_idx_split(len: nat, idx: nat)
    ensures idx / LB() < len <==> idx < len * LB(),
        (idx / LB()) * LB() + idx % LB() == idx, idx % LB() < LB(),
{
    lemma_fundamental_div_mod(idx as int, LB() as int);
    lemma_mod_bound(idx as int, LB() as int);
    let q = idx / LB();
    if q < len { assert(q * LB() + LB() <= len * LB()) by(nonlinear_arith) requires q + 1 <= len; }
    else { assert(q * LB() >= len * LB()) by(nonlinear_arith) requires q >= len; }
    assert(LB() * q == q * LB()) by(nonlinear_arith);
}

pub proof fn lemma_get_bit_opt(s: Seq<Limb>, idx: usize)
    ensures
        idx / LIMB_BIT_LEN < s.len() <==> idx < s.len() * LB(),
        idx < s.len() * LB() ==>
            ((s[idx as int / LB() as int] & ((1 as Limb) << ((idx % LIMB_BIT_LEN) as usize))) != 0) == nbit(num(s), idx as nat),
        idx >= s.len() * LB() ==> !nbit(num(s), idx as nat),
{
    lemma_idx_split(s.len(), idx as nat);
    if idx < s.len() * LB() {
        let q = idx as nat / LB(); let b = (idx % LIMB_BIT_LEN) as usize;
        lemma_limb_getbit(s[q as int], b);
        lemma_bit_of_digit(s, q, b as nat);
    } else { lemma_bit_high(s, idx as nat); }
}

pub proof fn lemma_set_bit_opt(s: Seq<Limb>, idx: usize, v: bool)
    ensures
        idx / LIMB_BIT_LEN < s.len() <==> idx < s.len() * LB(),
        idx < s.len() * LB() ==> ({
            let q = idx as int / LB() as int;
            let o = (1 as Limb) << ((idx % LIMB_BIT_LEN) as usize);
            let y0 = s[q] & !o;
            let y = if v { y0 | o } else { y0 };
            &&& num(s.update(q, y)) == num(s) + (b2i(v) - b2i(nbit(num(s), idx as nat))) * pow2(idx as nat)
            // other ways of writing the same limb
            &&& y0 | o == s[q] | o
            &&& (s[q] | o) & !o == y0
            &&& (s[q] | o) ^ o == y0
            &&& (s[q] & o != 0 ==> s[q] | o == s[q] && s[q] ^ o == y0)
            &&& (s[q] & o == 0 ==> y0 == s[q] && s[q] ^ o == y0 | o)
        }),
{
    lemma_idx_split(s.len(), idx as nat);
    if idx < s.len() * LB() {
        let q = idx as nat / LB(); let b = (idx % LIMB_BIT_LEN) as usize;
        lemma_limb_setbit(s[q as int], b, v);
        let o = (1 as Limb) << b;
        let y0 = s[q as int] & !o;
        let y = if v { y0 | o } else { y0 };
        lemma_set_bit(s, q, b as nat, y, v);
        let x = s[q as int];
        assert((x & !o) | o == x | o && (x | o) & !o == x & !o && (x | o) ^ o == x & !o
            && (x & o != 0 ==> x | o == x && x ^ o == x & !o) && (x & o == 0 ==> x & !o == x && x ^ o == (x & !o) | o)) by(bit_vector)
            requires o == (1 as Limb) << b, b < $LBITS;
    }
}

impl BitSliceExt for [Limb] {
    open spec fn v(&self) -> Seq<Limb> { self@ }
//@fn BitSliceExt::slice[] bits/src/bit_slice.rs impl:BitSliceExt~for~[I]/slice limb subst=I->Limb
//@endfn
//@fn BitSliceExt::slice_mut[] bits/src/bit_slice.rs impl:BitSliceExt~for~[I]/slice_mut limb subst=I->Limb
//@endfn
}
impl<const N: usize> BitSliceExt for [Limb; N] {
    open spec fn v(&self) -> Seq<Limb> { self@ }
//@fn BitSliceExt::slice[N] bits/src/bit_slice.rs impl:BitSliceExt~for~[I;N]/slice limb subst=I->Limb
//@endfn
//@fn BitSliceExt::slice_mut[N] bits/src/bit_slice.rs impl:BitSliceExt~for~[I;N]/slice_mut limb subst=I->Limb
//@endfn
}
impl BitSliceExt for Vec<Limb> {
    open spec fn v(&self) -> Seq<Limb> { self@ }
//@fn BitSliceExt::slice(Vec) bits/src/bit_slice.rs impl:BitSliceExt~for~alloc::vec::Vec<I>/slice limb subst=I->Limb
//@endfn
//@fn BitSliceExt::slice_mut(Vec) bits/src/bit_slice.rs impl:BitSliceExt~for~alloc::vec::Vec<I>/slice_mut limb subst=I->Limb
//@endfn
}
