// operator traits of the primitive integers
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
use vstd::arithmetic::power::pow as ipow;
verus! {
global size_of usize == 8;
//%include std.vrs
//%include prims.vrs
pub use prims::*;
pub mod stdspec {
use super::*;
/// remainder of truncating division
pub open spec fn trem(a: int, b: int) -> int { if a >= 0 { a % iabs(b) } else { 0 - (0 - a) % iabs(b) } }
/// quotient of truncating division
pub open spec fn tdiv(a: int, b: int) -> int { if (a >= 0) == (b > 0) { iabs(a) / iabs(b) } else { 0 - iabs(a) / iabs(b) } }
pub open spec fn iabs(a: int) -> int { if a < 0 { 0 - a } else { a } }
pub open spec fn fits(x: int, h: int, m: int) -> bool { 0 - h <= x < m - h }
/// `u32::try_from`
pub fn v_u32_from<S: VTry<u32>>(s: S) -> (r: Result<u32, ()>)
    ensures r == (match s.v_fit() { Some(x) => Ok::<u32, ()>(x), None => Err::<u32, ()>(()) }),
{ s.v_try_into() }
#[verifier::external_body] pub fn v_wmul_isize(a: isize, b: isize) -> (r: isize) ensures r as int == wrap_to(a * b, 0x8000000000000000int, 0x10000000000000000int) { a.wrapping_mul(b) }
/// u, seen as a `bits`-bit word, has exactly z leading / trailing zero bits
pub open spec fn is_lz(u: int, bits: int, z: int) -> bool { 0 <= z <= bits && u < p2(bits - z) && (z < bits ==> u >= p2(bits - z - 1)) }
pub open spec fn is_tz(u: int, bits: int, z: int) -> bool { 0 <= z <= bits && u % p2(z) == 0 && (if z == bits { u == 0 } else { (u / p2(z)) % 2 == 1 }) }
pub open spec fn p2(k: int) -> int { vstd::arithmetic::power2::pow2(k as nat) as int }

//%for T,BITS,H,M,SG,SIZE,UT in u8,8,0int,0x100int,u,1,u8 u16,16,0int,0x10000int,u,2,u16 u32,32,0int,0x100000000int,u,4,u32 u64,64,0int,0x10000000000000000int,u,8,u64 u128,128,0int,0x100000000000000000000000000000000int,u,16,u128 usize,64,0int,0x10000000000000000int,u,8,usize i8,8,0x80int,0x100int,s,1,u8 i16,16,0x8000int,0x10000int,s,2,u16 i32,32,0x80000000int,0x100000000int,s,4,u32 i64,64,0x8000000000000000int,0x10000000000000000int,s,8,u64 i128,128,0x80000000000000000000000000000000int,0x100000000000000000000000000000000int,s,16,u128 isize,64,0x8000000000000000int,0x10000000000000000int,s,8,usize
#[verifier::external_body] pub fn v_lz_$T(x: $T) -> (z: u32) ensures is_lz((x as $UT) as int, $BITS, z as int) { x.leading_zeros() }
#[verifier::external_body] pub fn v_tz_$T(x: $T) -> (z: u32) ensures is_tz((x as $UT) as int, $BITS, z as int) { x.trailing_zeros() }
/// byte k (little end first) of a value
pub open spec fn byte_$T(x: $T, k: int) -> u8 { (x >> ((8 * k) as u32)) as u8 }
#[verifier::external_body] pub fn v_to_le_$T(x: $T) -> (r: [u8; $SIZE]) ensures forall|k: int| 0 <= k < $SIZE ==> r@[k] == byte_$T(x, k) { x.to_le_bytes() }
#[verifier::external_body] pub fn v_to_be_$T(x: $T) -> (r: [u8; $SIZE]) ensures forall|k: int| 0 <= k < $SIZE ==> r@[k] == byte_$T(x, $SIZE - 1 - k) { x.to_be_bytes() }
#[verifier::external_body] pub fn v_to_ne_$T(x: $T) -> (r: [u8; $SIZE]) ensures forall|k: int| 0 <= k < $SIZE ==> r@[k] == byte_$T(x, k) { x.to_le_bytes() }
#[verifier::external_body] pub fn v_from_le_$T(b: [u8; $SIZE]) -> (r: $T) ensures forall|k: int| 0 <= k < $SIZE ==> b@[k] == byte_$T(r, k) { $T::from_le_bytes(b) }
#[verifier::external_body] pub fn v_from_be_$T(b: [u8; $SIZE]) -> (r: $T) ensures forall|k: int| 0 <= k < $SIZE ==> b@[k] == byte_$T(r, $SIZE - 1 - k) { $T::from_be_bytes(b) }
#[verifier::external_body] pub fn v_from_ne_$T(b: [u8; $SIZE]) -> (r: $T) ensures forall|k: int| 0 <= k < $SIZE ==> b@[k] == byte_$T(r, k) { $T::from_le_bytes(b) }
//%endfor
}
pub use stdspec::*;
pub mod factmath {
use super::*;
pub open spec fn fact(n: nat) -> int decreases n { if n == 0 { 1 } else { n * fact((n - 1) as nat) } }
/// lo * (lo + 1) * ... * hi
pub open spec fn prod(lo: int, hi: int) -> int decreases hi - lo + 1 { if hi < lo { 1 } else { prod(lo, hi - 1) * hi } }
pub proof fn lemma_prod_fact(n: nat) ensures prod(1, n as int) == fact(n), fact(n) >= 1 decreases n
{ if n > 0 { lemma_prod_fact((n - 1) as nat); assert(fact((n - 1) as nat) * n == n * fact((n - 1) as nat)) by(nonlinear_arith); assert(n * fact((n - 1) as nat) >= 1) by(nonlinear_arith) requires n >= 1, fact((n - 1) as nat) >= 1; } }
/// `(lo..=hi).product()`: every partial product stays in range
pub trait VProd: Sized { spec fn p_int(self) -> int; spec fn p_fits(x: int) -> bool; fn p_range(lo: Self, hi: Self) -> (r: Self) requires Self::p_fits(prod(lo.p_int(), hi.p_int())), lo.p_int() == 1 ensures r.p_int() == prod(lo.p_int(), hi.p_int()); }
//%for T,M in u8,0x100int u16,0x10000int u32,0x100000000int u64,0x10000000000000000int u128,0x100000000000000000000000000000000int usize,0x10000000000000000int
impl VProd for $T {
    open spec fn p_int(self) -> int { self as int }
    open spec fn p_fits(x: int) -> bool { 0 <= x < $M }
    #[verifier::external_body] fn p_range(lo: $T, hi: $T) -> (r: $T) { (lo..=hi).product() }
}
//%endfor
pub fn v_product_range<T: VProd>(lo: T, hi: T) -> (r: T)
    requires T::p_fits(prod(lo.p_int(), hi.p_int())), lo.p_int() == 1,
    ensures r.p_int() == prod(lo.p_int(), hi.p_int()),
{ T::p_range(lo, hi) }
}
pub use factmath::*;
//%include gcd.vrs
pub use gcdmath::*;

//%for T,BITS,H,M,SG,SIZE,UT in u8,8,0int,0x100int,u,1,u8 u16,16,0int,0x10000int,u,2,u16 u32,32,0int,0x100000000int,u,4,u32 u64,64,0int,0x10000000000000000int,u,8,u64 u128,128,0int,0x100000000000000000000000000000000int,u,16,u128 usize,64,0int,0x10000000000000000int,u,8,usize i8,8,0x80int,0x100int,s,1,u8 i16,16,0x8000int,0x10000int,s,2,u16 i32,32,0x80000000int,0x100000000int,s,4,u32 i64,64,0x8000000000000000int,0x10000000000000000int,s,8,u64 i128,128,0x80000000000000000000000000000000int,0x100000000000000000000000000000000int,s,16,u128 isize,64,0x8000000000000000int,0x10000000000000000int,s,8,usize
pub mod ops_$T {
use super::*;
pub const SIZE: usize = $SIZE;
//@fn minmax<$T> @traits fn:minmax pub subst=T->$T params=v1,v2
    ensures r@[0] == (if v1 <= v2 { v1 } else { v2 }), r@[1] == (if v1 <= v2 { v2 } else { v1 }),
//@endfn
//@fn $T::max_value @traits impl:Bounded~for~$T/max_value pub subst=Self->$T
    ensures r as int == $M - $H - 1,
//@endfn
//@fn $T::min_value @traits impl:Bounded~for~$T/min_value pub subst=Self->$T
    ensures r as int == 0 - $H,
//@endfn
//@fn $T::zero @traits impl:Zero~for~$T/zero pub subst=Self->$T
    ensures r == 0,
//@endfn
//@fn $T::one @traits impl:One~for~$T/one pub subst=Self->$T
    ensures r == 1,
//@endfn
pub trait Ops: Sized {
    fn t_is_zero(&self) -> (r: bool);
    fn t_is_one(&self) -> (r: bool);
    fn t_leading_zeros(self) -> (r: Self);
    fn t_trailing_zeros(self) -> (r: Self);
    spec fn pow_ok(self, rhs: Self) -> bool;
    spec fn abs_ok(self) -> bool;
    spec fn fact_ok(self) -> bool;
    fn t_pow(self, rhs: Self) -> (r: Self) requires self.pow_ok(rhs);
    fn t_gcd(self, rhs: Self) -> (r: Self);
    fn t_wrapping_add(self, rhs: Self) -> (r: Self);
    fn t_wrapping_sub(self, rhs: Self) -> (r: Self);
    fn t_wrapping_mul(self, rhs: Self) -> (r: Self);
    fn t_wrapping_shl(self, rhs: Self) -> (r: Self);
    fn t_wrapping_shr(self, rhs: Self) -> (r: Self);
    fn t_overflowing_add(self, rhs: Self) -> (r: (Self, bool));
    fn t_overflowing_sub(self, rhs: Self) -> (r: (Self, bool));
    fn t_overflowing_mul(self, rhs: Self) -> (r: (Self, bool));
    fn t_checked_add(self, rhs: Self) -> (r: Option<Self>);
    fn t_checked_sub(self, rhs: Self) -> (r: Option<Self>);
    fn t_checked_mul(self, rhs: Self) -> (r: Option<Self>);
    fn t_checked_div(self, rhs: Self) -> (r: Option<Self>);
    fn t_checked_shl(self, rhs: Self) -> (r: Option<Self>);
    fn t_checked_shr(self, rhs: Self) -> (r: Option<Self>);
    fn t_checked_shl_usize(self, rhs: usize) -> (r: Option<Self>);
    fn t_checked_shr_usize(self, rhs: usize) -> (r: Option<Self>);
//%for E in le be ne
    fn t_to_$E_bytes(self) -> (r: [u8; SIZE]);
    fn t_from_$E_bytes(bytes: [u8; SIZE]) -> (r: Self);
//%endfor
//%if SG=u
    fn t_factorial(self) -> (r: Self) requires self.fact_ok();
//%endif
//%if SG=s
    fn t_abs(self) -> (r: Self) requires self.abs_ok();
    fn t_is_positive(&self) -> (r: bool);
    fn t_is_negative(&self) -> (r: bool);
//%endif
}
impl Ops for $T {
    open spec fn pow_ok(self, rhs: $T) -> bool { 0 <= rhs <= u32::MAX && fits(ipow(self as int, rhs as nat), $H, $M) }
    open spec fn fact_ok(self) -> bool { self >= 0 && fact(self as nat) < $M - $H }
    open spec fn abs_ok(self) -> bool { self != $T::MIN }
//@fn $T::is_zero @traits impl:Zero~for~$T/is_zero name=t_is_zero
    ensures r == (*self == 0),
//@endfn
//@fn $T::is_one @traits impl:One~for~$T/is_one name=t_is_one
    ensures r == (*self == 1),
//@endfn
//@fn $T::leading_zeros @traits impl:BoundedBit~for~$T/leading_zeros ret=$T calls=<$T>::leading_zeros->v_lz_$T name=t_leading_zeros
    ensures exists|z: u32| #![trigger is_lz((self as $UT) as int, $BITS, z as int)] is_lz((self as $UT) as int, $BITS, z as int) && r == z as $T,
//@endfn
//@fn $T::trailing_zeros @traits impl:BoundedBit~for~$T/trailing_zeros ret=$T calls=<$T>::trailing_zeros->v_tz_$T name=t_trailing_zeros
    ensures exists|z: u32| #![trigger is_tz((self as $UT) as int, $BITS, z as int)] is_tz((self as $UT) as int, $BITS, z as int) && r == z as $T,
//@endfn
//@fn $T::pow @traits impl:Pow~for~$T/pow params=rhs ret=$T name=t_pow
    ensures r as int == ipow(self as int, rhs as nat),
//@endfn
//@fn $T::gcd @traits impl:Gcd~for~$T/gcd params=rhs ret=$T name=t_gcd
    ensures igcd(iabs(self as int) as nat, iabs(rhs as int) as nat) < $M - $H ==> r == igcd(iabs(self as int) as nat, iabs(rhs as int) as nat),
//@entry
    proof { reveal_with_fuel(igcd, 2); lemma_igcd_sym(iabs(self as int) as nat, iabs(rhs as int) as nat); }
//@loop 0
    invariant igcd(iabs(max as int) as nat, iabs(min as int) as nat) == igcd(iabs(self as int) as nat, iabs(rhs as int) as nat),
    decreases iabs(min as int),
//@start 0
    proof { reveal_with_fuel(igcd, 2); vstd::arithmetic::div_mod::lemma_mod_bound(iabs(max as int), iabs(min as int)); }
//@end 0
//@after 0
    proof { reveal_with_fuel(igcd, 2); assert(igcd(iabs(max as int) as nat, 0) == iabs(max as int)); }
//@endfn

//@fn $T::wrapping_add @traits impl:WrappingAdd~for~$T/wrapping_add params=rhs ret=$T name=t_wrapping_add
    ensures r as int == wrap_to(self + rhs, $H, $M),
//@endfn
//@fn $T::overflowing_add @traits impl:OverflowingAdd~for~$T/overflowing_add params=rhs ret=($T,bool) name=t_overflowing_add
    ensures r.0 as int == wrap_to(self + rhs, $H, $M), r.1 == !fits(self + rhs, $H, $M),
//@endfn
//@fn $T::checked_add @traits impl:CheckedAdd~for~$T/checked_add params=rhs name=t_checked_add
    ensures r == (if fits(self + rhs, $H, $M) { Some((self + rhs) as $T) } else { None::<$T> }),
//@endfn

//@fn $T::wrapping_sub @traits impl:WrappingSub~for~$T/wrapping_sub params=rhs ret=$T name=t_wrapping_sub
    ensures r as int == wrap_to(self - rhs, $H, $M),
//@endfn
//@fn $T::overflowing_sub @traits impl:OverflowingSub~for~$T/overflowing_sub params=rhs ret=($T,bool) name=t_overflowing_sub
    ensures r.0 as int == wrap_to(self - rhs, $H, $M), r.1 == !fits(self - rhs, $H, $M),
//@endfn
//@fn $T::checked_sub @traits impl:CheckedSub~for~$T/checked_sub params=rhs name=t_checked_sub
    ensures r == (if fits(self - rhs, $H, $M) { Some((self - rhs) as $T) } else { None::<$T> }),
//@endfn

//@fn $T::wrapping_mul @traits impl:WrappingMul~for~$T/wrapping_mul params=rhs ret=$T calls=<isize>::wrapping_mul->v_wmul_isize name=t_wrapping_mul
    ensures r as int == wrap_to(self * rhs, $H, $M),
//@endfn
//@fn $T::overflowing_mul @traits impl:OverflowingMul~for~$T/overflowing_mul params=rhs ret=($T,bool) name=t_overflowing_mul
    ensures r.0 as int == wrap_to(self * rhs, $H, $M), r.1 == !fits(self * rhs, $H, $M),
//@endfn
//@fn $T::checked_mul @traits impl:CheckedMul~for~$T/checked_mul params=rhs name=t_checked_mul
    ensures r == (if fits(self * rhs, $H, $M) { Some((self * rhs) as $T) } else { None::<$T> }),
//@endfn

//@fn $T::checked_div @traits impl:CheckedDiv~for~$T/checked_div params=rhs name=t_checked_div
    ensures rhs == 0 ==> r is None, rhs != 0 ==> (r is None) == !fits(tdiv(self as int, rhs as int), $H, $M), r matches Some(q) ==> q == tdiv(self as int, rhs as int),
//@entry
    proof { if rhs != 0 { lemma_tdiv_bound(self as int, rhs as int); } }
//@endfn
//%for D,SY,CAP in shl,<<,Shl shr,>>,Shr
//@fn $T::wrapping_$D @traits impl:Wrapping$CAP~for~$T/wrapping_$D params=rhs ret=$T name=t_wrapping_$D
    ensures r == self $SY ((rhs as int % $BITS) as u32),
//@entry
    proof { assert(((rhs as u32) % $BITS) as int == (rhs as int) % $BITS) by(bit_vector); }
//@endfn
//@fn $T::checked_$D @traits impl:Checked$CAP~for~$T/checked_$D params=rhs calls=u32::try_from->v_u32_from name=t_checked_$D
    ensures r == (if 0 <= rhs < $BITS { Some(self $SY (rhs as u32)) } else { None::<$T> }),
//@endfn
//%if T!=usize
//@fn $T::checked_$D<usize> @traits impl:Checked$CAP<usize>~for~$T/checked_$D params=rhs name=t_checked_$D_usize calls=u32::try_from->v_u32_from
    ensures r == (if rhs < $BITS { Some(self $SY (rhs as u32)) } else { None::<$T> }),
//@endfn
//%endif
//%if T=usize
    fn t_checked_$D_usize(self, rhs: usize) -> (r: Option<$T>) { None }
//%endif
//%endfor
//%for E,EX in le,k be,$SIZE-1-k ne,k
//@fn $T::to_$E_bytes @traits impl:ConvertBytes<SIZE>~for~$T/to_$E_bytes calls=<$T>::to_$E_bytes->v_to_$E_$T name=t_to_$E_bytes
    ensures forall|k: int| 0 <= k < $SIZE ==> r@[k] == byte_$T(self, $EX),
//@endfn
//@fn $T::from_$E_bytes @traits impl:ConvertBytes<SIZE>~for~$T/from_$E_bytes params=bytes calls=<$T>::from_$E_bytes->v_from_$E_$T name=t_from_$E_bytes
    ensures forall|k: int| 0 <= k < $SIZE ==> bytes@[k] == byte_$T(r, $EX),
//@endfn
//%endfor
//%if SG=u
//@fn $T::factorial @traits impl:Factorial~for~$T/factorial ret=$T name=t_factorial
    ensures r == fact(self as nat),
//@entry
    proof { lemma_prod_fact(self as nat); }
//@endfn
//%endif
//%if SG=s
//@fn $T::abs @traits impl:Signed~for~$T/abs name=t_abs
    ensures r as int == iabs(self as int),
//@endfn
//@fn $T::is_positive @traits impl:Signed~for~$T/is_positive name=t_is_positive
    ensures r == (*self >= 0),
//@endfn
//@fn $T::is_negative @traits impl:Signed~for~$T/is_negative name=t_is_negative
    ensures r == (*self < 0),
//@endfn
//%endif
}
}
//%endfor
pub mod nonzero {
use super::*;
use core::num::*;
//%for T,NZ,SG in u8,NonZeroU8,u u16,NonZeroU16,u u32,NonZeroU32,u u64,NonZeroU64,u u128,NonZeroU128,u usize,NonZeroUsize,u i8,NonZeroI8,s i16,NonZeroI16,s i32,NonZeroI32,s i64,NonZeroI64,s i128,NonZeroI128,s isize,NonZeroIsize,s
/// core's non-zero integer, for the operations vstd does not specify
#[derive(Clone, Copy)]
pub struct M$NZ { pub v: $T }
impl M$NZ {
    pub const MAX: M$NZ = M$NZ { v: $T::MAX };
//%if SG=s
    pub const MIN: M$NZ = M$NZ { v: $T::MIN };
    pub fn v_neg(self) -> (r: M$NZ) requires self.v > $T::MIN, ensures r.v == -self.v { M$NZ { v: -self.v } }
    pub fn v_abs(self) -> (r: M$NZ) requires self.v > $T::MIN, ensures r.v == (if self.v < 0 { -self.v } else { self.v as int }) { M$NZ { v: if self.v < 0 { -self.v } else { self.v } } }
//%endif
//%if SG=u
    pub const MIN: M$NZ = M$NZ { v: 1 };
//%endif
    pub fn new_unchecked(x: $T) -> (r: M$NZ) requires x != 0, ensures r.v == x { M$NZ { v: x } }
//@fn $NZ::one @traits impl:One~for~$NZ/one pub subst=Self->M$NZ;$NZ->M$NZ
    ensures r.v == 1,
//@endfn
//@fn $NZ::max_value @traits impl:Bounded~for~$NZ/max_value pub subst=Self->M$NZ;$NZ->M$NZ
    ensures r.v == $T::MAX,
//@endfn
//@fn $NZ::min_value @traits impl:Bounded~for~$NZ/min_value pub subst=Self->M$NZ;$NZ->M$NZ
    ensures r.v == (if $T::MIN == 0 { 1 } else { $T::MIN as int }),
//@endfn
//%if SG=s
//@fn $NZ::abs @traits impl:Signed~for~$NZ/abs pub subst=Self->M$NZ;$NZ->M$NZ calls=<M$NZ>::abs->M$NZ::v_abs
    requires self.v > $T::MIN,
    ensures r.v == (if self.v < 0 { -self.v } else { self.v as int }),
//@endfn
//@fn $NZ::min_positive @traits impl:BoundedSigned~for~$NZ/min_positive pub subst=Self->M$NZ;$NZ->M$NZ calls=<M$NZascrate::identity::One>::one->M$NZ::one
    ensures r.v == 1,
//@endfn
//@fn $NZ::max_negative @traits impl:BoundedSigned~for~$NZ/max_negative pub subst=Self->M$NZ;$NZ->M$NZ calls=<M$NZascrate::identity::One>::one->M$NZ::one ops=u-->v_neg
    ensures r.v == -1,
//@endfn
//%endif
}
pub trait Nz$T: Sized {
    fn t_is_one(&self) -> (r: bool);
//%if SG=s
    fn t_is_positive(&self) -> (r: bool);
    fn t_is_negative(&self) -> (r: bool);
//%endif
}
impl Nz$T for $NZ {
//@fn $NZ::is_one @traits impl:One~for~$NZ/is_one name=t_is_one
    ensures r == (self@ == 1),
//@endfn
//%if SG=s
//@fn $NZ::is_positive @traits impl:Signed~for~$NZ/is_positive name=t_is_positive
    ensures r == (self@ > 0),
//@endfn
//@fn $NZ::is_negative @traits impl:Signed~for~$NZ/is_negative name=t_is_negative
    ensures r == (self@ < 0),
//@endfn
//%endif
}
//%endfor
}
fn main() {}
} // verus!
