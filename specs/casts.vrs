// conversions between every pair of primitive integer types
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//%include std.vrs
//%include prims.vrs
pub use prims::*;
pub mod truncating {
use super::*;
//%for D,H,M in u8,0int,0x100int u16,0int,0x10000int u32,0int,0x100000000int u64,0int,0x10000000000000000int u128,0int,0x100000000000000000000000000000000int usize,0int,0x10000000000000000int i8,0x80int,0x100int i16,0x8000int,0x10000int i32,0x80000000int,0x100000000int i64,0x8000000000000000int,0x10000000000000000int i128,0x80000000000000000000000000000000int,0x100000000000000000000000000000000int isize,0x8000000000000000int,0x10000000000000000int
//%for S in u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
//@fn $D::truncate_from<$S> @traits impl:FromTruncating<$S>~for~$D/truncate_from pub name=trunc_$S_to_$D params=val subst=Self->$D
    ensures r as int == wrap_to(val as int, $H, $M),
        0 - $H <= (val as int) < $M - $H ==> r as int == val as int,
//@entry
    proof { assert((val as $D) as int == (val as int + $H) % $M - $H) by(bit_vector); }
//@endfn
//%endfor
//%endfor
}
pub mod saturating {
use super::*;
//%for D,H,M in u8,0int,0x100int u16,0int,0x10000int u32,0int,0x100000000int u64,0int,0x10000000000000000int u128,0int,0x100000000000000000000000000000000int usize,0int,0x10000000000000000int i8,0x80int,0x100int i16,0x8000int,0x10000int i32,0x80000000int,0x100000000int i64,0x8000000000000000int,0x10000000000000000int i128,0x80000000000000000000000000000000int,0x100000000000000000000000000000000int isize,0x8000000000000000int,0x10000000000000000int
//%for S in u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
//@fn $D::saturate_from<$S> @traits impl:FromSaturating<$S>~for~$D/saturate_from pub name=sat_$S_to_$D params=val subst=Self->$D
    ensures r as int == clamp(val as int, 0 - $H, $M - $H - 1),
//@endfn
//%endfor
//%endfor
}
pub mod checked {
use super::*;
//%for D,H,M in u8,0int,0x100int u16,0int,0x10000int u32,0int,0x100000000int u64,0int,0x10000000000000000int u128,0int,0x100000000000000000000000000000000int usize,0int,0x10000000000000000int i8,0x80int,0x100int i16,0x8000int,0x10000int i32,0x80000000int,0x100000000int i64,0x8000000000000000int,0x10000000000000000int i128,0x80000000000000000000000000000000int,0x100000000000000000000000000000000int isize,0x8000000000000000int,0x10000000000000000int
//%for S in u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
//@fn $D::from_checked<$S> @traits impl:FromChecked<$S>~for~$D/from_checked pub name=chk_$S_to_$D params=val subst=Self->$D methods=try_into->v_try_into
    ensures r == (if 0 - $H <= (val as int) < $M - $H { Some(val as $D) } else { None::<$D> }),
        r matches Some(x) ==> x as int == val as int,
//@endfn
//%endfor
//%endfor
}
pub mod blanket {
use super::*;
pub trait FromChecked<T>: Sized { spec fn checked_of(v: T) -> Option<Self>; fn from_checked(val: T) -> (r: Option<Self>) ensures r == Self::checked_of(val); }
pub trait FromSaturating<T>: Sized { spec fn saturated_of(v: T) -> Self; fn saturate_from(val: T) -> (r: Self) ensures r == Self::saturated_of(val); }
pub trait FromTruncating<T>: Sized { spec fn truncated_of(v: T) -> Self; fn truncate_from(val: T) -> (r: Self) ensures r == Self::truncated_of(val); }
pub trait IntoChecked<U>: Sized { fn into_checked(self) -> (r: Option<U>); }
pub trait IntoSaturating<U>: Sized { fn saturate(self) -> (r: U); }
pub trait IntoTruncating<U>: Sized { fn truncate(self) -> (r: U); }
impl<T, U: FromChecked<T>> IntoChecked<U> for T {
//@fn T::into_checked @traits impl:IntoChecked<U>~for~T/into_checked
    ensures equal(r, <U as FromChecked<T>>::checked_of(self)),
//@endfn
}
impl<T, U: FromSaturating<T>> IntoSaturating<U> for T {
//@fn T::saturate @traits impl:IntoSaturating<U>~for~T/saturate
    ensures equal(r, <U as FromSaturating<T>>::saturated_of(self)),
//@endfn
}
impl<T, U: FromTruncating<T>> IntoTruncating<U> for T {
//@fn T::truncate @traits impl:IntoTruncating<U>~for~T/truncate
    ensures equal(r, <U as FromTruncating<T>>::truncated_of(self)),
//@endfn
}
}
pub mod floats {
use super::*;
/// what a float denotes
pub enum FV { NaN, PosInf, NegInf, Fin(real) }
pub open spec fn is_trunc(q: real, t: int) -> bool { if q >= 0real { 0 <= t && (t as real) <= q && q < ((t + 1) as real) } else { t <= 0 && q <= (t as real) && ((t - 1) as real) < q } }
/// float to integer: NaN gives zero, out of range the nearest bound, otherwise truncation towards zero
pub open spec fn f2i(v: FV, r: int, lo: int, hi: int) -> bool {
    match v {
        FV::NaN => r == 0,
        FV::PosInf => r == hi,
        FV::NegInf => r == lo,
        FV::Fin(q) => exists|t: int| #[trigger] is_trunc(q, t) && r == clamp(t, lo, hi),
    }
}
pub trait VAs<T>: Sized { spec fn as_ok(self, r: T) -> bool; fn v_as(self) -> (r: T) ensures self.as_ok(r); }
//%for F in VF32 VF64
#[verifier::external_body]
pub struct $F { x: f64 }
/// the value of a float, and the float nearest to an integer (ties to even)
pub uninterp spec fn val_$F(x: $F) -> FV;
pub uninterp spec fn near_$F(x: int) -> $F;
//%for D,H,M in u8,0int,0x100int u16,0int,0x10000int u32,0int,0x100000000int u64,0int,0x10000000000000000int u128,0int,0x100000000000000000000000000000000int usize,0int,0x10000000000000000int i8,0x80int,0x100int i16,0x8000int,0x10000int i32,0x80000000int,0x100000000int i64,0x8000000000000000int,0x10000000000000000int i128,0x80000000000000000000000000000000int,0x100000000000000000000000000000000int isize,0x8000000000000000int,0x10000000000000000int
impl VAs<$D> for $F { open spec fn as_ok(self, r: $D) -> bool { f2i(val_$F(self), r as int, 0 - $H, $M - $H - 1) } #[verifier::external_body] fn v_as(self) -> (r: $D) { self.x as $D } }
impl VAs<$F> for $D { open spec fn as_ok(self, r: $F) -> bool { r == near_$F(self as int) } #[verifier::external_body] fn v_as(self) -> (r: $F) { $F { x: self as f64 } } }
//%endfor
//%endfor
pub uninterp spec fn widen(x: VF32) -> VF64;
pub uninterp spec fn narrow(x: VF64) -> VF32;
impl VAs<VF64> for VF32 { open spec fn as_ok(self, r: VF64) -> bool { r == widen(self) && val_VF64(r) == val_VF32(self) } #[verifier::external_body] fn v_as(self) -> (r: VF64) { VF64 { x: self.x } } }
impl VAs<VF32> for VF64 { open spec fn as_ok(self, r: VF32) -> bool { r == narrow(self) } #[verifier::external_body] fn v_as(self) -> (r: VF32) { VF32 { x: self.x } } }
//%for D in u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
//%for S in u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
impl VAs<$D> for $S { open spec fn as_ok(self, r: $D) -> bool { r == self as $D } #[verifier::external_body] fn v_as(self) -> (r: $D) { self as $D } }
//%endfor
//%endfor
//%for F,P in VF32,f32 VF64,f64
//%for D,H,M in u8,0int,0x100int u16,0int,0x10000int u32,0int,0x100000000int u64,0int,0x10000000000000000int u128,0int,0x100000000000000000000000000000000int usize,0int,0x10000000000000000int i8,0x80int,0x100int i16,0x8000int,0x10000int i32,0x80000000int,0x100000000int i64,0x8000000000000000int,0x10000000000000000int i128,0x80000000000000000000000000000000int,0x100000000000000000000000000000000int isize,0x8000000000000000int,0x10000000000000000int
//@fn $D::saturate_from<$P> @traits impl:FromSaturating<$P>~for~$D/saturate_from pub name=sat_$P_to_$D params=val subst=Self->$D;$P->$F ops=as->v_as
    ensures f2i(val_$F(val), r as int, 0 - $H, $M - $H - 1),
//@endfn
//@fn $P::saturate_from<$D> @traits impl:FromSaturating<$D>~for~$P/saturate_from pub name=sat_$D_to_$P params=val subst=Self->$F;$P->$F ops=as->v_as
    ensures r == near_$F(val as int),
//@endfn
//%endfor
//%endfor
}
fn main() {}
} // verus!
