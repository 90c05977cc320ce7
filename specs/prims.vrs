pub mod prims {
use super::*;
/// x reduced modulo 2^bits into [-h, m - h)
pub open spec fn wrap_to(x: int, h: int, m: int) -> int { (x + h) % m - h }
pub open spec fn clamp(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
/// std's `TryInto` between integer types: `Ok` exactly when the value is representable
pub trait VTry<D>: Sized { spec fn v_fit(self) -> Option<D>; fn v_try_into(self) -> (r: Result<D, ()>) ensures r == (match self.v_fit() { Some(x) => Ok::<D, ()>(x), None => Err::<D, ()>(()) }); }
//%for D,H,M in u8,0int,0x100int u16,0int,0x10000int u32,0int,0x100000000int u64,0int,0x10000000000000000int u128,0int,0x100000000000000000000000000000000int usize,0int,0x10000000000000000int i8,0x80int,0x100int i16,0x8000int,0x10000int i32,0x80000000int,0x100000000int i64,0x8000000000000000int,0x10000000000000000int i128,0x80000000000000000000000000000000int,0x100000000000000000000000000000000int isize,0x8000000000000000int,0x10000000000000000int
//%for S in u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
impl VTry<$D> for $S {
    open spec fn v_fit(self) -> Option<$D> { if 0 - $H <= (self as int) < $M - $H { Some(self as $D) } else { None } }
    #[verifier::external_body] fn v_try_into(self) -> (r: Result<$D, ()>) { self.try_into().map_err(|_| ()) }
}
//%endfor
//%endfor
}
