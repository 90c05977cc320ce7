// an arbitrary backing integer type, as the numeric traits promise it
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//%include std.vrs
pub open spec fn p2(k: int) -> int { pow2(k as nat) as int }
pub open spec fn iabs(a: int) -> int { if a < 0 { 0 - a } else { a } }
/// remainder and quotient of truncating division
pub open spec fn trem(a: int, b: int) -> int { if a >= 0 { a % iabs(b) } else { 0 - (0 - a) % iabs(b) } }
pub open spec fn tdiv(a: int, b: int) -> int { if (a >= 0) == (b > 0) { iabs(a) / iabs(b) } else { 0 - iabs(a) / iabs(b) } }
pub open spec fn ord_of(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
//%include gcd.vrs
pub use gcdmath::*;
pub use VInt as Integral;
/// the order operators of core::cmp, in terms of partial_cmp
pub trait VOrd: Copy {
    spec fn ov(self) -> int;
    fn v_pc(self, o: Self) -> (r: Option<Ordering>) ensures r == Some(ord_of(self.ov(), o.ov()));
    fn v_lt(self, o: Self) -> (r: bool) ensures r == (self.ov() < o.ov()) { matches!(self.v_pc(o), Some(Ordering::Less)) }
    fn v_gt(self, o: Self) -> (r: bool) ensures r == (self.ov() > o.ov()) { matches!(self.v_pc(o), Some(Ordering::Greater)) }
    fn v_le(self, o: Self) -> (r: bool) ensures r == (self.ov() <= o.ov()) { matches!(self.v_pc(o), Some(Ordering::Less | Ordering::Equal)) }
    fn v_ge(self, o: Self) -> (r: bool) ensures r == (self.ov() >= o.ov()) { matches!(self.v_pc(o), Some(Ordering::Greater | Ordering::Equal)) }
}
/// operators on sizes, truth values and orderings beside those on numbers
impl VOrd for usize {
    open spec fn ov(self) -> int { self as int }
    fn v_pc(self, o: Self) -> (r: Option<Ordering>) { Some(if self < o { Ordering::Less } else if self == o { Ordering::Equal } else { Ordering::Greater }) }
}
pub trait VSize: Sized {
    spec fn sz(self) -> int;
    fn v_add(self, o: Self) -> (r: Self) requires self.sz() + o.sz() <= usize::MAX, ensures r.sz() == self.sz() + o.sz();
    fn v_sub(self, o: Self) -> (r: Self) requires self.sz() >= o.sz(), ensures r.sz() == self.sz() - o.sz();
    fn v_mul(self, o: Self) -> (r: Self) requires self.sz() * o.sz() <= usize::MAX, ensures r.sz() == self.sz() * o.sz();
    fn v_div(self, o: Self) -> (r: Self) requires o.sz() != 0, ensures r.sz() == self.sz() / o.sz();
    fn v_rem(self, o: Self) -> (r: Self) requires o.sz() != 0, ensures r.sz() == self.sz() % o.sz();
}
impl VSize for usize {
    open spec fn sz(self) -> int { self as int }
    fn v_add(self, o: Self) -> (r: Self) { self + o }
    fn v_sub(self, o: Self) -> (r: Self) { self - o }
    fn v_mul(self, o: Self) -> (r: Self) { self * o }
    fn v_div(self, o: Self) -> (r: Self) { self / o }
    fn v_rem(self, o: Self) -> (r: Self) { self % o }
}
pub trait VSame: Copy { fn v_eq(self, o: Self) -> (r: bool) ensures r == (self == o); }
impl VSame for usize { fn v_eq(self, o: Self) -> (r: bool) { self == o } }
impl VSame for bool { fn v_eq(self, o: Self) -> (r: bool) { self == o } }
impl VSame for Ordering {
    fn v_eq(self, o: Self) -> (r: bool) { match (self, o) { (Ordering::Less, Ordering::Less) | (Ordering::Equal, Ordering::Equal) | (Ordering::Greater, Ordering::Greater) => true, _ => false } }
}
impl VSame for Option<Ordering> {
    fn v_eq(self, o: Self) -> (r: bool) { match (self, o) { (Some(a), Some(b)) => a.v_eq(b), (None, None) => true, _ => false } }
}
/// derived Clone
pub trait VClone: Copy { fn v_clone(&self) -> (r: Self) ensures r == *self { *self } }
/// The contract of an integer type: each operator gives the exact result or does not return
/// (overflow checks); `<<` is exact when the result is representable; P18 and core for primitives,
/// P12 to P15 for the big integer.
pub trait VInt: VOrd + VClone {
    /// least and greatest representable value (any bounds an actual instance has)
    spec fn lo() -> int;
    spec fn hi() -> int;
    spec fn bits() -> int;
    proof fn bounds() ensures Self::lo() <= 0, Self::hi() >= 1;
    proof fn range(x: Self) ensures Self::lo() <= x.ov() <= Self::hi(), Self::lo() <= 0, Self::hi() >= 1, Self::lo() == 0 || Self::lo() == -Self::hi() - 1;
    /// the least value is a multiple of every power of two in range
    proof fn low_multiple(n: int) ensures 0 <= n && p2(n) <= Self::hi() ==> Self::lo() % p2(n) == 0;
    fn zero() -> (r: Self) ensures r.ov() == 0;
    fn one() -> (r: Self) ensures r.ov() == 1;
    fn is_zero(&self) -> (r: bool) ensures r == (self.ov() == 0);
    fn is_one(&self) -> (r: bool) ensures r == (self.ov() == 1);
    fn min_value() -> (r: Self) ensures r.ov() == Self::lo();
    fn max_value() -> (r: Self) ensures r.ov() == Self::hi();
    fn max_negative() -> (r: Self) ensures r.ov() == -1;
    fn min_positive() -> (r: Self) ensures r.ov() == 1;
    fn v_add(self, o: Self) -> (r: Self) ensures r.ov() == self.ov() + o.ov();
    fn v_sub(self, o: Self) -> (r: Self) ensures r.ov() == self.ov() - o.ov();
    fn v_mul(self, o: Self) -> (r: Self) ensures r.ov() == self.ov() * o.ov();
    fn v_div(self, o: Self) -> (r: Self) ensures o.ov() != 0, r.ov() == tdiv(self.ov(), o.ov());
    fn v_rem(self, o: Self) -> (r: Self) ensures o.ov() != 0, r.ov() == trem(self.ov(), o.ov());
    fn v_neg(self) -> (r: Self) ensures r.ov() == -self.ov();
    fn v_shl(self, n: usize) -> (r: Self) ensures n < Self::bits(), Self::lo() <= self.ov() * p2(n as int) <= Self::hi() ==> r.ov() == self.ov() * p2(n as int);
    fn v_shr(self, n: usize) -> (r: Self) ensures n < Self::bits(), r.ov() == self.ov() / p2(n as int);
    fn v_not(self) -> (r: Self) ensures r.ov() == Self::hi() + Self::lo() - self.ov();
    /// and with the complement of the n low bits clears them
    fn v_and(self, o: Self) -> (r: Self) ensures forall|n: int| #![trigger p2(n)] 0 <= n && p2(n) <= Self::hi() && o.ov() == Self::hi() + Self::lo() - (p2(n) - 1) ==> r.ov() == self.ov() - self.ov() % p2(n),
        // and with the n low bits alone keeps just those
        forall|n: int| #![trigger p2(n)] 0 <= n && p2(n) <= Self::hi() && o.ov() == p2(n) - 1 ==> r.ov() == self.ov() % p2(n);
    fn v_eq(self, o: Self) -> (r: bool) ensures r == (self.ov() == o.ov());
    fn v_cmp(&self, o: &Self) -> (r: Ordering) ensures r == ord_of(self.ov(), o.ov());
    fn v_partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == Some(ord_of(self.ov(), o.ov()));
    fn checked_add(self, o: Self) -> (r: Option<Self>) ensures (r is Some) == (Self::lo() <= self.ov() + o.ov() <= Self::hi()), r is Some ==> r->0.ov() == self.ov() + o.ov();
    fn checked_sub(self, o: Self) -> (r: Option<Self>) ensures (r is Some) == (Self::lo() <= self.ov() - o.ov() <= Self::hi()), r is Some ==> r->0.ov() == self.ov() - o.ov();
    fn pow(self, o: Self) -> (r: Self) ensures o.ov() >= 0 ==> r.ov() == vstd::arithmetic::power::pow(self.ov(), o.ov() as nat);
    /// whatever root the element type gives
    spec fn sqrt_of(v: int) -> int;
    fn sqrt(self) -> (r: Self) ensures r.ov() == Self::sqrt_of(self.ov());
    fn abs(self) -> (r: Self) ensures r.ov() == iabs(self.ov());
    fn is_positive(&self) -> (r: bool) ensures r == (self.ov() > 0);
    fn is_negative(&self) -> (r: bool) ensures r == (self.ov() < 0);
    fn gcd(self, o: Self) -> (r: Self) ensures igcd(iabs(self.ov()) as nat, iabs(o.ov()) as nat) <= Self::hi() ==> r.ov() == igcd(iabs(self.ov()) as nat, iabs(o.ov()) as nat);
}
