/// `assert!(c)`: the condition must be exactly the panic condition the contract states.
pub fn vassert(c: bool, Ghost(s): Ghost<bool>)
    requires c == s,
    ensures c,
{ if !c { vpanic(Ghost(s)) } }

/// `panic!()`: only reachable when the contract's panic condition (given negated) fails.
#[verifier::external_body]
pub fn vpanic(Ghost(s): Ghost<bool>) -> !
    requires !s,
{ panic!() }

/// `.unwrap()` / `.expect(..)` with a contract-stated panic condition.
pub fn vunwrap<T>(o: Option<T>, Ghost(s): Ghost<bool>) -> (r: T)
    requires o.is_some() == s,
    ensures o == Some(r),
{ match o { Some(x) => x, None => vpanic(Ghost(s)) } }

// library functions the code, or a rewriting of it, may use
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, p: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { p } else { None });
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None });
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>) ensures r == (if o is Some && p is Some { Some((o->0, p->0)) } else { None });
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T) ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification[ core::cmp::Ordering::then ](o: core::cmp::Ordering, p: core::cmp::Ordering) -> (r: core::cmp::Ordering) ensures r == (if o == core::cmp::Ordering::Equal { p } else { o });
pub assume_specification<T>[ core::mem::replace ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize) requires a < old(s).len(), b < old(s).len(), ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T]) ensures final(s)@ == old(s)@.reverse();

// arithmetic of the primitive integers (range [-H, M - H))
pub open spec fn pwrap(x: int, h: int, m: int) -> int { (x + h) % m - h }
pub open spec fn pfits(x: int, h: int, m: int) -> bool { 0 - h <= x < m - h }
pub open spec fn pabs(a: int) -> int { if a < 0 { 0 - a } else { a } }
/// remainder and quotient of truncating division
pub open spec fn prem(a: int, b: int) -> int { if a >= 0 { a % pabs(b) } else { 0 - (0 - a) % pabs(b) } }
pub open spec fn pdiv(a: int, b: int) -> int { if (a >= 0) == (b > 0) { pabs(a) / pabs(b) } else { 0 - pabs(a) / pabs(b) } }
//%for T,BITS,H,M,SG,UT,ST in u8,8,0int,0x100int,u,u8,i8 u16,16,0int,0x10000int,u,u16,i16 u32,32,0int,0x100000000int,u,u32,i32 u64,64,0int,0x10000000000000000int,u,u64,i64 u128,128,0int,0x100000000000000000000000000000000int,u,u128,i128 usize,64,0int,0x10000000000000000int,u,usize,isize i8,8,0x80int,0x100int,s,u8,i8 i16,16,0x8000int,0x10000int,s,u16,i16 i32,32,0x80000000int,0x100000000int,s,u32,i32 i64,64,0x8000000000000000int,0x10000000000000000int,s,u64,i64 i128,128,0x80000000000000000000000000000000int,0x100000000000000000000000000000000int,s,u128,i128 isize,64,0x8000000000000000int,0x10000000000000000int,s,usize,isize
//%if SG=u
pub assume_specification[ $T::overflowing_add ](a: $T, b: $T) -> (r: ($T, bool)) ensures r.1 == (a + b >= $M), r.0 as int == (if a + b >= $M { a + b - $M } else { a + b });
pub assume_specification[ $T::overflowing_sub ](a: $T, b: $T) -> (r: ($T, bool)) ensures r.1 == (a < b), r.0 as int == (if a < b { a - b + $M } else { a - b });
//%endif
//%if SG=s
pub assume_specification[ $T::overflowing_add ](a: $T, b: $T) -> (r: ($T, bool)) ensures r.1 == !pfits(a + b, $H, $M), r.0 as int == (if a + b >= $M - $H { a + b - $M } else if a + b < -$H { a + b + $M } else { a + b });
pub assume_specification[ $T::overflowing_sub ](a: $T, b: $T) -> (r: ($T, bool)) ensures r.1 == !pfits(a - b, $H, $M), r.0 as int == (if a - b >= $M - $H { a - b - $M } else if a - b < -$H { a - b + $M } else { a - b });
//%endif
pub assume_specification[ $T::overflowing_mul ](a: $T, b: $T) -> (r: ($T, bool)) ensures r.0 as int == pwrap(a * b, $H, $M), r.1 == !pfits(a * b, $H, $M);
pub assume_specification[ $T::overflowing_neg ](a: $T) -> (r: ($T, bool)) ensures r.0 as int == (if a == 0 || a as int == -$H { a as int } else { if $H == 0 { $M - a } else { 0 - a } }), r.1 == !pfits(0 - a, $H, $M);
pub assume_specification[ $T::wrapping_neg ](a: $T) -> (r: $T) ensures r as int == (if a == 0 || a as int == -$H { a as int } else { if $H == 0 { $M - a } else { 0 - a } });
pub assume_specification[ $T::checked_neg ](a: $T) -> (r: Option<$T>) ensures r == (if pfits(0 - a, $H, $M) { Some((0 - a) as $T) } else { None::<$T> });
pub assume_specification[ $T::wrapping_rem ](a: $T, b: $T) -> (r: $T) requires b != 0, ensures r as int == prem(a as int, b as int);
pub assume_specification[ $T::wrapping_div ](a: $T, b: $T) -> (r: $T) requires b != 0, ensures r as int == (if pdiv(a as int, b as int) == $M - $H { -$H } else { pdiv(a as int, b as int) });
pub assume_specification[ $T::rem_euclid ](a: $T, b: $T) -> (r: $T) requires b != 0, !(b as int == -1 && a as int == -$H), ensures r as int == a as int % b as int;
pub assume_specification[ $T::div_euclid ](a: $T, b: $T) -> (r: $T) requires b != 0, !(b as int == -1 && a as int == -$H), ensures r as int == a as int / b as int;
pub assume_specification[ $T::checked_shl ](a: $T, b: u32) -> (r: Option<$T>) ensures r == (if b < $BITS { Some(a << b) } else { None::<$T> });
pub assume_specification[ $T::checked_shr ](a: $T, b: u32) -> (r: Option<$T>) ensures r == (if b < $BITS { Some(a >> b) } else { None::<$T> });
pub assume_specification[ $T::abs_diff ](a: $T, b: $T) -> (r: $UT) ensures r as int == pabs(a - b);
pub assume_specification[ $T::pow ](a: $T, b: u32) -> (r: $T) requires pfits(vstd::arithmetic::power::pow(a as int, b as nat), $H, $M), ensures r as int == vstd::arithmetic::power::pow(a as int, b as nat);
pub assume_specification[ $T::checked_pow ](a: $T, b: u32) -> (r: Option<$T>) ensures r == (if pfits(vstd::arithmetic::power::pow(a as int, b as nat), $H, $M) { Some(vstd::arithmetic::power::pow(a as int, b as nat) as $T) } else { None::<$T> });
//%if SG=u
pub assume_specification[ $T::is_power_of_two ](a: $T) -> (r: bool) ensures r == (a != 0 && a & ((a - 1) as $T) == 0);
pub assume_specification[ $T::div_ceil ](a: $T, b: $T) -> (r: $T) requires b != 0, ensures r as int == (if a as int % b as int == 0 { a as int / b as int } else { a as int / b as int + 1 });
//%endif
//%if SG=s
pub assume_specification[ $T::abs ](a: $T) -> (r: $T) requires a != $T::MIN, ensures r as int == pabs(a as int);
pub assume_specification[ $T::wrapping_abs ](a: $T) -> (r: $T) ensures r as int == (if a == $T::MIN { a as int } else { pabs(a as int) });
pub assume_specification[ $T::checked_abs ](a: $T) -> (r: Option<$T>) ensures r == (if a == $T::MIN { None::<$T> } else { Some(pabs(a as int) as $T) });
pub assume_specification[ $T::unsigned_abs ](a: $T) -> (r: $UT) ensures r as int == pabs(a as int);
pub assume_specification[ $T::signum ](a: $T) -> (r: $T) ensures r as int == (if a > 0 { 1int } else if a < 0 { -1int } else { 0int });
pub assume_specification[ $T::is_negative ](a: $T) -> (r: bool) ensures r == (a < 0);
pub assume_specification[ $T::is_positive ](a: $T) -> (r: bool) ensures r == (a > 0);
pub assume_specification[ $T::saturating_add ](a: $T, b: $T) -> (r: $T) ensures r as int == (if a + b >= $M - $H { $M - $H - 1 } else if a + b < -$H { -$H } else { a + b });
pub assume_specification[ $T::saturating_sub ](a: $T, b: $T) -> (r: $T) ensures r as int == (if a - b >= $M - $H { $M - $H - 1 } else if a - b < -$H { -$H } else { a - b });
pub assume_specification[ $T::saturating_mul ](a: $T, b: $T) -> (r: $T) ensures r as int == (if a * b >= $M - $H { $M - $H - 1 } else if a * b < -$H { -$H } else { a * b });
//%endif
//%endfor
