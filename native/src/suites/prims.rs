use native::*;
use core::num::*;
use numeric_traits::bytes::ConvertBytes;
use numeric_traits::cast::*;
use numeric_traits::class::*;
use numeric_traits::identity::*;
use numeric_traits::ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedShl, CheckedShr, CheckedSub};
use numeric_traits::ops::overflowing::{OverflowingAdd, OverflowingMul, OverflowingSub};
use numeric_traits::ops::widening::WideningMul;
use numeric_traits::ops::wrapping::{WrappingAdd, WrappingMul, WrappingShl, WrappingShr, WrappingSub};
use numeric_traits::ops::{Factorial, Gcd, Pow};

/// values of a primitive type worth trying
pub trait Gen: Copy + core::fmt::Debug { fn gen(c: &mut Ctx) -> Self; fn all() -> Vec<Self>; }
macro_rules! gen { ($($t:ident)*) => { $(impl Gen for $t {
    fn gen(c: &mut Ctx) -> $t {
        let r = ((c.rng.next() as u128) << 64 | c.rng.next() as u128) as $t;
        match c.rng.below(8) {
            0 => *c.rng.pick(&[0, 1, 2, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1, <$t>::MIN + 1, <$t>::MAX / 2, <$t>::MAX / 2 + 1]),
            1 => (0 as $t).wrapping_sub(c.rng.below(4) as $t),
            2 => (1 as $t).wrapping_shl(c.rng.below(<$t>::BITS as usize) as u32).wrapping_sub(c.rng.below(3) as $t).wrapping_add(1),
            3 => (0 as $t).wrapping_sub((1 as $t).wrapping_shl(c.rng.below(<$t>::BITS as usize) as u32)).wrapping_add(c.rng.below(3) as $t).wrapping_sub(1),
            4 => c.rng.below(200) as $t,
            5 => r >> c.rng.below(<$t>::BITS as usize),
            _ => r,
        }
    }
    fn all() -> Vec<$t> { if <$t>::BITS <= 16 { (<$t>::MIN..=<$t>::MAX).collect() } else { vec![0, 1, 2, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1, <$t>::MIN + 1] } }
})* } }
gen!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

macro_rules! for_ints { ($m:ident $($a:tt)*) => { $m!($($a)* u8); $m!($($a)* u16); $m!($($a)* u32); $m!($($a)* u64); $m!($($a)* u128); $m!($($a)* usize); $m!($($a)* i8); $m!($($a)* i16); $m!($($a)* i32); $m!($($a)* i64); $m!($($a)* i128); $m!($($a)* isize); } }

macro_rules! cast_pair { ($c:ident $v:ident $f:ident $t:ident) => {{
    let v = $v;
    let sh = || format!("{} {} -> {}", stringify!($f), v, stringify!($t));
    $c.check(concat!("checked cast ", stringify!($f), "->", stringify!($t)), sh, Is(<$t>::try_from(v).ok()), || <$t as FromChecked<$f>>::from_checked(v));
    $c.check(concat!("into_checked ", stringify!($f), "->", stringify!($t)), sh, Is(<$t>::try_from(v).ok()), || IntoChecked::<$t>::into_checked(v));
    $c.check(concat!("truncating cast ", stringify!($f), "->", stringify!($t)), sh, Is(v as $t), || <$t as FromTruncating<$f>>::truncate_from(v));
    $c.check(concat!("truncate ", stringify!($f), "->", stringify!($t)), sh, Is(v as $t), || IntoTruncating::<$t>::truncate(v));
}} }
macro_rules! sat_pair { ($c:ident $v:ident $f:ident $t:ident) => {{
    let v = $v;
    let sh = || format!("{} {} -> {}", stringify!($f), v, stringify!($t));
    #[allow(unused_comparisons)]
    let want = match <$t>::try_from(v) { Ok(x) => x, Err(_) => if v < 0 { <$t>::MIN } else { <$t>::MAX } };
    $c.check(concat!("saturating cast ", stringify!($f), "->", stringify!($t)), sh, Is(want), || <$t as FromSaturating<$f>>::saturate_from(v));
    $c.check(concat!("saturate ", stringify!($f), "->", stringify!($t)), sh, Is(want), || IntoSaturating::<$t>::saturate(v));
}} }
macro_rules! float_pair { ($c:ident $v:ident $t:ident $f:ident) => {{
    let v: $t = $v;
    $c.check(concat!("saturating cast ", stringify!($t), "->", stringify!($f)), || format!("{} {}", stringify!($t), v), Is((v as $f).to_bits()), || <$f as FromSaturating<$t>>::saturate_from(v).to_bits());
}} }
fn cast_from<F: Gen>(c: &mut Ctx, n: usize, f: impl Fn(&mut Ctx, F)) {
    for v in F::all() { f(c, v) }
    for _ in 0..n { let v = F::gen(c); f(c, v) }
}
macro_rules! cast_src { ($c:ident $n:ident $f:ident) => {
    cast_from::<$f>($c, $n, |c, v| {
        for_ints!(cast_pair c v $f);
        for_ints!(sat_pair c v $f);
        float_pair!(c v $f f32); float_pair!(c v $f f64);
    });
} }
macro_rules! from_float { ($c:ident $v:ident $f:ident $t:ident) => {{
    let v: $f = $v;
    let want: $t = if v.is_nan() { 0 } else if v >= <$t>::MAX as $f { <$t>::MAX } else if v <= <$t>::MIN as $f { <$t>::MIN } else { v.trunc() as $t };
    $c.check(concat!("saturating cast ", stringify!($f), "->", stringify!($t)), || format!("{} {:?}", stringify!($f), v), Is(want), || <$t as FromSaturating<$f>>::saturate_from(v));
}} }
pub fn p17(c: &mut Ctx) {
    let n = 300;
    let mut first = true;
    c.spend(1, 1, |c| {
        let n = if first { n } else { 40 };
        first = false;
        for_ints!(cast_src c n);
        for _ in 0..n {
            let v = f64::from_bits(c.rng.next()); let w = f32::from_bits(c.rng.next() as u32);
            let k = c.rng.below(130) as i32;
            let mut vs = vec![v, (c.rng.below(1000) as f64 - 500.0) / 4.0, 2f64.powi(k), -(2f64.powi(k)), 2f64.powi(k) - 1.0, 0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN];
            vs.push((c.rng.next() as i64) as f64);
            for v in vs { for_ints!(from_float c v f64); }
            for w in [w, v as f32, 2f32.powi(k), -(2f32.powi(k)), f32::NAN, (c.rng.next() as i32) as f32] { for_ints!(from_float c w f32); }
        }
    });
}

// ---------------------------------------------------------------- operator traits
macro_rules! ops_one { ($c:ident $t:ident) => {{
    let (a, b) = (<$t>::gen($c), <$t>::gen($c));
    let sh = || format!("{} {} {}", stringify!($t), a, b);
    let n = stringify!($t);
    $c.check(concat!("wrapping_add ", stringify!($t)), sh, Is(a.wrapping_add(b)), || WrappingAdd::wrapping_add(a, b));
    $c.check(concat!("wrapping_sub ", stringify!($t)), sh, Is(a.wrapping_sub(b)), || WrappingSub::wrapping_sub(a, b));
    $c.check(concat!("wrapping_mul ", stringify!($t)), sh, Is(a.wrapping_mul(b)), || WrappingMul::wrapping_mul(a, b));
    $c.check(concat!("overflowing_add ", stringify!($t)), sh, Is(a.overflowing_add(b)), || OverflowingAdd::overflowing_add(a, b));
    $c.check(concat!("overflowing_sub ", stringify!($t)), sh, Is(a.overflowing_sub(b)), || OverflowingSub::overflowing_sub(a, b));
    $c.check(concat!("overflowing_mul ", stringify!($t)), sh, Is(a.overflowing_mul(b)), || OverflowingMul::overflowing_mul(a, b));
    $c.check(concat!("checked_add ", stringify!($t)), sh, Is(a.checked_add(b)), || CheckedAdd::checked_add(a, b));
    $c.check(concat!("checked_sub ", stringify!($t)), sh, Is(a.checked_sub(b)), || CheckedSub::checked_sub(a, b));
    $c.check(concat!("checked_mul ", stringify!($t)), sh, Is(a.checked_mul(b)), || CheckedMul::checked_mul(a, b));
    $c.check(concat!("checked_div ", stringify!($t)), sh, Is(a.checked_div(b)), || CheckedDiv::checked_div(a, b));
    // shifts: None/wrapped exactly at the bit width
    let s = if $c.rng.below(2) == 0 { b } else { $c.rng.below(<$t>::BITS as usize + 4) as $t };
    let su = if $c.rng.below(2) == 0 { usize::gen($c) } else { $c.rng.below(<$t>::BITS as usize + 4) };
    let sh2 = || format!("{} {} by {} / {}", stringify!($t), a, s, su);
    let amt = u32::try_from(s).ok().filter(|x| *x < <$t>::BITS);
    let amu = u32::try_from(su).ok().filter(|x| *x < <$t>::BITS);
    $c.check(concat!("checked_shl ", stringify!($t)), sh2, Is(amt.map(|k| a << k)), || <$t as CheckedShl>::checked_shl(a, s));
    $c.check(concat!("checked_shr ", stringify!($t)), sh2, Is(amt.map(|k| a >> k)), || <$t as CheckedShr>::checked_shr(a, s));
    $c.check(concat!("checked_shl<usize> ", stringify!($t)), sh2, Is(amu.map(|k| a << k)), || <$t as CheckedShl<usize>>::checked_shl(a, su));
    $c.check(concat!("checked_shr<usize> ", stringify!($t)), sh2, Is(amu.map(|k| a >> k)), || <$t as CheckedShr<usize>>::checked_shr(a, su));
    let m = (s as u128 % <$t>::BITS as u128) as u32;
    $c.check(concat!("wrapping_shl ", stringify!($t)), sh2, Is(a << m), || WrappingShl::wrapping_shl(a, s));
    $c.check(concat!("wrapping_shr ", stringify!($t)), sh2, Is(a >> m), || WrappingShr::wrapping_shr(a, s));
    // pow
    let e = $c.rng.below(130) as $t;
    if e >= 0 {
        let small = if $c.rng.below(2) == 0 { a } else { (a % 8) as $t };
        let want = match small.checked_pow(e as u32) { Some(v) => Is(v), None => if $c.debug { Panics } else { Is(small.wrapping_pow(e as u32)) } };
        $c.check(concat!("pow ", stringify!($t)), || format!("{} {} ^ {}", stringify!($t), small, e), want, || Pow::pow(small, e));
    }
    // gcd
    let (ga, gb) = match $c.rng.below(4) { 0 => (a, b), 1 => { let k = ($c.rng.below(12) + 1) as $t; ((a % 10).wrapping_mul(k), (b % 10).wrapping_mul(k)) } 2 => (a, a), _ => (a, 0) };
    let want = { let (mut x, mut y) = ((ga as i128).unsigned_abs(), (gb as i128).unsigned_abs());
        if <$t>::MIN == 0 { x = ga as u128; y = gb as u128; }
        while y != 0 { (x, y) = (y, x % y) } x };
    if want <= <$t>::MAX as u128 {
        $c.check(concat!("gcd ", stringify!($t)), || format!("{} gcd({}, {})", stringify!($t), ga, gb), Is(want as $t), || Gcd::gcd(ga, gb));
    }
    // identities and bounds
    $c.check(concat!("zero/one ", stringify!($t)), sh, Is((0, 1, a == 0, a == 1, <$t>::MIN, <$t>::MAX)), || (<$t as Zero>::zero(), <$t as One>::one(), Zero::is_zero(&a), One::is_one(&a), <$t as Bounded>::min_value(), <$t as Bounded>::max_value()));
    // (counts above the type's maximum, only possible for i8 zero and i128, wrap)
    $c.check(concat!("leading/trailing zeros ", stringify!($t)), sh, Is((a.leading_zeros() as $t, a.trailing_zeros() as $t)), || (BoundedBit::leading_zeros(a), BoundedBit::trailing_zeros(a)));
    const S: usize = (<$t>::BITS / 8) as usize;
    let le = a.to_le_bytes();
    let be = a.to_be_bytes();
    $c.check(concat!("bytes ", stringify!($t)), sh, Is((le, be, a.to_ne_bytes(), a, a, a)), || (
        ConvertBytes::<S>::to_le_bytes(a), ConvertBytes::<S>::to_be_bytes(a), ConvertBytes::<S>::to_ne_bytes(a),
        <$t as ConvertBytes<S>>::from_le_bytes(le), <$t as ConvertBytes<S>>::from_be_bytes(be), <$t as ConvertBytes<S>>::from_ne_bytes(a.to_ne_bytes())));
    let _ = n;
}} }
macro_rules! ops_signed { ($c:ident $($t:ident $nz:ident)*) => { $({
    let a = <$t>::gen($c);
    let sh = || format!("{} {}", stringify!($t), a);
    let wabs = || match a.checked_abs() { Some(v) => Is(v), None => if cfg!(debug_assertions) { Panics } else { Is(a) } };
    $c.check(concat!("sign ", stringify!($t)), sh, Is((a >= 0, a < 0)), || (Signed::is_positive(&a), Signed::is_negative(&a)));
    $c.check(concat!("abs ", stringify!($t)), sh, wabs(), || Signed::abs(a));
    if let Some(z) = $nz::new(a) {
        $c.check(concat!("sign ", stringify!($nz)), sh, Is((a >= 0, a < 0)), || (Signed::is_positive(&z), Signed::is_negative(&z)));
        $c.check(concat!("abs ", stringify!($nz)), sh, wabs(), || Signed::abs(z).get());
        $c.check(concat!("one/bounds ", stringify!($nz)), sh, Is((1, a == 1, <$t>::MIN, <$t>::MAX, 1, -1)), || (<$nz as One>::one().get(), One::is_one(&z), <$nz as Bounded>::min_value().get(), <$nz as Bounded>::max_value().get(), <$nz as BoundedSigned>::min_positive().get(), <$nz as BoundedSigned>::max_negative().get()));
    }
})* } }
macro_rules! ops_unsigned { ($c:ident $($t:ident $nz:ident)*) => { $({
    let a = <$t>::gen($c);
    let sh = || format!("{} {}", stringify!($t), a);
    if let Some(z) = $nz::new(a) {
        $c.check(concat!("one/bounds ", stringify!($nz)), sh, Is((1, a == 1, 1, <$t>::MAX)), || (<$nz as One>::one().get(), One::is_one(&z), <$nz as Bounded>::min_value().get(), <$nz as Bounded>::max_value().get()));
    }
    let k = $c.rng.below(40) as $t;
    let mut full = Some(1 as $t);
    let mut wrap = 1 as $t;
    for i in 1..=k { full = full.and_then(|x| x.checked_mul(i)); wrap = wrap.wrapping_mul(i); }
    let want = match full { Some(v) => Is(v), None => if $c.debug { Panics } else { Is(wrap) } };
    $c.check(concat!("factorial ", stringify!($t)), || format!("{} {}!", stringify!($t), k), want, || Factorial::factorial(k));
})* } }
fn floats(c: &mut Ctx) {
    let mk = |c: &mut Ctx| match c.rng.below(4) { 0 => 0.0, 1 => -(c.rng.below(9) as f64), 2 => (c.rng.next() as i32 as f64) / 16.0, _ => *c.rng.pick(&[1.0, -1.0, 0.5, -0.5, 2.5, f64::MAX, f64::MIN_POSITIVE, -0.0]) };
    let a = mk(c);
    let sh = || format!("f64 {:?}", a);
    c.check("f64 identities", sh, Is((0.0, 1.0, a == 0.0, a == 1.0, f64::MIN, f64::MAX, f64::MIN_POSITIVE, -f64::MIN_POSITIVE)), || (<f64 as Zero>::zero(), <f64 as One>::one(), Zero::is_zero(&a), One::is_one(&a), <f64 as Bounded>::min_value(), <f64 as Bounded>::max_value(), <f64 as BoundedSigned>::min_positive(), <f64 as BoundedSigned>::max_negative()));
    c.check("f64 sign", sh, Is((a >= 0.0, a < 0.0, a.abs())), || (Signed::is_positive(&a), Signed::is_negative(&a), Signed::abs(a)));
    c.check("f64 rounding", sh, Is((a.floor(), a.ceil(), a.round(), a.trunc(), a.fract())), || (Real::floor(a), Real::ceil(a), Real::round(a), Real::trunc(a), Real::fract(a)));
    let b = if a == f64::MAX { f32::MAX } else { a as f32 };
    c.check("f32 identities", sh, Is((0.0, 1.0, b == 0.0, b == 1.0, f32::MIN, f32::MAX, f32::MIN_POSITIVE, -f32::MIN_POSITIVE)), || (<f32 as Zero>::zero(), <f32 as One>::one(), Zero::is_zero(&b), One::is_one(&b), <f32 as Bounded>::min_value(), <f32 as Bounded>::max_value(), <f32 as BoundedSigned>::min_positive(), <f32 as BoundedSigned>::max_negative()));
    c.check("f32 sign", sh, Is((b >= 0.0, b < 0.0, b.abs())), || (Signed::is_positive(&b), Signed::is_negative(&b), Signed::abs(b)));
    c.check("f32 rounding", sh, Is((b.floor(), b.ceil(), b.round(), b.trunc(), b.fract())), || (Real::floor(b), Real::ceil(b), Real::round(b), Real::trunc(b), Real::fract(b)));
    let (ab, bb) = (a.to_bits(), b.to_bits());
    c.check("float bytes", sh, Is((a.to_le_bytes(), a.to_be_bytes(), a.to_ne_bytes(), b.to_le_bytes(), b.to_be_bytes(), ab, ab, bb, bb)), || (
        ConvertBytes::<8>::to_le_bytes(a), ConvertBytes::<8>::to_be_bytes(a), ConvertBytes::<8>::to_ne_bytes(a), ConvertBytes::<4>::to_le_bytes(b), ConvertBytes::<4>::to_be_bytes(b),
        <f64 as ConvertBytes<8>>::from_le_bytes(ab.to_le_bytes()).to_bits(), <f64 as ConvertBytes<8>>::from_be_bytes(ab.to_be_bytes()).to_bits(),
        <f32 as ConvertBytes<4>>::from_le_bytes(bb.to_le_bytes()).to_bits(), <f32 as ConvertBytes<4>>::from_be_bytes(bb.to_be_bytes()).to_bits()));
}
pub fn p18(c: &mut Ctx) {
    c.spend(1, 2000, |c| {
        for_ints!(ops_one c);
        ops_signed!(c i8 NonZeroI8 i16 NonZeroI16 i32 NonZeroI32 i64 NonZeroI64 i128 NonZeroI128 isize NonZeroIsize);
        ops_unsigned!(c u8 NonZeroU8 u16 NonZeroU16 u32 NonZeroU32 u64 NonZeroU64 u128 NonZeroU128 usize NonZeroUsize);
        floats(c);
    });
}

// ---------------------------------------------------------------- widening multiply
fn nat(x: u128) -> Nat { Nat::from(x) }
macro_rules! wide { ($c:ident $($t:ident)*) => { $({
    let (a, b, d) = (<$t>::gen($c), <$t>::gen($c), <$t>::gen($c));
    let full = nat(a as u128).mul(&nat(b as u128)).add(&nat(d as u128));
    $c.check(concat!("widening_mul ", stringify!($t)), || format!("{} {} * {} + {}", stringify!($t), a, b, d), Is(full), || {
        let (lo, hi) = WideningMul::widening_mul(a, b, d);
        nat(hi as u128).shl(<$t>::BITS as usize).add(&nat(lo as u128))
    });
})* } }
pub fn p19(c: &mut Ctx) {
    for a in 0..=255u8 { for b in 0..=255u8 { for d in [0, 1, 127, 128, 254, 255, a, b] {
        let w = a as u16 * b as u16 + d as u16;
        c.check("widening_mul u8 (all)", || format!("u8 {} * {} + {}", a, b, d), Is((w as u8, (w >> 8) as u8)), || WideningMul::widening_mul(a, b, d));
    } } }
    c.spend(1, 20000, |c| { wide!(c u8 u16 u32 u64 u128 usize); });
}
