use native::*;
use numeric_reals::fixed::Fixed;
use numeric_reals::rat::Rat;
use numeric_traits::class::*;
use numeric_traits::identity::*;

fn floor_div(a: i128, b: i128) -> i128 { a.div_euclid(b) } // b > 0
/// a value of a signed/unsigned type of `bits` bits
fn val(c: &mut Ctx, min: i128, max: i128) -> i128 {
    let span = (max - min) as u128;
    match c.rng.below(6) {
        0 => *c.rng.pick(&[0, 1, -1, 2, -2, min, max, min + 1, max - 1]),
        1 => c.rng.below(40) as i128 - 20,
        2 => { let k = c.rng.below(63); (1i128 << k) - c.rng.below(2) as i128 }
        3 => { let k = c.rng.below(63); -(1i128 << k) + c.rng.below(2) as i128 }
        4 => ((c.rng.u128() % (span + 1)) as i128 + min) >> c.rng.below(40),
        _ => (c.rng.u128() % (span + 1)) as i128 + min,
    }.clamp(min, max)
}
macro_rules! fixed_one { ($c:ident $t:ident $n:literal) => {{
    type F = Fixed<$t, $n>;
    let (min, max) = (<$t>::MIN as i128, <$t>::MAX as i128);
    let one = 1i128 << $n;
    let fits = |x: i128| x >= min && x <= max;
    let (a, mut b) = (val($c, min, max), val($c, min, max));
    let a = if $c.rng.below(3) == 0 { floor_div(a, one) * one } else if $c.rng.below(3) == 0 { (floor_div(a, one) * one + one / 2).min(max) } else { a };
    if $c.rng.below(6) == 0 { b = a }
    let w = |x: i128| F::from_raw(x as $t);
    let sh = || format!("Fixed<{},{}> raw {} {}", stringify!($t), $n, a, b);
    macro_rules! is { ($name:literal, $want:expr, $got:expr) => { let want = $want; if fits(want) { $c.check(concat!("Fixed ", $name), sh, Is(true), || $got == w(want)); } } }
    let (x, y) = (w(a), w(b));
    is!("add", a + b, x + y);
    is!("sub", a - b, x - y);
    if fits(a * b) { is!("mul", floor_div(a * b, one), x * y); }
    if b != 0 && fits(a * one) { is!("div", (a * one) / b, x / y); }
    if b != 0 && fits(a / b) { is!("rem", a % b, x % y); }
    $c.check("Fixed order", sh, Is((a == b, Some(a.cmp(&b)), a.cmp(&b), a < b)), || (x == y, x.partial_cmp(&y), x.cmp(&y), x < y));
    is!("floor", floor_div(a, one) * one, x.floor());
    let ceil = -floor_div(-a, one) * one;
    if fits(floor_div(a, one) * one) { is!("ceil", ceil, x.ceil()); }
    // nearest whole number; exact halves go down
    let fl = floor_div(a, one) * one;
    let rd = if (a - fl) * 2 > one { fl + one } else { fl };
    if fits(fl) { is!("round", rd, x.round()); }
    is!("trunc", (a / one) * one, x.trunc());
    is!("fract", a % one, x.fract());
    is!("zero", 0, <F as Zero>::zero());
    is!("new", 0, F::new());
    is!("default", 0, F::default());
    is!("one", one, <F as One>::one());
    if fits(a * one) { is!("from_val", a * one, F::from_val(a as $t)); }
    is!("min", min, <F as Bounded>::min_value());
    is!("max", max, <F as Bounded>::max_value());
    $c.check("Fixed is_zero/is_one", sh, Is((a == 0, a == one)), || (x.is_zero(), x.is_one()));
    let _ = (x, y);
}} }
macro_rules! fixed_signed { ($c:ident $t:ident $n:literal) => {{
    type F = Fixed<$t, $n>;
    let a = val($c, <$t>::MIN as i128, <$t>::MAX as i128);
    let x = F::from_raw(a as $t);
    let sh = || format!("Fixed<{},{}> raw {}", stringify!($t), $n, a);
    $c.check("Fixed sign", sh, Is((a >= 0, a < 0)), || (x.is_positive(), x.is_negative()));
    if a != <$t>::MIN as i128 {
        $c.check("Fixed neg", sh, Is(true), || -x == F::from_raw(-a as $t));
        $c.check("Fixed abs", sh, Is(true), || x.abs() == F::from_raw(a.abs() as $t));
    }
    $c.check("Fixed signed bounds", sh, Is(true), || <F as BoundedSigned>::min_positive() == F::from_raw(1) && <F as BoundedSigned>::max_negative() == F::from_raw(-1));
}} }
pub fn p20(c: &mut Ctx) {
    c.spend(1, 4000, |c| {
        fixed_one!(c i8 0); fixed_one!(c i8 1); fixed_one!(c i8 3); fixed_one!(c i8 6);
        fixed_one!(c i16 4); fixed_one!(c i16 8); fixed_one!(c i32 1); fixed_one!(c i32 8); fixed_one!(c i32 16); fixed_one!(c i64 16); fixed_one!(c i64 32); fixed_one!(c i64 48); fixed_one!(c i64 62); fixed_one!(c i32 30); fixed_one!(c i16 14);
        fixed_one!(c u8 0); fixed_one!(c u8 4); fixed_one!(c u8 7); fixed_one!(c u16 8); fixed_one!(c u32 16); fixed_one!(c u32 5); fixed_one!(c u32 31);
        fixed_signed!(c i8 3); fixed_signed!(c i16 8); fixed_signed!(c i32 16); fixed_signed!(c i64 32); fixed_signed!(c i64 60);
    });
}

fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { (a, b) = (b, a % b) } a }
fn red(n: i128, d: i128) -> (i128, i128) { let g = gcd(n, d); let s = if d < 0 { -1 } else { 1 }; if n == 0 { (0, 1) } else { (s * n / g, s * d / g) } }
macro_rules! rat_one { ($c:ident $t:ident) => {{
    let (min, max) = (<$t>::MIN as i128, <$t>::MAX as i128);
    let fits = |x: i128| x >= min && x <= max;
    let small = $c.rng.below(2) == 0;
    let (lo, hi) = if small { ((-12i128).max(min), 12) } else { (min, max) };
    let v: [i128; 4] = core::array::from_fn(|_| val($c, lo, hi));
    let (a, b, d, e) = (v[0], v[1], v[2], v[3]);
    let sh = || format!("Rat<{}> {}/{} {}/{}", stringify!($t), a, b, d, e);
    // representable after reduction (including the intermediate gcd)
    let ok = |n: i128, d: i128| d != 0 && fits(n) && fits(d) && (n == 0 || fits(gcd(n, d)) && fits(red(n, d).0) && fits(red(n, d).1) && fits(n / gcd(n, d)) && fits(d / gcd(n, d)));
    let p = |r: Rat<$t>| (*r.numerator() as i128, *r.denominator() as i128);
    if b == 0 { $c.check("Rat new zero denominator", sh, Is(true), || Rat::new(a as $t, b as $t).is_none()); }
    if ok(a, b) {
        $c.check("Rat new", sh, Is(Some(red(a, b))), || Rat::new(a as $t, b as $t).map(p));
        let (n1, d1) = red(a, b);
        let x = || Rat::new(a as $t, b as $t).unwrap();
        $c.check("Rat into_pair", sh, Is((n1, d1)), || { let q = x().into_pair(); (q.0 as i128, q.1 as i128) });
        $c.check("Rat is_zero/is_one", sh, Is((n1 == 0, n1 == 1 && d1 == 1)), || (x().is_zero(), x().is_one()));
        if n1 >= 0 {
            $c.check("Rat floor", sh, Is((n1 / d1, 1)), || p(x().floor()));
            let up = (n1 + d1 - 1) / d1;
            if fits(up) { $c.check("Rat ceil", sh, Is((up, 1)), || p(x().ceil())); }
        }
        // nearest whole number; exact halves go down
        let fl = floor_div(n1, d1);
        let rd = if (n1 - fl * d1) * 2 > d1 { fl + 1 } else { fl };
        if fits(rd) && fits(2) && fits(fl) { $c.check("Rat round", sh, Is((rd, 1)), || p(x().round())); }
        if ok(d, e) {
            let (n2, d2) = red(d, e);
            let y = || Rat::new(d as $t, e as $t).unwrap();
            $c.check("Rat eq", sh, Is(n1 == n2 && d1 == d2), || x() == y());
            let (l, r, m) = (n1 * d2, n2 * d1, d1 * d2);
            if fits(l) && fits(r) && fits(m) && fits(l + r) && ok(l + r, m) { $c.check("Rat add", sh, Is(red(l + r, m)), || p(x() + y())); }
            if fits(l) && fits(r) && fits(m) && fits(l - r) && ok(l - r, m) { $c.check("Rat sub", sh, Is(red(l - r, m)), || p(x() - y())); }
            if fits(n1 * n2) && ok(n1 * n2, m) { $c.check("Rat mul", sh, Is(red(n1 * n2, m)), || p(x() * y())); }
            let (qn, qd) = (n1 * d2, d1 * n2);
            if n2 == 0 { if fits(qn) { $c.check("Rat div by zero", sh, Panics, || p(x() / y())); } }
            else if fits(qn) && fits(qd) && ok(qn, qd) { $c.check("Rat div", sh, Is(red(qn, qd)), || p(x() / y())); }
        }
    }
    $c.check("Rat zero/one/default", sh, Is(((0, 1), (1, 1), (0, 1))), || (p(Rat::zero()), p(Rat::one()), p(Rat::default())));
    $c.check("Rat bounds", sh, Is(((min, 1), (max, 1))), || (p(<Rat<$t> as Bounded>::min_value()), p(<Rat<$t> as Bounded>::max_value())));
}} }
macro_rules! rat_signed { ($c:ident $t:ident) => {{
    let (a, b) = (val($c, <$t>::MIN as i128 + 1, <$t>::MAX as i128), val($c, <$t>::MIN as i128 + 1, <$t>::MAX as i128));
    if b != 0 {
        let (n, d) = red(a, b);
        let sh = || format!("Rat<{}> {}/{}", stringify!($t), a, b);
        let x = || Rat::new(a as $t, b as $t).unwrap();
        let p = |r: Rat<$t>| (*r.numerator() as i128, *r.denominator() as i128);
        $c.check("Rat neg", sh, Is((-n, d)), || p(-x()));
        $c.check("Rat abs", sh, Is((n.abs(), d)), || p(x().abs()));
        $c.check("Rat sign", sh, Is((n >= 0, n < 0)), || (x().is_positive(), x().is_negative()));
    }
}} }
pub fn p21(c: &mut Ctx) {
    c.spend(1, 10000, |c| {
        rat_one!(c i8); rat_one!(c i16); rat_one!(c i32); rat_one!(c i64); rat_one!(c u8); rat_one!(c u16); rat_one!(c u32);
        rat_signed!(c i8); rat_signed!(c i16); rat_signed!(c i32); rat_signed!(c i64);
    });
}
