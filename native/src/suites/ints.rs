use core::cmp::Ordering;
use native::*;
use numeric_ints::{BigInt, I, U};
use numeric_traits::cast::*;
use numeric_traits::class::*;
use numeric_traits::identity::*;
use numeric_traits::ops::checked::*;
use numeric_traits::ops::saturating::*;
use numeric_traits::ops::wrapping::*;
use numeric_traits::ops::Pow;

// ---------------------------------------------------------------- U<N>
fn un<const N: usize>(u: U<N>) -> Nat { Nat::from_bytes(&u.to_le_bytes()) }
fn ub<const N: usize>(n: &Nat) -> U<N> {
    let mut b = [0u8; N];
    b.copy_from_slice(&n.to_bytes(N));
    U::from_le_bytes(b)
}
fn gen_bytes<const N: usize>(c: &mut Ctx) -> [u8; N] {
    let mode = c.rng.below(6);
    let mut b = [0u8; N];
    for x in &mut b {
        *x = match mode { 0 => c.rng.next() as u8, 1 => *c.rng.pick(&[0, 255]), 2 => 0, 3 => *c.rng.pick(&[0, 1, 127, 128, 255]), _ => c.rng.edge(8) as u8 };
    }
    match c.rng.below(6) {
        0 => { let k = c.rng.below(N); b[k..].fill(0); b[0] |= 1 }
        1 => { b[0] = c.rng.edge(8) as u8; b[N - 1] = c.rng.edge(8) as u8 }
        2 => { b = [0; N]; b[c.rng.below(N)] = 1 << c.rng.below(8) }
        _ => {}
    }
    b
}
fn gen_u<const N: usize>(c: &mut Ctx) -> Nat { Nat::from_bytes(&gen_bytes::<N>(c)) }
fn upair<const N: usize>(c: &mut Ctx) -> (Nat, Nat) {
    let a = gen_u::<N>(c);
    let b = match c.rng.below(8) { 0 => a.clone(), 1 => a.not(N * 8), 2 => a.add(&Nat::from(1)).low(N * 8), 3 => Nat::from(c.rng.below(17) as u128).low(N * 8), _ => gen_u::<N>(c) };
    (a, b)
}
fn p08_n<const N: usize>(c: &mut Ctx, a: &Nat, b: &Nat) {
    let bl = N * 8;
    let (x, y) = (ub::<N>(a), ub::<N>(b));
    let sh = || format!("U<{}> left={:?} right={:?}", N, a, b);
    let max = Nat::zero().not(bl);
    let s = a.add(b);
    let so = s > max;
    let p = a.mul(b);
    let po = p > max;
    let lt = a < b;
    let d = Int::nat(a.clone()).sub(&Int::nat(b.clone())).wrap(bl);
    let dbg = c.debug;
    macro_rules! op { ($o:expr, $v:expr) => { if $o && dbg { Panics } else { Is($v) } } }
    c.check("U add", sh, op!(so, s.low(bl)), || un(x + y));
    c.check("U sub", sh, op!(lt, d.clone()), || un(x - y));
    c.check("U mul", sh, op!(po, p.low(bl)), || un(x * y));
    c.check("U checked_add", sh, Is(if so { None } else { Some(s.clone()) }), || x.checked_add(y).map(un));
    c.check("U checked_sub", sh, Is(if lt { None } else { Some(d.clone()) }), || x.checked_sub(y).map(un));
    c.check("U checked_mul", sh, Is(if po { None } else { Some(p.clone()) }), || x.checked_mul(y).map(un));
    c.check("U wrapping_add", sh, Is(s.low(bl)), || un(x.wrapping_add(y)));
    c.check("U wrapping_sub", sh, Is(d.clone()), || un(x.wrapping_sub(y)));
    c.check("U saturating_add", sh, Is(if so { max.clone() } else { s.clone() }), || un(x.saturating_add(y)));
    c.check("U saturating_sub", sh, Is(if lt { Nat::zero() } else { d.clone() }), || un(x.saturating_sub(y)));
    c.check("U saturating_mul", sh, Is(if po { max.clone() } else { p.clone() }), || un(x.saturating_mul(y)));
}
fn p08_pow<const N: usize>(c: &mut Ctx, a: &Nat, e: u64) {
    let bl = N * 8;
    let small = a.bits() <= 1;
    let mut r = Nat::from(1);
    let mut over = false;
    if small { if e > 0 { r = a.clone() } } else {
        for _ in 0..e { r = r.mul(a); if r.bits() > bl { over = true; r = r.low(bl); } }
    }
    let (x, y) = (ub::<N>(a), ub::<N>(&Nat::from(e as u128)));
    let dbg = c.debug;
    c.check("U pow", || format!("U<{}> base={:?} exp={}", N, a, e), if over && dbg { Panics } else { Is(r) }, || un(x.pow(y)));
    c.check("U product", || format!("U<{}> base={:?} count={}", N, a, e % 4), {
        let k = e % 4; let mut r = Nat::from(1); let mut o = false;
        for _ in 0..k { r = r.mul(a); if r.bits() > bl { o = true; r = r.low(bl) } }
        if o && dbg { Panics } else { Is(r) }
    }, || un((0..e % 4).map(|_| x).product::<U<N>>()));
}
macro_rules! per_n { ($c:expr, $f:ident) => {{ let c: &mut Ctx = &mut *$c; $f::<1>(c); $f::<2>(c); $f::<3>(c); $f::<4>(c); $f::<5>(c); $f::<8>(c); $f::<9>(c); $f::<16>(c); $f::<17>(c); if c.rng.below(16) == 0 { $f::<24>(c); $f::<32>(c); $f::<33>(c); $f::<65>(c); } }} }
pub fn p08(c: &mut Ctx) {
    for a in 0..=255u128 { for b in 0..=255u128 { p08_n::<1>(c, &Nat::from(a), &Nat::from(b)); } }
    for a in 0..=255u128 { for e in 0..12 { p08_pow::<1>(c, &Nat::from(a), e); } }
    c.spend(1, 1500, |c| {
        fn one<const N: usize>(c: &mut Ctx) {
            let (a, b) = upair::<N>(c);
            p08_n::<N>(c, &a, &b);
            let e = c.rng.below(if N == 1 { 256 } else { 300 }) as u64 / (1 + c.rng.below(60) as u64);
            let base = if c.rng.bool() { Nat::from(c.rng.below(20) as u128) } else { a };
            p08_pow::<N>(c, &base, e);
            let he = gen_u::<N>(c);
            let b01 = c.rng.below(2) as u128;
            let want = if he.is_zero() { 1 } else { b01 };
            c.check("U pow of 0 and 1", || format!("U<{}> {} ^ {:?}", N, b01, he), Is(Nat::from(want)), || un(ub::<N>(&Nat::from(b01)).pow(ub::<N>(&he))));
        }
        per_n!(c, one)
    });
}

fn p09_n<const N: usize>(c: &mut Ctx, a: &Nat, b: &Nat, k: usize) {
    let bl = N * 8;
    let (x, y) = (ub::<N>(a), ub::<N>(b));
    let sh = || format!("U<{}> left={:?} right={:?}", N, a, b);
    let z = b.is_zero();
    let (q, r) = if z { Default::default() } else { a.divrem(b) };
    c.check("U div", sh, if z { Panics } else { Is(q.clone()) }, || un(x / y));
    c.check("U rem", sh, if z { Panics } else { Is(r.clone()) }, || un(x % y));
    c.check("U checked_div", sh, Is(if z { None } else { Some(q.clone()) }), || x.checked_div(y).map(un));
    c.check("U not", sh, Is(a.not(bl)), || un(!x));
    c.check("U bitand", sh, Is(a.and(b)), || un(x & y));
    c.check("U bitor", sh, Is(a.or(b)), || un(x | y));
    c.check("U bitxor", sh, Is(a.xor(b)), || un(x ^ y));
    let dbg = c.debug;
    let sh = || format!("U<{}> value={:?} amount={}", N, a, k);
    let kk = if dbg { k } else { k % bl };
    c.check("U shl usize", sh, if dbg && k > bl { Panics } else { Is(a.shl(kk).low(bl)) }, || un(x << k));
    c.check("U shr usize", sh, if dbg && k > bl { Panics } else { Is(a.shr(kk)) }, || un(x >> k));
    let far = match c.rng.below(4) { 0 => usize::MAX - c.rng.below(300), 1 => (1usize << 32) + c.rng.below(2 * bl), 2 => 1usize << (33 + c.rng.below(31)), _ => (c.rng.next() as usize) | (1 << 40) };
    let shf = || format!("U<{}> value={:?} amount={}", N, a, far);
    c.check("U shl usize far", shf, if dbg { Panics } else { Is(a.shl(far % bl).low(bl)) }, || un(x << far));
    c.check("U shr usize far", shf, if dbg { Panics } else { Is(a.shr(far % bl)) }, || un(x >> far));
    // shift by a U amount
    let amt = if c.rng.below(4) == 0 { b.clone() } else { Nat::from(k as u128).low(bl) };
    let s = ub::<N>(&amt);
    let fits = amt.bits() <= 64;
    let k = amt.low(64).to_u128().unwrap() as usize;
    let pan = !fits || (dbg && k > bl);
    let kk = if dbg { k.min(bl) } else { k % bl };
    let sh = || format!("U<{}> value={:?} amount={:?}", N, a, amt);
    c.check("U shl", sh, if pan { Panics } else { Is(a.shl(kk).low(bl)) }, || un(x << s));
    c.check("U shr", sh, if pan { Panics } else { Is(a.shr(kk)) }, || un(x >> s));
}
pub fn p09(c: &mut Ctx) {
    for a in 0..=255u128 { for b in 0..=255u128 { p09_n::<1>(c, &Nat::from(a), &Nat::from(b), b as usize % 13); } }
    c.spend(1, 1000, |c| {
        fn one<const N: usize>(c: &mut Ctx) {
            let (a, mut b) = upair::<N>(c);
            if c.rng.below(4) == 0 { b = a.shr(c.rng.below(N * 8)); if c.rng.bool() && !b.is_zero() { b = b.sub(&Nat::from(1)) } }
            let k = match c.rng.below(6) { 0 => 8 * c.rng.below(N + 2), 1 => N * 8, 2 => N * 8 + 1, _ => c.rng.below(N * 8 + 3) };
            p09_n::<N>(c, &a, &b, k);
        }
        per_n!(c, one)
    });
}

macro_rules! uprim { ($c:expr, $n:ident, $a:expr, $x:expr, $($t:ident)*) => {$({
    let tb = <$t>::BITS as usize;
    let fits = $a.bits() <= tb;
    let sh = || format!("U<{}> {:?} -> {}", $n, $a, stringify!($t));
    let low = $a.low(tb).to_u128().unwrap() as $t;
    $c.check("U to prim checked", sh, Is(if fits { Some(low) } else { None }), || <$t>::from_checked($x));
    $c.check("U to prim saturating", sh, Is(if fits { low } else { <$t>::MAX }), || <$t>::saturate_from($x));
    $c.check("U to prim truncating", sh, Is(low), || <$t>::truncate_from($x));
    let v = $c.rng.edge(tb) as $t;
    let vn = Nat::from(v as u128);
    $c.check("U from prim checked", || format!("{} {:#x} -> U<{}>", stringify!($t), v, $n), Is(if vn.bits() <= $n * 8 { Some(vn.clone()) } else { None }), || U::<$n>::from_checked(v).map(un));
})*} }
fn p10_n<const N: usize>(c: &mut Ctx, a: &Nat, b: &Nat) {
    let bl = N * 8;
    let (x, y) = (ub::<N>(a), ub::<N>(b));
    let sh = || format!("U<{}> left={:?} right={:?}", N, a, b);
    let o = a.cmp(b);
    c.check("U cmp", sh, Is((o, Some(o), o == Ordering::Equal, o == Ordering::Less, o != Ordering::Greater)), || (x.cmp(&y), x.partial_cmp(&y), x == y, x < y, x <= y));
    c.check("U identities", sh, Is((Nat::zero(), Nat::from(1), a.is_zero(), *a == Nat::from(1))), || (un(U::<N>::zero()), un(U::<N>::one()), x.is_zero(), x.is_one()));
    c.check("U bounds", sh, Is((Nat::zero(), Nat::zero().not(bl), Nat::zero(), Nat::zero())), || (un(U::<N>::min_value()), un(U::<N>::max_value()), un(U::<N>::new()), un(U::<N>::default())));
    let le = a.to_bytes(N);
    let mut be = le.clone();
    be.reverse();
    c.check("U to bytes", sh, Is((le.clone(), be.clone(), le.clone())), || (x.to_le_bytes().to_vec(), x.to_be_bytes().to_vec(), x.to_ne_bytes().to_vec()));
    let arr: [u8; N] = le.clone().try_into().unwrap();
    let ben = Nat::from_bytes(&be);
    c.check("U from bytes", sh, Is((a.clone(), ben, a.clone())), || (un(U::from_le_bytes(arr)), un(U::from_be_bytes(arr)), un(U::from_ne_bytes(arr))));
    uprim!(c, N, a, x, u8 u16 u32 u64 u128 usize);
}
pub fn p10(c: &mut Ctx) {
    for a in 0..=255u128 { for b in 0..=255u128 { let (p, q) = (ub::<1>(&Nat::from(a)), ub::<1>(&Nat::from(b))); c.check("U cmp", || format!("U<1> {} {}", a, b), Is((a.cmp(&b), a == b)).map2(), || (p.cmp(&q), p == q)); } }
    c.spend(1, 1500, |c| {
        fn one<const N: usize>(c: &mut Ctx) { let (a, b) = upair::<N>(c); p10_n::<N>(c, &a, &b); }
        per_n!(c, one);
        let (v1, v2, v3, v4, v5) = (c.rng.edge(8) as u8, c.rng.edge(16) as u16, c.rng.edge(32) as u32, c.rng.edge(64) as u64, c.rng.edge(128));
        let sh = || format!("{:#x} {:#x} {:#x} {:#x} {:#x}", v1, v2, v3, v4, v5);
        c.check("U from_uN/as_uN", sh, Is((v1, v2, v3, v4, v5, v4 as usize)), || (U::from_u8(v1).as_u8(), U::from_u16(v2).as_u16(), U::from_u32(v3).as_u32(), U::from_u64(v4).as_u64(), U::from_u128(v5).as_u128(), U::from_usize(v4 as usize).as_usize()));
        c.check("U from_uN value", sh, Is((v1 as u128, v2 as u128, v3 as u128, v4 as u128, v5, v4 as u128)), || { let t = |n: Nat| n.to_u128().unwrap(); (t(un(U::from_u8(v1))), t(un(U::from_u16(v2))), t(un(U::from_u32(v3))), t(un(U::from_u64(v4))), t(un(U::from_u128(v5))), t(un(U::from_usize(v4 as usize)))) });
    });
}
trait Map2 { fn map2(self) -> Self; }
impl<T> Map2 for Exp<T> { fn map2(self) -> Self { self } }

// ---------------------------------------------------------------- I<N>
fn ii<const N: usize>(v: I<N>) -> Int {
    let b: [u8; N] = unsafe { core::mem::transmute_copy(&v) };
    Int::nat(Nat::from_bytes(&b)).wraps(N * 8)
}
fn ib<const N: usize>(v: &Int) -> I<N> {
    let mut b = [0u8; N];
    b.copy_from_slice(&v.wrap(N * 8).to_bytes(N));
    unsafe { core::mem::transmute_copy(&b) }
}
fn p11_n<const N: usize>(c: &mut Ctx, a: &Int, b: &Int) {
    let bl = N * 8;
    let (x, y) = (ib::<N>(a), ib::<N>(b));
    let sh = || format!("I<{}> left={:?} right={:?}", N, a, b);
    c.check("I add", sh, Is(a.add(b).wraps(bl)), || ii(x + y));
    c.check("I sub", sh, Is(a.sub(b).wraps(bl)), || ii(x - y));
    c.check("I mul", sh, Is(a.mul(b).wraps(bl)), || ii(x * y));
    c.check("I neg", sh, Is(a.neg().wraps(bl)), || ii(-x));
    c.check("I abs", sh, Is(a.abs().wraps(bl)), || ii(x.abs()));
    let z = b.is_zero();
    let (q, r) = if z { Default::default() } else { a.divrem(b) };
    c.check("I div", sh, if z { Panics } else { Is(q.wraps(bl)) }, || ii(x / y));
    c.check("I rem", sh, if z { Panics } else { Is(r.wraps(bl)) }, || ii(x % y));
    let o = a.cmp(b);
    c.check("I cmp", sh, Is((o, Some(o), o == Ordering::Equal, o == Ordering::Less)), || (x.cmp(&y), x.partial_cmp(&y), x == y, x < y));
    let (ua, ubn) = (a.wrap(bl), b.wrap(bl));
    c.check("I not", sh, Is(Int::nat(ua.not(bl)).wraps(bl)), || ii(!x));
    c.check("I bitand", sh, Is(Int::nat(ua.and(&ubn)).wraps(bl)), || ii(x & y));
    c.check("I bitor", sh, Is(Int::nat(ua.or(&ubn)).wraps(bl)), || ii(x | y));
    c.check("I bitxor", sh, Is(Int::nat(ua.xor(&ubn)).wraps(bl)), || ii(x ^ y));
    c.check("I sign", sh, Is((!a.neg, a.neg, a.is_zero(), *a == Int::from(1))), || (x.is_positive(), x.is_negative(), x.is_zero(), x.is_one()));
    c.check("I constants", sh, Is((Int::from(0), Int::from(1), Int::new(true, Nat::pow2(bl - 1)), Int::nat(Nat::pow2(bl - 1).sub(&Nat::from(1))), Int::from(1), Int::from(-1))), || (ii(I::<N>::zero()), ii(I::<N>::one()), ii(I::<N>::min_value()), ii(I::<N>::max_value()), ii(I::<N>::min_positive()), ii(I::<N>::max_negative())));
}
pub fn p11(c: &mut Ctx) {
    for a in -128..=127i128 { for b in -128..=127i128 { p11_n::<1>(c, &Int::from(a), &Int::from(b)); } }
    c.spend(1, 1000, |c| {
        fn one<const N: usize>(c: &mut Ctx) {
            let (a, b) = upair::<N>(c);
            p11_n::<N>(c, &Int::nat(a).wraps(N * 8), &Int::nat(b).wraps(N * 8));
        }
        per_n!(c, one)
    });
}

// ---------------------------------------------------------------- BigInt
/// Read a value back through its binary rendering, together with how it is stored
fn rd(b: &BigInt) -> (Int, bool) {
    let s = format!("{:b}", b);
    let (neg, s) = match s.strip_prefix('-') { Some(r) => (true, r), None => (false, &s[..]) };
    let d = s.strip_prefix("0b").expect("0b prefix").as_bytes();
    let mut m = vec![0u32; d.len() / 32 + 1];
    for (i, c) in d.iter().rev().enumerate() { if *c == b'1' { m[i / 32] |= 1 << (i % 32); } }
    while m.last() == Some(&0) { m.pop(); }
    let m = Nat(m);
    let limbs = (m.bits() + 63) / 64;
    let canon = d.len() == 64 * limbs.max(1) && (!neg || !m.is_zero()) && b.is_inline() == (m.bits() <= 62) && b.is_interned() != b.is_inline();
    (Int { neg, mag: m }, canon)
}
fn ok(v: Int) -> (Int, bool) { (v, true) }
fn mk(v: &Int) -> BigInt {
    let mut b = BigInt::new();
    let n = (v.mag.bits() + 127) / 128;
    for i in (0..n).rev() { b = (b << 128usize) + BigInt::from(v.mag.digit(128, i)); }
    if v.neg { -b } else { b }
}
fn gen_int(c: &mut Ctx) -> Int {
    let m = match c.rng.below(12) {
        _ if c.rng.below(24) == 0 => { let k = 6 + c.rng.below(16); Nat::from_digits(64, (0..k).map(|_| c.rng.edge(64)).collect::<Vec<_>>().into_iter()) }
        0 => Nat::from(c.rng.below(4) as u128),
        1 => Nat::from(c.rng.edge(64)),
        2 => Nat::from(c.rng.edge(128)),
        3 => Nat::pow2([7, 8, 15, 16, 31, 32, 61, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193][c.rng.below(18)]),
        4 => Nat::pow2([7, 8, 15, 16, 31, 32, 61, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193][c.rng.below(18)]).sub(&Nat::from(1)),
        5 => Nat::pow2(62).add(&Nat::from(c.rng.below(3) as u128)).sub(&Nat::from(1)),
        6 => Nat::pow2(c.rng.below(300)),
        7 => { let k = c.rng.below(4); Nat::from_digits(64, (0..k).map(|_| *c.rng.pick(&[0, u64::MAX as u128, 1])).collect::<Vec<_>>().into_iter()) }
        _ => { let k = 1 + c.rng.below(5); Nat::from_digits(64, (0..k).map(|_| c.rng.edge(64)).collect::<Vec<_>>().into_iter()) }
    };
    Int::new(c.rng.bool(), m)
}
fn gen_ipair(c: &mut Ctx) -> (Int, Int) {
    let a = gen_int(c);
    let b = match c.rng.below(8) { 0 => a.clone(), 1 => a.neg(), 2 => a.add(&Int::from(1)), 3 => a.neg().sub(&Int::from(1)), 4 => Int::from(c.rng.below(9) as i128 - 4), _ => gen_int(c) };
    (a, b)
}
fn chk_mk(c: &mut Ctx, a: &Int) -> BigInt {
    let want = ok(a.clone());
    c.check("BigInt construction", || format!("{:?}", a), Is(want), || rd(&mk(a)));
    mk(a)
}
macro_rules! prim_ops { ($c:expr, $a:expr, $x:expr, $($t:ident)*) => {$({
    let v = prim_edge!($c, $t);
    let b = prim_int!(v, $t);
    let sh = || format!("BigInt {:?} op {} {:?}", $a, stringify!($t), b);
    $c.check("BigInt + prim", sh, Is(ok($a.add(&b))), || rd(&($x.clone() + v)));
    $c.check("BigInt - prim", sh, Is(ok($a.sub(&b))), || rd(&($x.clone() - v)));
    $c.check("BigInt * prim", sh, Is(ok($a.mul(&b))), || rd(&($x.clone() * v)));
    $c.check("BigInt += prim", sh, Is(ok($a.add(&b))), || { let mut y = $x.clone(); y += v; rd(&y) });
    $c.check("BigInt -= prim", sh, Is(ok($a.sub(&b))), || { let mut y = $x.clone(); y -= v; rd(&y) });
    $c.check("BigInt *= prim", sh, Is(ok($a.mul(&b))), || { let mut y = $x.clone(); y *= v; rd(&y) });
    let z = b.is_zero();
    let (q, r) = if z { Default::default() } else { $a.divrem(&b) };
    $c.check("BigInt / prim", sh, if z { Panics } else { Is(ok(q.clone())) }, || rd(&($x.clone() / v)));
    $c.check("BigInt % prim", sh, if z { Panics } else { Is(ok(r.clone())) }, || rd(&($x.clone() % v)));
    $c.check("BigInt /= prim", sh, if z { Panics } else { Is(ok(q)) }, || { let mut y = $x.clone(); y /= v; rd(&y) });
    $c.check("BigInt %= prim", sh, if z { Panics } else { Is(ok(r)) }, || { let mut y = $x.clone(); y %= v; rd(&y) });
})*} }
macro_rules! prim_edge { ($c:expr, $t:ident) => { $c.rng.edge(<$t>::BITS as usize) as $t } }
macro_rules! prim_int { ($v:expr, $t:ident) => { if <$t>::MIN == 0 { Int::fromu($v as u128) } else { Int::from($v as i128) } } }

fn arith(c: &mut Ctx, a: Int, b: Int) {
    let x = chk_mk(c, &a);
    let y = chk_mk(c, &b);
    let sh = || format!("BigInt left={:?} right={:?}", a, b);
    macro_rules! four { ($n:literal, $op:tt, $e:expr) => {{
        c.check(concat!("BigInt ", $n), sh, $e, || rd(&(&x $op &y)));
        let k = c.rng.below(3);
        c.check(concat!("BigInt forms of ", $n), sh, $e, || match k { 0 => rd(&(x.clone() $op y.clone())), 1 => rd(&(&x $op y.clone())), _ => rd(&(x.clone() $op &y)) });
    }} }
    macro_rules! asg { ($n:literal, $op:tt, $e:expr) => {{
        let own = c.rng.bool();
        c.check(concat!("BigInt ", $n), sh, $e, || { let mut z = x.clone(); if own { z $op y.clone(); } else { z $op &y; } rd(&z) });
    }} }
    four!("add", +, Is(ok(a.add(&b))));
    four!("sub", -, Is(ok(a.sub(&b))));
    four!("mul", *, Is(ok(a.mul(&b))));
    asg!("add_assign", +=, Is(ok(a.add(&b))));
    asg!("sub_assign", -=, Is(ok(a.sub(&b))));
    asg!("mul_assign", *=, Is(ok(a.mul(&b))));
    let z = b.is_zero();
    let (q, r) = if z { Default::default() } else { a.divrem(&b) };
    macro_rules! d { ($v:expr) => { if z { Panics } else { Is(ok($v.clone())) } } }
    four!("div", /, d!(q));
    four!("rem", %, d!(r));
    asg!("div_assign", /=, d!(q));
    asg!("rem_assign", %=, d!(r));
    c.check("BigInt neg", sh, Is((ok(a.neg()), ok(a.neg()))), || (rd(&-x.clone()), rd(&-&x)));
    c.check("BigInt abs", sh, Is(ok(a.abs())), || rd(&x.clone().abs()));
    c.check("BigInt sign", sh, Is((!a.neg, a.neg, a.is_zero(), a == Int::from(1))), || (x.is_positive(), x.is_negative(), x.is_zero(), x.is_one()));
    c.check("BigInt identities", sh, Is((ok(Int::from(0)), ok(Int::from(1)), ok(Int::from(0)))), || (rd(&BigInt::zero()), rd(&BigInt::one()), rd(&BigInt::default())));
    c.check("BigInt operands unchanged", sh, Is((ok(a.clone()), ok(b.clone()), ok(a.clone()))), || (rd(&x), rd(&y), rd(&x.clone())));
}
pub fn p12(c: &mut Ctx) {
    let e: Vec<Int> = { let mut v = vec![]; for k in [0usize, 1, 61, 62, 63, 64, 127, 128] { for d in -1..=1i128 { let m = Int::nat(Nat::pow2(k)).add(&Int::from(d)); v.push(m.clone()); v.push(m.neg()); } } v };
    for a in &e { for b in &e { arith(c, a.clone(), b.clone()); } }
    c.spend(1, 400, |c| {
        let (a, b) = gen_ipair(c);
        arith(c, a.clone(), b.clone());
        // operands whose quotient or product has a known carry pattern
        let p = a.mul(&b);
        arith(c, p, b);
        let x = mk(&a);
        prim_ops!(c, a, x, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        // a history of operations with values kept alive, so that stored values are shared and reused
        if c.rng.below(4) == 0 {
            let mut live: Vec<(Int, BigInt)> = vec![];
            for _ in 0..24 {
                match c.rng.below(5) {
                    0 if live.len() > 3 => { let i = c.rng.below(live.len()); live.swap_remove(i); }
                    1 if !live.is_empty() => { let i = c.rng.below(live.len()); let d = (live[i].0.clone(), live[i].1.clone()); live.push(d); }
                    2 if live.len() > 1 => {
                        let (i, j) = (c.rng.below(live.len()), c.rng.below(live.len()));
                        let n = (live[i].0.sub(&live[j].0), &live[i].1 - &live[j].1);
                        live.push(n);
                    }
                    3 if !live.is_empty() => { let i = c.rng.below(live.len()); let n = (live[i].0.neg(), -live[i].1.clone()); live.push(n); }
                    _ => { let v = gen_int(c); let b = mk(&v); live.push((v, b)); }
                }
                let want: Vec<_> = live.iter().map(|l| ok(l.0.clone())).collect();
                c.check("BigInt history", || format!("live values {:?}", live.iter().map(|l| &l.0).collect::<Vec<_>>()), Is(want), || live.iter().map(|l| rd(&l.1)).collect::<Vec<_>>());
            }
        }
    });
}
macro_rules! conv13 { ($c:expr, $a:expr, $x:expr, $($t:ident, $s:expr);*) => {$({
    let tb = <$t>::BITS as usize;
    let sh = || format!("BigInt {:?} <-> {}", $a, stringify!($t));
    let fits = $a.fits($s, tb);
    let tr = $a.wrap(tb).to_u128().unwrap() as $t;
    $c.check("TryFrom<BigInt>", sh, Is(if fits { Some(tr) } else { None }), || <$t>::try_from($x.clone()).ok());
    $c.check("TryFrom<&BigInt>", sh, Is(if fits { Some(tr) } else { None }), || <$t>::try_from(&$x).ok());
    $c.check("BigInt from_checked", sh, Is(if fits { Some(tr) } else { None }), || <$t>::from_checked($x.clone()));
    $c.check("BigInt saturate", sh, Is(if fits { tr } else if $a.neg { <$t>::MIN } else { <$t>::MAX }), || <$t>::saturate_from($x.clone()));
    $c.check("BigInt truncate", sh, Is(tr), || <$t>::truncate_from($x.clone()));
    let v = if $c.rng.bool() { tr } else { prim_edge!($c, $t) };
    let b = prim_int!(v, $t);
    let o = $a.cmp(&b);
    let sh = || format!("BigInt {:?} vs {} {:?}", $a, stringify!($t), b);
    $c.check("From prim", sh, Is(ok(b.clone())), || rd(&BigInt::from(v)));
    $c.check("BigInt eq prim", sh, Is(o == Ordering::Equal), || $x == v);
    $c.check("BigInt cmp prim", sh, Is((Some(o), o == Ordering::Less, o == Ordering::Greater, o != Ordering::Greater)), || ($x.partial_cmp(&v), $x < v, $x > v, $x <= v));
})*} }
pub fn p13(c: &mut Ctx) {
    c.spend(1, 600, |c| {
        let (a, b) = gen_ipair(c);
        let (x, y) = (chk_mk(c, &a), chk_mk(c, &b));
        let sh = || format!("BigInt left={:?} right={:?}", a, b);
        let o = a.cmp(&b);
        c.check("BigInt cmp", sh, Is((o, Some(o), o == Ordering::Equal, o == Ordering::Less, o != Ordering::Less)), || (x.cmp(&y), x.partial_cmp(&y), x == y, x < y, x >= y));
        let again = mk(&a);
        c.check("BigInt eq of equal values", sh, Is((true, Ordering::Equal, true)), || (x == again, x.cmp(&again), x == x.clone()));
        conv13!(c, a, x, u8, false; u16, false; u32, false; u64, false; u128, false; usize, false; i8, true; i16, true; i32, true; i64, true; i128, true; isize, true);
    });
}
fn rdx(b: &Result<BigInt, ()>) -> Option<(Int, bool)> { b.as_ref().ok().map(rd) }
pub fn p14(c: &mut Ctx) {
    // every character against every radix
    for r in (0..=40u32).chain([62, 64, 100, 256, 1 << 16, u32::MAX]) { for ch in (0u32..300).chain([0x660, 0xff11, 0x1D7D8, 0x212A, 0x130]) {
        let Some(ch) = char::from_u32(ch) else { continue };
        if ch == '-' { continue }
        let lower = ch.to_ascii_lowercase();
        let d = match lower { '0'..='9' => Some(lower as u32 - '0' as u32), 'a'..='z' => Some(lower as u32 - 'a' as u32 + 10), _ => None };
        let want = d.filter(|d| *d < r && r <= 36).map(|d| ok(Int::from(d as i128)));
        c.check("parse one digit", || format!("{:?} radix {}", ch, r), Is(want), || rdx(&BigInt::from_str_radix(&ch.to_string(), r).map_err(|_| ())));
    } }
    for k in 0..=300u128 { for n in [k, u128::MAX - k] {
        c.check("U display", || format!("U<16> {}", n), Is((n.to_string(), n.to_string())), || (format!("{}", U::from_u128(n)), format!("{:?}", U::from_u128(n))));
    } }
    for k in 0..=255u8 { c.check("U display", || format!("U<1> {}", k), Is((k.to_string(), k.to_string())), || (format!("{}", U::from_u8(k)), format!("{:?}", U::from_u8(k)))); }
    c.spend(1, 200, |c| {
        let a = gen_int(c);
        let x = chk_mk(c, &a);
        let sh = || format!("BigInt {:?}", a);
        let sg = if a.neg { "-" } else { "" };
        c.check("BigInt display", sh, Is((a.to_str(10, false), a.to_str(10, false))), || (format!("{}", x), format!("{:?}", x)));
        c.check("BigInt hex", sh, Is((format!("{}0x{}", sg, a.mag.to_str(16, false)), format!("{}0x{}", sg, a.mag.to_str(16, true)))), || (format!("{:x}", x), format!("{:X}", x)));
        let bits = 64 * ((a.mag.bits() + 63) / 64).max(1);
        let mut bs = a.mag.to_str(2, false);
        while bs.len() < bits { bs.insert(0, '0'); }
        c.check("BigInt binary", sh, Is(format!("{}0b{}", sg, bs)), || format!("{:b}", x));
        let r = 2 + c.rng.below(35) as u32;
        let up = c.rng.bool();
        let mut s = a.to_str(r, up);
        if c.rng.below(3) == 0 { s = if a.neg { format!("-00{}", &s[1..]) } else { format!("000{}", s) }; }
        c.check("BigInt parse", || format!("{:?} radix {}", s, r), Is(Some(ok(a.clone()))), || rdx(&BigInt::from_str_radix(&s, r).map_err(|_| ())));
        // one bad character anywhere
        let mut t: Vec<char> = s.chars().collect();
        let p = c.rng.below(t.len()).max(a.neg as usize);
        if p < t.len() {
            t[p] = *c.rng.pick(&['+', ' ', '_', '.', '/', ':', '@', '[', '`', '{', 'é', '-']);
            if !(p == 0 && t[p] == '-') {
                let t: String = t.into_iter().collect();
                c.check("BigInt parse rejects", || format!("{:?} radix {}", t, r), Is(None), || rdx(&BigInt::from_str_radix(&t, r).map_err(|_| ())));
            }
        }
        c.check("BigInt round trip", sh, Is(Some(ok(a.clone()))), || rdx(&BigInt::from_str_radix(&format!("{}", x), 10).map_err(|_| ())));
        fn one<const N: usize>(c: &mut Ctx) {
            let a = gen_u::<N>(c);
            let x = ub::<N>(&a);
            c.check("U display", || format!("U<{}> {:?}", N, a), Is((a.to_str(10, false), a.to_str(10, false))), || (format!("{}", x), format!("{:?}", x)));
        }
        per_n!(c, one);
    });
}
macro_rules! shprim { ($c:expr, $a:expr, $x:expr, $k:expr, $($t:ident)*) => {$({
    let v = $k as $t;
    let sh = || format!("BigInt {:?} shifted by {} {}", $a, stringify!($t), v);
    $c.check("BigInt << prim", sh, Is(ok(Int::new($a.neg, $a.mag.shl($k)))), || rd(&($x.clone() << v)));
    if !$a.neg { $c.check("BigInt >> prim", sh, Is(ok(Int::nat($a.mag.shr($k)))), || rd(&($x.clone() >> v))); }
})*} }
pub fn p15(c: &mut Ctx) {
    c.spend(1, 400, |c| {
        let a = gen_int(c);
        let b = gen_int(c);
        let (x, y) = (chk_mk(c, &a), chk_mk(c, &b));
        let k = match c.rng.below(5) { 0 => 64 * c.rng.below(6), 1 => 62 + c.rng.below(4), 2 => a.mag.bits() + c.rng.below(3), 3 => c.rng.below(330), _ => if c.rng.below(8) == 0 { c.rng.below(2000) } else { c.rng.below(130) } };
        let kb = BigInt::from(k);
        let sh = || format!("BigInt {:?} shifted by {}", a, k);
        c.check("BigInt shl", sh, Is(ok(Int::new(a.neg, a.mag.shl(k)))), || rd(&(&x << &kb)));
        c.check("BigInt shl forms", sh, Is([(); 3].map(|_| ok(Int::new(a.neg, a.mag.shl(k))))), || [rd(&(x.clone() << kb.clone())), rd(&(x.clone() << &kb)), rd(&(&x << kb.clone()))]);
        if !a.neg {
            c.check("BigInt shr", sh, Is(ok(Int::nat(a.mag.shr(k)))), || rd(&(&x >> &kb)));
            c.check("BigInt shr forms", sh, Is([(); 3].map(|_| ok(Int::nat(a.mag.shr(k))))), || [rd(&(x.clone() >> kb.clone())), rd(&(x.clone() >> &kb)), rd(&(&x >> kb.clone()))]);
        }
        if !a.neg {
            let far = match c.rng.below(3) { 0 => usize::MAX - c.rng.below(200), 1 => (1usize << 32) + c.rng.below(200), _ => 1usize << (12 + c.rng.below(52)) };
            c.check("BigInt shr far", || format!("BigInt {:?} shifted by {}", a, far), Is((ok(Int::nat(a.mag.shr(far.min(1 << 20)))), ok(Int::nat(a.mag.shr(far.min(1 << 20)))))), || (rd(&(&x >> &BigInt::from(far))), rd(&(x.clone() >> far))));
        }
        let k8 = k % 128;
        shprim!(c, a, x, k8, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        if !b.is_zero() && b.neg {
            c.check("BigInt shift by negative", || format!("{:?} by {:?}", a, b), Panics, || (rd(&(&x << &y)), 0));
        }
        if !a.neg && !b.neg {
            let sh = || format!("BigInt left={:?} right={:?}", a, b);
            c.check("BigInt and", sh, Is(ok(Int::nat(a.mag.and(&b.mag)))), || rd(&(&x & &y)));
            c.check("BigInt or", sh, Is(ok(Int::nat(a.mag.or(&b.mag)))), || rd(&(&x | &y)));
            c.check("BigInt xor", sh, Is(ok(Int::nat(a.mag.xor(&b.mag)))), || rd(&(&x ^ &y)));
            c.check("BigInt bit forms", sh, Is((ok(Int::nat(a.mag.and(&b.mag))), ok(Int::nat(a.mag.or(&b.mag))), ok(Int::nat(a.mag.xor(&b.mag))))), || (rd(&(x.clone() & y.clone())), rd(&(x.clone() | &y)), rd(&(&x ^ y.clone()))));
        }
        let e = if a.mag.bits() < 9 { c.rng.below(80) } else if a.mag.bits() < 70 { c.rng.below(20) } else { c.rng.below(9) };
        let mut p = Int::from(1);
        for _ in 0..e { p = p.mul(&a); }
        c.check("BigInt pow", || format!("BigInt {:?} ^ {}", a, e), Is(ok(p)), || rd(&x.clone().pow(BigInt::from(e))));
    });
}
