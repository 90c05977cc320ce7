use core::cmp::Ordering;
use native::*;
use numeric_bits::algos::*;
use numeric_bits::bit_slice::*;
use numeric_bits::utils::*;
use std::fmt::Debug;

trait Limb: BitLike + Debug + 'static {
    const B: usize;
    fn of(v: u128) -> Self;
    fn to(self) -> u128;
}
macro_rules! limb { ($($t:ty)*) => {$(impl Limb for $t {
    const B: usize = <$t>::BITS as usize;
    fn of(v: u128) -> Self { v as $t }
    fn to(self) -> u128 { self as u128 }
})*} }
limb!(u8 u16 u32 u64 u128 usize);

fn num<L: Limb>(s: &[L]) -> Nat { Nat::from_digits(L::B, s.iter().map(|x| x.to())) }
fn canon<L: Limb>(s: &[L]) -> bool { s.len() <= 1 || s[s.len() - 1].to() != 0 }
fn gen<L: Limb>(c: &mut Ctx, len: usize) -> Vec<L> {
    let mode = c.rng.below(6);
    (0..len).map(|_| L::of(match mode {
        0 => c.rng.u128(),
        1 => *c.rng.pick(&[0, u128::MAX]),
        _ => c.rng.edge(L::B),
    })).collect()
}
fn any<L: Limb>(c: &mut Ctx) -> Vec<L> {
    let n = match c.rng.below(10) { 0 => 0, 1 | 2 => 1, 3 | 4 => 2, 5 | 6 => 3, 7 => 4, 8 => 5, _ => match c.rng.below(4) { 0 => 1 + c.rng.below((640 / L::B).max(9)), _ => 1 + c.rng.below(8) } };
    let mut v: Vec<L> = gen(c, n);
    if n > 1 && c.rng.below(4) == 0 { let k = 1 + c.rng.below(n - 1); for x in &mut v[n - k..] { *x = L::of(0) } }
    v
}
/// A pair of operands, sometimes related to each other
fn pair<L: Limb>(c: &mut Ctx) -> (Vec<L>, Vec<L>) {
    let a: Vec<L> = any(c);
    let mut b: Vec<L> = any(c);
    match c.rng.below(8) {
        0 => b = a.clone(),
        1 => { b = a.clone(); if !b.is_empty() { let i = c.rng.below(b.len()); b[i] = L::of(b[i].to().wrapping_add(1)); } }
        2 => { b = a.iter().map(|x| L::of(!x.to())).collect(); }
        3 => { b = a.iter().map(|x| L::of(!x.to())).collect(); if !b.is_empty() { b[0] = L::of(b[0].to().wrapping_add(1)); } }
        _ => {}
    }
    (a, b)
}
fn show<L: Limb>(a: &[L], b: &[L]) -> String { format!("limb=u{} left={:x?} right={:x?}", L::B, a, b) }

macro_rules! per_limb { ($c:expr, $f:ident) => {{
    let c: &mut Ctx = &mut *$c;
    $f::<u8>(c); $f::<u16>(c); $f::<u32>(c); $f::<u64>(c); $f::<u128>(c); $f::<usize>(c);
}} }
fn small(c: &mut Ctx, mut f: impl FnMut(&mut Ctx, Vec<u8>, Vec<u8>)) {
    // every pair of one-byte operands, and a grid of two-byte ones
    for x in 0..=255u8 { for y in 0..=255u8 { f(c, vec![x], vec![y]); } }
    let g = [0u8, 1, 2, 127, 128, 254, 255];
    for a in g { for b in g { for x in g { for y in g {
        f(c, vec![a, b], vec![x, y]);
        f(c, vec![a, b], vec![x]);
        f(c, vec![a], vec![x, y]);
    } } } }
}

fn add1<L: Limb>(c: &mut Ctx, a: Vec<L>, b: Vec<L>) {
    let (na, nb) = (num(&a), num(&b));
    let s = na.add(&nb);
    let bl = a.len() * L::B;
    let wrapped = s.low(bl);
    let ovf = s.bits() > bl;
    let sh = || show(&a, &b);
    c.check("element add", sh, Is((s.clone(), true)), || { let r = ElementAdd::add(&a[..], &b[..]); (num(&r), canon(&r)) });
    c.check("element add_overflowing", sh, Is((wrapped.clone(), ovf, wrapped.clone(), a.len())), || {
        let mut l = a.clone();
        let (n, f) = { let (r, f) = ElementAdd::add_overflowing(&mut l[..], &b[..]); (num(r), f) };
        (n, f, num(&l), l.len())
    });
    c.check("element add_checked", sh, Is(if ovf { None } else { Some(s.clone()) }), || { let mut l = a.clone(); ElementAdd::add_checked(&mut l[..], &b[..]).map(|r| num(r)) });
    c.check("element add_wrapping", sh, Is(wrapped.clone()), || { let mut l = a.clone(); num(ElementAdd::add_wrapping(&mut l, &b)) });
    c.check("bitwise add", sh, Is(s.clone()), || num(&BitwiseAdd::add(&a[..], &b[..])));
    c.check("bitwise add_in_place", sh, Is((wrapped.clone(), wrapped.clone())), || { let mut l = a.clone(); let x = num(BitwiseAdd::add_in_place(&mut l, &b)); (x, num(&l)) });
}
pub fn p01(c: &mut Ctx) {
    small(c, |c, a, b| add1(c, a, b));
    c.spend(1, 4000, |c| { fn one<L: Limb>(c: &mut Ctx) { let (a, b) = pair::<L>(c); add1(c, a, b); } per_limb!(c, one) });
}

fn sub1<L: Limb>(c: &mut Ctx, a: Vec<L>, b: Vec<L>) {
    let (na, nb) = (num(&a), num(&b));
    let lt = na < nb;
    let mag = if lt { nb.sub(&na) } else { na.sub(&nb) };
    let bl = a.len() * L::B;
    let wrapped = Int::nat(na).sub(&Int::nat(nb)).wrap(bl);
    let sh = || show(&a, &b);
    c.check("element sub", sh, Is((mag.clone(), lt, true)), || { let (r, f) = ElementSub::sub(&a[..], &b[..]); (num(&r), f, canon(&r)) });
    c.check("element sub_overflowing", sh, Is((wrapped.clone(), lt, wrapped.clone())), || {
        let mut l = a.clone();
        let (n, f) = { let (r, f) = ElementSub::sub_overflowing(&mut l[..], &b[..]); (num(r), f) };
        (n, f, num(&l))
    });
    c.check("element sub_checked", sh, Is(if lt { None } else { Some(mag.clone()) }), || { let mut l = a.clone(); ElementSub::sub_checked(&mut l[..], &b[..]).map(|r| num(r)) });
    c.check("element sub_wrapping", sh, Is(wrapped.clone()), || { let mut l = a.clone(); num(ElementSub::sub_wrapping(&mut l, &b)) });
    c.check("bitwise sub", sh, Is((mag.clone(), lt)), || { let (r, f) = BitwiseSub::sub(&a[..], &b[..]); (num(&r), f) });
}
pub fn p02(c: &mut Ctx) {
    small(c, |c, a, b| sub1(c, a, b));
    c.spend(1, 4000, |c| { fn one<L: Limb>(c: &mut Ctx) { let (a, b) = pair::<L>(c); sub1(c, a, b); } per_limb!(c, one) });
}

fn mul1<L: Limb>(c: &mut Ctx, a: Vec<L>, b: Vec<L>, heavy: bool) {
    let (na, nb) = (num(&a), num(&b));
    let p = na.mul(&nb);
    let bl = a.len() * L::B;
    let wrapped = p.low(bl);
    let ovf = p.bits() > bl;
    let sh = || show(&a, &b);
    c.check("element mul", sh, Is((p.clone(), true)), || { let r = ElementMul::mul(&a[..], &b[..]); (num(&r), canon(&r)) });
    c.check("element mul_overflowing", sh, Is((wrapped.clone(), ovf, wrapped.clone())), || {
        let mut l = a.clone();
        let (n, f) = { let (r, f) = ElementMul::mul_overflowing(&mut l[..], &b); (num(r), f) };
        (n, f, num(&l))
    });
    c.check("element mul_checked", sh, Is(if ovf { None } else { Some(p.clone()) }), || { let mut l = a.clone(); ElementMul::mul_checked(&mut l[..], &b).map(|r| num(r)) });
    c.check("element mul_wrapping", sh, Is(wrapped.clone()), || { let mut l = a.clone(); num(ElementMul::mul_wrapping(&mut l, &b)) });
    if heavy {
        c.check("bitwise mul", sh, Is(p.clone()), || num(&BitwiseMul::mul(&a[..], &b)));
    }
    for i in 0..=a.len() + 1 {
        let v = L::of(b.first().map_or(1, |x| x.to()));
        let s = na.add(&Nat::from(v.to()).shl(i * L::B));
        c.check("add_item", || format!("limb=u{} left={:x?} idx={} val={:x?}", L::B, a, i, v), Is((s.low(bl), s.bits() > bl)), || { let mut l = a.clone(); let f = ElementMul::add_item(&mut l[..], i, v); (num(&l), f) });
    }
}
pub fn p03(c: &mut Ctx) {
    small(c, |c, a, b| { let h = a[0] % 7 == 0; mul1(c, a, b, h) });
    c.spend(1, 3000, |c| { fn one<L: Limb>(c: &mut Ctx) { let (a, b) = pair::<L>(c); let h = c.rng.below(4) == 0; mul1(c, a, b, h); } per_limb!(c, one) });
}

fn div1<L: Limb>(c: &mut Ctx, a: Vec<L>, b: Vec<L>, heavy: bool) {
    let (na, nb) = (num(&a), num(&b));
    let z = nb.is_zero();
    let (q, r) = if z { Default::default() } else { na.divrem(&nb) };
    let sh = || show(&a, &b);
    macro_rules! ex { ($e:expr) => { if z { Panics } else { Is($e) } } }
    macro_rules! opt { ($e:expr) => { if z { Is(None) } else { Is(Some($e)) } } }
    c.check("bitwise div_long", sh, ex!((q.clone(), r.clone())), || { let (x, y) = BitwiseDiv::div_long(&a[..], &b[..]); (num(&x), num(&y)) });
    if heavy && (z || q.bits() < 14 || L::B == 8) {
        c.check("element div_long", sh, ex!((q.clone(), r.clone(), true)), || { let (x, y) = ElementDiv::div_long(&a[..], &b[..]); (num(&x), num(&y), canon(&x) && canon(&y)) });
    }
    if !a.is_empty() {
        let sc = || vec![L::of(0); a.len()];
        c.check("bitwise div_long_overflowing", sh, ex!((q.clone(), false, r.clone())), || {
            let mut l = a.clone(); let mut s = sc();
            let f = BitwiseDiv::div_long_overflowing(&mut l[..], &b[..], &mut s).1; (num(&l), f, num(&s))
        });
        c.check("bitwise div_long_checked", sh, opt!(q.clone()), || { let mut l = a.clone(); let mut s = sc(); BitwiseDiv::div_long_checked(&mut l[..], &b[..], &mut s).map(|x| num(x)) });
        c.check("bitwise div_long_wrapping", sh, ex!(q.clone()), || { let mut l = a.clone(); let mut s = vec![L::of(0); a.len() + 1]; num(BitwiseDiv::div_long_wrapping(&mut l, &b[..], &mut s)) });
        c.check("bitwise rem_long_overflowing", sh, ex!((r.clone(), false)), || {
            let mut l = a.clone(); let mut s = sc();
            let f = BitwiseDiv::rem_long_overflowing(&mut l[..], &b[..], &mut s).1; (num(&l), f)
        });
        c.check("bitwise rem_long_checked", sh, opt!(r.clone()), || { let mut l = a.clone(); let mut s = sc(); BitwiseDiv::rem_long_checked(&mut l[..], &b[..], &mut s).map(|x| num(x)) });
        c.check("bitwise rem_long_wrapping", sh, ex!(r.clone()), || { let mut l = a.clone(); let mut s = sc(); num(BitwiseDiv::rem_long_wrapping(&mut l, &b[..], &mut s)) });
    }
}
pub fn p04(c: &mut Ctx) {
    small(c, |c, a, b| { let h = a[0] % 5 == 0 || a.len() == 2; div1(c, a, b, h) });
    c.spend(1, 600, |c| {
        fn one<L: Limb>(c: &mut Ctx) {
            let (mut a, mut b) = pair::<L>(c);
            match c.rng.below(4) {
                0 => { // a quotient of known small size
                    let k = L::of(c.rng.below(9) as u128);
                    let n = num(&b).mul(&Nat::from(k.to()));
                    let n = if c.rng.bool() { n.add(&Nat::from(c.rng.below(3) as u128)) } else { n };
                    let len = (n.bits() + L::B - 1) / L::B + c.rng.below(2);
                    a = (0..len).map(|i| L::of(n.digit(L::B, i))).collect();
                }
                1 => { b = vec![L::of(c.rng.edge(L::B).max(1))]; }
                _ => {}
            }
            let h = num(&a).bits() < num(&b).bits() + 12;
            div1(c, a, b, h);
        }
        per_limb!(c, one)
    });
}

fn shift1<L: Limb>(c: &mut Ctx, a: Vec<L>, k: usize) {
    let n = num(&a);
    let bl = a.len() * L::B;
    let sh = || format!("limb=u{} value={:x?} amount={}", L::B, a, k);
    c.check("element shl", sh, Is((n.shl(k), true)), || { let r = ElementShl::shl(&a[..], k); (num(&r), canon(&r)) });
    c.check("bitwise shl", sh, Is(n.shl(k)), || num(&BitwiseShl::shl(&a[..], k)));
    c.check("element shr", sh, Is((n.shr(k), true)), || { let r = ElementShr::shr(&a[..], k); (num(&r), canon(&r)) });
    c.check("bitwise shr", sh, Is(n.shr(k)), || num(&BitwiseShr::shr(&a[..], k)));
    let w = k % bl.max(1);
    c.check("shl_checked", sh, Is(if k > bl { None } else { Some(n.shl(k).low(bl)) }), || { let mut l = a.clone(); ElementShl::shl_checked(&mut l[..], k).map(|x| num(x)) });
    c.check("shr_checked", sh, Is(if k > bl { None } else { Some(n.shr(k)) }), || { let mut l = a.clone(); ElementShr::shr_checked(&mut l[..], k).map(|x| num(x)) });
    c.check("shl_wrapping", sh, Is((n.shl(w).low(bl), a.len())), || { let mut l = a.clone(); ElementShl::shl_wrapping(&mut l, k); (num(&l), l.len()) });
    c.check("shr_wrapping", sh, Is((n.shr(w), a.len())), || { let mut l = a.clone(); ElementShr::shr_wrapping(&mut l, k); (num(&l), l.len()) });
}
/// amounts far beyond any slice (the growing left shift would need that much memory)
fn far1<L: Limb>(c: &mut Ctx, a: Vec<L>) {
    let n = num(&a);
    let bl = a.len() * L::B;
    let k = match c.rng.below(6) { 0 => usize::MAX, 1 => usize::MAX - c.rng.below(300), 2 => (1usize << c.rng.below(64)).wrapping_add(c.rng.below(200)), 3 => (1usize << 32) + c.rng.below(2 * bl + 2), 4 => (c.rng.next() as usize) | (1 << 40), _ => usize::MAX / 2 + c.rng.below(200) };
    let sh = || format!("limb=u{} value={:x?} amount={}", L::B, a, k);
    let w = k % bl.max(1);
    let out = if k > bl { Nat::zero() } else { n.shr(k) };
    c.check("element shr far", sh, Is((out.clone(), true)), || { let r = ElementShr::shr(&a[..], k); (num(&r), canon(&r)) });
    c.check("shl_checked far", sh, Is(if k > bl { None } else { Some(n.shl(k).low(bl)) }), || { let mut l = a.clone(); ElementShl::shl_checked(&mut l[..], k).map(|x| num(x)) });
    c.check("shr_checked far", sh, Is(if k > bl { None } else { Some(n.shr(k)) }), || { let mut l = a.clone(); ElementShr::shr_checked(&mut l[..], k).map(|x| num(x)) });
    c.check("shl_wrapping far", sh, Is((n.shl(w).low(bl), a.len())), || { let mut l = a.clone(); ElementShl::shl_wrapping(&mut l, k); (num(&l), l.len()) });
    c.check("shr_wrapping far", sh, Is((n.shr(w), a.len())), || { let mut l = a.clone(); ElementShr::shr_wrapping(&mut l, k); (num(&l), l.len()) });
}
pub fn p05(c: &mut Ctx) {
    for x in 0..=255u8 { for k in 0..=20 { shift1(c, vec![x], k); shift1(c, vec![x, x ^ 0x5a], k); } }
    c.spend(1, 3000, |c| {
        fn one<L: Limb>(c: &mut Ctx) {
            let a = any::<L>(c);
            let bl = a.len() * L::B;
            let k = match c.rng.below(6) { 0 => L::B * c.rng.below(a.len() + 3), 1 => c.rng.below(3), 2 => bl, 3 => (bl + c.rng.below(3)).saturating_sub(1), _ => c.rng.below(bl + L::B + 3) };
            if c.rng.below(4) == 0 { far1(c, a.clone()) }
            shift1(c, a, k);
        }
        per_limb!(c, one)
    });
}

fn acc1<L: Limb>(c: &mut Ctx, a: Vec<L>, b: Vec<L>) {
    let (na, nb) = (num(&a), num(&b));
    let sh = || show(&a, &b);
    c.check("element cmp", sh, Is(na.cmp(&nb)), || ElementCmp::cmp(&a[..], &b[..]));
    let m = a.len().max(b.len());
    c.check("bitand", sh, Is((na.and(&nb), m)), || { let r = ElementBitand::bitand(&a[..], &b[..]); (num(&r), r.len()) });
    c.check("bitor", sh, Is((na.or(&nb), m)), || { let r = ElementBitor::bitor(&a[..], &b[..]); (num(&r), r.len()) });
    c.check("bitxor", sh, Is((na.xor(&nb), m)), || { let r = ElementBitxor::bitxor(&a[..], &b[..]); (num(&r), r.len()) });
    let bl = a.len() * L::B;
    c.check("not", sh, Is(na.not(bl)), || { let mut l = a.clone(); ElementNot::not(&mut l[..]); num(&l) });
    c.check("lengths", sh, Is((a.len(), bl, a.is_empty(), a.clone())), || (BitSliceExt::len(&a[..]), a.bit_len(), BitSliceExt::is_empty(&a[..]), a.slice().to_vec()));
    let bits: Vec<bool> = (0..bl).map(|i| na.bit(i)).collect();
    c.check("iter_bits", sh, Is((bits.clone(), bl, None, None)), || {
        let mut it = a.iter_bits();
        let n = it.len();
        let v: Vec<bool> = it.by_ref().collect();
        (v, n, it.next(), it.next())
    });
    let cut = if bl == 0 { 0 } else { c.rng.below(bl + 1) };
    c.check("iter_bits size", || format!("{} after {} steps", show(&a, &[]), cut), Is((bl - cut, (bl - cut, Some(bl - cut)))), || {
        let mut it = a.iter_bits();
        for _ in 0..cut { it.next(); }
        (it.len(), it.size_hint())
    });
    let v = L::of(c.rng.edge(L::B));
    for i in 0..a.len() + 2 {
        let inb = i < a.len();
        let sh = || format!("limb=u{} value={:x?} idx={} new={:x?}", L::B, a, i, v);
        let mut upd = a.clone();
        if inb { upd[i] = v; }
        c.check("get_opt", sh, Is(a[..].iter().copied().nth(i)), || BitSliceExt::get_opt(&a[..], i));
        c.check("get", sh, if inb { Is(a[i]) } else { Panics }, || BitSliceExt::get(&a[..], i));
        c.check("set", sh, if inb { Is(upd.clone()) } else { Panics }, || { let mut l = a.clone(); BitSliceExt::set(&mut l[..], i, v); l });
        c.check("set_opt", sh, Is((inb, upd.clone())), || { let mut l = a.clone(); let f = BitSliceExt::set_opt(&mut l[..], i, v).is_some(); (f, l) });
        c.check("set_ignore", sh, Is(upd.clone()), || { let mut l = a.clone(); l.set_ignore(i, v); l });
    }
    let i = match c.rng.below(4) { 0 => usize::MAX, 1 => usize::MAX - c.rng.below(9), 2 => (1usize << 32) + c.rng.below(a.len() + 1), _ => (1usize << (40 + c.rng.below(24))) | c.rng.below(8) };
    let sh2 = || format!("limb=u{} value={:x?} far index={}", L::B, a, i);
    c.check("access far outside", sh2, Is((None, None, None, None, a.clone())), || { let mut l = a.clone(); l.set_ignore(i, v); l.set_bit_ignore(i, true); (BitSliceExt::get_opt(&a[..], i), a.get_bit_opt(i), BitSliceExt::set_opt(&mut l[..], i, v), l.set_bit_opt(i, true), l) });
    c.check("get far outside", sh2, Panics, || BitSliceExt::get(&a[..], i));
    c.check("get_bit far outside", sh2, Panics, || a.get_bit(i));
    for _ in 0..6 {
        let i = match c.rng.below(5) { 0 => bl, 1 => bl.saturating_sub(1), 2 => bl + c.rng.below(70), _ => c.rng.below(bl + 1) };
        let val = c.rng.bool();
        let inb = i < bl;
        let sh = || format!("limb=u{} value={:x?} bit={} new={}", L::B, a, i, val);
        let p = Nat::pow2(i);
        let upd = if !inb || na.bit(i) == val { na.clone() } else if val { na.add(&p) } else { na.sub(&p) };
        c.check("get_bit_opt", sh, Is(if inb { Some(na.bit(i)) } else { None }), || a.get_bit_opt(i));
        c.check("get_bit", sh, if inb { Is(na.bit(i)) } else { Panics }, || a.get_bit(i));
        c.check("set_bit", sh, if inb { Is(upd.clone()) } else { Panics }, || { let mut l = a.clone(); l.set_bit(i, val); num(&l) });
        c.check("set_bit_opt", sh, Is((inb, upd.clone(), a.len())), || { let mut l = a.clone(); let f = l.set_bit_opt(i, val).is_some(); (f, num(&l), l.len()) });
        c.check("set_bit_ignore", sh, Is((upd.clone(), a.len())), || { let mut l = a.clone(); l.set_bit_ignore(i, val); (num(&l), l.len()) });
    }
}
pub fn p06(c: &mut Ctx) {
    small(c, |c, a, b| {
        let (na, nb) = (num(&a), num(&b));
        c.check("element cmp", || show(&a, &b), Is(na.cmp(&nb)), || ElementCmp::cmp(&a[..], &b[..]));
        if a[0] % 16 == 1 { acc1(c, a, b) }
    });
    c.spend(1, 2000, |c| { fn one<L: Limb>(c: &mut Ctx) { let (a, b) = pair::<L>(c); acc1(c, a, b); } per_limb!(c, one) });
    let _ = Ordering::Less;
}

fn norm1<L: Limb>(c: &mut Ctx, a: Vec<L>) {
    let mut want = a.clone();
    while want.len() > 1 && want[want.len() - 1].to() == 0 { want.pop(); }
    let sh = || show(&a, &[]);
    c.check("shrink vec", sh, Is(want.clone()), || IntSlice::shrink(a.clone()));
    c.check("shrink slice", sh, Is(want.clone()), || IntSlice::shrink(&a[..]).to_vec());
    let v = L::of(c.rng.edge(L::B));
    let n = c.rng.below(a.len() + 4);
    let sh = || format!("limb=u{} value={:x?} n={} v={:x?}", L::B, a, n, v);
    let mut ext = a.clone();
    while ext.len() < n { ext.push(v); }
    c.check("extend", sh, Is(ext), || { let mut l = a.clone(); BitVecExt::extend(&mut l, n, v); l });
    let mut sp = a.clone();
    while sp.len() < n + 1 { sp.push(L::of(0)); }
    sp[n] = v;
    c.check("set_push", sh, Is(sp), || { let mut l = a.clone(); l.set_push(n, v); l });
    let bit = c.rng.below(a.len() * L::B + 2 * L::B + 1);
    let val = c.rng.bool();
    let na = num(&a);
    let p = Nat::pow2(bit);
    let upd = if na.bit(bit) == val { na.clone() } else if val { na.add(&p) } else { na.sub(&p) };
    c.check("set_bit_push", || format!("limb=u{} value={:x?} bit={} new={}", L::B, a, bit, val), Is((upd, a.len().max(bit / L::B + 1))), || { let mut l = a.clone(); l.set_bit_push(bit, val); (num(&l), l.len()) });
}
macro_rules! conv { ($c:expr, $($t:ty => $($u:ty, $n:expr);+ ,)*) => {$($(
    {
        let v = $c.rng.edge(<$t>::BITS as usize) as $t;
        let ub = <$u>::BITS as usize;
        let want: Vec<$u> = (0..$n).map(|i| if i * ub >= <$t>::BITS as usize { 0 } else { (v >> (i * ub)) as $u }).collect();
        $c.check("int_to_arr", || format!("{} -> [{}; {}]: {:#x}", stringify!($t), stringify!($u), $n, v), Is(want), || int_to_arr::<$t, $u, $n>(v).to_vec());
    }
)+)*} }
macro_rules! back { ($c:expr, $a:expr, $l:ty, $($u:ty)*) => {$(
    {
        let n = num(&$a);
        let fits = n.bits() <= (<$u>::BITS - (<$u>::MIN != 0) as u32) as usize;
        let want = if fits { Some(n.to_u128().unwrap() as $u) } else { None };
        $c.check("arr_to_int", || format!("[{}] -> {}: {:x?}", stringify!($l), stringify!($u), $a), Is(want), || arr_to_int::<$l, $u>(&$a));
    }
)*} }
macro_rules! backs { ($c:expr, $($l:ty)*) => {$(
    {
        let a: Vec<$l> = if $c.rng.bool() { any($c) } else { let v = $c.rng.edge(128); let k = $c.rng.below(3); let n = (128 / <$l>::BITS) as usize; let mut x: Vec<$l> = (0..n).map(|i| (v >> (i as u32 * <$l>::BITS % 128)) as $l).collect(); let cut = $c.rng.below(n + 1); x.truncate(cut); for _ in 0..k { x.push(0) } x };
        back!($c, a, $l, u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    }
)*} }
fn rev<const N: usize>(c: &mut Ctx) {
    let mut b = [0u8; N];
    for x in &mut b { *x = c.rng.next() as u8; }
    let mut w = b;
    w.reverse();
    c.check("const_reverse", || format!("{:?}", b), Is(w), || const_reverse(b));
}
pub fn p07(c: &mut Ctx) {
    c.spend(1, 3000, |c| {
        fn one<L: Limb>(c: &mut Ctx) { let a = any::<L>(c); norm1(c, a); }
        per_limb!(c, one);
        conv!(c,
            u8 => u8, 1; u8, 3; u16, 1; u32, 2; u64, 1; u128, 1; usize, 1,
            u16 => u8, 2; u8, 4; u16, 1; u32, 1; u64, 2; u128, 1; usize, 1,
            u32 => u8, 4; u8, 5; u16, 2; u16, 3; u32, 1; u64, 1; u128, 1; usize, 1,
            u64 => u8, 8; u8, 9; u16, 4; u32, 2; u32, 3; u64, 1; u64, 2; u128, 1; usize, 1,
            u128 => u8, 16; u8, 20; u16, 8; u32, 4; u64, 2; u64, 3; u128, 1; u128, 2; usize, 2,
            usize => u8, 8; u16, 4; u32, 2; u64, 1; u128, 1; usize, 1; usize, 2,
        );
        backs!(c, u8 u16 u32 u64 u128 usize);
        rev::<0>(c); rev::<1>(c); rev::<2>(c); rev::<3>(c); rev::<4>(c); rev::<5>(c); rev::<8>(c); rev::<17>(c);
    });
}

