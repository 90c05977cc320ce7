//! A small, independent reference implementation of natural and integer arithmetic.
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Nat(pub Vec<u32>);

impl std::fmt::Debug for Nat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "0x{}", self.to_str(16, false))
    }
}
impl PartialOrd for Nat {
    fn partial_cmp(&self, o: &Nat) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for Nat {
    fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| {
            for i in (0..self.0.len()).rev() {
                match self.0[i].cmp(&o.0[i]) { Ordering::Equal => {}, x => return x }
            }
            Ordering::Equal
        })
    }
}

impl Nat {
    fn norm(mut self) -> Nat { while self.0.last() == Some(&0) { self.0.pop(); } self }
    pub fn zero() -> Nat { Nat(vec![]) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn from(v: u128) -> Nat {
        Nat((0..4).map(|i| (v >> (32 * i)) as u32).collect()).norm()
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 { return None; }
        let mut r = 0u128;
        for (i, &w) in self.0.iter().enumerate() { r |= (w as u128) << (32 * i); }
        Some(r)
    }
    pub fn low_u128(&self) -> u128 { self.low(128).to_u128().unwrap() }
    /// From little-endian digits of `bits` bits
    pub fn from_digits(bits: usize, ds: impl Iterator<Item = u128>) -> Nat {
        let mut v: Vec<u32> = vec![];
        if bits >= 32 {
            for d in ds { for k in 0..bits / 32 { v.push((d >> (32 * k)) as u32); } }
        } else {
            let per = 32 / bits;
            for (i, d) in ds.enumerate() {
                if i % per == 0 { v.push(0); }
                *v.last_mut().unwrap() |= (d as u32) << (bits * (i % per));
            }
        }
        Nat(v).norm()
    }
    pub fn digit(&self, bits: usize, i: usize) -> u128 {
        self.shr(bits * i).low(bits).to_u128().unwrap()
    }
    pub fn from_bytes(b: &[u8]) -> Nat { Nat::from_digits(8, b.iter().map(|&x| x as u128)) }
    pub fn to_bytes(&self, n: usize) -> Vec<u8> {
        (0..n).map(|i| self.0.get(i / 4).map_or(0, |w| (w >> (8 * (i % 4))) as u8)).collect()
    }
    pub fn bit(&self, i: usize) -> bool { self.0.get(i / 32).map_or(false, |w| w >> (i % 32) & 1 == 1) }
    pub fn bits(&self) -> usize {
        match self.0.last() { None => 0, Some(w) => 32 * self.0.len() - w.leading_zeros() as usize }
    }
    pub fn pow2(k: usize) -> Nat { Nat::from(1).shl(k) }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len()) + 1;
        let mut v = Vec::with_capacity(n);
        let mut c = 0u64;
        for i in 0..n {
            c += *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64;
            v.push(c as u32);
            c >>= 32;
        }
        Nat(v).norm()
    }
    /// self - o, requires self >= o
    pub fn sub(&self, o: &Nat) -> Nat {
        assert!(*self >= *o);
        let mut v = Vec::with_capacity(self.0.len());
        let mut b = 0i64;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if d < 0 { d += 1 << 32; b = 1; }
            v.push(d as u32);
        }
        Nat(v).norm()
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut v = vec![0u32; self.0.len() + o.0.len()];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u64 * b as u64 + v[i + j] as u64 + c;
                v[i + j] = t as u32;
                c = t >> 32;
            }
            v[i + o.0.len()] = c as u32;
        }
        Nat(v).norm()
    }
    pub fn shl(&self, k: usize) -> Nat {
        if self.is_zero() { return Nat::zero(); }
        let (w, b) = (k / 32, k % 32);
        let mut v = vec![0u32; w];
        let mut c = 0u64;
        for &x in &self.0 {
            c |= (x as u64) << b;
            v.push(c as u32);
            c >>= 32;
        }
        v.push(c as u32);
        Nat(v).norm()
    }
    pub fn shr(&self, k: usize) -> Nat {
        let (w, b) = (k / 32, k % 32);
        if w >= self.0.len() { return Nat::zero(); }
        let mut v = vec![];
        for i in w..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0) as u64;
            v.push((((hi << 32) | self.0[i] as u64) >> b) as u32);
        }
        Nat(v).norm()
    }
    /// self mod 2^k
    pub fn low(&self, k: usize) -> Nat {
        let w = k / 32;
        if w >= self.0.len() { return self.clone(); }
        let mut v = self.0[..=w].to_vec();
        v[w] &= ((1u64 << (k % 32)) - 1) as u32;
        Nat(v).norm()
    }
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero());
        if d.0.len() == 1 {
            let m = d.0[0] as u64;
            let mut q = vec![0u32; self.0.len()];
            let mut r = 0u64;
            for i in (0..self.0.len()).rev() {
                r = r << 32 | self.0[i] as u64;
                q[i] = (r / m) as u32;
                r %= m;
            }
            return (Nat(q).norm(), Nat(vec![r as u32]).norm());
        }
        if *self < *d { return (Nat::zero(), self.clone()); }
        let sh = self.bits() - d.bits();
        let mut r = self.clone();
        let mut t = d.shl(sh);
        let mut q = vec![0u32; sh / 32 + 1];
        for i in (0..=sh).rev() {
            if r >= t { r = r.sub(&t); q[i / 32] |= 1 << (i % 32); }
            t = t.shr(1);
        }
        (Nat(q).norm(), r)
    }
    pub fn pow(&self, mut e: u64) -> Nat {
        let mut r = Nat::from(1);
        while e > 0 { r = r.mul(self); e -= 1; }
        r
    }
    pub fn zip(&self, o: &Nat, f: impl Fn(u32, u32) -> u32) -> Nat {
        let n = self.0.len().max(o.0.len());
        Nat((0..n).map(|i| f(*self.0.get(i).unwrap_or(&0), *o.0.get(i).unwrap_or(&0))).collect()).norm()
    }
    pub fn and(&self, o: &Nat) -> Nat { self.zip(o, |a, b| a & b) }
    pub fn or(&self, o: &Nat) -> Nat { self.zip(o, |a, b| a | b) }
    pub fn xor(&self, o: &Nat) -> Nat { self.zip(o, |a, b| a ^ b) }
    pub fn not(&self, bits: usize) -> Nat { Nat::pow2(bits).sub(&Nat::from(1)).sub(self) }
    pub fn to_str(&self, radix: u32, upper: bool) -> String {
        if self.is_zero() { return "0".into(); }
        let mut s = vec![];
        let mut n = self.clone();
        let d = Nat::from(radix as u128);
        while !n.is_zero() {
            let (q, r) = n.divrem(&d);
            let c = std::char::from_digit(r.to_u128().unwrap() as u32, radix).unwrap();
            s.push(if upper { c.to_ascii_uppercase() } else { c });
            n = q;
        }
        s.iter().rev().collect()
    }
}

/// Signed integer, never negative zero.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Int { pub neg: bool, pub mag: Nat }

impl std::fmt::Debug for Int {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{:?}", if self.neg { "-" } else { "" }, self.mag)
    }
}
impl PartialOrd for Int {
    fn partial_cmp(&self, o: &Int) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Ord for Int {
    fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        }
    }
}
impl Int {
    pub fn new(neg: bool, mag: Nat) -> Int { Int { neg: neg && !mag.is_zero(), mag } }
    pub fn from(v: i128) -> Int { Int::new(v < 0, Nat::from(v.unsigned_abs())) }
    pub fn fromu(v: u128) -> Int { Int::new(false, Nat::from(v)) }
    pub fn nat(n: Nat) -> Int { Int::new(false, n) }
    pub fn is_zero(&self) -> bool { self.mag.is_zero() }
    pub fn neg(&self) -> Int { Int::new(!self.neg, self.mag.clone()) }
    pub fn abs(&self) -> Int { Int::new(false, self.mag.clone()) }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg { return Int::new(self.neg, self.mag.add(&o.mag)); }
        if self.mag >= o.mag { Int::new(self.neg, self.mag.sub(&o.mag)) } else { Int::new(o.neg, o.mag.sub(&self.mag)) }
    }
    pub fn sub(&self, o: &Int) -> Int { self.add(&o.neg()) }
    pub fn mul(&self, o: &Int) -> Int { Int::new(self.neg != o.neg, self.mag.mul(&o.mag)) }
    /// Truncated division
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        let (q, r) = self.mag.divrem(&o.mag);
        (Int::new(self.neg != o.neg, q), Int::new(self.neg, r))
    }
    /// Residue in [0, 2^bits)
    pub fn wrap(&self, bits: usize) -> Nat {
        let l = self.mag.low(bits);
        if self.neg && !l.is_zero() { Nat::pow2(bits).sub(&l) } else { l }
    }
    /// Residue in [-2^(bits-1), 2^(bits-1))
    pub fn wraps(&self, bits: usize) -> Int {
        let l = self.wrap(bits);
        if l.bit(bits - 1) { Int::new(true, Nat::pow2(bits).sub(&l)) } else { Int::nat(l) }
    }
    pub fn to_str(&self, radix: u32, upper: bool) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.to_str(radix, upper))
    }
    pub fn fits(&self, signed: bool, bits: usize) -> bool {
        if signed {
            if self.neg { self.mag <= Nat::pow2(bits - 1) } else { self.mag < Nat::pow2(bits - 1) }
        } else { !self.neg && self.mag < Nat::pow2(bits) }
    }
    pub fn to_i128(&self) -> Option<i128> {
        if !self.fits(true, 128) { return None; }
        let m = self.mag.to_u128().unwrap();
        Some(if self.neg { (m as i128).wrapping_neg() } else { m as i128 })
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, tag: &str) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in tag.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        Rng(h)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn u128(&mut self) -> u128 { (self.next() as u128) << 64 | self.next() as u128 }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    /// An edge-heavy value of `bits` bits
    pub fn edge(&mut self, bits: usize) -> u128 {
        let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let v = match self.below(12) {
            0 | 1 => 0,
            2 => 1,
            3 => max,
            4 => max - 1,
            5 => 1u128 << (bits - 1),
            6 => (1u128 << (bits - 1)) - 1,
            7 => 1u128 << self.below(bits),
            8 => self.u128() & self.u128() & self.u128(),
            9 => (1u128 << self.below(bits)).wrapping_sub(1),
            10 => self.below(20) as u128,
            _ => self.u128(),
        };
        v & max
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
}
