// Mathematical vocabulary shared by all contracts, and the small trusted helpers that stand for
// Rust library operations the verifier has no specification for.
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, unused_assignments, unreachable_code, unused_must_use, non_camel_case_types)]
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use vstd::bits::*;
use vstd::std_specs::iter::IteratorSpec;
use core::cmp::Ordering;
use core::mem;

verus! {

global size_of usize == 8;

pub type Limb = $LIMB;
pub const LIMB_BIT_LEN: usize = $LBITS;
pub open spec fn LB() -> nat { $LBITS }
pub open spec fn BB() -> int { $LBASE }

// ---------------------------------------------------------------- trusted library stand-ins
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });


pub assume_specification[ Ordering::is_ge ](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Less);
pub assume_specification[ Ordering::is_ne ](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Equal);
pub assume_specification[ Ordering::is_eq ](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Equal);
pub assume_specification[ Ordering::is_lt ](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Less);
pub assume_specification[ Ordering::is_gt ](o: Ordering) -> (r: bool) ensures r == (o == Ordering::Greater);
pub assume_specification[ Ordering::is_le ](o: Ordering) -> (r: bool) ensures r == (o != Ordering::Greater);
pub assume_specification[ Ordering::reverse ](o: Ordering) -> (r: Ordering)
    ensures r == (match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });

//%include std.vrs

pub fn vunreachable() -> !
    requires false,
{ vpanic(Ghost(false)) }

/// `u128::from(b)` on a bool
pub fn vbool_u128(b: bool) -> (r: u128) ensures r == (if b { 1u128 } else { 0u128 }) { if b { 1 } else { 0 } }

/// `u8::from(b)` on a bool
pub fn vbool_u8(b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 }) { if b { 1 } else { 0 } }

/// `a |= b` on bools
pub trait VBool { fn vor_assign(&mut self, o: bool); }
impl VBool for bool {
    fn vor_assign(&mut self, o: bool) ensures *final(self) == (*old(self) || o) { *self = *self || o }
}

/// `usize::max` / `usize::min`
pub fn vmax(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { Ord::max(a, b) }
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { Ord::min(a, b) }

/// `vec![x; n]`
pub fn vvec<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@ == Seq::new(n as nat, |i: int| x),
{
    let mut v = Vec::new();
    let mut k = 0;
    while k < n
        invariant k <= n, v@ == Seq::new(k as nat, |i: int| x),
        decreases n - k,
    {
        v.push(x);
        k += 1;
        assert(v@ =~= Seq::new(k as nat, |i: int| x));
    }
    v
}

/// `X[lo..hi].fill(v)`
pub fn vfill<T: Copy>(s: &mut [T], lo: usize, hi: usize, v: T)
    requires lo <= hi <= old(s)@.len(),
    ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| if lo <= i < hi { v } else { old(s)@[i] }),
{
    let ghost s0 = s@;
    let mut k = lo;
    while k < hi
        invariant lo <= k <= hi <= s0.len(), s@.len() == s0.len(),
            forall|i: int| 0 <= i < s0.len() ==> s@[i] == (if lo <= i < k { v } else { s0[i] }),
        decreases hi - k,
    {
        s[k] = v;
        k += 1;
    }
    assert(s@ =~= Seq::new(s0.len(), |i: int| if lo <= i < hi { v } else { s0[i] }));
}

/// `X[lo..].fill(v)`
pub fn vfill_from<T: Copy>(s: &mut [T], lo: usize, v: T)
    requires lo <= old(s)@.len(),
    ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| if lo <= i { v } else { old(s)@[i] }),
{
    let ghost s0 = s@;
    let n = s.len();
    vfill(s, lo, n, v);
    assert(s@ =~= Seq::new(s0.len(), |i: int| if lo <= i { v } else { s0[i] }));
}

/// `X.drain(lo..)` (dropping the drained range)
pub fn vdrain_from<T>(s: &mut Vec<T>, lo: usize)
    requires lo <= old(s)@.len(),
    ensures final(s)@ == old(s)@.subrange(0, lo as int),
{ s.truncate(lo) }

// ---------------------------------------------------------------- values of digit sequences
pub open spec fn dg(s: Seq<Limb>, i: int) -> int { if 0 <= i < s.len() { s[i] as int } else { 0 } }

#[verifier::opaque]
pub open spec fn pw(k: nat) -> int decreases k { if k == 0 { 1 } else { BB() * pw((k - 1) as nat) } }

/// value of the k lowest digits
#[verifier::opaque]
pub open spec fn val(s: Seq<Limb>, k: nat) -> int decreases k {
    if k == 0 { 0 } else { val(s, (k - 1) as nat) + dg(s, k - 1) * pw((k - 1) as nat) }
}
/// the number a little-endian digit sequence denotes
pub open spec fn num(s: Seq<Limb>) -> int { val(s, s.len()) }
/// the same, for functions that call one of their parameters `num`
#[verifier::inline]
pub open spec fn nv(s: Seq<Limb>) -> int { num(s) }

/// no superfluous high zero digits (a lone zero digit is kept)
pub open spec fn norm(s: Seq<Limb>) -> bool { s.len() <= 1 || s[s.len() - 1] != 0 }

pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }

pub mod math {
use super::*;

pub broadcast proof fn lemma_dg_range(s: Seq<Limb>, i: int)
    ensures 0 <= #[trigger] dg(s, i) < BB(), BB() >= 2,
{}

pub proof fn lemma_pw_step(k: nat)
    ensures pw(k + 1) == BB() * pw(k), pw(k) >= 1, pw(0) == 1, pw(1) == BB(),
    decreases k,
{
    reveal_with_fuel(pw, 2);
    if k > 0 { lemma_pw_step((k - 1) as nat); }
    assert(BB() * pw(k) >= pw(k)) by(nonlinear_arith) requires BB() >= 1, pw(k) >= 1;
}

/// multiplying a flag into the base, and the next power is at least twice as big
pub proof fn lemma_flag_mul(c: bool)
    ensures BB() * b2i(c) == (if c { BB() } else { 0 }), b2i(c) * BB() == (if c { BB() } else { 0 }),
{ assert(BB() * 1 == BB() && BB() * 0 == 0 && 1 * BB() == BB() && 0 * BB() == 0) by(nonlinear_arith); }
pub proof fn lemma_pw_ge2(k: nat)
    ensures pw(k + 1) >= 2 * pw(k), pw(k) >= 1,
{ lemma_pw_step(k); assert(BB() * pw(k) >= 2 * pw(k)) by(nonlinear_arith) requires BB() >= 2, pw(k) >= 1; }

pub proof fn lemma_pw_pos(k: nat)
    ensures pw(k) >= 1,
{ lemma_pw_step(k); }

pub proof fn lemma_pw_add(a: nat, b: nat)
    ensures pw(a + b) == pw(a) * pw(b),
    decreases b,
{
    if b == 0 { reveal(pw); assert(pw(a) * 1 == pw(a)); }
    else {
        lemma_pw_add(a, (b - 1) as nat);
        lemma_pw_step((b - 1) as nat);
        lemma_pw_step((a + b - 1) as nat);
        assert(BB() * (pw(a) * pw((b - 1) as nat)) == pw(a) * (BB() * pw((b - 1) as nat))) by(nonlinear_arith);
    }
}

pub proof fn lemma_pw_mono(a: nat, b: nat)
    requires a <= b,
    ensures pw(a) <= pw(b), pw(a) >= 1,
    decreases b - a,
{
    lemma_pw_step(a);
    if a < b {
        lemma_pw_mono(a + 1, b);
        assert(BB() * pw(a) >= pw(a)) by(nonlinear_arith) requires BB() >= 1, pw(a) >= 1;
    }
}

pub proof fn lemma_val_step(s: Seq<Limb>, k: nat)
    ensures val(s, k + 1) == val(s, k) + dg(s, k as int) * pw(k), val(s, 0) == 0,
{ reveal_with_fuel(val, 2); reveal_with_fuel(pw, 1); }

pub proof fn lemma_val_bound(s: Seq<Limb>, k: nat)
    ensures 0 <= val(s, k) < pw(k),
    decreases k,
{
    if k == 0 { reveal_with_fuel(val, 1); reveal_with_fuel(pw, 1); }
    else {
        let j = (k - 1) as nat;
        lemma_val_bound(s, j);
        lemma_val_step(s, j);
        lemma_pw_step(j);
        let d = dg(s, j as int);
        assert(0 <= d < BB());
        assert(0 <= d * pw(j) <= (BB() - 1) * pw(j)) by(nonlinear_arith) requires 0 <= d < BB(), pw(j) >= 1;
        assert((BB() - 1) * pw(j) == BB() * pw(j) - pw(j)) by(nonlinear_arith);
    }
}

/// val depends only on the digits below k
pub proof fn lemma_val_ext(s: Seq<Limb>, t: Seq<Limb>, k: nat)
    requires forall|i: int| 0 <= i < k ==> dg(s, i) == dg(t, i),
    ensures val(s, k) == val(t, k),
    decreases k,
{
    reveal_with_fuel(val, 1);
    if k > 0 { lemma_val_ext(s, t, (k - 1) as nat); }
}

/// digits above the length are zero
pub proof fn lemma_val_pad(s: Seq<Limb>, k: nat)
    requires k >= s.len(),
    ensures val(s, k) == num(s),
    decreases k,
{
    if k > s.len() {
        lemma_val_pad(s, (k - 1) as nat);
        lemma_val_step(s, (k - 1) as nat);
        assert(dg(s, k - 1) * pw((k - 1) as nat) == 0) by(nonlinear_arith) requires dg(s, k - 1) == 0;
    }
}

/// trailing zero digits do not contribute
pub proof fn lemma_val_zeros(s: Seq<Limb>, j: nat, k: nat)
    requires j <= k, forall|i: int| j <= i < k ==> dg(s, i) == 0,
    ensures val(s, k) == val(s, j),
    decreases k - j,
{
    if j < k {
        lemma_val_zeros(s, j, (k - 1) as nat);
        lemma_val_step(s, (k - 1) as nat);
        assert(dg(s, k - 1) * pw((k - 1) as nat) == 0) by(nonlinear_arith) requires dg(s, k - 1) == 0;
    }
}

pub proof fn lemma_num_bound(s: Seq<Limb>)
    ensures 0 <= num(s) < pw(s.len()),
{ lemma_val_bound(s, s.len()); }

/// one digit position of an add-with-carry / multiply-accumulate
pub proof fn lemma_carry_step(l: int, r: int, c: int, res: int, c2: int, p: int)
    requires l + r + c == res + BB() * c2,
    ensures l * p + r * p + c * p == res * p + c2 * (BB() * p),
{
    assert((l + r + c) * p == (res + BB() * c2) * p);
    assert((l + r + c) * p == l * p + r * p + c * p) by(nonlinear_arith);
    assert((res + BB() * c2) * p == res * p + c2 * (BB() * p)) by(nonlinear_arith);
}

/// a digit sequence with value v < pw(k) and all-below digits determined: uniqueness
pub proof fn lemma_unique(s: Seq<Limb>, t: Seq<Limb>, k: nat)
    requires val(s, k) == val(t, k),
    ensures forall|i: int| 0 <= i < k ==> dg(s, i) == dg(t, i),
    decreases k,
{
    if k > 0 {
        let j = (k - 1) as nat;
        lemma_val_step(s, j); lemma_val_step(t, j);
        lemma_val_bound(s, j); lemma_val_bound(t, j);
        let ds = dg(s, j as int); let dt = dg(t, j as int);
        let p = pw(j);
        if ds < dt {
            assert(dt * p >= ds * p + p) by(nonlinear_arith) requires dt >= ds + 1, p >= 1;
            assert(false);
        }
        if dt < ds {
            assert(ds * p >= dt * p + p) by(nonlinear_arith) requires ds >= dt + 1, p >= 1;
            assert(false);
        }
        lemma_unique(s, t, j);
    }
}

/// the most significant differing digit decides the comparison
pub proof fn lemma_cmp_step(s: Seq<Limb>, t: Seq<Limb>, k: nat)
    ensures
        dg(s, k as int) < dg(t, k as int) ==> val(s, k + 1) < val(t, k + 1),
        dg(s, k as int) > dg(t, k as int) ==> val(s, k + 1) > val(t, k + 1),
        dg(s, k as int) == dg(t, k as int) ==> val(s, k + 1) - val(t, k + 1) == val(s, k) - val(t, k),
{
    lemma_val_step(s, k); lemma_val_step(t, k);
    lemma_val_bound(s, k); lemma_val_bound(t, k);
    let ds = dg(s, k as int); let dt = dg(t, k as int);
    let p = pw(k);
    if ds < dt { assert(dt * p >= ds * p + p) by(nonlinear_arith) requires dt >= ds + 1, p >= 1; }
    if dt < ds { assert(ds * p >= dt * p + p) by(nonlinear_arith) requires ds >= dt + 1, p >= 1; }
}

/// updating one digit changes the value by the digit difference times its weight
pub proof fn lemma_val_update(s: Seq<Limb>, i: int, d: Limb, k: nat)
    requires 0 <= i < s.len(),
    ensures val(s.update(i, d), k) == val(s, k) + (if i < k { (d as int - s[i] as int) * pw(i as nat) } else { 0 }),
    decreases k,
{
    let t = s.update(i, d);
    if k == 0 { reveal_with_fuel(val, 1); }
    else {
        let j = (k - 1) as nat;
        lemma_val_update(s, i, d, j);
        lemma_val_step(s, j); lemma_val_step(t, j);
        if i == j {
            assert(dg(t, i) == d as int && dg(s, i) == s[i] as int);
            assert((d as int) * pw(j) == (s[i] as int) * pw(j) + (d as int - s[i] as int) * pw(j)) by(nonlinear_arith);
        } else {
            assert(dg(t, j as int) == dg(s, j as int));
        }
    }
}

/// all-zero sequences denote zero
pub proof fn lemma_num_zeros(s: Seq<Limb>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0,
    ensures num(s) == 0,
{ lemma_val_zeros(s, 0, s.len()); reveal_with_fuel(val, 1); }

/// num == 0 iff all digits zero
pub proof fn lemma_num_zero_iff(s: Seq<Limb>)
    ensures num(s) == 0 <==> (forall|i: int| 0 <= i < s.len() ==> s[i] == 0),
{
    if forall|i: int| 0 <= i < s.len() ==> s[i] == 0 { lemma_num_zeros(s); }
    if num(s) == 0 {
        let z = Seq::new(s.len(), |i: int| 0 as Limb);
        lemma_num_zeros(z);
        lemma_unique(s, z, s.len());
        assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by { assert(dg(s, i) == dg(z, i)); }
    }
}
} // mod math
pub use math::*;
