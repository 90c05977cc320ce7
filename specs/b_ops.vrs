// the big integer (limb usize): representation, arithmetic, comparison, conversions
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
/// quotient truncated towards zero, remainder with the sign of the dividend
pub open spec fn tquo(a: int, b: int) -> int { if (a < 0) != (b < 0) { -(iabs(a) / iabs(b)) } else { iabs(a) / iabs(b) } }
pub open spec fn trem(a: int, b: int) -> int { if a < 0 { -(iabs(a) % iabs(b)) } else { iabs(a) % iabs(b) } }
pub open spec fn sgn(neg: bool, m: int) -> int { if neg { -m } else { m } }
pub open spec fn BIGLEN() -> nat { 0x1f_ffff_ffff_ffff }
pub open spec fn INL() -> int { 0x3fff_ffff_ffff_ffff }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum Tag { None = 0, Neg = 1, Inline = 2, InlineNeg = 3 }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub struct TaggedOffset(pub usize);
pub struct BigInt(pub TaggedOffset);
pub enum MaybeInline<'a> { Inline(usize), Slice(&'a [usize]) }
/// what an interner slot holds for as long as some BigInt refers to it (P16)
pub uninterp spec fn store(id: usize) -> Seq<usize>;
pub mod bstore {
use super::*;
/// the global interner: contracts are those of P16 (single-threaded), plus: what is stored was
/// allocated, so it has fewer than 2^53 digits (2^56 bytes), and slot numbers stay below 2^62
pub struct INT_STORE;
pub struct InternId(pub usize);
impl InternId {
//@fn InternId::from_usize utils/src/intern.rs impl:InternId/from_usize pub params=val
    ensures r.0 == val,
//@endfn
//@fn InternId::into_usize utils/src/intern.rs impl:InternId/into_usize pub
    ensures r == self.0,
//@endfn
}
pub trait ToDigits { spec fn td(&self) -> Seq<usize>; }
impl ToDigits for Vec<usize> { open spec fn td(&self) -> Seq<usize> { self@ } }
impl ToDigits for &[usize] { open spec fn td(&self) -> Seq<usize> { self@ } }
impl INT_STORE {
    #[verifier::external_body]
    pub fn get(&self, id: InternId) -> (r: &'static [usize]) ensures r@ == store(id.0), r@.len() <= BIGLEN() { unimplemented!() }
    #[verifier::external_body]
    pub fn add<V: ToDigits, W: ?Sized>(&self, v: V) -> (r: InternId) ensures store(r.0) == v.td(), v.td().len() <= BIGLEN(), r.0 <= INL() { unimplemented!() }
}
/// core::slice::from_ref
#[verifier::external_body]
pub fn v_from_ref(i: &usize) -> (r: &[usize]) ensures r@ == seq![*i] { core::slice::from_ref(i) }
/// == on digit slices (std)
pub trait VEq { spec fn vs(&self) -> Seq<usize>; fn v_eq(self, o: Self) -> (r: bool) where Self: Sized ensures r == (self.vs() == o.vs()); }
impl VEq for &[usize] {
    open spec fn vs(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn v_eq(self, o: Self) -> (r: bool) { self == o }
}
pub trait VEqC: Sized { fn v_eq(self, o: Self) -> (r: bool) ensures r == (self == o); }
impl VEqC for TaggedOffset { fn v_eq(self, o: Self) -> (r: bool) { self == o } }
impl VEqC for Tag { fn v_eq(self, o: Self) -> (r: bool) { self == o } }
impl VEqC for bool { fn v_eq(self, o: Self) -> (r: bool) { self == o } }
impl VEqC for (usize, Tag) { fn v_eq(self, o: Self) -> (r: bool) { self.0 == o.0 && self.1 == o.1 } }
}
pub use bstore::*;
impl<'a> MaybeInline<'a> {
    pub open spec fn s(&self) -> Seq<usize> { match self { MaybeInline::Inline(i) => seq![*i], MaybeInline::Slice(s) => s@ } }
}
impl TaggedOffset {
    pub open spec fn off(self) -> int { self.0 as int / 4 }
    pub open spec fn neg(self) -> bool { self.0 as int % 2 == 1 }
    pub open spec fn inl(self) -> bool { self.0 as int % 4 >= 2 }
}
impl BigInt {
    pub open spec fn neg(&self) -> bool { self.0.neg() }
    pub open spec fn inl(&self) -> bool { self.0.inl() }
    pub open spec fn digits(&self) -> Seq<usize> { if self.inl() { seq![self.0.off() as usize] } else { store(self.0.off() as usize) } }
    pub open spec fn mag(&self) -> int { num(self.digits()) }
    /// the integer denoted
    pub open spec fn iv(&self) -> int { sgn(self.neg(), self.mag()) }
    /// canonical form: no high zero digits, inline exactly when the magnitude is below 2^62, no negative zero
    pub open spec fn wf(&self) -> bool {
        &&& 1 <= self.digits().len() <= BIGLEN()
        &&& norm(self.digits())
        &&& self.inl() == (self.mag() <= INL())
        &&& (self.neg() ==> self.mag() != 0)
    }
}
pub mod bmath {
use super::*;
pub proof fn lemma_one_digit(s: Seq<usize>)
    requires s.len() == 1,
    ensures num(s) == s[0],
{ lemma_val_step(s, 0); lemma_pw_step(0); assert(dg(s, 0) * 1 == dg(s, 0)); }
/// two or more digits without a high zero: at least the base
pub proof fn lemma_long(s: Seq<usize>)
    requires norm(s), s.len() >= 2,
    ensures num(s) >= BB(),
{
    let j = (s.len() - 1) as nat;
    lemma_val_step(s, j); lemma_val_bound(s, j); lemma_pw_mono(1, j); lemma_pw_step(0);
    let d = dg(s, j as int);
    assert(d * pw(j) >= pw(j)) by(nonlinear_arith) requires d >= 1, pw(j) >= 1;
}
/// longer means bigger
pub proof fn lemma_len_cmp(s: Seq<usize>, t: Seq<usize>)
    requires norm(s), norm(t), 1 <= s.len() < t.len(),
    ensures num(s) < num(t),
{
    let j = (t.len() - 1) as nat;
    lemma_val_step(t, j); lemma_val_bound(t, j); lemma_num_bound(s); lemma_pw_mono(s.len(), j);
    let d = dg(t, j as int);
    assert(d * pw(j) >= pw(j)) by(nonlinear_arith) requires d >= 1, pw(j) >= 1;
}
/// equal values have equal digits
pub proof fn lemma_same(s: Seq<usize>, t: Seq<usize>)
    requires norm(s), norm(t), s.len() >= 1, t.len() >= 1,
    ensures (num(s) == num(t)) == (s == t),
{
    if num(s) == num(t) {
        if s.len() < t.len() { lemma_len_cmp(s, t); }
        if t.len() < s.len() { lemma_len_cmp(t, s); }
        lemma_unique(s, t, s.len());
        assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(dg(s, i) == dg(t, i)); }
        assert(s =~= t);
    }
}
/// what well-formedness says about one value
pub proof fn lemma_wf(b: BigInt)
    requires b.wf(),
    ensures b.mag() >= 0, (b.iv() < 0) == b.neg(), iabs(b.iv()) == b.mag(), b.inl() ==> b.mag() == b.0.off(),
        (b.iv() == 0) == (b.0.0 == 2), (b.iv() == 1) == (b.0.0 == 6),
{
    lemma_num_bound(b.digits());
    if b.inl() {
        lemma_one_digit(b.digits());
        let x = b.0.0 as int;
        assert(x == 4 * (x / 4) + x % 4);
    }
}
pub proof fn lemma_eq(a: BigInt, b: BigInt)
    requires a.wf(), b.wf(),
    ensures (a.iv() == b.iv()) == (a.neg() == b.neg() && a.digits() == b.digits()), a.0 == b.0 ==> a.iv() == b.iv(),
        a.inl() && b.inl() ==> (a.iv() == b.iv()) == (a.0 == b.0),
        a.inl() != b.inl() ==> a.iv() != b.iv(),
{
    lemma_wf(a); lemma_wf(b); lemma_same(a.digits(), b.digits());
    if a.inl() && b.inl() {
        let x = a.0.0 as int; let y = b.0.0 as int;
        assert(x == 4 * (x / 4) + x % 4 && y == 4 * (y / 4) + y % 4);
        if a.0 != b.0 && a.digits() == b.digits() { assert(a.digits()[0] == b.digits()[0]); }
    }
}
/// sign and magnitude of an exact product / quotient
pub proof fn lemma_sgn_mul(a: int, b: int)
    ensures sgn((a < 0) != (b < 0), iabs(a) * iabs(b)) == a * b,
{
    assert((-a) * (-b) == a * b) by(nonlinear_arith);
    assert((-a) * b == -(a * b)) by(nonlinear_arith);
    assert(a * (-b) == -(a * b)) by(nonlinear_arith);
}
}
pub use bmath::*;
pub mod btag {
use super::*;
impl Tag {
//@fn Tag::from_usize_unsafe ints/src/big_int.rs impl:Tag/from_usize_unsafe pub params=val
    requires val <= 3,
    ensures r as usize == val,
//@endfn
//@fn Tag::from_usize_truncate ints/src/big_int.rs impl:Tag/from_usize_truncate pub params=val
    ensures r as usize == val as int % 4,
//@entry
    proof { assert(val & 0b11 == val % 4) by(bit_vector); }
//@endfn
//@fn Tag::inline ints/src/big_int.rs impl:Tag/inline pub
    ensures r == (self as int >= 2),
//@endfn
//@fn Tag::negative ints/src/big_int.rs impl:Tag/negative pub
    ensures r == (self as int % 2 == 1),
//@endfn
}
impl TaggedOffset {
//@fn TaggedOffset::new ints/src/big_int.rs impl:TaggedOffset/new pub params=offset,tag
    ensures offset <= INL(), r.0 == offset * 4 + tag as usize,
//@entry
    proof {
        let t = tag as usize;
        assert(usize::MAX >> 2 == 0x3fff_ffff_ffff_ffffusize) by(bit_vector);
        assert(t <= 3);
        assert(offset <= 0x3fff_ffff_ffff_ffffusize ==> (offset << 2) | t == offset * 4 + t) by(bit_vector) requires t <= 3;
    }
//@assert 0
    offset <= INL()
//@endfn
//@fn TaggedOffset::invert_neg ints/src/big_int.rs impl:TaggedOffset/invert_neg pub
    ensures r.off() == self.off(), r.inl() == self.inl(), r.neg() != self.neg(),
//@entry
    proof {
        let x = self.0;
        assert((x ^ 0b1) / 4 == x / 4 && ((x ^ 0b1) % 4 >= 2) == (x % 4 >= 2) && (x ^ 0b1) % 2 != x % 2) by(bit_vector);
    }
//@endfn
//@fn TaggedOffset::offset ints/src/big_int.rs impl:TaggedOffset/offset pub
    ensures r == self.off(),
//@entry
    proof { let x = self.0; assert(x >> 2 == x / 4) by(bit_vector); }
//@endfn
//@fn TaggedOffset::tag ints/src/big_int.rs impl:TaggedOffset/tag pub
    ensures r as int == self.0 as int % 4,
//@endfn
//@fn TaggedOffset::get ints/src/big_int.rs impl:TaggedOffset/get pub
    ensures r.0 == self.off(), r.1 as int == self.0 as int % 4,
//@endfn
}
impl<'a> MaybeInline<'a> {
//@fn MaybeInline::slice ints/src/big_int.rs impl:MaybeInline<'_>/slice pub calls=core::slice::from_ref->v_from_ref
    ensures r@ == self.s(),
//@endfn
}
}
pub mod brep {
use super::*;
impl BigInt {
//@fn BigInt::is_inline ints/src/big_int.rs impl:BigInt/is_inline pub
    ensures r == self.inl(),
//@endfn
//@fn BigInt::is_interned ints/src/big_int.rs impl:BigInt/is_interned pub
    ensures r == !self.inl(),
//@endfn
//@fn BigInt::is_positive ints/src/big_int.rs impl:Signed~for~BigInt/is_positive pub
    ensures r == !self.neg(),
//@endfn
//@fn BigInt::is_negative ints/src/big_int.rs impl:Signed~for~BigInt/is_negative pub
    ensures r == self.neg(),
//@endfn
//@fn BigInt::val ints/src/big_int.rs impl:BigInt/val pub
    requires self.wf(),
    ensures r.s() == self.digits(),
//@endfn
//@fn BigInt::with_slice ints/src/big_int.rs impl:BigInt/with_slice pub
    requires self.wf(), forall|s: &[usize]| s@ == self.digits() ==> f.requires((s,)),
    ensures exists|s: &[usize]| s@ == self.digits() && f.ensures((s,), r),
//@endfn
//@fn BigInt::with_slices ints/src/big_int.rs impl:BigInt/with_slices pub params=left,right
    requires left.wf(), right.wf(), forall|s: &[usize], t: &[usize]| s@ == left.digits() && t@ == right.digits() ==> f.requires((s, t)),
    ensures exists|s: &[usize], t: &[usize]| s@ == left.digits() && t@ == right.digits() && f.ensures((s, t), r),
//@closure 0
&[usize] -> R
    requires f.requires((left, __a0))
    ensures f.ensures((left, __a0), __r)
//@closure 1
&[usize] -> R
    requires forall|t: &[usize]| t@ == right.digits() ==> f.requires((__a0, t))
    ensures exists|t: &[usize]| t@ == right.digits() && f.ensures((__a0, t), __r)
//@endfn
//@fn BigInt::new_inline ints/src/big_int.rs impl:BigInt/new_inline pub params=v,neg
    ensures v <= INL(), r.wf(), r.iv() == sgn(neg, v as int), r.digits() == seq![v],
//@tail
    proof {
        assert(__ret.0.0 == v * 4 + (if v != 0 && neg { 3int } else { 2int }));
        assert(__ret.digits() =~= seq![v]);
        lemma_one_digit(__ret.digits());
    }
//@endfn
//@fn BigInt::new ints/src/big_int.rs impl:BigInt/new pub
    ensures r.wf(), r.iv() == 0,
//@endfn
//%for N,V in v,Vec<usize> s,&[usize]
//@fn BigInt::new_intern<$V> ints/src/big_int.rs impl:BigInt/new_intern pub name=new_intern_$N subst=V->$V params=v,neg
    requires v@.len() >= 1, norm(v@), num(v@) > INL(),
    ensures r.wf(), r.iv() == sgn(neg, num(v@)), r.digits() == v@,
//@endfn
//@fn BigInt::new_slice<$V> ints/src/big_int.rs impl:BigInt/new_slice pub name=new_slice_$N subst=V->$V params=v,neg calls=BigInt::new_intern->BigInt::new_intern_$N
    requires 1 <= v@.len() < usize::MAX,
    ensures r.wf(), r.iv() == sgn(neg, num(v@)),
//@entry
    proof {
        assert(usize::MAX >> 2 == 0x3fff_ffff_ffff_ffffusize) by(bit_vector);
        assert forall|t: Seq<usize>| #![trigger num(t)] norm(t) && t.len() >= 1 implies (t.len() == 1 ==> num(t) == t[0]) && (t.len() >= 2 ==> num(t) >= BB()) by {
            if t.len() == 1 { lemma_one_digit(t); } else { lemma_long(t); }
        }
    }
//@endfn
//%endfor
}
}
/// operands: big integers, references to them, and the primitives
pub trait Nm: Sized { spec fn nw(&self) -> bool; spec fn nv(&self) -> int; }
impl Nm for BigInt { open spec fn nw(&self) -> bool { self.wf() } open spec fn nv(&self) -> int { self.iv() } }
impl Nm for &BigInt { open spec fn nw(&self) -> bool { self.wf() } open spec fn nv(&self) -> int { self.iv() } }
//%for T in u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
impl Nm for $T { open spec fn nw(&self) -> bool { true } open spec fn nv(&self) -> int { *self as int } }
//%endfor
pub trait VAdd<R: Nm>: Nm { fn v_add(self, r: R) -> (o: BigInt) requires self.nw(), r.nw() ensures o.wf(), o.iv() == self.nv() + r.nv(); }
pub trait VSub<R: Nm>: Nm { fn v_sub(self, r: R) -> (o: BigInt) requires self.nw(), r.nw() ensures o.wf(), o.iv() == self.nv() - r.nv(); }
pub trait VMul<R: Nm>: Nm { fn v_mul(self, r: R) -> (o: BigInt) requires self.nw(), r.nw() ensures o.wf(), o.iv() == self.nv() * r.nv(); }
pub trait VDiv<R: Nm>: Nm { fn v_div(self, r: R) -> (o: BigInt) requires self.nw(), r.nw() ensures r.nv() != 0, o.wf(), o.iv() == tquo(self.nv(), r.nv()); }
pub trait VRem<R: Nm>: Nm { fn v_rem(self, r: R) -> (o: BigInt) requires self.nw(), r.nw() ensures r.nv() != 0, o.wf(), o.iv() == trem(self.nv(), r.nv()); }
/// a shift by a negative or over-large amount does not return
pub trait VShl<R: Nm>: Nm { fn v_shl(self, r: R) -> (o: BigInt) requires self.nw(), r.nw() ensures 0 <= r.nv() <= usize::MAX, o.wf(), o.iv() == self.nv() * pow2(r.nv() as nat); }
pub trait VShr<R: Nm>: Nm { fn v_shr(self, r: R) -> (o: BigInt) requires self.nw(), r.nw() ensures 0 <= r.nv() <= usize::MAX, o.wf(), self.nv() >= 0 ==> o.iv() == self.nv() / (pow2(r.nv() as nat) as int); }
//%for N,BOP in BitAnd,&& BitOr,|| BitXor,!=
pub trait V$N<R: Nm>: Nm { fn v_$N(self, r: R) -> (o: BigInt) requires self.nw(), r.nw()
    ensures o.wf(), self.nv() >= 0 && r.nv() >= 0 ==> o.iv() >= 0 && forall|i: nat| #[trigger] nbit(o.iv(), i) == (nbit(self.nv(), i) $BOP nbit(r.nv(), i)); }
//%endfor
pub trait VAddAssign<R: Nm> { fn v_add_assign(&mut self, r: R) requires old(self).vw(), r.nw() ensures final(self).vw(), final(self).vi() == old(self).vi() + r.nv(); spec fn vw(&self) -> bool; spec fn vi(&self) -> int; }
pub trait VSubAssign<R: Nm> { fn v_sub_assign(&mut self, r: R) requires old(self).vw(), r.nw() ensures final(self).vw(), final(self).vi() == old(self).vi() - r.nv(); spec fn vw(&self) -> bool; spec fn vi(&self) -> int; }
pub trait VMulAssign<R: Nm> { fn v_mul_assign(&mut self, r: R) requires old(self).vw(), r.nw() ensures final(self).vw(), final(self).vi() == old(self).vi() * r.nv(); spec fn vw(&self) -> bool; spec fn vi(&self) -> int; }
pub trait VDivAssign<R: Nm> { fn v_div_assign(&mut self, r: R) requires old(self).vw(), r.nw() ensures r.nv() != 0, final(self).vw(), final(self).vi() == tquo(old(self).vi(), r.nv()); spec fn vw(&self) -> bool; spec fn vi(&self) -> int; }
pub trait VRemAssign<R: Nm> { fn v_rem_assign(&mut self, r: R) requires old(self).vw(), r.nw() ensures r.nv() != 0, final(self).vw(), final(self).vi() == trem(old(self).vi(), r.nv()); spec fn vw(&self) -> bool; spec fn vi(&self) -> int; }
pub mod barith {
use super::*;
impl VAdd<&BigInt> for &BigInt {
//@fn BigInt::add @ints impl:core::ops::Add<&BigInt>~for~&BigInt/add name=v_add subst=Self::Output->BigInt params=rhs calls=BigInt::new_slice->BigInt::new_slice_v
//@entry
    proof { lemma_wf(*self); lemma_wf(*rhs); }
//@closure 0
&[usize]; &[usize] -> (Vec<usize>, bool)
    requires __a0@ == self.digits(), __a1@ == rhs.digits()
    ensures sgn(__r.1, num(__r.0@)) == self.iv() + rhs.iv(), 1 <= __r.0@.len() <= BIGLEN() + 1
//@endfn
}
impl VSub<&BigInt> for &BigInt {
//@fn BigInt::sub @ints impl:core::ops::Sub<&BigInt>~for~&BigInt/sub name=v_sub subst=Self::Output->BigInt params=rhs calls=BigInt::new_slice->BigInt::new_slice_v
//@entry
    proof { lemma_wf(*self); lemma_wf(*rhs); }
//@closure 0
&[usize]; &[usize] -> (Vec<usize>, bool)
    requires __a0@ == self.digits(), __a1@ == rhs.digits()
    ensures sgn(__r.1, num(__r.0@)) == self.iv() - rhs.iv(), 1 <= __r.0@.len() <= BIGLEN() + 1
//@endfn
}
impl VMul<&BigInt> for &BigInt {
//@fn BigInt::mul @ints impl:core::ops::Mul<&BigInt>~for~&BigInt/mul name=v_mul subst=Self::Output->BigInt params=rhs calls=BigInt::new_slice->BigInt::new_slice_v
//@entry
    proof { lemma_wf(*self); lemma_wf(*rhs); lemma_sgn_mul(self.iv(), rhs.iv()); }
//@closure 0
&[usize]; &[usize] -> Vec<usize>
    requires __a0@ == self.digits(), __a1@ == rhs.digits()
    ensures num(__r@) == self.mag() * rhs.mag(), 1 <= __r@.len() <= 2 * BIGLEN()
//@endfn
}
proof fn lemma_qr(n: int, d: int, q: int, r: int)
    requires is_quot_rem(n, d, q, r),
    ensures q == n / d, r == n % d,
{ lemma_div_mod_unique(n, d, q, r); }
impl VDiv<&BigInt> for &BigInt {
//@fn BigInt::div @ints impl:core::ops::Div<&BigInt>~for~&BigInt/div name=v_div subst=Self::Output->BigInt params=rhs calls=BigInt::new_slice->BigInt::new_slice_v
//@entry
    proof { lemma_wf(*self); lemma_wf(*rhs); assert forall|n: int, d: int, q: int, r: int| #[trigger] is_quot_rem(n, d, q, r) implies q == n / d && r == n % d by { lemma_qr(n, d, q, r); } }
//@closure 0
&[usize]; &[usize] -> Vec<usize>
    requires __a0@ == self.digits(), __a1@ == rhs.digits()
    ensures rhs.mag() != 0, num(__r@) == self.mag() / rhs.mag(), 1 <= __r@.len() <= BIGLEN()
//@endfn
}
impl VRem<&BigInt> for &BigInt {
//@fn BigInt::rem @ints impl:core::ops::Rem<&BigInt>~for~&BigInt/rem name=v_rem subst=Self::Output->BigInt params=rhs calls=BigInt::new_slice->BigInt::new_slice_v
//@entry
    proof { lemma_wf(*self); lemma_wf(*rhs); assert forall|n: int, d: int, q: int, r: int| #[trigger] is_quot_rem(n, d, q, r) implies q == n / d && r == n % d by { lemma_qr(n, d, q, r); } }
//@closure 0
&[usize]; &[usize] -> Vec<usize>
    requires __a0@ == self.digits(), __a1@ == rhs.digits()
    ensures rhs.mag() != 0, num(__r@) == self.mag() % rhs.mag(), 1 <= __r@.len() <= BIGLEN()
//@endfn
}
//%for M,m in Add,add Sub,sub Mul,mul Div,div Rem,rem
impl V$M<BigInt> for BigInt {
//@fn BigInt::$m(BigInt,BigInt) @ints impl:core::ops::$M<BigInt>~for~BigInt/$m name=v_$m subst=Self::Output->BigInt params=rhs calls=<&BigIntascore::ops::$M<&BigInt>>::$m-><&BigInt~as~V$M<&BigInt>>::v_$m
//@endfn
}
impl V$M<&BigInt> for BigInt {
//@fn BigInt::$m(BigInt,&BigInt) @ints impl:core::ops::$M<&BigInt>~for~BigInt/$m name=v_$m subst=Self::Output->BigInt params=rhs calls=<&BigIntascore::ops::$M<&BigInt>>::$m-><&BigInt~as~V$M<&BigInt>>::v_$m
//@endfn
}
impl V$M<BigInt> for &BigInt {
//@fn BigInt::$m(&BigInt,BigInt) @ints impl:core::ops::$M<BigInt>~for~&BigInt/$m name=v_$m subst=Self::Output->BigInt params=rhs calls=<&BigIntascore::ops::$M<&BigInt>>::$m-><&BigInt~as~V$M<&BigInt>>::v_$m
//@endfn
}
impl V$MAssign<&BigInt> for BigInt {
    open spec fn vw(&self) -> bool { self.wf() }
    open spec fn vi(&self) -> int { self.iv() }
//@fn BigInt::$m_assign(&BigInt) @ints impl:core::ops::$MAssign<&BigInt>~for~BigInt/$m_assign name=v_$m_assign params=rhs ops=@num
//@endfn
}
impl V$MAssign<BigInt> for BigInt {
    open spec fn vw(&self) -> bool { self.wf() }
    open spec fn vi(&self) -> int { self.iv() }
//@fn BigInt::$m_assign(BigInt) @ints impl:core::ops::$MAssign<BigInt>~for~BigInt/$m_assign name=v_$m_assign params=rhs calls=<BigIntascore::ops::$MAssign<&BigInt>>::$m_assign-><BigInt~as~V$MAssign<&BigInt>>::v_$m_assign
//@endfn
}
//%endfor
impl BigInt {
//@fn BigInt::zero ints/src/big_int.rs impl:Zero~for~BigInt/zero pub
    ensures r.wf(), r.iv() == 0,
//@endfn
//@fn BigInt::is_zero ints/src/big_int.rs impl:Zero~for~BigInt/is_zero pub ops===->v_eq
    requires self.wf(),
    ensures r == (self.iv() == 0),
//@entry
    proof { lemma_wf(*self); }
//@endfn
//@fn BigInt::one ints/src/big_int.rs impl:One~for~BigInt/one pub
    ensures r.wf(), r.iv() == 1,
//@endfn
//@fn BigInt::is_one ints/src/big_int.rs impl:One~for~BigInt/is_one pub ops===->v_eq
    requires self.wf(),
    ensures r == (self.iv() == 1),
//@entry
    proof { lemma_wf(*self); }
//@endfn
//@fn BigInt::neg(BigInt) ints/src/big_int.rs impl:ops::Neg~for~BigInt/neg pub name=v_neg subst=Self::Output->BigInt
    requires self.wf(),
    ensures r.wf(), r.iv() == -self.iv(),
//@entry
    proof { lemma_wf(self); }
//@endfn
//@fn BigInt::abs ints/src/big_int.rs impl:Signed~for~BigInt/abs pub ops=u-->v_neg
    requires self.wf(),
    ensures r.wf(), r.iv() == iabs(self.iv()),
//@entry
    proof { lemma_wf(self); }
//@endfn
}
}
pub mod bcmp {
use super::*;
/// Ord::cmp on lengths (std)
#[verifier::external_body]
pub fn v_usize_cmp(a: &usize, b: &usize) -> (r: Ordering) ensures r == ord_of(*a as int, *b as int) { a.cmp(b) }
impl BigInt {
//@fn BigInt::eq ints/src/big_int.rs impl:PartialEq~for~BigInt/eq pub name=v_beq params=other ops===->v_eq
    requires self.wf(), other.wf(),
    ensures r == (self.iv() == other.iv()),
//@entry
    proof { lemma_eq(*self, *other); lemma_wf(*self); lemma_wf(*other); }
//@closure 0
&[usize]; &[usize] -> bool
    requires __a0@ == self.digits(), __a1@ == other.digits()
    ensures __r == (self.digits() == other.digits())
//@endfn
//@fn BigInt::cmp ints/src/big_int.rs impl:Ord~for~BigInt/cmp pub name=v_cmp params=other ops===->v_eq;!=->_ calls=usize::cmp->v_usize_cmp
    requires self.wf(), other.wf(),
    ensures r == ord_of(self.iv(), other.iv()),
//@entry
    proof {
        lemma_eq(*self, *other); lemma_wf(*self); lemma_wf(*other);
        if self.digits().len() < other.digits().len() { lemma_len_cmp(self.digits(), other.digits()); }
        if self.digits().len() > other.digits().len() { lemma_len_cmp(other.digits(), self.digits()); }
    }
//@closure 0
&[usize]; &[usize] -> Ordering
    requires __a0@ == self.digits(), __a1@ == other.digits()
    ensures __r == ord_of(self.mag(), other.mag())
//@endfn
//@fn BigInt::partial_cmp ints/src/big_int.rs impl:PartialOrd~for~BigInt/partial_cmp pub name=v_partial_cmp params=other calls=Self::cmp->Self::v_cmp
    requires self.wf(), other.wf(),
    ensures r == Some(ord_of(self.iv(), other.iv())),
//@endfn
    /// the provided comparison operators of core::cmp::PartialOrd
    pub fn v_gt(&self, o: &BigInt) -> (r: bool) requires self.wf(), o.wf() ensures r == (self.iv() > o.iv()) { matches!(self.v_partial_cmp(o), Some(Ordering::Greater)) }
    pub fn v_ge(&self, o: &BigInt) -> (r: bool) requires self.wf(), o.wf() ensures r == (self.iv() >= o.iv()) { matches!(self.v_partial_cmp(o), Some(Ordering::Greater | Ordering::Equal)) }
    pub fn v_le(&self, o: &BigInt) -> (r: bool) requires self.wf(), o.wf() ensures r == (self.iv() <= o.iv()) { matches!(self.v_partial_cmp(o), Some(Ordering::Less | Ordering::Equal)) }
    pub fn v_lt(&self, o: &BigInt) -> (r: bool) requires self.wf(), o.wf() ensures r == (self.iv() < o.iv()) { matches!(self.v_partial_cmp(o), Some(Ordering::Less)) }
}
}
