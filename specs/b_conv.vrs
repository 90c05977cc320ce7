// big integer: copies and references, primitives, shifts, logic, powers
pub mod brefs {
use super::*;
/// reference counts of the interner's slots (contracts of P16)
pub struct Refs(pub Ghost<Map<usize, int>>);
impl Refs {
    pub open spec fn at(&self, id: usize) -> int { if self.0@.dom().contains(id) { self.0@[id] } else { 0 } }
    #[verifier::external_body]
    pub fn incr(&mut self, id: InternId) ensures final(self).at(id.0) == old(self).at(id.0) + 1, forall|j: usize| j != id.0 ==> final(self).at(j) == old(self).at(j) { unimplemented!() }
    #[verifier::external_body]
    pub fn decr(&mut self, id: InternId) ensures final(self).at(id.0) == old(self).at(id.0) - 1, forall|j: usize| j != id.0 ==> final(self).at(j) == old(self).at(j) { unimplemented!() }
    #[verifier::external_body]
    pub fn add<V: ToDigits, W: ?Sized>(&mut self, v: V) -> (r: InternId) ensures store(r.0) == v.td(), v.td().len() <= BIGLEN(), r.0 <= INL(), final(self).at(r.0) == old(self).at(r.0) + 1, forall|j: usize| j != r.0 ==> final(self).at(j) == old(self).at(j) { unimplemented!() }
}
/// exactly the slot a shared big integer points at changed, by d
pub open spec fn only(a: Refs, b: Refs, x: BigInt, d: int) -> bool {
    forall|j: usize| b.at(j) == a.at(j) + (if !x.inl() && j == x.0.off() { d } else { 0 })
}
impl BigInt {
//@fn BigInt::clone ints/src/big_int.rs impl:Clone~for~BigInt/clone pub name=v_clone_refs extra=__store:&mut~Refs rename=INT_STORE->__store
    requires self.wf(),
    ensures r.wf(), r.0 == self.0, only(*old(__store), *final(__store), *self, 1),
//@endfn
//@fn BigInt::drop ints/src/big_int.rs impl:Drop~for~BigInt/drop pub name=v_drop_refs extra=__store:&mut~Refs rename=INT_STORE->__store
    requires old(self).wf(),
    ensures only(*old(__store), *final(__store), *old(self), -1), final(self).0 == old(self).0,
//@endfn
//%for N,V in v,Vec<usize> s,&[usize]
//@fn BigInt::new_intern<$V>.refs ints/src/big_int.rs impl:BigInt/new_intern pub name=new_intern_refs_$N subst=V->$V params=v,neg extra=__store:&mut~Refs rename=INT_STORE->__store
    requires v@.len() >= 1, norm(v@), num(v@) > INL(),
    ensures r.wf(), !r.inl(), only(*old(__store), *final(__store), r, 1),
//@endfn
//%endfor
    /// what the contract above says about the value alone
    #[verifier::external_body]
    pub fn v_clone(&self) -> (r: BigInt) requires self.wf() ensures r.wf(), r.0 == self.0 { unimplemented!() }
//@fn BigInt::neg(&BigInt) ints/src/big_int.rs impl:ops::Neg~for~&BigInt/neg pub name=v_neg_ref subst=Self::Output->BigInt ops=u-->v_neg methods=clone->v_clone
    requires self.wf(),
    ensures r.wf(), r.iv() == -self.iv(),
//@endfn
}
}
pub struct OutOfRangeError(pub Side);
pub enum Side { Above, Below }
pub trait VFrom<T: Nm>: Sized + Nm { fn v_from(x: T) -> (r: Self) ensures r.nw(), r.nv() == x.nv(); }
pub open spec fn in_rng(x: int, lo: int, hi: int) -> bool { lo <= x <= hi }
pub open spec fn conv_ok<T: Nm>(r: Result<T, OutOfRangeError>, x: int, lo: int, hi: int) -> bool {
    match r {
        Ok(v) => lo <= x <= hi && v.nv() == x,
        Err(OutOfRangeError(Side::Above)) => x > hi,
        Err(OutOfRangeError(Side::Below)) => x < lo,
    }
}
pub trait Rng: Nm { spec fn lo() -> int; spec fn hi() -> int; spec fn modulus() -> int; }
pub trait VTry: Rng {
    fn v_try_from_r(bi: &BigInt) -> (r: Result<Self, OutOfRangeError>) requires bi.wf() ensures conv_ok(r, bi.iv(), Self::lo(), Self::hi());
    fn v_try_from_o(bi: BigInt) -> (r: Result<Self, OutOfRangeError>) requires bi.wf() ensures conv_ok(r, bi.iv(), Self::lo(), Self::hi());
}
/// core's blanket TryInto
pub trait VTryInto<T: VTry>: Nm { fn v_try_into(self) -> (r: Result<T, OutOfRangeError>) requires self.nw() ensures conv_ok(r, self.nv(), T::lo(), T::hi()); }
impl<T: VTry> VTryInto<T> for BigInt { fn v_try_into(self) -> (r: Result<T, OutOfRangeError>) { T::v_try_from_o(self) } }
pub trait VCast: VTry {
    fn v_from_checked(val: BigInt) -> (r: Option<Self>) requires val.wf() ensures r is Some == (Self::lo() <= val.iv() <= Self::hi()), r is Some ==> r->0.nv() == val.iv();
    fn v_saturate_from(val: BigInt) -> (r: Self) requires val.wf() ensures r.nv() == (if val.iv() < Self::lo() { Self::lo() } else if val.iv() > Self::hi() { Self::hi() } else { val.iv() });
    fn v_truncate_from(val: BigInt) -> (r: Self) requires val.wf() ensures r.nv() % Self::modulus() == val.iv() % Self::modulus();
}
pub trait VPCmp<T: Nm>: Nm {
    fn v_peq(&self, other: &T) -> (r: bool) requires self.nw() ensures r == (self.nv() == other.nv());
    fn v_ppc(&self, other: &T) -> (r: Option<Ordering>) requires self.nw() ensures r == Some(ord_of(self.nv(), other.nv()));
}
/// the operators == > of core::cmp, in terms of the methods
pub trait VPOps: Nm {
    fn v_eqi<T: Nm>(&self, o: T) -> (r: bool) where Self: VPCmp<T> requires self.nw() ensures r == (self.nv() == o.nv()) { self.v_peq(&o) }
    fn v_lti<T: Nm>(&self, o: T) -> (r: bool) where Self: VPCmp<T> requires self.nw() ensures r == (self.nv() < o.nv()) { matches!(self.v_ppc(&o), Some(Ordering::Less)) }
    fn v_gei<T: Nm>(&self, o: T) -> (r: bool) where Self: VPCmp<T> requires self.nw() ensures r == (self.nv() >= o.nv()) { matches!(self.v_ppc(&o), Some(Ordering::Greater | Ordering::Equal)) }
    fn v_lei<T: Nm>(&self, o: T) -> (r: bool) where Self: VPCmp<T> requires self.nw() ensures r == (self.nv() <= o.nv()) { matches!(self.v_ppc(&o), Some(Ordering::Less | Ordering::Equal)) }
    fn v_gti<T: Nm>(&self, o: T) -> (r: bool) where Self: VPCmp<T> requires self.nw() ensures r == (self.nv() > o.nv()) { matches!(self.v_ppc(&o), Some(Ordering::Greater)) }
}
impl VPOps for BigInt {}
impl OutOfRangeError {
//@fn OutOfRangeError::above ints/src/big_int.rs impl:OutOfRangeError/above pub
    ensures r.0 is Above,
//@endfn
//@fn OutOfRangeError::below ints/src/big_int.rs impl:OutOfRangeError/below pub
    ensures r.0 is Below,
//@endfn
}
pub mod bconvmath {
use super::*;
/// std: Result::expect
pub trait VExpect<T> { spec fn ve(&self) -> Option<T>; fn v_expect(self, m: &str) -> (r: T) ensures self.ve() == Some(r); }
impl<T> VExpect<T> for Result<T, OutOfRangeError> {
    open spec fn ve(&self) -> Option<T> { match self { Ok(x) => Some(*x), Err(_) => None } }
    #[verifier::external_body]
    fn v_expect(self, m: &str) -> (r: T) { unimplemented!() }
}
/// std: slice iterators, take, rev, fold
pub struct VIt(pub Ghost<Seq<usize>>);
pub trait VIter { spec fn vis(&self) -> Seq<usize>; fn v_iter(&self) -> (r: VIt) ensures r.0@ == self.vis(); }
impl VIter for [usize] {
    open spec fn vis(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn v_iter(&self) -> (r: VIt) { unimplemented!() }
}
pub open spec fn hstep(a: u128, i: usize) -> int { (a as int % BB()) * BB() + i as int }
pub open spec fn hfold(init: u128, s: Seq<usize>) -> u128 decreases s.len() { if s.len() == 0 { init } else { hstep(hfold(init, s.drop_last()), s.last()) as u128 } }
impl VIt {
    #[verifier::external_body]
    pub fn v_take(self, n: usize) -> (r: VIt) ensures r.0@ == self.0@.take(if (n as int) < self.0@.len() { n as int } else { self.0@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_rev(self) -> (r: VIt) ensures r.0@ == self.0@.reverse() { unimplemented!() }
    /// fold with a function that shifts in one digit
    #[verifier::external_body]
    pub fn v_fold<F: FnMut(u128, &usize) -> u128>(self, init: u128, f: F) -> (r: u128)
        requires forall|b: u128, i: &usize| f.requires((b, i)), forall|a: u128, i: &usize, b: u128| f.ensures((a, i), b) ==> b as int == hstep(a, *i),
        ensures r == hfold(init, self.0@),
    { unimplemented!() }
}
pub open spec fn B2() -> int { 0x1_0000_0000_0000_0000_0000_0000_0000_0000int }
/// the number read from the top j of the k low digits
pub open spec fn bhi(s: Seq<usize>, k: nat, j: nat) -> int decreases j { if j == 0 { 0 } else { bhi(s, k, (j - 1) as nat) * BB() + dg(s, k - j) } }
pub proof fn lemma_bhi(s: Seq<usize>, k: nat, j: nat)
    requires j <= k,
    ensures val(s, k) == bhi(s, k, j) * pw((k - j) as nat) + val(s, (k - j) as nat), bhi(s, k, j) >= 0,
    decreases j,
{
    if j > 0 {
        lemma_bhi(s, k, (j - 1) as nat);
        let m = (k - j) as nat;
        lemma_val_step(s, m); lemma_pw_step(m);
        let h = bhi(s, k, (j - 1) as nat); let p = pw(m); let d = dg(s, m as int);
        assert(h * (BB() * p) + d * p == (h * BB() + d) * p) by(nonlinear_arith);
        assert(h * BB() + d >= 0) by(nonlinear_arith) requires h >= 0, d >= 0, BB() >= 0;
    }
}
/// one step of accumulating in 128 bits
pub proof fn lemma_acc_step(x: int, d: int)
    requires x >= 0, 0 <= d < BB(),
    ensures ((x % B2()) % BB()) * BB() + d == (x * BB() + d) % B2(),
{
    let y = x % B2();
    lemma_fundamental_div_mod(x, B2()); lemma_mod_bound(x, B2());
    lemma_fundamental_div_mod(y, BB()); lemma_mod_bound(y, BB());
    let q = x / B2(); let p = y / BB(); let z = y % BB();
    assert(x * BB() + d == (q * BB() + p) * B2() + (z * BB() + d)) by(nonlinear_arith)
        requires x == B2() * q + y, y == BB() * p + z, B2() == BB() * BB();
    assert(0 <= z * BB() + d < B2()) by(nonlinear_arith) requires 0 <= z < BB(), 0 <= d < BB(), B2() == BB() * BB();
    lemma_div_mod_unique(x * BB() + d, B2(), q * BB() + p, z * BB() + d);
}
pub proof fn lemma_hstep(a: u128, i: usize)
    ensures 0 <= hstep(a, i) < B2(),
{ lemma_mod_bound(a as int, BB()); let z = a as int % BB(); let d = i as int; assert(0 <= z * BB() + d < B2()) by(nonlinear_arith) requires 0 <= z < BB(), 0 <= d < BB(), B2() == BB() * BB(); }
pub proof fn lemma_shift_in(a: u128, i: usize)
    ensures ((a << 64u32) | (i as u128)) as int == hstep(a, i),
{
    lemma_hstep(a, i);
    let z: u128 = a % 0x1_0000_0000_0000_0000u128;
    assert((a << 64u32) | (i as u128) == z * 0x1_0000_0000_0000_0000u128 + (i as u128)) by(bit_vector) requires z == a % 0x1_0000_0000_0000_0000u128;
    assert(z * 0x1_0000_0000_0000_0000 + i as int <= u128::MAX) by(nonlinear_arith) requires z < 0x1_0000_0000_0000_0000, i < 0x1_0000_0000_0000_0000;
}
pub proof fn lemma_fold(s: Seq<usize>, k: nat, j: nat)
    requires j <= k <= s.len(),
    ensures hfold(0, s.take(k as int).reverse().take(j as int)) as int == bhi(s, k, j) % B2(),
    decreases j,
{
    let r = s.take(k as int).reverse();
    if j == 0 { lemma_small_mod(0, B2() as nat); }
    else {
        let i = (j - 1) as nat;
        lemma_fold(s, k, i); lemma_bhi(s, k, i);
        let t = r.take(j as int);
        assert(t.drop_last() =~= r.take(i as int));
        assert(t.last() == s[k - j]);
        lemma_hstep(hfold(0, t.drop_last()), t.last());
        lemma_acc_step(bhi(s, k, i), dg(s, k - j));
    }
}
/// the whole of it: the low bits survive
pub proof fn lemma_trunc(s: Seq<usize>, k: nat, m: int, c: int, e: int)
    requires k <= s.len(), m > 0, c > 0, m * c == B2(), k == s.len() || pw(k) == m * e,
    ensures hfold(0, s.take(k as int).reverse()) as int % m == num(s) % m,
{
    lemma_fold(s, k, k); lemma_bhi(s, k, k); lemma_pw_step(0); lemma_val_step(s, 0);
    assert(s.take(k as int).reverse().take(k as int) =~= s.take(k as int).reverse());
    let v = val(s, k);
    assert(bhi(s, k, k) * 1 == bhi(s, k, k));
    // v mod m*c mod m
    lemma_mod_mod(v, m, c);
    if k < s.len() {
        let t = lemma_tail(s, k, s.len());
        assert(t * (m * e) == (t * e) * m) by(nonlinear_arith);
        lemma_mod_multiples_vanish(t * e, v, m);
        assert(m * (t * e) + v == num(s)) by(nonlinear_arith) requires num(s) == v + (t * e) * m;
    }
}
pub proof fn lemma_tail(s: Seq<usize>, k: nat, n: nat) -> (t: int)
    requires k <= n,
    ensures val(s, n) == val(s, k) + t * pw(k),
    decreases n - k,
{
    if k == n { assert(0 * pw(k) == 0); 0 }
    else {
        let t = lemma_tail(s, k, (n - 1) as nat);
        lemma_val_step(s, (n - 1) as nat);
        lemma_pw_add(k, (n - 1 - k) as nat);
        let d = dg(s, n - 1); let p = pw((n - 1 - k) as nat);
        assert(d * (pw(k) * p) == (d * p) * pw(k)) by(nonlinear_arith);
        assert(t * pw(k) + (d * p) * pw(k) == (t + d * p) * pw(k)) by(nonlinear_arith);
        t + d * p
    }
}
pub proof fn lemma_neg_mod(a: int, b: int, m: int)
    requires m > 0, a % m == b % m,
    ensures (-a) % m == (-b) % m,
{
    lemma_fundamental_div_mod(a, m); lemma_fundamental_div_mod(b, m);
    let t = b / m - a / m;
    assert(-a == m * t + (-b)) by(nonlinear_arith) requires a == m * (a / m) + a % m, b == m * (b / m) + b % m, a % m == b % m, t == b / m - a / m;
    lemma_mod_multiples_vanish(t, -b, m);
}
}
pub use bconvmath::*;
//%for S,U,M,H,LO,K in i8,u8,0x100int,0x7f,-0x80,1 i16,u16,0x10000int,0x7fff,-0x8000,1 i32,u32,0x100000000int,0x7fffffff,-0x80000000,1 i64,u64,0x10000000000000000int,0x7fffffffffffffff,-0x8000000000000000,1 i128,u128,0x100000000000000000000000000000000int,0x7fffffffffffffffffffffffffffffffint,-0x80000000000000000000000000000000int,2 isize,usize,0x10000000000000000int,0x7fffffffffffffff,-0x8000000000000000,1
impl Rng for $S { open spec fn lo() -> int { $S::MIN as int } open spec fn hi() -> int { $S::MAX as int } open spec fn modulus() -> int { $M } }
impl Rng for $U { open spec fn lo() -> int { 0 } open spec fn hi() -> int { $U::MAX as int } open spec fn modulus() -> int { $M } }
pub mod b_$U {
use super::*;
//@fn arr_size<$U> ints/src/big_int.rs fn:arr_size pub subst=T->$U name=arr_size_t
    ensures r >= $K, r <= 64,
//@endfn
/// int_to_arr (proved for every array length in split_$U), the array length passed as a value
#[verifier::external_body]
pub fn v_split(n: usize, x: $U) -> (r: Vec<usize>)
    requires n > 0,
    ensures r@.len() == n, num(r@) == x as int % pw(n as nat), (x as int) < pw(n as nat) ==> num(r@) == x,
{ unimplemented!() }
proof fn lemma_room(n: nat)
    requires n >= $K,
    ensures pw(n) >= $M, forall|k: nat| k >= $K ==> #[trigger] pw(k) == $M * (pw(k) / $M),
{
    lemma_pw_mono($K, n); lemma_pw_step(0); lemma_pw_step(1);
    assert forall|k: nat| k >= $K implies #[trigger] pw(k) == $M * (pw(k) / $M) by {
        lemma_pw_add($K, (k - $K) as nat); lemma_pw_step(0); lemma_pw_step(1);
        let c: int = pw($K) / $M;
        assert(pw($K) == $M * c);
        let p = pw((k - $K) as nat);
        assert(pw(k) == $M * (c * p)) by(nonlinear_arith) requires pw(k) == pw($K) * p, pw($K) == $M * c;
        lemma_div_multiples_vanish(c * p, $M);
    }
}
impl VFrom<$S> for BigInt {
//@fn BigInt::from($S) @ints impl:From<$S>~for~BigInt/from name=v_from params=v calls=BigInt::new_slice::<&[usize]>->BigInt::new_slice_s;int_to_arr@->v_split;arr_size::<$U>->arr_size_t
//@entry
    proof { assert forall|n: nat| n >= $K implies #[trigger] pw(n) >= $M by { lemma_room(n); } }
//@endfn
}
impl VFrom<$U> for BigInt {
//@fn BigInt::from($U) @ints impl:From<$U>~for~BigInt/from name=v_from params=v calls=BigInt::new_slice::<&[usize]>->BigInt::new_slice_s;int_to_arr@->v_split;arr_size::<$U>->arr_size_t
//@entry
    proof { assert forall|n: nat| n >= $K implies #[trigger] pw(n) >= $M by { lemma_room(n); } }
//@endfn
}
proof fn lemma_room_all()
    ensures forall|k: nat| k >= $K ==> #[trigger] pw(k) >= $M && pw(k) == $M * (pw(k) / $M),
{ assert forall|k: nat| k >= $K implies #[trigger] pw(k) >= $M && pw(k) == $M * (pw(k) / $M) by { lemma_room(k); } }
impl VTry for $S {
//@fn $S::try_from(&BigInt) @ints impl:TryFrom<&BigInt>~for~$S/try_from name=v_try_from_r params=bi subst=Self::Error->OutOfRangeError ops=@num calls=BigInt::from-><BigInt~as~VFrom<$S>>::v_from;arr_to_int->join_$U::arr_to_int
//@entry
    proof { lemma_wf(*bi); assert forall|x: $U| #![trigger x as $S] (x <= $H ==> (x as $S) as int == x) && (x == $H + 1 ==> (x as $S) == $S::MIN) by { lemma_as2(x); } }
//@closure 0
&[usize] -> Option<$U>
    requires __a0@ == bi.digits()
    ensures bi.mag() < $M ==> __r == Some(bi.mag() as $U), bi.mag() >= $M ==> __r is None
//@endfn
//@fn $S::try_from(BigInt) @ints impl:TryFrom<BigInt>~for~$S/try_from name=v_try_from_o params=bi subst=Self::Error->OutOfRangeError calls=<$SasTryFrom<_>>::try_from-><$S~as~VTry>::v_try_from_r
//@endfn
}
impl VCast for $S {
//@fn $S::from_checked(BigInt) @ints impl:numeric_traits::cast::FromChecked<BigInt>~for~$S/from_checked name=v_from_checked params=val methods=try_into->v_try_into
//@endfn
//@fn $S::saturate_from(BigInt) @ints impl:numeric_traits::cast::FromSaturating<BigInt>~for~$S/saturate_from name=v_saturate_from params=val methods=try_into->v_try_into
//@endfn
//@fn $S::truncate_from(BigInt) @ints impl:numeric_traits::cast::FromTruncating<BigInt>~for~$S/truncate_from name=v_truncate_from params=val calls=<$Uasnumeric_traits::cast::FromTruncating<BigInt>>::truncate_from-><$U~as~VCast>::v_truncate_from
//@entry
    proof { assert forall|x: $U| #![trigger x as $S] (x as $S) as int % $M == x as int % $M by { lemma_as(x); } }
//@endfn
}
proof fn lemma_as2(x: $U)
    ensures (x <= $H ==> (x as $S) as int == x) && (x == $H + 1 ==> (x as $S) == $S::MIN),
{
    assert(x <= $S::MAX as $U ==> (x as $S) as int == x as int) by(bit_vector);
    assert(x == ($S::MAX as $U) + 1 ==> (x as $S) == $S::MIN) by(bit_vector);
}
proof fn lemma_as(x: $U)
    ensures (x as $S) as int % $M == x as int % $M,
{
    let y = x as $S;
    if x <= $H { assert(x <= $S::MAX as $U ==> y as int == x as int) by(bit_vector) requires y == x as $S; }
    else {
        assert(x > $S::MAX as $U ==> y < 0 && (y as $U) == x) by(bit_vector) requires y == x as $S;
        assert(y as int == x as int - $M) by(bit_vector) requires y == x as $S, x > $H;
        lemma_mod_multiples_vanish(-1, x as int, $M);
    }
}
impl VTry for $U {
//@fn $U::try_from(&BigInt) @ints impl:TryFrom<&BigInt>~for~$U/try_from name=v_try_from_r params=bi subst=Self::Error->OutOfRangeError ops=@num calls=BigInt::from-><BigInt~as~VFrom<$U>>::v_from;arr_to_int->join_$U::arr_to_int
//@entry
    proof { lemma_wf(*bi); }
//@closure 0
&[usize] -> Option<$U>
    requires __a0@ == bi.digits()
    ensures bi.mag() < $M ==> __r == Some(bi.mag() as $U), bi.mag() >= $M ==> __r is None
//@endfn
//@fn $U::try_from(BigInt) @ints impl:TryFrom<BigInt>~for~$U/try_from name=v_try_from_o params=bi subst=Self::Error->OutOfRangeError calls=<$UasTryFrom<_>>::try_from-><$U~as~VTry>::v_try_from_r
//@endfn
}
impl VCast for $U {
//@fn $U::from_checked(BigInt) @ints impl:numeric_traits::cast::FromChecked<BigInt>~for~$U/from_checked name=v_from_checked params=val methods=try_into->v_try_into
//@endfn
//@fn $U::saturate_from(BigInt) @ints impl:numeric_traits::cast::FromSaturating<BigInt>~for~$U/saturate_from name=v_saturate_from params=val methods=try_into->v_try_into
//@endfn
//@fn $U::truncate_from(BigInt) @ints impl:numeric_traits::cast::FromTruncating<BigInt>~for~$U/truncate_from name=v_truncate_from params=val calls=arr_size::<$U>->arr_size_t methods=iter->v_iter;take->v_take;rev->v_rev;fold->v_fold
//@attr
#[verifier::truncate]
//@entry
    proof {
        lemma_wf(val); lemma_room_all();
        let dd = val.digits();
        assert forall|k: int| #![trigger dd.take(k)] 0 <= k <= dd.len() && (k == dd.len() || k >= $K) implies hfold(0, dd.take(k).reverse()) as int % $M == num(dd) % $M by {
            lemma_trunc(dd, k as nat, $M, B2() / $M, pw(k as nat) / $M);
        }
        assert forall|a: u128, i: usize| #![trigger ((a << usize::BITS) | (i as u128))] ((a << usize::BITS) | (i as u128)) as int == hstep(a, i) by { lemma_shift_in(a, i); }
        assert forall|a: u128| #![trigger a as $U] (a as $U) as int == a as int % $M by { assert((a as $U) as int == a as int % $M) by(bit_vector); }
        lemma_neg_mod_all(val.mag());
    }
//@closure 0
u128; &usize -> u128
    ensures __r as int == hstep(__a0, *__a1)
//@closure 1
&[usize] -> u128
    requires __a0@ == val.digits()
    ensures __r as int % $M == val.mag() % $M
//@endfn
}
proof fn lemma_neg_mod_all(a: int)
    ensures forall|b: int| #![trigger b % $M] b % $M == a % $M ==> (-b) % $M == (-a) % $M,
{ assert forall|b: int| #![trigger b % $M] b % $M == a % $M implies (-b) % $M == (-a) % $M by { lemma_neg_mod(b, a, $M); } }
impl VPCmp<$S> for BigInt {
//@fn BigInt::eq($S) @ints impl:PartialEq<$S>~for~BigInt/eq name=v_peq params=other ops===->v_eq calls=int_to_arr@->v_split;arr_size::<$U>->arr_size_t
//@entry
    let ghost oth = *other as int;
    proof { lemma_wf(*self); lemma_room_all(); assert forall|t: Seq<usize>| #![trigger num(t)] norm(t) && t.len() >= 1 implies (self.mag() == num(t)) == (self.digits() == t) by { lemma_same(self.digits(), t); } }
//@closure 0
&[usize] -> bool
    requires __a0@ == self.digits()
    ensures __r == (self.mag() == iabs(oth))
//@endfn
//@fn BigInt::partial_cmp($S) @ints impl:PartialOrd<$S>~for~BigInt/partial_cmp name=v_ppc params=other calls=BigInt::cmp->BigInt::v_cmp;BigInt::from-><BigInt~as~VFrom<$S>>::v_from
//@endfn
}
impl VPCmp<$U> for BigInt {
//@fn BigInt::eq($U) @ints impl:PartialEq<$U>~for~BigInt/eq name=v_peq params=other ops===->v_eq calls=int_to_arr@->v_split;arr_size::<$U>->arr_size_t
//@entry
    let ghost oth = *other as int;
    proof { lemma_wf(*self); lemma_room_all(); assert forall|t: Seq<usize>| #![trigger num(t)] norm(t) && t.len() >= 1 implies (self.mag() == num(t)) == (self.digits() == t) by { lemma_same(self.digits(), t); } }
//@closure 0
&[usize] -> bool
    requires __a0@ == self.digits()
    ensures __r == (self.mag() == oth)
//@endfn
//@fn BigInt::partial_cmp($U) @ints impl:PartialOrd<$U>~for~BigInt/partial_cmp name=v_ppc params=other calls=BigInt::cmp->BigInt::v_cmp;BigInt::from-><BigInt~as~VFrom<$U>>::v_from
//@endfn
}
}
//%endfor

pub mod bshift {
use super::*;
impl VShl<&BigInt> for &BigInt {
//@fn BigInt::shl @ints impl:core::ops::Shl<&BigInt>~for~&BigInt/shl name=v_shl subst=Self::Output->BigInt params=rhs calls=BigInt::new_slice->BigInt::new_slice_v;usize::try_from-><usize~as~VTry>::v_try_from_r methods=expect->v_expect
//@entry
    proof { lemma_wf(*self); lemma_wf(*rhs); lemma_sgn_mul(self.iv(), pow2(rhs.iv() as nat) as int); lemma_pow2_pos(rhs.iv() as nat); }
//@closure 0
&[usize]; &[usize] -> Vec<usize>
    requires __a0@ == self.digits()
    ensures 0 <= rhs.iv() <= usize::MAX, num(__r@) == self.mag() * pow2(rhs.iv() as nat), 1 <= __r@.len() < usize::MAX
//@endfn
}
impl VShr<&BigInt> for &BigInt {
//@fn BigInt::shr @ints impl:core::ops::Shr<&BigInt>~for~&BigInt/shr name=v_shr subst=Self::Output->BigInt params=rhs calls=BigInt::new_slice->BigInt::new_slice_v;usize::try_from-><usize~as~VTry>::v_try_from_r methods=expect->v_expect
//@entry
    proof { lemma_wf(*self); lemma_wf(*rhs); lemma_pow2_pos(rhs.iv() as nat); }
//@closure 0
&[usize]; &[usize] -> Vec<usize>
    requires __a0@ == self.digits()
    ensures 0 <= rhs.iv() <= usize::MAX, num(__r@) == self.mag() / (pow2(rhs.iv() as nat) as int), 1 <= __r@.len() <= BIGLEN()
//@endfn
}
//%for N,F,BOP in BitAnd,bitand,&& BitOr,bitor,|| BitXor,bitxor,!=
impl V$N<&BigInt> for &BigInt {
//@fn BigInt::$F @ints impl:core::ops::$N<&BigInt>~for~&BigInt/$F name=v_$N subst=Self::Output->BigInt params=rhs calls=BigInt::new_slice->BigInt::new_slice_v
//@entry
    proof { lemma_wf(*self); lemma_wf(*rhs); assert forall|s: Seq<Limb>| #[trigger] num(s) >= 0 by { lemma_num_bound(s); } }
//@closure 0
&[usize]; &[usize] -> Vec<usize>
    requires __a0@ == self.digits(), __a1@ == rhs.digits()
    ensures num(__r@) >= 0, forall|i: nat| #[trigger] nbit(num(__r@), i) == (nbit(self.mag(), i) $BOP nbit(rhs.mag(), i)), 1 <= __r@.len() <= BIGLEN()
//@tail
    proof { }
//@endfn
}
//%endfor
//%for M,m,f in Shl,shl,shl Shr,shr,shr BitAnd,BitAnd,bitand BitOr,BitOr,bitor BitXor,BitXor,bitxor
impl V$M<BigInt> for BigInt {
//@fn BigInt::$f(BigInt,BigInt) @ints impl:core::ops::$M<BigInt>~for~BigInt/$f name=v_$m subst=Self::Output->BigInt params=rhs calls=<&BigIntascore::ops::$M<&BigInt>>::$f-><&BigInt~as~V$M<&BigInt>>::v_$m
//@endfn
}
impl V$M<&BigInt> for BigInt {
//@fn BigInt::$f(BigInt,&BigInt) @ints impl:core::ops::$M<&BigInt>~for~BigInt/$f name=v_$m subst=Self::Output->BigInt params=rhs calls=<&BigIntascore::ops::$M<&BigInt>>::$f-><&BigInt~as~V$M<&BigInt>>::v_$m
//@endfn
}
impl V$M<BigInt> for &BigInt {
//@fn BigInt::$f(&BigInt,BigInt) @ints impl:core::ops::$M<BigInt>~for~&BigInt/$f name=v_$m subst=Self::Output->BigInt params=rhs calls=<&BigIntascore::ops::$M<&BigInt>>::$f-><&BigInt~as~V$M<&BigInt>>::v_$m
//@endfn
}
//%endfor
}
//%for T in u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
pub mod bp_$T {
use super::*;
//%for M,m,O in Add,add,+ Sub,sub,- Mul,mul,* Div,div,/ Rem,rem,%
impl V$M<$T> for BigInt {
//@fn BigInt::$m($T) @ints impl:core::ops::$M<$T>~for~BigInt/$m name=v_$m params=other ops=$O->v_$m calls=BigInt::from-><BigInt~as~VFrom<$T>>::v_from
//@endfn
}
impl V$MAssign<$T> for BigInt {
    open spec fn vw(&self) -> bool { self.wf() }
    open spec fn vi(&self) -> int { self.iv() }
//@fn BigInt::$m_assign($T) @ints impl:core::ops::$MAssign<$T>~for~BigInt/$m_assign name=v_$m_assign params=other ops=$O->v_$m calls=BigInt::from-><BigInt~as~VFrom<$T>>::v_from
//@endfn
}
//%endfor
//%for M,m,O in Shl,shl,<< Shr,shr,>>
impl V$M<$T> for BigInt {
//@fn BigInt::$m($T) @ints impl:core::ops::$M<$T>~for~BigInt/$m name=v_$m params=other ops=$O->v_$m calls=BigInt::from-><BigInt~as~VFrom<$T>>::v_from
//@endfn
}
//%endfor
}
//%endfor
pub mod bpow {
use super::*;
use vstd::arithmetic::power::*;
impl BigInt {
//@fn BigInt::pow ints/src/big_int.rs impl:Pow<BigInt>~for~BigInt/pow pub name=v_pow subst=Self::Output->BigInt params=rhs ops===->v_eqi;>->v_gti;<->v_lti;>=->v_gei;<=->v_lei;*=->v_mul_assign;-=->v_sub_assign;+=->v_add_assign;/=->v_div_assign methods=clone->v_clone calls=BigInt::from-><BigInt~as~VFrom<i32>>::v_from
    requires self.wf(), rhs.wf(), rhs.iv() >= 0,
    ensures r.wf(), r.iv() == pow(self.iv(), rhs.iv() as nat),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost e0 = rhs.iv();
    proof { lemma_wf(self); lemma_wf(rhs); lemma_pow0(self.iv()); lemma_pow1(self.iv()); }
//@loop 0
    invariant rhs.wf(), out.wf(), 1 <= rhs.iv() <= e0, out.iv() == pow(self.iv(), (e0 - rhs.iv() + 1) as nat),
    decreases rhs.iv(),
//@start 0
    proof { let k = (e0 - rhs.iv() + 1) as nat; lemma_pow_adds(self.iv(), k, 1); lemma_pow1(self.iv()); }
//@endfn
}
}
