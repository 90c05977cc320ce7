/// fixed-length iterators: contracts assumed here, examined under P26
pub mod sit {
use super::*;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SIter<T, const N: usize> { a: core::marker::PhantomData<[T; N]> }
impl<T, const N: usize> View for SIter<T, N> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T, const N: usize> SIter<T, N> {
    #[verifier::external_body]
    pub fn zip<T2>(self, o: SIter<T2, N>) -> (r: SIter<(T, T2), N>)
        ensures r@.len() == N, forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == (self@[i], o@[i]), { unimplemented!() }
    #[verifier::external_body]
    pub fn map<T2, F: Fn(T) -> T2>(self, f: F) -> (r: SIter<T2, N>)
        requires forall|i: int| 0 <= i < N ==> f.requires((self@[i],)),
        ensures r@.len() == N, forall|i: int| 0 <= i < N ==> f.ensures((self@[i],), #[trigger] r@[i]), { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: [T; N]) ensures r@ == self@, { unimplemented!() }
}
pub trait VArr<const N: usize>: Sized {
    spec fn va(&self) -> Seq<u8>;
    fn into_static_iter(self) -> (r: SIter<u8, N>) ensures r@ == self.va(), r@.len() == N;
    fn v_map<F: Fn(u8) -> u8>(self, f: F) -> (r: [u8; N])
        requires forall|i: int| 0 <= i < N ==> f.requires((self.va()[i],)),
        ensures forall|i: int| 0 <= i < N ==> f.ensures((self.va()[i],), #[trigger] r@[i]);
    fn v_arr_eq(self, o: Self) -> (r: bool) ensures r == (self.va() == o.va());
}
impl<const N: usize> VArr<N> for [u8; N] {
    open spec fn va(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn into_static_iter(self) -> (r: SIter<u8, N>) { unimplemented!() }
    #[verifier::external_body]
    fn v_map<F: Fn(u8) -> u8>(self, f: F) -> (r: [u8; N]) { self.map(f) }
    #[verifier::external_body]
    fn v_arr_eq(self, o: Self) -> (r: bool) { self == o }
}
/// `array::from_fn`
#[verifier::external_body]
pub fn v_from_fn<const N: usize, F: Fn(usize) -> u8>(f: F) -> (r: [u8; N])
    requires forall|i: usize| i < N ==> f.requires((i,)),
    ensures forall|i: int| 0 <= i < N ==> f.ensures((i as usize,), #[trigger] r@[i]),
{ core::array::from_fn(f) }
/// `iter::repeat_n`
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VRep<T> { a: core::marker::PhantomData<T> }
pub uninterp spec fn rep_val<T>(r: VRep<T>) -> T;
pub uninterp spec fn rep_n<T>(r: VRep<T>) -> nat;
#[verifier::external_body]
pub fn v_repeat_n<T: Copy>(x: T, n: usize) -> (r: VRep<T>) ensures rep_val(r) == x, rep_n(r) == n { unimplemented!() }
pub open spec fn fold_run<T, B, F: Fn(B, T) -> B>(f: F, x: T, n: nat, init: B, s: Seq<B>, r: B) -> bool {
    s.len() == n + 1 && s[0] == init && s[n as int] == r && forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] s[i], x), s[i + 1])
}
impl<T: Copy> VRep<T> {
    /// `Iterator::fold` over n copies: there is a run of states
    #[verifier::external_body]
    pub fn v_fold<B, F: Fn(B, T) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|b: B| f.requires((b, rep_val(self))),
        ensures exists|s: Seq<B>| #[trigger] fold_run(f, rep_val(self), rep_n(self), init, s, r),
    { unimplemented!() }
}
}
pub use sit::*;
pub open spec fn sz(n: usize) -> bool { n <= 0x3f_ffff_ffff_ffff }
pub mod uidmath {
use super::*;
pub proof fn lemma_all_max(s: Seq<u8>, k: nat)
    requires k <= s.len(), forall|i: int| 0 <= i < s.len() ==> s[i] == 0xffu8,
    ensures val(s, k) == pw(k) - 1,
    decreases k,
{
    if k == 0 { lemma_val_step(s, 0); lemma_pw_step(0); }
    else { let j = (k - 1) as nat; lemma_all_max(s, j); lemma_val_step(s, j); lemma_pw_step(j);
        assert(255 * pw(j) == 256 * pw(j) - pw(j)); }
}
pub proof fn lemma_is_one(s: Seq<u8>)
    requires s.len() >= 1,
    ensures (num(s) == 1) == (s[0] == 1 && forall|i: int| 1 <= i < s.len() ==> s[i] == 0),
{
    let o = Seq::new(s.len(), |i: int| if i == 0 { 1u8 } else { 0u8 });
    lemma_val_step(o, 0); lemma_pw_step(0); lemma_val_zeros(o, 1, s.len());
    assert(num(o) == 1);
    if num(s) == 1 {
        lemma_unique(s, o, s.len());
        assert(dg(s, 0) == dg(o, 0));
        assert forall|i: int| 1 <= i < s.len() implies s[i] == 0 by { assert(dg(s, i) == dg(o, i)); }
    }
    if s[0] == 1 && forall|i: int| 1 <= i < s.len() ==> s[i] == 0 { assert(s =~= o); }
}
}
pub use uidmath::*;
