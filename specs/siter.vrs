// fixed-length iterators
pub mod siter {
use super::*;
/// core::ops::ControlFlow
pub enum ControlFlow<B, C> { Continue(C), Break(B) }
use core::convert::Infallible;

/// MaybeUninit: a slot that holds a value or not (trusted: write and assume_init)
pub struct VSlot<T>(pub Option<T>);
impl<T> VSlot<T> {
    #[verifier::external_body]
    pub fn uninit() -> (r: Self) ensures r.0 is None { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, val: T) ensures final(self).0 == Some(val) { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init(self) -> (r: T) requires self.0 is Some, ensures self.0 == Some(r) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_uninit_arr<T, const N: usize>() -> (r: [VSlot<T>; N]) ensures forall|i: int| 0 <= i < N ==> (#[trigger] r[i]).0 is None { unimplemented!() }
pub trait VGet<T, const N: usize> { spec fn sl(&self) -> Seq<VSlot<T>>; fn v_get_mut(&mut self, i: usize) -> (r: &mut VSlot<T>) requires i < N, ensures *r == old(self).sl()[i as int], final(self).sl() == old(self).sl().update(i as int, *final(r)); }
impl<T, const N: usize> VGet<T, N> for [VSlot<T>; N] {
    open spec fn sl(&self) -> Seq<VSlot<T>> { self@ }
    /// `get_unchecked_mut`
    #[verifier::external_body]
    fn v_get_mut(&mut self, i: usize) -> (r: &mut VSlot<T>) { unimplemented!() }
}
/// `transmute_copy` between arrays of values and of slots
#[verifier::external_body]
pub fn v_from_slots<T, const N: usize>(a: &[VSlot<T>; N]) -> (r: [T; N])
    requires forall|i: int| 0 <= i < N ==> (#[trigger] a[i]).0 is Some,
    ensures forall|i: int| 0 <= i < N ==> a[i].0 == Some(#[trigger] r[i]) { unimplemented!() }
#[verifier::external_body]
pub fn v_to_slots<T, const N: usize>(a: &[T; N]) -> (r: [VSlot<T>; N])
    ensures forall|i: int| 0 <= i < N ==> (#[trigger] r[i]).0 == Some(a[i]) { unimplemented!() }
#[verifier::external_body]
pub fn v_forget<T>(x: T) { unimplemented!() }
#[verifier::external_body]
pub fn v_replace<T>(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s { unimplemented!() }
/// an array filled in index order (array::from_fn, array::map)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VBuild<T, const N: usize> { a: core::marker::PhantomData<[T; N]> }
impl<T, const N: usize> View for VBuild<T, N> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T, const N: usize> VBuild<T, N> {
    #[verifier::external_body]
    pub fn v_new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_push(&mut self, x: T) requires old(self)@.len() < N, ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_finish(self) -> (r: [T; N]) requires self@.len() == N, ensures r@ == self@ { unimplemented!() }
}
/// the index protocol: each index once, in order, below N; `gives(i, x)`: item i may be x
pub trait StaticIter<const N: usize>: Sized {
    type Item;
    /// ready to deliver item k and then the rest in order
    spec fn at(&self, k: int) -> bool;
    spec fn gives(&self, i: int, x: Self::Item) -> bool;
    fn idx(&mut self, idx: usize) -> (r: Self::Item)
        requires old(self).at(idx as int), idx < N,
        ensures final(self).at(idx + 1), old(self).gives(idx as int, r),
            forall|i: int, x: Self::Item| #![trigger final(self).gives(i, x)] #![trigger old(self).gives(i, x)] i > idx ==> final(self).gives(i, x) == old(self).gives(i, x);
}
pub trait IntoStaticIter<const N: usize>: Sized {
    type Item;
    type Iter: StaticIter<N, Item = Self::Item>;
    spec fn fresh(self) -> bool;
    spec fn src(self, i: int, x: Self::Item) -> bool;
    fn into_static_iter(self) -> (r: Self::Iter)
        requires self.fresh(),
        ensures r.at(0), forall|i: int, x: Self::Item| #![trigger r.gives(i, x)] #![trigger self.src(i, x)] 0 <= i < N ==> r.gives(i, x) == self.src(i, x);
}
pub open spec fn all_ready<const N: usize, I: StaticIter<N>>(it: I) -> bool { it.at(0) }
/// a state that folding the first n items can reach
pub open spec fn reach<const N: usize, I: StaticIter<N>, T, F: Fn(T, I::Item) -> T>(it: I, f: F, start: T, n: int, a: T) -> bool
    decreases n,
{
    if n <= 0 { a == start } else { exists|b: T, x: I::Item| #![trigger it.gives(n - 1, x), f.ensures((b, x), a)] reach(it, f, start, n - 1, b) && it.gives(n - 1, x) && f.ensures((b, x), a) }
}
/// the same for a fold that may stop
pub open spec fn treach<const N: usize, I: StaticIter<N>, T, E, F: Fn(T, I::Item) -> Result<T, E>>(it: I, f: F, start: T, n: int, a: T) -> bool
    decreases n,
{
    if n <= 0 { a == start } else { exists|b: T, x: I::Item| #![trigger it.gives(n - 1, x), f.ensures((b, x), Ok(a))] treach(it, f, start, n - 1, b) && it.gives(n - 1, x) && f.ensures((b, x), Ok(a)) }
}
/// stopped by item n
pub open spec fn tstop<const N: usize, I: StaticIter<N>, T, E, F: Fn(T, I::Item) -> Result<T, E>>(it: I, f: F, start: T, n: int, e: E) -> bool {
    exists|b: T, x: I::Item| #![trigger it.gives(n, x), f.ensures((b, x), Err(e))] treach(it, f, start, n, b) && it.gives(n, x) && f.ensures((b, x), Err(e))
}
/// the first n items can all fail the test
pub open spec fn passes<const N: usize, I: StaticIter<N>, F: Fn(I::Item) -> bool>(it: I, f: F, n: int, b: bool) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] test_at(it, f, i, b)
}
pub open spec fn test_at<const N: usize, I: StaticIter<N>, F: Fn(I::Item) -> bool>(it: I, f: F, i: int, b: bool) -> bool {
    exists|x: I::Item| it.gives(i, x) && #[trigger] f.ensures((x,), b)
}
/// v is the sum (product) of a choice of the first n items
pub open spec fn sums<const N: usize, I: StaticIter<N>>(it: I, n: int, v: int) -> bool where I::Item: VInt
    decreases n,
{ if n <= 0 { v == 0 } else { exists|x: I::Item| #[trigger] it.gives(n - 1, x) && sums(it, n - 1, v - x.ov()) } }
pub open spec fn prods<const N: usize, I: StaticIter<N>>(it: I, n: int, v: int) -> bool where I::Item: VInt
    decreases n,
{ if n <= 0 { v == 1 } else { exists|x: I::Item, u: int| #![trigger it.gives(n - 1, x), pmul(u, x.ov())] it.gives(n - 1, x) && prods(it, n - 1, u) && v == pmul(u, x.ov()) } }
pub open spec fn pmul(a: int, b: int) -> int { a * b }
/// targets of collect: `built(r, s)`: r is what reading the items s gives, and s is all of them or stops at the item that decides
pub trait FromSpec<T, const N: usize>: Sized {
    type Uninit;
    type Break;
    spec fn upto(u: Self::Uninit, s: Seq<T>) -> bool;
    spec fn broke(b: Self::Break, s: Seq<T>) -> bool;
    spec fn built(r: Self, s: Seq<T>) -> bool;
}
pub open spec fn has_upto<T, const N: usize, C: FromSpec<T, N>>(u: C::Uninit, n: int) -> bool { exists|s: Seq<T>| s.len() == n && #[trigger] C::upto(u, s) }
pub open spec fn has_broke<T, const N: usize, C: FromSpec<T, N>>(b: C::Break) -> bool { exists|s: Seq<T>| #[trigger] C::broke(b, s) }
pub open spec fn fin_upto<T, const N: usize, C: FromSpec<T, N>>(u: C::Uninit, r: C) -> bool { forall|s: Seq<T>| s.len() == N && #[trigger] C::upto(u, s) ==> C::built(r, s) }
pub open spec fn fin_broke<T, const N: usize, C: FromSpec<T, N>>(b: C::Break, r: C) -> bool { forall|s: Seq<T>| #[trigger] C::broke(b, s) ==> C::built(r, s) }
pub open spec fn wr_upto<T, const N: usize, C: FromSpec<T, N>>(u: C::Uninit, n: int, val: T, v: C::Uninit) -> bool { forall|s: Seq<T>| s.len() == n && #[trigger] C::upto(u, s) ==> C::upto(v, s.push(val)) }
pub open spec fn wr_broke<T, const N: usize, C: FromSpec<T, N>>(u: C::Uninit, n: int, val: T, b: C::Break) -> bool { forall|s: Seq<T>| s.len() == n && #[trigger] C::upto(u, s) ==> C::broke(b, s.push(val)) }
pub open spec fn read<const N: usize, I: StaticIter<N>>(it: I, s: Seq<I::Item>) -> bool { forall|i: int| 0 <= i < s.len() ==> it.gives(i, #[trigger] s[i]) }
pub open spec fn run_upto<T, const N: usize, C: FromSpec<T, N>, I: StaticIter<N, Item = T>>(it: I, u: C::Uninit, n: int) -> bool { exists|s: Seq<T>| s.len() == n && read(it, s) && #[trigger] C::upto(u, s) }
pub open spec fn run_broke<T, const N: usize, C: FromSpec<T, N>, I: StaticIter<N, Item = T>>(it: I, b: C::Break, n: int) -> bool { exists|s: Seq<T>| s.len() <= n && read(it, s) && #[trigger] C::broke(b, s) }
/// r is what collecting gives
pub open spec fn collects<T, const N: usize, C: FromSpec<T, N>, I: StaticIter<N, Item = T>>(it: I, r: C) -> bool { exists|s: Seq<T>| s.len() <= N && read(it, s) && #[trigger] C::built(r, s) }
pub trait FromStaticIter<T, const N: usize>: FromSpec<T, N> {
    fn uninit() -> (r: Self::Uninit) ensures Self::upto(r, Seq::empty());
    fn write(this: Self::Uninit, idx: usize, val: T) -> (r: ControlFlow<Self::Break, Self::Uninit>)
        requires idx < N, has_upto::<T, N, Self>(this, idx as int),
        ensures match r { ControlFlow::Continue(u) => wr_upto::<T, N, Self>(this, idx as int, val, u), ControlFlow::Break(b) => wr_broke::<T, N, Self>(this, idx as int, val, b) };
    fn finish(this: ControlFlow<Self::Break, Self::Uninit>) -> (r: Self)
        requires match this { ControlFlow::Continue(u) => has_upto::<T, N, Self>(u, N as int), ControlFlow::Break(b) => has_broke::<T, N, Self>(b) },
        ensures match this { ControlFlow::Continue(u) => fin_upto::<T, N, Self>(u, r), ControlFlow::Break(b) => fin_broke::<T, N, Self>(b, r) };
//@fn FromStaticIter::from_static_iter static-iter/src/lib.rs trait:FromStaticIter/from_static_iter params=iter tf=ControlFlow::Continue
    requires all_ready(iter),
    ensures collects::<T, N, Self, IT0>(iter, r),
//@entry
    let ghost it0 = iter;
    proof { assert(read(it0, Seq::<T>::empty())); }
//@loop 0
    invariant __k0 <= N, __e0 == N,
        match __acc0 {
            ControlFlow::Continue(u) => iter.at(__k0 as int) && (forall|i: int, x: T| i >= __k0 ==> iter.gives(i, x) == it0.gives(i, x)) && run_upto::<T, N, Self, IT0>(it0, u, __k0 as int),
            ControlFlow::Break(b) => run_broke::<T, N, Self, IT0>(it0, b, __k0 as int) },
    decreases __e0 - __k0,
//@endfn
}

impl<T, const N: usize> FromSpec<T, N> for [T; N] {
    type Uninit = [VSlot<T>; N];
    type Break = Infallible;
    open spec fn upto(u: [VSlot<T>; N], s: Seq<T>) -> bool { s.len() <= N && forall|i: int| 0 <= i < s.len() ==> (#[trigger] u[i]).0 == Some(s[i]) }
    open spec fn broke(b: Infallible, s: Seq<T>) -> bool { false }
    open spec fn built(r: [T; N], s: Seq<T>) -> bool { s.len() == N && r@ == s }
}
impl<T, const N: usize> FromStaticIter<T, N> for [T; N] {
//@fn array::uninit static-iter/src/lib.rs impl:FromStaticIter<T,N>~for~[T;N]/uninit
//@endfn
//@fn array::write static-iter/src/lib.rs impl:FromStaticIter<T,N>~for~[T;N]/write params=this,idx,val
//@endfn
//@fn array::finish static-iter/src/lib.rs impl:FromStaticIter<T,N>~for~[T;N]/finish params=this calls=mem::transmute_copy->v_from_slots
//@tail
    proof { assert forall|s: Seq<T>| s.len() == N && #[trigger] Self::upto(c, s) implies __ret@ == s by { assert(__ret@ =~= s); } }
//@endfn
//@fn array::from_static_iter static-iter/src/lib.rs impl:FromStaticIter<T,N>~for~[T;N]/from_static_iter params=iter fromfn=N
//@entry
    let ghost it0 = iter;
//@loop 0
    invariant __k0 <= N, iter.at(__k0 as int), __b0@.len() == __k0,
        forall|i: int, x: T| i >= __k0 ==> iter.gives(i, x) == it0.gives(i, x),
        forall|i: int| 0 <= i < __k0 ==> it0.gives(i, #[trigger] __b0@[i]),
    decreases N - __k0,
//@tail
    proof { assert(Self::built(__ret, __ret@)); }
//@tailty
    [T; N]
//@endfn
}
pub open spec fn all_some<T>(s: Seq<Option<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some }
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i]->0) }
/// the last item is None and no earlier one is
pub open spec fn ends_none<T>(s: Seq<Option<T>>) -> bool { s.len() > 0 && s.last() is None && all_some(s.drop_last()) }
impl<T, C, const N: usize> FromSpec<Option<T>, N> for Option<C> where C: FromSpec<T, N> {
    type Uninit = C::Uninit;
    type Break = Option<C::Break>;
    open spec fn upto(u: C::Uninit, s: Seq<Option<T>>) -> bool { all_some(s) && C::upto(u, somes(s)) }
    open spec fn broke(b: Option<C::Break>, s: Seq<Option<T>>) -> bool { match b { Some(b) => all_some(s) && C::broke(b, somes(s)), None => ends_none(s) } }
    open spec fn built(r: Option<C>, s: Seq<Option<T>>) -> bool { match r { Some(c) => all_some(s) && C::built(c, somes(s)), None => ends_none(s) } }
}
impl<T, C, const N: usize> FromStaticIter<Option<T>, N> for Option<C> where C: FromStaticIter<T, N> {
//@fn Option::uninit static-iter/src/lib.rs impl:FromStaticIter<Option<T>,N>~for~Option<C>/uninit
//@entry
    proof { assert(somes(Seq::<Option<T>>::empty()) =~= Seq::<T>::empty()); }
//@endfn
//@fn Option::write static-iter/src/lib.rs impl:FromStaticIter<Option<T>,N>~for~Option<C>/write params=this,idx,val
//@entry
    proof { assert forall|s: Seq<Option<T>>| s.len() == idx && #[trigger] Self::upto(this, s) implies C::upto(this, somes(s)) && somes(s).len() == idx && (val is Some ==> all_some(s.push(val)) && somes(s.push(val)) == somes(s).push(val->0)) && (val is None ==> ends_none(s.push(val))) by {
        assert(s.push(val).drop_last() =~= s); if val is Some { assert(somes(s.push(val)) =~= somes(s).push(val->0)); } } }
//@endfn
//@fn Option::finish static-iter/src/lib.rs impl:FromStaticIter<Option<T>,N>~for~Option<C>/finish params=this
//@entry
    proof {
        if this is Continue { let u = this->Continue_0; assert forall|s: Seq<Option<T>>| s.len() == N && #[trigger] Self::upto(u, s) implies C::upto(u, somes(s)) && somes(s).len() == N by {} }
        else if this->Break_0 is Some { let b = this->Break_0; assert forall|s: Seq<Option<T>>| #[trigger] Self::broke(b, s) implies C::broke(b->Some_0, somes(s)) by {} }
    }
//@endfn
}

pub open spec fn all_ok<T, E>(s: Seq<Result<T, E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
pub open spec fn oks<T, E>(s: Seq<Result<T, E>>) -> Seq<T> { Seq::new(s.len(), |i: int| s[i]->Ok_0) }
/// the last item is this error and no earlier one is an error
pub open spec fn ends_err<T, E>(s: Seq<Result<T, E>>, e: E) -> bool { s.len() > 0 && s.last() == Err::<T, E>(e) && all_ok(s.drop_last()) }
impl<T, E, C, const N: usize> FromSpec<Result<T, E>, N> for Result<C, E> where C: FromSpec<T, N> {
    type Uninit = C::Uninit;
    type Break = Result<C::Break, E>;
    open spec fn upto(u: C::Uninit, s: Seq<Result<T, E>>) -> bool { all_ok(s) && C::upto(u, oks(s)) }
    open spec fn broke(b: Result<C::Break, E>, s: Seq<Result<T, E>>) -> bool { match b { Ok(b) => all_ok(s) && C::broke(b, oks(s)), Err(e) => ends_err(s, e) } }
    open spec fn built(r: Result<C, E>, s: Seq<Result<T, E>>) -> bool { match r { Ok(c) => all_ok(s) && C::built(c, oks(s)), Err(e) => ends_err(s, e) } }
}
impl<T, E, C, const N: usize> FromStaticIter<Result<T, E>, N> for Result<C, E> where C: FromStaticIter<T, N> {
//@fn Result::uninit static-iter/src/lib.rs impl:FromStaticIter<Result<T,E>,N>~for~Result<C,E>/uninit
//@entry
    proof { assert(oks(Seq::<Result<T, E>>::empty()) =~= Seq::<T>::empty()); }
//@endfn
//@fn Result::write static-iter/src/lib.rs impl:FromStaticIter<Result<T,E>,N>~for~Result<C,E>/write params=this,idx,val
//@entry
    proof { assert forall|s: Seq<Result<T, E>>| s.len() == idx && #[trigger] Self::upto(this, s) implies C::upto(this, oks(s)) && oks(s).len() == idx && (val is Ok ==> all_ok(s.push(val)) && oks(s.push(val)) == oks(s).push(val->Ok_0)) && (val is Err ==> ends_err(s.push(val), val->Err_0)) by {
        assert(s.push(val).drop_last() =~= s); if val is Ok { assert(oks(s.push(val)) =~= oks(s).push(val->Ok_0)); } } }
//@endfn
//@fn Result::finish static-iter/src/lib.rs impl:FromStaticIter<Result<T,E>,N>~for~Result<C,E>/finish params=this
//@entry
    proof {
        if this is Continue { let u = this->Continue_0; assert forall|s: Seq<Result<T, E>>| s.len() == N && #[trigger] Self::upto(u, s) implies C::upto(u, oks(s)) && oks(s).len() == N by {} }
        else if this->Break_0 is Ok { let b = this->Break_0; assert forall|s: Seq<Result<T, E>>| #[trigger] Self::broke(b, s) implies C::broke(b->Ok_0, oks(s)) by {} }
    }
//@endfn
}

pub open spec fn maps<A, B, F: Fn(A) -> B>(f: F, i: int, x: A) -> bool { f.requires((x,)) }
pub struct Map<T, F> { pub inner: T, pub func: F }
impl<I, T, M, const N: usize> StaticIter<N> for Map<I, M> where I: StaticIter<N>, M: Fn(I::Item) -> T {
    type Item = T;
    open spec fn at(&self, k: int) -> bool { self.inner.at(k) && forall|i: int, x: I::Item| k <= i < N && #[trigger] self.inner.gives(i, x) ==> self.func.requires((x,)) }
    open spec fn gives(&self, i: int, y: T) -> bool { exists|x: I::Item| #![trigger self.inner.gives(i, x)] #![trigger self.func.ensures((x,), y)] self.inner.gives(i, x) && self.func.ensures((x,), y) }
//@fn Map::idx static-iter/src/adapter.rs impl:StaticIter<N>~for~Map<I,M>/idx params=idx subst=Self::Item->T
//@endfn
}
pub struct Zip<I1, I2> { pub left: I1, pub right: I2 }
impl<I1, I2, const N: usize> StaticIter<N> for Zip<I1, I2> where I1: StaticIter<N>, I2: StaticIter<N> {
    type Item = (I1::Item, I2::Item);
    open spec fn at(&self, k: int) -> bool { self.left.at(k) && self.right.at(k) }
    open spec fn gives(&self, i: int, y: (I1::Item, I2::Item)) -> bool { self.left.gives(i, y.0) && self.right.gives(i, y.1) }
//@fn Zip::idx static-iter/src/adapter.rs impl:StaticIter<N>~for~Zip<I1,I2>/idx params=idx subst=Self::Item->(I1::Item,I2::Item)
//@endfn
}
pub struct Enumerate<I> { pub inner: I }
impl<I, const N: usize> StaticIter<N> for Enumerate<I> where I: StaticIter<N> {
    type Item = (usize, I::Item);
    open spec fn at(&self, k: int) -> bool { self.inner.at(k) }
    open spec fn gives(&self, i: int, y: (usize, I::Item)) -> bool { y.0 == i && self.inner.gives(i, y.1) }
//@fn Enumerate::idx static-iter/src/adapter.rs impl:StaticIter<N>~for~Enumerate<I>/idx params=idx subst=Self::Item->(usize,I::Item)
//@endfn
}
/// an owned array: a slot is emptied when its element is handed out
pub struct IntoIter<T, const N: usize> { pub inner: [VSlot<T>; N] }
impl<T, const N: usize> IntoIter<T, N> {
//@fn IntoIter::new static-iter/src/array.rs impl:IntoIter<T,N>/new pub params=arr calls=core::mem::transmute_copy->v_to_slots;core::mem::forget->v_forget
    ensures forall|i: int| 0 <= i < N ==> (#[trigger] r.inner[i]).0 == Some(arr[i]),
//@endfn
}
impl<T, const N: usize> StaticIter<N> for IntoIter<T, N> {
    type Item = T;
    open spec fn at(&self, k: int) -> bool { 0 <= k && forall|i: int| k <= i < N ==> (#[trigger] self.inner[i]).0 is Some }
    open spec fn gives(&self, i: int, x: T) -> bool { 0 <= i < N && self.inner[i].0 == Some(x) }
//@fn IntoIter::idx static-iter/src/array.rs impl:StaticIter<N>~for~IntoIter<T,N>/idx params=idx subst=Self::Item->T calls=core::mem::replace->v_replace;MaybeUninit::uninit->VSlot::uninit methods=get_unchecked_mut->v_get_mut
//@endfn
}
pub struct RefIter<'a, T, const N: usize> { pub inner: &'a [T; N] }
impl<'a, T, const N: usize> RefIter<'a, T, N> {
//@fn RefIter::new static-iter/src/array.rs impl:RefIter<'a,T,N>/new pub params=inner
    ensures r.inner == inner,
//@endfn
}
impl<'a, T, const N: usize> StaticIter<N> for RefIter<'a, T, N> {
    type Item = &'a T;
    open spec fn at(&self, k: int) -> bool { true }
    open spec fn gives(&self, i: int, x: &'a T) -> bool { 0 <= i < N && *x == self.inner[i] }
//@fn RefIter::idx static-iter/src/array.rs impl:StaticIter<N>~for~RefIter<'a,T,N>/idx params=idx subst=Self::Item->&'a~T
//@endfn
}
pub struct StaticRangeToIter<const N: usize>(pub ());
impl<const N: usize> StaticIter<N> for StaticRangeToIter<N> {
    type Item = usize;
    open spec fn at(&self, k: int) -> bool { true }
    open spec fn gives(&self, i: int, x: usize) -> bool { x == i }
//@fn StaticRangeToIter::idx static-iter/src/lib.rs impl:StaticIter<N>~for~StaticRangeToIter<N>/idx params=idx subst=Self::Item->usize
//@endfn
}
pub struct StaticRangeTo<const N: usize>;
impl<const N: usize> IntoStaticIter<N> for StaticRangeTo<N> {
    type Item = usize;
    type Iter = StaticRangeToIter<N>;
    open spec fn fresh(self) -> bool { true }
    open spec fn src(self, i: int, x: usize) -> bool { x == i }
//@fn StaticRangeTo::into_static_iter static-iter/src/lib.rs impl:IntoStaticIter<N>~for~StaticRangeTo<N>/into_static_iter subst=Self::Iter->StaticRangeToIter<N>
//@endfn
}
impl<I: StaticIter<N>, const N: usize> IntoStaticIter<N> for I {
    type Item = I::Item;
    type Iter = I;
    open spec fn fresh(self) -> bool { self.at(0) }
    open spec fn src(self, i: int, x: I::Item) -> bool { self.gives(i, x) }
//@fn iter::into_static_iter static-iter/src/lib.rs impl:IntoStaticIter<N>~for~I/into_static_iter subst=Self::Iter->I
//@endfn
}
impl<T, const N: usize> IntoStaticIter<N> for [T; N] {
    type Item = T;
    type Iter = IntoIter<T, N>;
    open spec fn fresh(self) -> bool { true }
    open spec fn src(self, i: int, x: T) -> bool { x == self[i] }
//@fn array::into_static_iter static-iter/src/array.rs impl:IntoStaticIter<N>~for~[T;N]/into_static_iter subst=Self::Iter->IntoIter<T,N>
//@endfn
}
impl<'a, T, const N: usize> IntoStaticIter<N> for &'a [T; N] {
    type Item = &'a T;
    type Iter = RefIter<'a, T, N>;
    open spec fn fresh(self) -> bool { true }
    open spec fn src(self, i: int, x: &'a T) -> bool { *x == self[i] }
//@fn array::into_static_iter.ref static-iter/src/array.rs impl:IntoStaticIter<N>~for~&'a[T;N]/into_static_iter subst=Self::Iter->RefIter<'a,T,N>
//@endfn
}

pub open spec fn fn_req<A, F: Fn(A) -> bool>(f: &F, x: &A) -> bool { f.requires((*x,)) }
pub open spec fn fn_ens<A, F: Fn(A) -> bool>(f: &F, x: &A, b: bool) -> bool { f.ensures((*x,), b) }
/// comparison of two unit results
pub trait VResEq: Sized { spec fn okay(self) -> bool; fn v_res_eq(self, b: Self) -> (r: bool) ensures r == (self.okay() == b.okay()); }
impl VResEq for Result<(), ()> {
    open spec fn okay(self) -> bool { self is Ok }
    fn v_res_eq(self, b: Self) -> (r: bool) { let x = self.is_ok(); let y = b.is_ok(); assert(x == self.okay()); assert(y == b.okay()); x == y }
}
pub proof fn lemma_test_run<const N: usize, I: StaticIter<N>, F: Fn(I::Item) -> bool, G: Fn((), I::Item) -> Result<(), ()>>(it: I, g: G, f: F, stop: bool, n: int)
    requires treach(it, g, (), n, ()), forall|x: I::Item, r: Result<(), ()>| #[trigger] g.ensures(((), x), r) ==> (r is Ok ==> f.ensures((x,), !stop)) && (r is Err ==> f.ensures((x,), stop)),
    ensures passes(it, f, n, !stop),
    decreases n,
{
    if n > 0 {
        let (b, x) = choose|b: (), x: I::Item| #![trigger it.gives(n - 1, x), g.ensures((b, x), Ok(()))] treach(it, g, (), n - 1, b) && it.gives(n - 1, x) && g.ensures((b, x), Ok(()));
        lemma_test_run(it, g, f, stop, n - 1);
        assert(test_at(it, f, n - 1, !stop));
    }
}
pub proof fn lemma_test<const N: usize, I: StaticIter<N>, F: Fn(I::Item) -> bool, G: Fn((), I::Item) -> Result<(), ()>>(it: I, g: G, f: F, stop: bool)
    requires forall|x: I::Item, r: Result<(), ()>| #[trigger] g.ensures(((), x), r) ==> (r is Ok ==> f.ensures((x,), !stop)) && (r is Err ==> f.ensures((x,), stop)),
    ensures treach(it, g, (), N as int, ()) ==> passes(it, f, N as int, !stop),
        forall|n: int| #[trigger] tstop(it, g, (), n, ()) ==> test_at(it, f, n, stop) && passes(it, f, n, !stop),
{
    if treach(it, g, (), N as int, ()) { lemma_test_run(it, g, f, stop, N as int); }
    assert forall|n: int| #[trigger] tstop(it, g, (), n, ()) implies test_at(it, f, n, stop) && passes(it, f, n, !stop) by {
        lemma_test_run(it, g, f, stop, n);
    }
}
pub proof fn lemma_sum<const N: usize, I: StaticIter<N>, G: Fn(I::Item, I::Item) -> I::Item>(it: I, g: G, n: int, a: I::Item) where I::Item: VInt
    requires exists|z: I::Item| z.ov() == 0 && #[trigger] reach(it, g, z, n, a), forall|x: I::Item, y: I::Item, r: I::Item| #[trigger] g.ensures((x, y), r) ==> r.ov() == x.ov() + y.ov(),
    ensures sums(it, n, a.ov()),
    decreases n,
{
    let z = choose|z: I::Item| z.ov() == 0 && #[trigger] reach(it, g, z, n, a);
    if n > 0 {
        let (b, x) = choose|b: I::Item, x: I::Item| #![trigger it.gives(n - 1, x), g.ensures((b, x), a)] reach(it, g, z, n - 1, b) && it.gives(n - 1, x) && g.ensures((b, x), a);
        lemma_sum(it, g, n - 1, b);
        assert(it.gives(n - 1, x) && sums(it, n - 1, a.ov() - x.ov()));
    }
}
pub proof fn lemma_product<const N: usize, I: StaticIter<N>, G: Fn(I::Item, I::Item) -> I::Item>(it: I, g: G, n: int, a: I::Item) where I::Item: VInt
    requires exists|z: I::Item| z.ov() == 1 && #[trigger] reach(it, g, z, n, a), forall|x: I::Item, y: I::Item, r: I::Item| #[trigger] g.ensures((x, y), r) ==> r.ov() == x.ov() * y.ov(),
    ensures prods(it, n, a.ov()),
    decreases n,
{
    let z = choose|z: I::Item| z.ov() == 1 && #[trigger] reach(it, g, z, n, a);
    if n > 0 {
        let (b, x) = choose|b: I::Item, x: I::Item| #![trigger it.gives(n - 1, x), g.ensures((b, x), a)] reach(it, g, z, n - 1, b) && it.gives(n - 1, x) && g.ensures((b, x), a);
        lemma_product(it, g, n - 1, b);
        assert(it.gives(n - 1, x) && prods(it, n - 1, b.ov()) && a.ov() == pmul(b.ov(), x.ov()));
    }
}
/// the provided methods
pub trait SIterExt<const N: usize>: StaticIter<N> {
//@fn StaticIter::map static-iter/src/lib.rs trait:StaticIter/map params=func rename=FnMut->Fn
    ensures r.inner == self, r.func == func,
//@endfn
//@fn StaticIter::zip static-iter/src/lib.rs trait:StaticIter/zip params=other
    requires other.fresh(),
    ensures r.left == self, r.right.at(0), forall|i: int, x: I::Item| #![trigger r.right.gives(i, x)] #![trigger other.src(i, x)] 0 <= i < N ==> r.right.gives(i, x) == other.src(i, x),
//@endfn
//@fn StaticIter::enumerate static-iter/src/lib.rs trait:StaticIter/enumerate
    ensures r.inner == self,
//@endfn
//@fn StaticIter::fold static-iter/src/lib.rs trait:StaticIter/fold params=start,func rename=FnMut->Fn
    requires self.at(0), forall|i: int, a: T, x: Self::Item| 0 <= i < N && #[trigger] self.gives(i, x) ==> #[trigger] func.requires((a, x)),
    ensures reach(self, func, start, N as int, r),
//@entry
    let ghost it0 = self;
//@loop 0
    invariant __k0 <= N, __e0 == N, __self.at(__k0 as int),
        forall|i: int, x: Self::Item| i >= __k0 ==> __self.gives(i, x) == it0.gives(i, x),
        forall|i: int, a: T, x: Self::Item| 0 <= i < N && #[trigger] it0.gives(i, x) ==> #[trigger] func.requires((a, x)),
        reach(it0, func, start, __k0 as int, __acc0),
    decreases __e0 - __k0,
//@start 0
    let ghost a0 = __acc0;
//@end 0
    proof { assert(reach(it0, func, start, __k0 as int - 1, a0)); }
//@endfn
//@fn StaticIter::try_fold static-iter/src/lib.rs trait:StaticIter/try_fold params=start,func rename=FnMut->Fn tf=Ok
    requires self.at(0), forall|i: int, a: T, x: Self::Item| 0 <= i < N && #[trigger] self.gives(i, x) ==> #[trigger] func.requires((a, x)),
    ensures match r { Ok(a) => treach(self, func, start, N as int, a), Err(e) => exists|n: int| 0 <= n < N && #[trigger] tstop(self, func, start, n, e) },
//@entry
    let ghost it0 = self;
//@loop 0
    invariant __k0 <= N, __e0 == N,
        forall|i: int, a: T, x: Self::Item| 0 <= i < N && #[trigger] it0.gives(i, x) ==> #[trigger] func.requires((a, x)),
        match __acc0 {
            Ok(a) => __self.at(__k0 as int) && (forall|i: int, x: Self::Item| i >= __k0 ==> __self.gives(i, x) == it0.gives(i, x)) && treach(it0, func, start, __k0 as int, a),
            Err(e) => exists|n: int| 0 <= n < N && #[trigger] tstop(it0, func, start, n, e) },
    decreases __e0 - __k0,
//@start 0
    let ghost a0 = __acc0->Ok_0;
//@end 0
    proof { assert(treach(it0, func, start, __k0 as int - 1, a0)); if __acc0 is Err { assert(tstop(it0, func, start, __k0 as int - 1, __acc0->Err_0)); } }
//@endfn
//@fn StaticIter::collect static-iter/src/lib.rs trait:StaticIter/collect
    requires self.at(0),
    ensures collects::<Self::Item, N, C, Self>(self, r),
//@endfn
//@fn StaticIter::any static-iter/src/lib.rs trait:StaticIter/any params=func rename=FnMut->Fn ops===->v_res_eq hoist
    requires self.at(0), forall|i: int, x: Self::Item| 0 <= i < N && #[trigger] self.gives(i, x) ==> func.requires((x,)),
    ensures r == true ==> exists|n: int| 0 <= n < N && #[trigger] test_at(self, func, n, true) && passes(self, func, n, false), r == false ==> passes(self, func, N as int, false),
//@entry
    let ghost it0 = self;
    let ghost f0 = func;
//@closure 0
(); Self::Item -> Result<(), ()>
 requires fn_req(&func, &__a1), ensures __r is Ok ==> fn_ens(&func, &__a1, false), __r is Err ==> fn_ens(&func, &__a1, true)
//@tail
    proof { lemma_test(it0, __c0, f0, true); }
//@endfn
//@fn StaticIter::all static-iter/src/lib.rs trait:StaticIter/all params=func rename=FnMut->Fn ops===->v_res_eq hoist
    requires self.at(0), forall|i: int, x: Self::Item| 0 <= i < N && #[trigger] self.gives(i, x) ==> func.requires((x,)),
    ensures r == false ==> exists|n: int| 0 <= n < N && #[trigger] test_at(self, func, n, false) && passes(self, func, n, true), r == true ==> passes(self, func, N as int, true),
//@entry
    let ghost it0 = self;
    let ghost f0 = func;
//@closure 0
(); Self::Item -> Result<(), ()>
 requires fn_req(&func, &__a1), ensures __r is Ok ==> fn_ens(&func, &__a1, true), __r is Err ==> fn_ens(&func, &__a1, false)
//@tail
    proof { lemma_test(it0, __c0, f0, false); }
//@endfn
//@fn StaticIter::sum static-iter/src/lib.rs trait:StaticIter/sum ops=+->v_add hoist where=Self::Item:VInt
    requires self.at(0),
    ensures sums(self, N as int, r.ov()),
//@entry
    let ghost it0 = self;
//@closure 0
Self::Item; Self::Item -> Self::Item
 ensures __r.ov() == __a0.ov() + __a1.ov()
//@tail
    proof { lemma_sum(it0, __c0, N as int, __ret); }
//@endfn
//@fn StaticIter::product static-iter/src/lib.rs trait:StaticIter/product ops=*->v_mul hoist where=Self::Item:VInt
    requires self.at(0),
    ensures prods(self, N as int, r.ov()),
//@entry
    let ghost it0 = self;
//@closure 0
Self::Item; Self::Item -> Self::Item
 ensures __r.ov() == __a0.ov() * __a1.ov()
//@tail
    proof { lemma_product(it0, __c0, N as int, __ret); }
//@endfn
}
impl<const N: usize, I: StaticIter<N>> SIterExt<N> for I {}

/// `array::map`
pub trait VAMap<T, const N: usize>: Sized {
    spec fn va(&self) -> Seq<T>;
    fn v_amap<U, F: Fn(T) -> U>(self, f: F) -> (r: [U; N])
        requires forall|i: int| 0 <= i < N ==> f.requires((#[trigger] self.va()[i],)),
        ensures forall|i: int| 0 <= i < N ==> f.ensures((self.va()[i],), #[trigger] r[i]);
}
impl<T, const N: usize> VAMap<T, N> for [T; N] {
    open spec fn va(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_amap<U, F: Fn(T) -> U>(self, f: F) -> (r: [U; N]) { self.map(f) }
}
proof fn lemma_into<const M: usize, T: IntoStaticIter<M>>(s: T, r: T::Iter, i: int, x: T::Item)
    requires call_ensures(T::into_static_iter, (s,), r), 0 <= i < M,
    ensures r.at(0), r.gives(i, x) == s.src(i, x),
{}
pub trait ZipAll<const N: usize>: Sized {
    type Item;
    type Iter: StaticIter<N, Item = Self::Item>;
    spec fn zfresh(self) -> bool;
    spec fn zsrc(self, i: int, x: Self::Item) -> bool;
    fn into_zip_iter(self) -> (r: Self::Iter)
        requires self.zfresh(),
        ensures r.at(0), forall|i: int, x: Self::Item| 0 <= i < N ==> r.gives(i, x) == self.zsrc(i, x);
}
pub struct ArrayZipIter<T, const N: usize, const M: usize> { pub arrs: [T; N] }
impl<T, const N: usize, const M: usize> StaticIter<M> for ArrayZipIter<T, N, M> where T: StaticIter<M> {
    type Item = [T::Item; N];
    open spec fn at(&self, k: int) -> bool { forall|j: int| 0 <= j < N ==> (#[trigger] self.arrs[j]).at(k) }
    open spec fn gives(&self, i: int, y: [T::Item; N]) -> bool { forall|j: int| 0 <= j < N ==> (#[trigger] self.arrs[j]).gives(i, y[j]) }
//@fn ArrayZipIter::idx static-iter/src/zip_all.rs impl:StaticIter<M>~for~ArrayZipIter<T,N,M>/idx params=idx subst=Self::Item->[T::Item;N] fromfn=N
//@entry
    let ghost z0 = *self;
//@loop 0
    invariant __k0 <= N, __b0@.len() == __k0, idx < M,
        forall|j: int| __k0 <= j < N ==> (#[trigger] self.arrs[j]) == z0.arrs[j],
        forall|j: int| 0 <= j < N ==> (#[trigger] z0.arrs[j]).at(idx as int),
        forall|j: int| 0 <= j < __k0 ==> (#[trigger] self.arrs[j]).at(idx + 1),
        forall|j: int| 0 <= j < __k0 ==> z0.arrs[j].gives(idx as int, #[trigger] __b0@[j]),
        forall|i: int, x: T::Item, j: int| #![trigger self.arrs[j].gives(i, x)] #![trigger z0.arrs[j].gives(i, x)] i > idx && 0 <= j < N ==> self.arrs[j].gives(i, x) == z0.arrs[j].gives(i, x),
    decreases N - __k0,
//@endfn
}
impl<T, const N: usize, const M: usize> ZipAll<M> for [T; N] where T: IntoStaticIter<M> {
    type Item = [T::Item; N];
    type Iter = ArrayZipIter<T::Iter, N, M>;
    open spec fn zfresh(self) -> bool { forall|j: int| 0 <= j < N ==> (#[trigger] self[j]).fresh() }
    open spec fn zsrc(self, i: int, x: [T::Item; N]) -> bool { forall|j: int| 0 <= j < N ==> (#[trigger] self[j]).src(i, x[j]) }
//@fn array::into_zip_iter static-iter/src/zip_all.rs impl:ZipAll<M>~for~[T;N]/into_zip_iter subst=Self::Iter->ArrayZipIter<T::Iter,N,M> methods=map->v_amap
//@entry
    let ghost s0 = self;
//@tail
    proof {
        assert forall|j: int| 0 <= j < N implies call_ensures(T::into_static_iter, (s0[j],), #[trigger] __ret.arrs[j]) by { let _ = s0.va()[j]; }
        assert forall|i: int, x: [T::Item; N]| 0 <= i < M implies __ret.gives(i, x) == s0.zsrc(i, x) by {
            assert forall|j: int| 0 <= j < N implies (#[trigger] __ret.arrs[j]).gives(i, x[j]) == s0[j].src(i, x[j]) by { lemma_into(s0[j], __ret.arrs[j], i, x[j]); }
            if s0.zsrc(i, x) {
                assert forall|j: int| 0 <= j < N implies (#[trigger] __ret.arrs[j]).gives(i, x[j]) by { let _ = s0[j]; }
            }
            if __ret.gives(i, x) {
                assert forall|j: int| 0 <= j < N implies (#[trigger] s0[j]).src(i, x[j]) by { let _ = __ret.arrs[j]; }
            }
        }
    }
//@endfn
}
pub struct TupleZipIter<T> { pub iters: T }
impl<T, U, const N: usize> StaticIter<N> for TupleZipIter<(T, U)> where T: StaticIter<N>, U: StaticIter<N> {
    type Item = (T::Item, U::Item);
    open spec fn at(&self, k: int) -> bool { self.iters.0.at(k) && self.iters.1.at(k) }
    open spec fn gives(&self, i: int, y: (T::Item, U::Item)) -> bool { self.iters.0.gives(i, y.0) && self.iters.1.gives(i, y.1) }
//@fn TupleZipIter::idx static-iter/src/zip_all.rs impl:StaticIter<N>~for~TupleZipIter<(T,U)>/idx params=idx subst=Self::Item->(T::Item,U::Item)
//@endfn
}
impl<T, U, const N: usize> ZipAll<N> for (T, U) where T: IntoStaticIter<N>, U: IntoStaticIter<N> {
    type Item = (T::Item, U::Item);
    type Iter = TupleZipIter<(T::Iter, U::Iter)>;
    open spec fn zfresh(self) -> bool { self.0.fresh() && self.1.fresh() }
    open spec fn zsrc(self, i: int, x: (T::Item, U::Item)) -> bool { self.0.src(i, x.0) && self.1.src(i, x.1) }
//@fn tuple::into_zip_iter static-iter/src/zip_all.rs impl:ZipAll<N>~for~(T,U)/into_zip_iter subst=Self::Iter->TupleZipIter<(T::Iter,U::Iter)>
//@endfn
}
//@fn zip_all static-iter/src/zip_all.rs fn:zip_all pub params=val
    requires val.zfresh(),
    ensures r.at(0), forall|i: int, x: T::Item| 0 <= i < N ==> r.gives(i, x) == val.zsrc(i, x),
//@endfn
}
pub use siter::*;
