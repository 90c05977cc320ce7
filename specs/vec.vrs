// vectors over an arbitrary integer type, through the static iterators
pub mod vecs {
use super::*;
/// the forms of the operators that take references or work in place: the same result
pub trait VIntOps: VInt {
//%for f,O in add,+ sub,- mul,*
    fn v_$f_r(self, o: &Self) -> (r: Self) ensures r.ov() == self.ov() $O o.ov() { self.v_$f(*o) }
    fn v_$f_a(&mut self, o: Self) ensures final(self).ov() == old(self).ov() $O o.ov() { *self = (*self).v_$f(o); }
    fn v_$f_ar(&mut self, o: &Self) ensures final(self).ov() == old(self).ov() $O o.ov() { *self = (*self).v_$f(*o); }
//%endfor
//%for f,O in div,tdiv rem,trem
    fn v_$f_r(self, o: &Self) -> (r: Self) ensures o.ov() != 0, r.ov() == $O(self.ov(), o.ov()) { self.v_$f(*o) }
    fn v_$f_a(&mut self, o: Self) ensures o.ov() != 0, final(self).ov() == $O(old(self).ov(), o.ov()) { *self = (*self).v_$f(o); }
    fn v_$f_ar(&mut self, o: &Self) ensures o.ov() != 0, final(self).ov() == $O(old(self).ov(), o.ov()) { *self = (*self).v_$f(*o); }
//%endfor
}
impl<T: VInt> VIntOps for T {}
#[derive(Copy)]
pub struct Vector<T, const N: usize>(pub [T; N]);
impl<T: Copy, const N: usize> Clone for Vector<T, N> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
//@fn Vector::to_array compounds/src/vector.rs impl:From<Vector<T,N>>~for~[T;N]/from pub name=v_into_arr params=value ret=[T;N] implgen
    ensures r == value.0,
//@endfn
/// the blanket Into of core
pub fn v_into<T, const N: usize>(x: Vector<T, N>) -> (r: [T; N]) ensures r == x.0 { v_into_arr(x) }
/// the blanket Into of core, from an array
pub trait VArrInto<T, const N: usize>: Sized { spec fn ai(self) -> [T; N]; fn v_arr_into(self) -> (r: Vector<T, N>) ensures r.0 == self.ai(); }
impl<T, const N: usize> VArrInto<T, N> for [T; N] { open spec fn ai(self) -> [T; N] { self } fn v_arr_into(self) -> (r: Vector<T, N>) { Vector::<T, N>::v_from_arr(self) } }
pub open spec fn sadd(a: int, b: int) -> int { a + b }
pub open spec fn ssub(a: int, b: int) -> int { a - b }
pub open spec fn smul(a: int, b: int) -> int { a * b }
impl<T, const N: usize> Vector<T, N> {
//@fn Vector::new compounds/src/vector.rs impl:Vector<T,N>/new pub params=array
    ensures r.0 == array,
//@endfn
//@fn Vector::from_array compounds/src/vector.rs impl:From<[T;N]>~for~Vector<T,N>/from pub name=v_from_arr params=value
    ensures r.0 == value,
//@endfn
}
/// array equality of core: every element equal
pub trait VAEq: Copy { spec fn aq(self, o: Self) -> bool; fn v_aeq(self, o: Self) -> (r: bool) ensures r == self.aq(o); }
impl<T: VInt, const N: usize> VAEq for [T; N] {
    open spec fn aq(self, o: Self) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] self[i]).ov() == o[i].ov() }
    fn v_aeq(self, o: Self) -> (r: bool) {
        let mut k = 0usize;
        while k < N
            invariant k <= N, forall|i: int| 0 <= i < k ==> (#[trigger] self[i]).ov() == o[i].ov(),
            decreases N - k,
        {
            if !self[k].v_eq(o[k]) { assert(self[k as int].ov() != o[k as int].ov()); return false; }
            k += 1;
        }
        true
    }
}
impl<T: VInt, const N: usize> Vector<T, N> {
    pub open spec fn c(self, i: int) -> int { self.0[i].ov() }
//@fn Vector::eq @compounds impl:PartialEq~for~Vector<T,N>/eq pub name=v_eqr params=other ops===->v_aeq
    ensures r == (forall|i: int| 0 <= i < N ==> #[trigger] self.c(i) == other.c(i)),
//@tail
    proof {
        if __ret { assert forall|i: int| 0 <= i < N implies #[trigger] self.c(i) == other.c(i) by { assert(self.0[i].ov() == other.0[i].ov()); } }
        else { let i = choose|i: int| 0 <= i < N && (#[trigger] self.0[i]).ov() != other.0[i].ov(); assert(self.c(i) != other.c(i)); }
    }
//@endfn
//@fn Vector::default compounds/src/vector.rs impl:Default~for~Vector<T,N>/default pub name=v_default fromfn=N:T nowhere calls=T::default->T::zero
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.c(i) == 0,
//@loop 0
    invariant __k0 <= N, __b0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __b0@[i]).ov() == 0,
    decreases N - __k0,
//@endfn
//@fn Vector::zeroed compounds/src/vector.rs impl:Vector<T,N>/zeroed pub fromfn=N:T nowhere
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.c(i) == 0,
//@loop 0
    invariant __k0 <= N, __b0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __b0@[i]).ov() == 0,
    decreases N - __k0,
//@endfn
//@fn Vector::from_scalar compounds/src/vector.rs impl:Vector<T,N>/from_scalar pub params=val fromfn=N:T nowhere methods=clone->v_clone
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.0[i] == val,
//@loop 0
    invariant __k0 <= N, __b0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __b0@[i]) == val,
    decreases N - __k0,
//@endfn

//%for M,f,s in Add,add,sadd Sub,sub,ssub Mul,mul,smul Div,div,tdiv Rem,rem,trem
//@fn Vector::$f @compounds impl:core::ops::$M<Vector<T,N>>~for~Vector<T,N>/$f pub name=v_$f params=rhs subst=Self::Output->Self ops=@num nooptmap hoist
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.c(i) == $s(self.c(i), rhs.c(i)),
//@closure 0
(T, T) -> T
 ensures __r.ov() == $s(__a0.0.ov(), __a0.1.ov())
//@endfn
//@fn Vector::$f.ref @compounds impl:core::ops::$M<&'aVector<T,N>>~for~Vector<T,N>/$f pub name=v_$f_vr params=rhs subst=&'aSelf->&Self;&'aT->&T;&'aVector<T,N>->&Self;Self::Output->Self ops=+->v_add_r;-->v_sub_r;*->v_mul_r;/->v_div_r;%->v_rem_r nooptmap hoist
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.c(i) == $s(self.c(i), rhs.c(i)),
//@closure 0
(T, &T) -> T
 ensures __r.ov() == $s(__a0.0.ov(), __a0.1.ov())
//@endfn
//@fn Vector::$f.scalar @compounds impl:core::ops::$M<T>~for~Vector<T,N>/$f pub name=v_$f_s params=rhs subst=Self::Output->Self ops=@num nooptmap methods=map->v_amap;clone->v_clone
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.c(i) == $s(self.c(i), rhs.ov()),
//@entry
    let ghost s0 = self.0;
//@closure 0
T -> T
 ensures __r.ov() == $s(__a0.ov(), rhs.ov())
//@tail
    proof { assert forall|i: int| 0 <= i < N implies #[trigger] __ret.c(i) == $s(self.c(i), rhs.ov()) by { let _ = s0.va()[i]; } }
//@endfn
//@fn Vector::$f.scalar_ref @compounds impl:core::ops::$M<&'aT>~for~Vector<T,N>/$f pub name=v_$f_sr params=rhs subst=&'aSelf->&Self;&'aT->&T;&'aVector<T,N>->&Self;Self::Output->Self ops=+->v_add_r;-->v_sub_r;*->v_mul_r;/->v_div_r;%->v_rem_r nooptmap methods=map->v_amap;clone->v_clone
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.c(i) == $s(self.c(i), rhs.ov()),
//@entry
    let ghost s0 = self.0;
//@closure 0
T -> T
 ensures __r.ov() == $s(__a0.ov(), rhs.ov())
//@tail
    proof { assert forall|i: int| 0 <= i < N implies #[trigger] __ret.c(i) == $s(self.c(i), rhs.ov()) by { let _ = s0.va()[i]; } }
//@endfn
//@fn Vector::$f_assign @compounds impl:core::ops::$MAssign<Vector<T,N>>~for~Vector<T,N>/$f_assign pub name=v_$f_a params=rhs ops=+=->v_add_a;-=->v_sub_a;*=->v_mul_a;/=->v_div_a;%=->v_rem_a
    ensures forall|i: int| 0 <= i < N ==> #[trigger] final(self).c(i) == $s(old(self).c(i), rhs.c(i)),
//@entry
    let ghost s0 = *self;
//@loop 0
    invariant __k0 <= N, forall|i: int| 0 <= i < __k0 ==> (#[trigger] self.0[i]).ov() == $s(s0.c(i), rhs.c(i)), forall|i: int| __k0 <= i < N ==> #[trigger] self.0[i] == s0.0[i],
    decreases N - __k0,
//@endfn
//@fn Vector::$f_assign.ref @compounds impl:core::ops::$MAssign<&'aVector<T,N>>~for~Vector<T,N>/$f_assign pub name=v_$f_avr params=rhs ops=+=->v_add_ar;-=->v_sub_ar;*=->v_mul_ar;/=->v_div_ar;%=->v_rem_ar subst=&'aSelf->&Self;&'aT->&T;&'aVector<T,N>->&Self
    ensures forall|i: int| 0 <= i < N ==> #[trigger] final(self).c(i) == $s(old(self).c(i), rhs.c(i)),
//@entry
    let ghost s0 = *self;
//@loop 0
    invariant __k0 <= N, forall|i: int| 0 <= i < __k0 ==> (#[trigger] self.0[i]).ov() == $s(s0.c(i), rhs.c(i)), forall|i: int| __k0 <= i < N ==> #[trigger] self.0[i] == s0.0[i],
    decreases N - __k0,
//@endfn
//@fn Vector::$f_assign.scalar @compounds impl:core::ops::$MAssign<T>~for~Vector<T,N>/$f_assign pub name=v_$f_as params=rhs ops=+=->v_add_a;-=->v_sub_a;*=->v_mul_a;/=->v_div_a;%=->v_rem_a methods=clone->v_clone
    ensures forall|i: int| 0 <= i < N ==> #[trigger] final(self).c(i) == $s(old(self).c(i), rhs.ov()),
//@entry
    let ghost s0 = *self;
//@loop 0
    invariant __k0 <= N, forall|i: int| 0 <= i < __k0 ==> (#[trigger] self.0[i]).ov() == $s(s0.c(i), rhs.ov()), forall|i: int| __k0 <= i < N ==> #[trigger] self.0[i] == s0.0[i],
    decreases N - __k0,
//@endfn
//@fn Vector::$f_assign.scalar_ref @compounds impl:core::ops::$MAssign<&'aT>~for~Vector<T,N>/$f_assign pub name=v_$f_asr params=rhs ops=+=->v_add_ar;-=->v_sub_ar;*=->v_mul_ar;/=->v_div_ar;%=->v_rem_ar subst=&'aSelf->&Self;&'aT->&T;&'aVector<T,N>->&Self
    ensures forall|i: int| 0 <= i < N ==> #[trigger] final(self).c(i) == $s(old(self).c(i), rhs.ov()),
//@entry
    let ghost s0 = *self;
//@loop 0
    invariant __k0 <= N, forall|i: int| 0 <= i < __k0 ==> (#[trigger] self.0[i]).ov() == $s(s0.c(i), rhs.ov()), forall|i: int| __k0 <= i < N ==> #[trigger] self.0[i] == s0.0[i],
    decreases N - __k0,
//@endfn
//%endfor
//@fn Vector::sum compounds/src/vector.rs impl:Vector<T,N>/sum pub name=v_sum
    ensures r.ov() == vsum(self, N as int),
//@tail
    proof { assert forall|it: IntoIter<T, N>, v: int| (forall|i: int, x: T| #![trigger it.gives(i, x)] 0 <= i < N ==> it.gives(i, x) == self.0.src(i, x)) && #[trigger] sums(it, N as int, v) implies v == vsum(self, N as int) by { lemma_vsum(self, it, N as int, v); } }
//@endfn
//@fn Vector::product compounds/src/vector.rs impl:Vector<T,N>/product pub name=v_product
    ensures r.ov() == vprod(self, N as int),
//@tail
    proof { assert forall|it: IntoIter<T, N>, v: int| (forall|i: int, x: T| #![trigger it.gives(i, x)] 0 <= i < N ==> it.gives(i, x) == self.0.src(i, x)) && #[trigger] prods(it, N as int, v) implies v == vprod(self, N as int) by { lemma_vprod(self, it, N as int, v); } }
//@endfn
//@fn Vector::dot_product compounds/src/vector.rs impl:Vector<T,N>/dot_product pub params=lhs,rhs ops=@num
    ensures r.ov() == vdot(lhs, rhs, N as int),
//@loop 0
    invariant __k0 <= N, __acc0.ov() == vdot(lhs, rhs, __k0 as int),
    decreases N - __k0,
//@endfn
//@fn Vector::distance_squared compounds/src/vector.rs impl:Vector<T,N>/distance_squared pub params=lhs,rhs ops=@num methods=clone->v_clone
    ensures r.ov() == vdist(lhs, rhs, N as int),
//@loop 0
    invariant __k0 <= N, two.ov() == 2, __acc0.ov() == vdist(lhs, rhs, __k0 as int),
    decreases N - __k0,
//@start 0
    proof { lemma_square(lhs.c(__i0 as int) - rhs.c(__i0 as int)); }
//@endfn
//@fn Vector::distance compounds/src/vector.rs impl:Vector<T,N>/distance pub params=lhs,rhs
    ensures r.ov() == T::sqrt_of(vdist(lhs, rhs, N as int)),
//@endfn
//@fn Vector::zero compounds/src/vector.rs impl:Zero~for~Vector<T,N>/zero pub name=v_zero fromfn=N:T
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.c(i) == 0,
//@loop 0
    invariant __k0 <= N, __b0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> (#[trigger] __b0@[i]).ov() == 0,
    decreases N - __k0,
//@endfn
//@fn Vector::is_zero compounds/src/vector.rs impl:Zero~for~Vector<T,N>/is_zero pub name=v_is_zero hoist chain=all
    ensures r == forall|i: int| 0 <= i < N ==> #[trigger] self.c(i) == 0,
//@chain 0
    proof {
        if __v0 {
            assert forall|i: int| 0 <= i < N implies #[trigger] self.c(i) == 0 by { assert(test_at(__m0, T::is_zero, i, true)); }
        } else {
            let n = choose|n: int| 0 <= n < N && #[trigger] test_at(__m0, T::is_zero, n, false) && passes(__m0, T::is_zero, n, true);
            assert(self.c(n) != 0);
        }
    }
//@endfn
//@fn Vector::index compounds/src/vector.rs impl:Index<usize>~for~Vector<T,N>/index pub name=v_index params=index subst=Self::Output->T
    requires index < N,
    ensures *r == self.0[index as int],
//@endfn
//@fn Vector::index_mut compounds/src/vector.rs impl:IndexMut<usize>~for~Vector<T,N>/index_mut pub name=v_index_mut params=index subst=Self::Output->T
    requires index < N,
    ensures *r == old(self).0[index as int], final(self).0@ == old(self).0@.update(index as int, *final(r)),
//@endfn
//%for CAP,f,s in Add,add,sadd Sub,sub,ssub
//@fn Vector::checked_$f compounds/src/vector.rs impl:Checked$CAP~for~Vector<T,N>/checked_$f pub params=rhs subst=Self::Output->Self nooptmap hoist chain=collect
    ensures r is Some ==> forall|i: int| 0 <= i < N ==> #[trigger] r->0.c(i) == $s(self.c(i), rhs.c(i)),
        r is Some ==> forall|i: int| 0 <= i < N ==> T::lo() <= $s(#[trigger] self.c(i), rhs.c(i)) <= T::hi(),
        r is None ==> exists|i: int| 0 <= i < N && !(T::lo() <= $s(#[trigger] self.c(i), rhs.c(i)) <= T::hi()),
//@closure 0
(T, T) -> Option<T>
 ensures (__r is Some) == (T::lo() <= $s(__a0.0.ov(), __a0.1.ov()) <= T::hi()), __r is Some ==> __r->0.ov() == $s(__a0.0.ov(), __a0.1.ov())
//@chain 0
    proof {
        let s = choose|s: Seq<Option<T>>| s.len() <= N && read(__m0, s) && #[trigger] <Option<[T; N]> as FromSpec<Option<T>, N>>::built(__v0, s);
        if __v0 is Some {
            assert forall|i: int| 0 <= i < N implies __v0->0[i].ov() == $s(#[trigger] self.c(i), rhs.c(i)) && T::lo() <= $s(self.c(i), rhs.c(i)) <= T::hi() by { assert(__m0.gives(i, s[i])); assert(somes(s)[i] == s[i]->0); }
        } else {
            let i = s.len() - 1;
            assert(__m0.gives(i, s[i]));
            assert(self.c(i) == self.0[i].ov());
        }
    }
//@endfn
//%endfor
}
pub open spec fn vsum<T: VInt, const N: usize>(a: Vector<T, N>, n: int) -> int decreases n { if n <= 0 { 0 } else { vsum(a, n - 1) + a.c(n - 1) } }
pub open spec fn vprod<T: VInt, const N: usize>(a: Vector<T, N>, n: int) -> int decreases n { if n <= 0 { 1 } else { pmul(vprod(a, n - 1), a.c(n - 1)) } }
pub open spec fn vdot<T: VInt, const N: usize>(a: Vector<T, N>, b: Vector<T, N>, n: int) -> int decreases n { if n <= 0 { 0 } else { vdot(a, b, n - 1) + a.c(n - 1) * b.c(n - 1) } }
pub open spec fn vdist<T: VInt, const N: usize>(a: Vector<T, N>, b: Vector<T, N>, n: int) -> int decreases n { if n <= 0 { 0 } else { vdist(a, b, n - 1) + (a.c(n - 1) - b.c(n - 1)) * (a.c(n - 1) - b.c(n - 1)) } }
pub proof fn lemma_square(x: int) ensures vstd::arithmetic::power::pow(x, 2) == x * x { reveal_with_fuel(vstd::arithmetic::power::pow, 3); assert(x * 1 == x); }
proof fn lemma_vsum<T: VInt, const N: usize>(a: Vector<T, N>, it: IntoIter<T, N>, n: int, v: int)
    requires n <= N, sums(it, n, v), forall|i: int, x: T| #![trigger it.gives(i, x)] 0 <= i < N ==> it.gives(i, x) == a.0.src(i, x),
    ensures v == vsum(a, n),
    decreases n,
{
    if n > 0 {
        let x = choose|x: T| #[trigger] it.gives(n - 1, x) && sums(it, n - 1, v - x.ov());
        assert(a.0.src(n - 1, x));
        lemma_vsum(a, it, n - 1, v - x.ov());
    }
}
proof fn lemma_vprod<T: VInt, const N: usize>(a: Vector<T, N>, it: IntoIter<T, N>, n: int, v: int)
    requires n <= N, prods(it, n, v), forall|i: int, x: T| #![trigger it.gives(i, x)] 0 <= i < N ==> it.gives(i, x) == a.0.src(i, x),
    ensures v == vprod(a, n),
    decreases n,
{
    if n > 0 {
        let (x, u) = choose|x: T, u: int| #![trigger it.gives(n - 1, x), pmul(u, x.ov())] it.gives(n - 1, x) && prods(it, n - 1, u) && v == pmul(u, x.ov());
        assert(a.0.src(n - 1, x));
        lemma_vprod(a, it, n - 1, u);
    }
}
impl<T: VInt> Vector<T, 2> {
//@fn Vector2::from_xy compounds/src/vector.rs impl:Vector<T,2>/from_xy pub params=x,y
    ensures r.0@ =~= seq![x, y],
//@endfn
//@fn Vector2::x compounds/src/vector.rs impl:Vector<T,2>/x pub
    ensures *r == self.0[0],
//@endfn
//@fn Vector2::x_mut compounds/src/vector.rs impl:Vector<T,2>/x_mut pub
    ensures *r == old(self).0[0], final(self).0@ == old(self).0@.update(0, *final(r)),
//@endfn
//@fn Vector2::set_x compounds/src/vector.rs impl:Vector<T,2>/set_x pub params=val
    ensures final(self).0@ == old(self).0@.update(0, val),
//@endfn
//@fn Vector2::y compounds/src/vector.rs impl:Vector<T,2>/y pub
    ensures *r == self.0[1],
//@endfn
//@fn Vector2::y_mut compounds/src/vector.rs impl:Vector<T,2>/y_mut pub
    ensures *r == old(self).0[1], final(self).0@ == old(self).0@.update(1, *final(r)),
//@endfn
//@fn Vector2::set_y compounds/src/vector.rs impl:Vector<T,2>/set_y pub params=val
    ensures final(self).0@ == old(self).0@.update(1, val),
//@endfn
}
impl<T: VInt> Vector<T, 3> {
//@fn Vector3::from_xyz compounds/src/vector.rs impl:Vector<T,3>/from_xyz pub params=x,y,z
    ensures r.0@ =~= seq![x, y, z],
//@endfn
//@fn Vector3::x compounds/src/vector.rs impl:Vector<T,3>/x pub
    ensures *r == self.0[0],
//@endfn
//@fn Vector3::x_mut compounds/src/vector.rs impl:Vector<T,3>/x_mut pub
    ensures *r == old(self).0[0], final(self).0@ == old(self).0@.update(0, *final(r)),
//@endfn
//@fn Vector3::set_x compounds/src/vector.rs impl:Vector<T,3>/set_x pub params=val
    ensures final(self).0@ == old(self).0@.update(0, val),
//@endfn
//@fn Vector3::y compounds/src/vector.rs impl:Vector<T,3>/y pub
    ensures *r == self.0[1],
//@endfn
//@fn Vector3::y_mut compounds/src/vector.rs impl:Vector<T,3>/y_mut pub
    ensures *r == old(self).0[1], final(self).0@ == old(self).0@.update(1, *final(r)),
//@endfn
//@fn Vector3::set_y compounds/src/vector.rs impl:Vector<T,3>/set_y pub params=val
    ensures final(self).0@ == old(self).0@.update(1, val),
//@endfn
//@fn Vector3::z compounds/src/vector.rs impl:Vector<T,3>/z pub
    ensures *r == self.0[2],
//@endfn
//@fn Vector3::z_mut compounds/src/vector.rs impl:Vector<T,3>/z_mut pub
    ensures *r == old(self).0[2], final(self).0@ == old(self).0@.update(2, *final(r)),
//@endfn
//@fn Vector3::set_z compounds/src/vector.rs impl:Vector<T,3>/set_z pub params=val
    ensures final(self).0@ == old(self).0@.update(2, val),
//@endfn
//@fn Vector3::cross compounds/src/vector.rs impl:Vector<T,3>/cross pub params=other nowhere ops=@num methods=clone->v_clone
    ensures r.c(0) == self.c(1) * other.c(2) - self.c(2) * other.c(1), r.c(1) == self.c(2) * other.c(0) - self.c(0) * other.c(2), r.c(2) == self.c(0) * other.c(1) - self.c(1) * other.c(0),
//@endfn
}
impl<T: VInt> Vector<T, 4> {
//@fn Vector4::from_xyzw compounds/src/vector.rs impl:Vector<T,4>/from_xyzw pub params=x,y,z,w
    ensures r.0@ =~= seq![x, y, z, w],
//@endfn
//@fn Vector4::x compounds/src/vector.rs impl:Vector<T,4>/x pub
    ensures *r == self.0[0],
//@endfn
//@fn Vector4::x_mut compounds/src/vector.rs impl:Vector<T,4>/x_mut pub
    ensures *r == old(self).0[0], final(self).0@ == old(self).0@.update(0, *final(r)),
//@endfn
//@fn Vector4::set_x compounds/src/vector.rs impl:Vector<T,4>/set_x pub params=val
    ensures final(self).0@ == old(self).0@.update(0, val),
//@endfn
//@fn Vector4::y compounds/src/vector.rs impl:Vector<T,4>/y pub
    ensures *r == self.0[1],
//@endfn
//@fn Vector4::y_mut compounds/src/vector.rs impl:Vector<T,4>/y_mut pub
    ensures *r == old(self).0[1], final(self).0@ == old(self).0@.update(1, *final(r)),
//@endfn
//@fn Vector4::set_y compounds/src/vector.rs impl:Vector<T,4>/set_y pub params=val
    ensures final(self).0@ == old(self).0@.update(1, val),
//@endfn
//@fn Vector4::z compounds/src/vector.rs impl:Vector<T,4>/z pub
    ensures *r == self.0[2],
//@endfn
//@fn Vector4::z_mut compounds/src/vector.rs impl:Vector<T,4>/z_mut pub
    ensures *r == old(self).0[2], final(self).0@ == old(self).0@.update(2, *final(r)),
//@endfn
//@fn Vector4::set_z compounds/src/vector.rs impl:Vector<T,4>/set_z pub params=val
    ensures final(self).0@ == old(self).0@.update(2, val),
//@endfn
//@fn Vector4::w compounds/src/vector.rs impl:Vector<T,4>/w pub
    ensures *r == self.0[3],
//@endfn
//@fn Vector4::w_mut compounds/src/vector.rs impl:Vector<T,4>/w_mut pub
    ensures *r == old(self).0[3], final(self).0@ == old(self).0@.update(3, *final(r)),
//@endfn
//@fn Vector4::set_w compounds/src/vector.rs impl:Vector<T,4>/set_w pub params=val
    ensures final(self).0@ == old(self).0@.update(3, val),
//@endfn
}
}
pub use vecs::*;
