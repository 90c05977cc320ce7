//%include vint.vrs
pub struct Fixed<T, const N: usize>(pub T);
impl<T: Copy, const N: usize> Clone for Fixed<T, N> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<T: Copy, const N: usize> Copy for Fixed<T, N> {}
impl<T: VInt, const N: usize> VClone for Fixed<T, N> {}
pub open spec fn fits<T: VInt>(x: int) -> bool { T::lo() <= x <= T::hi() }
impl<T: VInt, const N: usize> Fixed<T, N> {
    /// the raw integer: the number denoted is raw / 2^N
    pub open spec fn raw(self) -> int { self.0.ov() }
}
//%include fixmath.vrs
pub mod fix {
use super::*;
//@fn mask reals/src/fixed.rs fn:mask pub ops=@num
    ensures fits::<T>(p2(N as int)) ==> r.ov() == p2(N as int) - 1,
//@endfn
impl<T: VInt, const N: usize> VOrd for Fixed<T, N> {
    open spec fn ov(self) -> int { self.0.ov() }
    fn v_pc(self, o: Self) -> (r: Option<Ordering>) { self.v_partial_cmp(&o) }
}
impl<T: VInt, const N: usize> Fixed<T, N> {
//@fn Fixed::new reals/src/fixed.rs impl:Fixed<T,N>/new pub ops=@num
    ensures r.raw() == 0,
//@endfn
//@fn Fixed::from_val reals/src/fixed.rs impl:Fixed<T,N>/from_val pub params=val ops=@num
    ensures fits::<T>(val.ov() * p2(N as int)) ==> r.raw() == val.ov() * p2(N as int),
//@endfn
//@fn Fixed::from_raw reals/src/fixed.rs impl:Fixed<T,N>/from_raw pub params=val ops=@num
    ensures r.raw() == val.ov(),
//@endfn
//@fn Fixed::is_whole reals/src/fixed.rs impl:Fixed<T,N>/is_whole pub ops=@num;u!->v_not methods=clone->v_clone
    requires fits::<T>(p2(N as int)),
    ensures r == (self.raw() % p2(N as int) == 0),
//@entry
    proof {
        let (x, m) = (self.raw(), p2(N as int));
        lemma_pow2_pos(N as nat); lemma_down(x, m); T::low_multiple(N as int); T::range(self.0);
        lemma_down(T::lo(), m);
        if x / m * m < T::lo() { assert(false) by(nonlinear_arith) requires x >= T::lo(), x / m * m < T::lo(), T::lo() / m * m == T::lo(), x - m < x / m * m, m >= 1; }
    }
//@endfn
//@fn Fixed::default reals/src/fixed.rs impl:Default~for~Fixed<T,N>/default pub name=v_default ops=@num
    ensures r.raw() == 0,
//@endfn
//@fn Fixed::eq reals/src/fixed.rs impl:PartialEq~for~Fixed<T,N>/eq pub name=v_eqr params=other ops=@num
    ensures r == (self.raw() == other.raw()),
//@endfn
    pub fn v_eq(self, o: Self) -> (r: bool) ensures r == (self.raw() == o.raw()) { self.v_eqr(&o) }
//@fn Fixed::partial_cmp reals/src/fixed.rs impl:PartialOrd~for~Fixed<T,N>/partial_cmp pub name=v_partial_cmp params=other methods=partial_cmp->v_partial_cmp ops=@num
    ensures r == Some(ord_of(self.raw(), other.raw())),
//@endfn
//@fn Fixed::cmp reals/src/fixed.rs impl:Ord~for~Fixed<T,N>/cmp pub name=v_cmp params=other methods=cmp->v_cmp ops=@num
    ensures r == ord_of(self.raw(), other.raw()),
//@endfn
//%for M,f,O,R in Add,add,+,+ Sub,sub,-,-
//@fn Fixed::$f reals/src/fixed.rs impl:$M~for~Fixed<T,N>/$f pub name=v_$f params=rhs subst=Self::Output->Self ops=@num
    ensures r.raw() == self.raw() $R rhs.raw(),
//@endfn
//%endfor
//@fn Fixed::mul reals/src/fixed.rs impl:Mul~for~Fixed<T,N>/mul pub name=v_mul params=rhs subst=Self::Output->Self ops=@num
    ensures r.raw() == self.raw() * rhs.raw() / p2(N as int),
//@endfn
//@fn Fixed::div reals/src/fixed.rs impl:Div~for~Fixed<T,N>/div pub name=v_div params=rhs subst=Self::Output->Self ops=@num
    ensures rhs.raw() != 0, fits::<T>(self.raw() * p2(N as int)) ==> r.raw() == tdiv(self.raw() * p2(N as int), rhs.raw()),
//@endfn
//@fn Fixed::rem reals/src/fixed.rs impl:Rem~for~Fixed<T,N>/rem pub name=v_rem params=rhs subst=Self::Output->Self ops=@num
    ensures rhs.raw() != 0, r.raw() == trem(self.raw(), rhs.raw()),
//@endfn
//@fn Fixed::neg reals/src/fixed.rs impl:Neg~for~Fixed<T,N>/neg pub name=v_neg subst=Self::Output->Self ops=@num
    ensures r.raw() == -self.raw(),
//@endfn
//@fn Fixed::zero reals/src/fixed.rs impl:Zero~for~Fixed<T,N>/zero pub ops=@num
    ensures r.raw() == 0,
//@endfn
//@fn Fixed::is_zero reals/src/fixed.rs impl:Zero~for~Fixed<T,N>/is_zero pub ops=@num
    ensures r == (self.raw() == 0),
//@endfn
//@fn Fixed::one reals/src/fixed.rs impl:One~for~Fixed<T,N>/one pub ops=@num
    ensures fits::<T>(p2(N as int)) ==> r.raw() == p2(N as int),
//@endfn
//@fn Fixed::is_one reals/src/fixed.rs impl:One~for~Fixed<T,N>/is_one pub ops=@num
    ensures fits::<T>(p2(N as int)) ==> r == (self.raw() == p2(N as int)),
//@endfn
//@fn Fixed::min_value reals/src/fixed.rs impl:Bounded~for~Fixed<T,N>/min_value pub ops=@num
    ensures r.raw() == T::lo(),
//@endfn
//@fn Fixed::max_value reals/src/fixed.rs impl:Bounded~for~Fixed<T,N>/max_value pub ops=@num
    ensures r.raw() == T::hi(),
//@endfn
//@fn Fixed::max_negative reals/src/fixed.rs impl:BoundedSigned~for~Fixed<T,N>/max_negative pub ops=@num
    ensures r.raw() == -1,
//@endfn
//@fn Fixed::min_positive reals/src/fixed.rs impl:BoundedSigned~for~Fixed<T,N>/min_positive pub ops=@num
    ensures r.raw() == 1,
//@endfn
//@fn Fixed::abs reals/src/fixed.rs impl:Signed~for~Fixed<T,N>/abs pub ops=@num
    ensures r.raw() == iabs(self.raw()),
//@endfn
//@fn Fixed::is_positive reals/src/fixed.rs impl:Signed~for~Fixed<T,N>/is_positive pub ops=@num
    ensures r == (self.raw() > 0),
//@endfn
//@fn Fixed::is_negative reals/src/fixed.rs impl:Signed~for~Fixed<T,N>/is_negative pub ops=@num
    ensures r == (self.raw() < 0),
//@endfn
//@fn Fixed::floor reals/src/fixed.rs impl:Real~for~Fixed<T,N>/floor pub ops=@num
    ensures fits::<T>(fdown(self.raw(), p2(N as int))) ==> r.raw() == fdown(self.raw(), p2(N as int)),
//@entry
    proof { lemma_pow2_pos(N as nat); lemma_down(self.raw(), p2(N as int)); }
//@endfn
//@fn Fixed::ceil reals/src/fixed.rs impl:Real~for~Fixed<T,N>/ceil pub ops=@num
    requires fits::<T>(p2(N as int)),
    ensures fits::<T>(fdown(self.raw(), p2(N as int))) ==> r.raw() == fup(self.raw(), p2(N as int)),
//@entry
    proof { lemma_pow2_pos(N as nat); lemma_down(self.raw(), p2(N as int)); }
//@endfn
//@fn Fixed::fract reals/src/fixed.rs impl:Real~for~Fixed<T,N>/fract pub ops=@num
    requires fits::<T>(p2(N as int)),
    ensures r.raw() == trem(self.raw(), p2(N as int)),
//@endfn
//@fn Fixed::trunc reals/src/fixed.rs impl:Real~for~Fixed<T,N>/trunc pub ops=@num methods=clone->v_clone
    requires fits::<T>(p2(N as int)),
    ensures r.raw() == self.raw() - trem(self.raw(), p2(N as int)),
//@endfn
//@fn Fixed::round reals/src/fixed.rs impl:Real~for~Fixed<T,N>/round pub ops=@num methods=clone->v_clone
    requires fits::<T>(p2(N as int)),
    ensures fits::<T>(fdown(self.raw(), p2(N as int))) ==> r.raw() == fnear(self.raw(), p2(N as int)),
//@entry
    proof { lemma_pow2_pos(N as nat); lemma_trem(self.raw(), p2(N as int)); lemma_down(self.raw(), p2(N as int)); if N > 0 { lemma_pow2_unfold(N as nat); } else { lemma2_to64(); } lemma2_to64(); assert(p2(1) == 2); assert(N > 0 ==> p2(N as int) == 2 * p2(N - 1)); assert(N == 0 ==> p2(N as int) == 1); }
//@endfn
}
}
fn main() {}
} // verus!
