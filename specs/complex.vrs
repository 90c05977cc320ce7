//%include vint.vrs
#[derive(Copy)]
pub struct Complex<T> { pub real: T, pub imag: T }
impl<T: Copy> Clone for Complex<T> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<T: VInt> Complex<T> {
    pub open spec fn re(self) -> int { self.real.ov() }
    pub open spec fn im(self) -> int { self.imag.ov() }
    pub open spec fn is(self, re: int, im: int) -> bool { self.re() == re && self.im() == im }
}
pub mod cmath {
use super::*;
/// x * n / n == x for truncating division
pub proof fn lemma_tdiv_exact(x: int, n: int)
    requires n != 0,
    ensures tdiv(x * n, n) == x,
{
    let (a, b) = (iabs(x), iabs(n));
    assert(iabs(x * n) == a * b + 0) by(nonlinear_arith) requires (a == x && x >= 0) || (a == 0 - x && x < 0), (b == n && n > 0) || (b == 0 - n && n < 0), iabs(x * n) == x * n || iabs(x * n) == 0 - x * n, iabs(x * n) >= 0, a >= 0, b >= 0;
    lemma_fundamental_div_mod_converse(a * b, b, a, 0);
    assert(x > 0 && n > 0 ==> x * n > 0) by(nonlinear_arith);
    assert(x < 0 && n > 0 ==> x * n < 0) by(nonlinear_arith);
    assert(x > 0 && n < 0 ==> x * n < 0) by(nonlinear_arith);
    assert(x < 0 && n < 0 ==> x * n > 0) by(nonlinear_arith);
    assert(x == 0 ==> x * n == 0) by(nonlinear_arith);
}
/// (a + bi)(c + di) / (c + di) == a + bi: the law, over the contracts of product and quotient below
pub proof fn lemma_mul_div(a: int, b: int, c: int, d: int)
    requires c != 0 || d != 0,
    ensures ({
        let (x, y, n) = (a * c - b * d, a * d + b * c, c * c + d * d);
        n != 0 && tdiv(x * c + y * d, n) == a && tdiv(y * c - x * d, n) == b }),
{
    let (x, y, n) = (a * c - b * d, a * d + b * c, c * c + d * d);
    assert(n > 0) by(nonlinear_arith) requires n == c * c + d * d, c != 0 || d != 0;
    assert(x * c + y * d == a * n) by(nonlinear_arith) requires x == a * c - b * d, y == a * d + b * c, n == c * c + d * d;
    assert(y * c - x * d == b * n) by(nonlinear_arith) requires x == a * c - b * d, y == a * d + b * c, n == c * c + d * d;
    lemma_tdiv_exact(a, n); lemma_tdiv_exact(b, n);
}
/// the scalar quotient cancels the common factor
pub proof fn lemma_scalar(a: int, s: int)
    ensures s != 0 ==> tdiv(a * s, s * s) == tdiv(a, s), s == 0 ==> s * s == 0, s != 0 ==> s * s != 0,
{
    if s != 0 {
        let (u, v) = (iabs(a), iabs(s));
        assert(s * s == v * v && s * s > 0) by(nonlinear_arith) requires v == s || v == 0 - s, s != 0;
        assert(iabs(a * s) == v * u) by(nonlinear_arith) requires (u == a && a >= 0) || (u == 0 - a && a < 0), (v == s && s > 0) || (v == 0 - s && s < 0), iabs(a * s) == a * s || iabs(a * s) == 0 - a * s, iabs(a * s) >= 0;
        lemma_truncate_middle_like(u, v);
        assert(a > 0 && s > 0 ==> a * s > 0) by(nonlinear_arith);
        assert(a < 0 && s > 0 ==> a * s < 0) by(nonlinear_arith);
        assert(a > 0 && s < 0 ==> a * s < 0) by(nonlinear_arith);
        assert(a < 0 && s < 0 ==> a * s > 0) by(nonlinear_arith);
        if a == 0 { assert(a * s == 0) by(nonlinear_arith) requires a == 0; lemma_div_basics_1(v); lemma_div_basics_1(v * v); }
    }
}
pub proof fn lemma_truncate_middle_like(u: int, v: int)
    requires u >= 0, v > 0,
    ensures (v * u) / (v * v) == u / v,
{
    lemma_fundamental_div_mod(u, v); lemma_mod_bound(u, v);
    let (q, r) = (u / v, u % v);
    assert(v * u == q * (v * v) + v * r) by(nonlinear_arith) requires u == v * q + r;
    assert(0 <= v * r < v * v) by(nonlinear_arith) requires 0 <= r < v;
    lemma_fundamental_div_mod_converse(v * u, v * v, q, v * r);
}
pub proof fn lemma_div_basics_1(v: int) requires v > 0, ensures 0int / v == 0, { lemma_fundamental_div_mod_converse(0, v, 0, 0); }
}
pub use cmath::*;
pub mod cops {
use super::*;
impl<T: VInt> Complex<T> {
//@fn Complex::new compounds/src/complex.rs impl:Complex<T>/new pub params=real_,imag rename=real->real_ ops=@num
    ensures r.real == real_, r.imag == imag,
//@endfn
//@fn Complex::real compounds/src/complex.rs impl:Complex<T>/real pub name=g_real rename=real->real_ ops=@num
    ensures *r == self.real,
//@endfn
//@fn Complex::imag compounds/src/complex.rs impl:Complex<T>/imag pub name=g_imag rename=real->real_ ops=@num
    ensures *r == self.imag,
//@endfn
//@fn Complex::from_real compounds/src/complex.rs impl:Complex<T>/from_real pub params=real_ rename=real->real_ ops=@num
    ensures r.is(real_.ov(), 0),
//@endfn
//@fn Complex::from_imag compounds/src/complex.rs impl:Complex<T>/from_imag pub params=imag rename=real->real_ ops=@num
    ensures r.is(0, imag.ov()),
//@endfn
//@fn Complex::abs_squared compounds/src/complex.rs impl:Complex<T>/abs_squared pub ops=@num methods=clone->v_clone rename=real->real_
    ensures r.ov() == self.re() * self.re() + self.im() * self.im(),
//@endfn
//@fn Complex::default @compounds impl:Default~for~Complex<T>/default pub name=v_default rename=real->real_ calls=::core::default::Default::default->T::zero ops=@num
    ensures r.is(0, 0),
//@endfn
//@fn Complex::eq @compounds impl:PartialEq~for~Complex<T>/eq pub name=v_eqr params=other ops=@num rename=real->real_
    ensures r == (self.re() == other.re() && self.im() == other.im()),
//@endfn
    pub fn v_eq(self, o: Self) -> (r: bool) ensures r == (self.re() == o.re() && self.im() == o.im()) { self.v_eqr(&o) }
//%for M,f,O in Add,add,+ Sub,sub,-
//@fn Complex::$f compounds/src/complex.rs impl:$M~for~Complex<T>/$f pub name=v_$f params=rhs subst=Self::Output->Self ops=@num rename=real->real_
    ensures r.is(self.re() $O rhs.re(), self.im() $O rhs.im()),
//@endfn
//@fn Complex::$f.scalar compounds/src/complex.rs impl:$M<T>~for~Complex<T>/$f pub name=v_$f_t params=rhs subst=Self::Output->Self ops=@num rename=real->real_
    ensures r.is(self.re() $O rhs.ov(), self.im()),
//@endfn
//%endfor
//@fn Complex::mul compounds/src/complex.rs impl:Mul~for~Complex<T>/mul pub name=v_mul params=rhs subst=Self::Output->Self ops=@num methods=clone->v_clone rename=real->real_
    ensures r.is(self.re() * rhs.re() - self.im() * rhs.im(), self.re() * rhs.im() + self.im() * rhs.re()),
//@entry
    proof { lemma_mul_is_commutative(self.im(), rhs.re()); lemma_mul_is_commutative(self.re(), rhs.im()); lemma_mul_is_commutative(self.re(), rhs.re()); lemma_mul_is_commutative(self.im(), rhs.im()); }
//@endfn
//@fn Complex::mul.scalar compounds/src/complex.rs impl:Mul<T>~for~Complex<T>/mul pub name=v_mul_t params=rhs subst=Self::Output->Self ops=@num methods=clone->v_clone rename=real->real_
    ensures r.is(self.re() * rhs.ov(), self.im() * rhs.ov()),
//@entry
    proof { lemma_mul_is_commutative(self.re(), rhs.ov()); lemma_mul_is_commutative(self.im(), rhs.ov()); }
//@endfn
//@fn Complex::div compounds/src/complex.rs impl:Div~for~Complex<T>/div pub name=v_div params=rhs subst=Self::Output->Self ops=@num methods=clone->v_clone rename=real->real_
    ensures ({ let n = rhs.re() * rhs.re() + rhs.im() * rhs.im();
        n != 0 && r.is(tdiv(self.re() * rhs.re() + self.im() * rhs.im(), n), tdiv(self.im() * rhs.re() - self.re() * rhs.im(), n)) }),
//@entry
    proof { lemma_mul_is_commutative(self.im(), rhs.re()); lemma_mul_is_commutative(self.re(), rhs.im()); lemma_mul_is_commutative(self.re(), rhs.re()); lemma_mul_is_commutative(self.im(), rhs.im()); }
//@endfn
//@fn Complex::div.scalar compounds/src/complex.rs impl:Div<T>~for~Complex<T>/div pub name=v_div_t params=rhs subst=Self::Output->Self ops=@num methods=clone->v_clone rename=real->real_
    ensures rhs.ov() != 0, r.is(tdiv(self.re(), rhs.ov()), tdiv(self.im(), rhs.ov())),
//@entry
    proof { lemma_scalar(self.re(), rhs.ov()); lemma_scalar(self.im(), rhs.ov()); lemma_mul_is_commutative(self.re(), rhs.ov()); lemma_mul_is_commutative(self.im(), rhs.ov()); }
//@endfn
//@fn Complex::zero compounds/src/complex.rs impl:Zero~for~Complex<T>/zero pub rename=real->real_ ops=@num
    ensures r.is(0, 0),
//@endfn
//@fn Complex::is_zero compounds/src/complex.rs impl:Zero~for~Complex<T>/is_zero pub ops=@num rename=real->real_
    ensures r == self.is(0, 0),
//@endfn
//@fn Complex::one compounds/src/complex.rs impl:One~for~Complex<T>/one pub rename=real->real_ ops=@num
    ensures r.is(1, 0),
//@endfn
//@fn Complex::is_one compounds/src/complex.rs impl:One~for~Complex<T>/is_one pub ops=@num rename=real->real_
    ensures r == self.is(1, 0),
//@endfn
}
}
fn main() {}
} // verus!
