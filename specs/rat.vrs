//%include vint.vrs
//%include fixmath.vrs
#[derive(Copy)]
pub struct Rat<T> { pub num: T, pub denom: T }
impl<T: Copy> Clone for Rat<T> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
pub open spec fn coprime(a: int, b: int) -> bool { igcd(iabs(a) as nat, iabs(b) as nat) == 1 }
/// the fraction n/d (d != 0) equals x
pub open spec fn same<T: VInt>(x: Rat<T>, n: int, d: int) -> bool { x.n() * d == n * x.d() }
impl<T: VInt> Rat<T> {
    pub open spec fn n(self) -> int { self.num.ov() }
    pub open spec fn d(self) -> int { self.denom.ov() }
    /// lowest terms, positive denominator
    pub open spec fn wf(self) -> bool { self.d() > 0 && coprime(self.n(), self.d()) }
}
pub mod ratmath {
use super::*;
/// dividing both parts by their greatest common divisor
pub proof fn lemma_reduce(n: int, d: int)
    requires d != 0, n != 0,
    ensures ({ let g = igcd(iabs(n) as nat, iabs(d) as nat) as int;
        let (a, b) = (tdiv(n, g), tdiv(d, g));
        g >= 1 && g <= iabs(n) && g <= iabs(d) && n == a * g && d == b * g && b != 0 && a != 0 && (b < 0) == (d < 0) && coprime(a, b) && coprime(0 - a, 0 - b) && a * d == n * b && (0 - a) * d == n * (0 - b) }),
{
    let (un, ud) = (iabs(n) as nat, iabs(d) as nat);
    let g = igcd(un, ud);
    lemma_igcd_divides(un, ud);
    let qa = choose|q: nat| #![trigger dq(g, q)] un == dq(g, q);
    let qb = choose|q: nat| #![trigger dq(g, q)] ud == dq(g, q);
    assert(g >= 1 && qa >= 1 && qb >= 1) by(nonlinear_arith) requires g * qa >= 1, g * qb >= 1, g >= 0, qa >= 0, qb >= 0;
    assert(g <= g * qa && g <= g * qb) by(nonlinear_arith) requires g >= 1, qa >= 1, qb >= 1;
    assert(un as int == qa * (g as int) + 0 && ud as int == qb * (g as int) + 0) by(nonlinear_arith) requires un == g * qa, ud == g * qb;
    lemma_fundamental_div_mod_converse(un as int, g as int, qa as int, 0);
    lemma_fundamental_div_mod_converse(ud as int, g as int, qb as int, 0);
    let h = igcd(qa, qb);
    lemma_igcd_divides(qa, qb);
    let ha = choose|q: nat| #![trigger dq(h, q)] qa == dq(h, q);
    let hb = choose|q: nat| #![trigger dq(h, q)] qb == dq(h, q);
    let gh = (g * h) as nat;
    assert(un == dq(gh, ha)) by(nonlinear_arith) requires un == g * qa, qa == h * ha, dq(gh, ha) == gh * ha, gh == g * h;
    assert(ud == dq(gh, hb)) by(nonlinear_arith) requires ud == g * qb, qb == h * hb, dq(gh, hb) == gh * hb, gh == g * h;
    lemma_igcd_greatest(un, ud, gh);
    let c = choose|q: nat| #![trigger dq(gh, q)] g == dq(gh, q);
    assert(h == 1) by(nonlinear_arith) requires g == (g * h) * c, g >= 1, h >= 0, c >= 0;
    let (a, b) = (tdiv(n, g as int), tdiv(d, g as int));
    assert(iabs(a) == qa && iabs(b) == qb);
    assert(n == a * (g as int)) by(nonlinear_arith) requires (a == qa && n == un) || (a == 0 - qa && n == 0 - un), un as int == qa * (g as int);
    assert(d == b * (g as int)) by(nonlinear_arith) requires (b == qb && d == ud) || (b == 0 - qb && d == 0 - ud), ud as int == qb * (g as int);
    assert(a * d == n * b) by(nonlinear_arith) requires n == a * (g as int), d == b * (g as int);
    assert((0 - a) * d == n * (0 - b)) by(nonlinear_arith) requires a * d == n * b;
}
/// coprime p, q with q | p * m gives q | m (Bezout-free, by descent on the gcd)
pub proof fn lemma_bezout(a: nat, b: nat) -> (r: (int, int))
    ensures r.0 * a + r.1 * b == igcd(a, b),
    decreases b,
{
    if b == 0 { (1, 0) } else {
        let (x, y) = lemma_bezout(b, a % b);
        let k = a / b;
        lemma_fundamental_div_mod(a as int, b as int);
        let (ai, bi, m) = (a as int, b as int, (a % b) as int);
        assert(y * ai == y * (bi * k) + y * m) by(nonlinear_arith) requires ai == bi * k + m;
        assert((x - y * k) * bi == x * bi - y * (bi * k)) by(nonlinear_arith);
        (y, x - y * k)
    }
}
/// equality of value is equality of parts
pub proof fn lemma_eq(an: int, ad: int, bn: int, bd: int)
    requires ad > 0, bd > 0, coprime(an, ad), coprime(bn, bd), an * bd == bn * ad,
    ensures an == bn, ad == bd,
{
    let (x, y) = lemma_bezout(iabs(an) as nat, iabs(ad) as nat);
    let x2 = if an < 0 { 0 - x } else { x };
    assert(x2 * an + y * ad == 1) by(nonlinear_arith) requires x * iabs(an) + y * iabs(ad) == 1, ad > 0, iabs(ad) == ad, (an < 0 && x2 == 0 - x && iabs(an) == 0 - an) || (an >= 0 && x2 == x && iabs(an) == an);
    let t = x2 * bn + y * bd;
    assert(bd == t * ad) by(nonlinear_arith) requires x2 * an + y * ad == 1, an * bd == bn * ad, t == x2 * bn + y * bd;
    let (u, v) = lemma_bezout(iabs(bn) as nat, iabs(bd) as nat);
    let u2 = if bn < 0 { 0 - u } else { u };
    assert(u2 * bn + v * bd == 1) by(nonlinear_arith) requires u * iabs(bn) + v * iabs(bd) == 1, bd > 0, iabs(bd) == bd, (bn < 0 && u2 == 0 - u && iabs(bn) == 0 - bn) || (bn >= 0 && u2 == u && iabs(bn) == bn);
    let s = u2 * an + v * ad;
    assert(ad == s * bd) by(nonlinear_arith) requires u2 * bn + v * bd == 1, an * bd == bn * ad, s == u2 * an + v * ad;
    assert(t >= 1) by(nonlinear_arith) requires bd == t * ad, bd > 0, ad > 0;
    assert(s >= 1) by(nonlinear_arith) requires ad == s * bd, bd > 0, ad > 0;
    assert(bd >= ad) by(nonlinear_arith) requires bd == t * ad, t >= 1, ad > 0;
    assert(ad >= bd) by(nonlinear_arith) requires ad == s * bd, s >= 1, bd > 0;
    assert(an == bn) by(nonlinear_arith) requires an * bd == bn * ad, ad == bd, ad > 0;
}
pub proof fn lemma_comm(a: int, b: int) ensures a * b == b * a { lemma_mul_is_commutative(a, b); }
pub proof fn lemma_whole(n: int, d: int)
    requires d > 0,
    ensures n == n / d * d + n % d, 0 <= n % d < d, n >= 0 ==> n / d >= 0, (n - n % d) / d == n / d, (n - n % d) % d == 0, fup(n, d) / d == (if n % d == 0 { n / d } else { n / d + 1 }), n >= n % d || n < 0,
{
    lemma_fundamental_div_mod(n, d); lemma_mod_bound(n, d); lemma_mul_is_commutative(n / d, d);
    if n >= 0 { lemma_div_pos_is_pos(n, d); assert(n / d * d >= 0) by(nonlinear_arith) requires n / d >= 0, d > 0; }
    lemma_fundamental_div_mod_converse(n - n % d, d, n / d, 0);
    if n % d != 0 { let m = n - n % d + d; assert(m == (n / d + 1) * d + 0) by(nonlinear_arith) requires n == n / d * d + n % d, m == n - n % d + d; lemma_fundamental_div_mod_converse(m, d, n / d + 1, 0); }
}
pub proof fn lemma_near(n: int, d: int)
    requires d > 0,
    ensures fnear(n, d) / d == (if n % d > d / 2 { n / d + 1 } else { n / d }),
        n >= 0 ==> tdiv(n, d) == n / d, n < 0 && n % d == 0 ==> tdiv(n, d) == n / d, n < 0 && n % d != 0 ==> tdiv(n, d) == n / d + 1, d >= 0, tdiv(d, 2) == d / 2,
{
    lemma_whole(n, d);
    let q = n / d; let r = n % d;
    let m = n - r + d; assert(m == (q + 1) * d + 0) by(nonlinear_arith) requires n == q * d + r, m == n - r + d; lemma_fundamental_div_mod_converse(m, d, q + 1, 0);
    if n < 0 {
        let y = 0 - n;
        if r == 0 { assert(y == (0 - q) * d + 0) by(nonlinear_arith) requires y == 0 - n, n == q * d + r, r == 0; lemma_fundamental_div_mod_converse(y, d, 0 - q, 0); }
        else { assert(y == (0 - q - 1) * d + (d - r)) by(nonlinear_arith) requires y == 0 - n, n == q * d + r; lemma_fundamental_div_mod_converse(y, d, 0 - q - 1, d - r); }
    }
}
pub proof fn lemma_igcd_one(a: nat) ensures igcd(a, 1) == 1, igcd(1, a) == 1 { reveal_with_fuel(igcd, 3); lemma_igcd_sym(a, 1); }
}
pub use ratmath::*;
pub open spec fn redok<T: VInt>(n: int, d: int) -> bool { d > 0 || n > T::lo() || d > T::lo() }
pub mod ratops {
use super::*;
impl<T: VInt> Rat<T> {
//@fn Rat::new_unchecked reals/src/rat.rs impl:Rat<T>/new_unchecked pub params=numerator,denominator ops=@num
    ensures r.num == numerator, r.denom == denominator,
//@endfn
//@fn Rat::reduce reals/src/rat.rs impl:Rat<T>/reduce pub nowhere params=num,denom ops=@num methods=clone->v_clone
    requires denom.ov() != 0,
    ensures redok::<T>(num.ov(), denom.ov()) ==> r.wf() && same(r, num.ov(), denom.ov()),
//@entry
    proof { T::range(num); T::range(denom); if num.ov() != 0 { lemma_reduce(num.ov(), denom.ov()); } lemma_igcd_one(0); }
//@endfn
//@fn Rat::new reals/src/rat.rs impl:Rat<T>/new pub nowhere params=numerator,denominator ops=@num
    ensures r is Some == (denominator.ov() != 0), redok::<T>(numerator.ov(), denominator.ov()) ==> (r matches Some(x) ==> x.wf() && same(x, numerator.ov(), denominator.ov())),
//@endfn
//@fn Rat::numerator reals/src/rat.rs impl:Rat<T>/numerator pub ops=@num
    ensures r.ov() == self.n(),
//@endfn
//@fn Rat::denominator reals/src/rat.rs impl:Rat<T>/denominator pub ops=@num
    ensures r.ov() == self.d(),
//@endfn
//@fn Rat::into_pair reals/src/rat.rs impl:Rat<T>/into_pair pub ops=@num
    ensures r.0.ov() == self.n(), r.1.ov() == self.d(),
//@endfn
//@fn Rat::default reals/src/rat.rs impl:Default~for~Rat<T>/default pub name=v_default ops=@num
    ensures r.wf(), r.n() == 0,
//@endfn
//@fn Rat::eq @reals impl:PartialEq~for~Rat<T>/eq pub name=v_eqr params=other ops=@num
    ensures r == (self.n() == other.n() && self.d() == other.d()),
//@endfn
    pub fn v_eq(self, o: Self) -> (r: bool) ensures r == (self.n() == o.n() && self.d() == o.d()) { self.v_eqr(&o) }
//%for M,f,O in Add,add,+ Sub,sub,-
//@fn Rat::$f reals/src/rat.rs impl:$M~for~Rat<T>/$f pub name=v_$f params=rhs subst=Self::Output->Self ops=@num methods=clone->v_clone
    requires self.wf(), rhs.wf(),
    ensures r.wf(), same(r, self.n() * rhs.d() $O rhs.n() * self.d(), self.d() * rhs.d()),
//@entry
    proof { lemma_mul_strictly_positive(self.d(), rhs.d()); lemma_comm(self.d(), rhs.d()); }
//@endfn
//%endfor
//@fn Rat::mul reals/src/rat.rs impl:Mul~for~Rat<T>/mul pub name=v_mul params=rhs subst=Self::Output->Self ops=@num methods=clone->v_clone
    requires self.wf(), rhs.wf(),
    ensures r.wf(), same(r, self.n() * rhs.n(), self.d() * rhs.d()),
//@entry
    proof { lemma_mul_strictly_positive(self.d(), rhs.d()); }
//@endfn
//@fn Rat::div reals/src/rat.rs impl:Div~for~Rat<T>/div pub name=v_div params=rhs subst=Self::Output->Self ops=@num methods=clone->v_clone unwrap
    requires self.wf(), rhs.wf(),
    ensures rhs.n() != 0, redok::<T>(self.n() * rhs.d(), self.d() * rhs.n()) ==> r.wf() && same(r, self.n() * rhs.d(), self.d() * rhs.n()),
//@entry
    proof { if rhs.n() == 0 { assert(self.d() * rhs.n() == 0) by(nonlinear_arith) requires rhs.n() == 0; } else { assert(self.d() * rhs.n() != 0) by(nonlinear_arith) requires rhs.n() != 0, self.d() > 0; } }
//@unwrap 0
    (rhs.n() != 0)
//@endfn
//@fn Rat::neg reals/src/rat.rs impl:Neg~for~Rat<T>/neg pub name=v_neg subst=Self::Output->Self ops=@num
    requires self.wf(),
    ensures r.wf(), r.n() == -self.n(), r.d() == self.d(),
//@endfn
//@fn Rat::zero reals/src/rat.rs impl:Zero~for~Rat<T>/zero pub ops=@num
    ensures r.wf(), r.n() == 0, r.d() == 1,
//@entry
    proof { lemma_igcd_one(0); }
//@endfn
//@fn Rat::is_zero reals/src/rat.rs impl:Zero~for~Rat<T>/is_zero pub ops=@num
    ensures r == (self.n() == 0),
//@endfn
//@fn Rat::one reals/src/rat.rs impl:One~for~Rat<T>/one pub ops=@num
    ensures r.wf(), r.n() == 1, r.d() == 1,
//@entry
    proof { lemma_igcd_one(1); }
//@endfn
//@fn Rat::is_one reals/src/rat.rs impl:One~for~Rat<T>/is_one pub ops=@num
    ensures r == (self.n() == 1 && self.d() == 1),
//@endfn
//@fn Rat::abs reals/src/rat.rs impl:Signed~for~Rat<T>/abs pub ops=@num
    requires self.wf(),
    ensures r.wf(), r.n() == iabs(self.n()), r.d() == self.d(),
//@endfn
//@fn Rat::is_positive reals/src/rat.rs impl:Signed~for~Rat<T>/is_positive pub ops=@num
    ensures r == (self.n() > 0),
//@endfn
//@fn Rat::is_negative reals/src/rat.rs impl:Signed~for~Rat<T>/is_negative pub ops=@num
    ensures r == (self.n() < 0),
//@endfn
//@fn Rat::min_value reals/src/rat.rs impl:Bounded~for~Rat<T>/min_value pub ops=@num
    ensures r.wf(), r.n() == T::lo(), r.d() == 1,
//@entry
    proof { lemma_igcd_one(iabs(T::lo()) as nat); }
//@endfn
//@fn Rat::max_value reals/src/rat.rs impl:Bounded~for~Rat<T>/max_value pub ops=@num
    ensures r.wf(), r.n() == T::hi(), r.d() == 1,
//@entry
    proof { lemma_igcd_one(iabs(T::hi()) as nat); }
//@endfn
//@fn Rat::min_positive reals/src/rat.rs impl:BoundedSigned~for~Rat<T>/min_positive pub ops=@num
    ensures r.wf(), r.n() == 1, r.d() == T::hi(),
//@entry
    proof { T::bounds(); lemma_igcd_one(T::hi() as nat); }
//@endfn
//@fn Rat::max_negative reals/src/rat.rs impl:BoundedSigned~for~Rat<T>/max_negative pub ops=@num
    ensures r.wf(), r.n() == -1, r.d() == T::hi(),
//@entry
    proof { T::bounds(); lemma_igcd_one(T::hi() as nat); }
//@endfn
//@fn Rat::floor reals/src/rat.rs impl:Real~for~Rat<T>/floor pub ops=@num methods=clone->v_clone
    requires self.wf(), self.n() >= 0,
    ensures r.wf(), same(r, self.n() / self.d(), 1),
//@entry
    proof { lemma_whole(self.n(), self.d()); }
//@endfn
//@fn Rat::ceil reals/src/rat.rs impl:Real~for~Rat<T>/ceil pub ops=@num methods=clone->v_clone
    requires self.wf(), self.n() >= 0,
    ensures r.wf(), same(r, fup(self.n(), self.d()) / self.d(), 1),
//@entry
    proof { lemma_whole(self.n(), self.d()); }
//@endfn
//@fn Rat::round reals/src/rat.rs impl:Real~for~Rat<T>/round pub ops=@num methods=clone->v_clone
    requires self.wf(),
    ensures r.wf(), same(r, fnear(self.n(), self.d()) / self.d(), 1),
//@entry
    proof { lemma_whole(self.n(), self.d()); lemma_trem(self.n(), self.d()); lemma_near(self.n(), self.d()); }
//@endfn
}
}
fn main() {}
} // verus!
