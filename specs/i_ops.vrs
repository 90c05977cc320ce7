// the fixed-width signed integer (element type u8 throughout)
#[derive(Copy, Clone)]
pub struct I<const N: usize>(pub [u8; N]);
pub open spec fn half(n: nat) -> int { if n == 0 { 0 } else { 128 * pw((n - 1) as nat) } }
/// the representative of x in two's complement with n bytes
pub open spec fn wrapi(x: int, n: nat) -> int { let m = x % pw(n); if m < half(n) { m } else { m - pw(n) } }
pub open spec fn iabs(x: int) -> int { if x < 0 { -x } else { x } }
/// quotient truncated towards zero, remainder with the sign of the dividend
pub open spec fn tquo(a: int, b: int) -> int { if (a < 0) != (b < 0) { -(iabs(a) / iabs(b)) } else { iabs(a) / iabs(b) } }
pub open spec fn trem(a: int, b: int) -> int { if a < 0 { -(iabs(a) % iabs(b)) } else { iabs(a) % iabs(b) } }
impl<const N: usize> I<N> {
    pub open spec fn n(self) -> int { num(self.0@) }
    /// the signed number denoted
    pub open spec fn sv(self) -> int { if self.n() < half(N as nat) { self.n() } else { self.n() - pw(N as nat) } }
}
pub mod imath {
use super::*;
/// slice::last and bool::cmp (assumed)
pub trait VLast<const N: usize> { spec fn vl(&self) -> Seq<u8>; fn v_last(&self) -> (r: Option<&u8>) ensures r == (if N == 0 { None } else { Some(&self.vl()[N - 1]) }); }
impl<const N: usize> VLast<N> for [u8; N] {
    open spec fn vl(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_last(&self) -> (r: Option<&u8>) { self.last() }
}
pub trait VBCmp { spec fn vb(&self) -> bool; fn v_bcmp(&self, o: &Self) -> (r: Ordering) ensures r == ord_of(b2i(self.vb()), b2i(o.vb())); }
impl VBCmp for bool {
    open spec fn vb(&self) -> bool { *self }
    #[verifier::external_body]
    fn v_bcmp(&self, o: &Self) -> (r: Ordering) { self.cmp(o) }
}
pub proof fn lemma_half(n: nat)
    requires n >= 1,
    ensures pw(n) == 2 * half(n), half(n) >= 128,
{ lemma_pw_step((n - 1) as nat); }
pub proof fn lemma_in<const N: usize>(x: I<N>)
    requires N >= 1,
    ensures 0 <= x.n() < pw(N as nat), x.0@.len() == N, pw(N as nat) == 2 * half(N as nat), half(N as nat) >= 128,
        x.n() == x.sv() % pw(N as nat), x.sv() == wrapi(x.sv(), N as nat), -half(N as nat) <= x.sv() < half(N as nat),
{
    lemma_num_bound(x.0@); lemma_half(N as nat);
    let p = pw(N as nat);
    lemma_small_mod(x.n() as nat, p as nat);
    if x.n() >= half(N as nat) { lemma_div_mod_unique(x.sv(), p, -1, x.n()); }
}
/// the sign bit is the top bit of the top byte
pub proof fn lemma_sign<const N: usize>(x: I<N>)
    requires N >= 1,
    ensures (x.0@[N - 1] & 0x80 != 0) == (x.sv() < 0),
{
    lemma_in(x);
    let j = (N - 1) as nat;
    lemma_val_step(x.0@, j); lemma_val_bound(x.0@, j); lemma_pw_pos(j);
    let b = x.0@[N - 1];
    assert((b & 0x80 != 0) == (b >= 128)) by(bit_vector);
    let d = dg(x.0@, N - 1); let p = pw(j);
    if d >= 128 { assert(d * p >= 128 * p) by(nonlinear_arith) requires d >= 128, p >= 1; }
    else { assert(d * p <= 127 * p) by(nonlinear_arith) requires d <= 127, p >= 1; }
}
/// complementing every byte
pub proof fn lemma_compl(s: Seq<u8>, o: Seq<u8>, k: nat)
    requires s.len() == o.len(), k <= s.len(), forall|i: int| 0 <= i < s.len() ==> o[i] == !s[i],
    ensures val(o, k) == pw(k) - 1 - val(s, k),
    decreases k,
{
    if k == 0 { lemma_val_step(s, 0); lemma_val_step(o, 0); lemma_pw_step(0); }
    else {
        let j = (k - 1) as nat;
        lemma_compl(s, o, j); lemma_val_step(s, j); lemma_val_step(o, j); lemma_pw_step(j);
        let b = s[j as int];
        assert(!b == 255 - b) by(bit_vector);
        let p = pw(j);
        assert((255 - b as int) * p == 255 * p - (b as int) * p) by(nonlinear_arith);
        assert(256 * p == 255 * p + p);
    }
}
/// the value of a result given modulo the width
pub proof fn lemma_mod_sv<const N: usize>(r: I<N>, x: int)
    requires N >= 1, r.n() == x % pw(N as nat),
    ensures r.sv() == wrapi(x, N as nat),
{ lemma_in(r); }
pub proof fn lemma_cong_add(a: int, b: int, p: int)
    requires p > 0,
    ensures (a % p + b % p) % p == (a + b) % p, (a % p - b % p) % p == (a - b) % p, ((a % p) * (b % p)) % p == (a * b) % p,
{ lemma_add_mod_noop(a, b, p); lemma_sub_mod_noop(a, b, p); lemma_mul_mod_noop(a, b, p); }
/// two's complement negation
pub proof fn lemma_neg_mod(n: int, x: int, p: int)
    requires p > 0, n == x % p, 
    ensures ((p - 1 - n) + 1) % p == (-x) % p,
{ lemma_sub_mod_noop(0, x, p); lemma_mod_add_multiples_vanish(-n, p); lemma_small_mod(0, p as nat); assert(-n == 0 - n); }
pub proof fn lemma_min_max(s: Seq<u8>, n: nat, top: u8, low: u8)
    requires n >= 1, s.len() == n, s[n - 1] == top, forall|i: int| 0 <= i < n - 1 ==> s[i] == low, low == 0 || low == 0xff,
    ensures num(s) == top as int * pw((n - 1) as nat) + (if low == 0 { 0 } else { pw((n - 1) as nat) - 1 }),
{
    let j = (n - 1) as nat;
    lemma_val_step(s, j);
    if low == 0 { lemma_val_zeros(s, 0, j); lemma_val_step(s, 0); }
    else {
        let t = s.subrange(0, j as int);
        lemma_all_max(t, j);
        lemma_val_ext(s, t, j);
    }
}
/// a quotient / remainder of magnitudes given its sign
pub proof fn lemma_quo_bound(a: int, b: int, h: int)
    requires 0 <= a <= h, 0 < b, 
    ensures 0 <= a / b <= a, 0 <= a % b <= a, a % b < b,
{ lemma_div_pos_is_pos(a, b); lemma_div_nonincreasing(a, b); lemma_mod_bound(a, b); lemma_mod_decreases(a as nat, b as nat); }
/// wrapping is the identity inside the range
pub proof fn lemma_wrapi_id(x: int, n: nat)
    requires n >= 1, -half(n) <= x < half(n),
    ensures wrapi(x, n) == x,
{
    lemma_half(n);
    if x >= 0 { lemma_small_mod(x as nat, pw(n) as nat); } else { lemma_div_mod_unique(x, pw(n), -1, x + pw(n)); }
}
}
pub use imath::*;
pub mod iid {
use super::*;
impl<const N: usize> I<N> {
//@fn I::zero ints/src/i.rs impl:Zero~for~I<N>/zero pub
    requires N >= 1,
    ensures r.sv() == 0, r.n() == 0,
//@entry
    proof { lemma_num_zeros([0u8; N]@); lemma_half(N as nat); }
//@endfn
//@fn I::is_zero ints/src/i.rs impl:Zero~for~I<N>/is_zero pub
    requires N >= 1,
    ensures r == (self.sv() == 0),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    proof { lemma_num_zero_iff(self.0@); lemma_in(*self); }
//@loop 0
    invariant __k0 <= N, __s0@ == self.0@, __r0 == (forall|i: int| 0 <= i < __k0 ==> self.0@[i] == 0),
    decreases N - __k0,
//@endfn
//@fn I::one ints/src/i.rs impl:One~for~I<N>/one pub calls=array::from_fn->v_from_fn;u8::from->vbool_u8
    requires N >= 1,
    ensures r.n() == 1, r.sv() == 1,
//@closure 0
usize -> u8
 ensures __r == (if __a0 == 0 { 1u8 } else { 0u8 })
//@tail
    proof { lemma_is_one(__ret.0@); lemma_half(N as nat); }
//@endfn
//@fn I::is_one ints/src/i.rs impl:One~for~I<N>/is_one pub
    requires N >= 1,
    ensures r == (self.sv() == 1),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    proof { lemma_is_one(self.0@); lemma_in(*self); }
//@loop 0
    invariant __k0 <= N - 1, __s0@ == self.0@.subrange(1, N as int), __r0 == (forall|i: int| 1 <= i < __k0 + 1 ==> self.0@[i] == 0),
    decreases N - 1 - __k0,
//@endfn
//@fn I::min_value ints/src/i.rs impl:Bounded~for~I<N>/min_value pub calls=array::from_fn->v_from_fn
    requires N >= 1,
    ensures r.sv() == -half(N as nat),
//@closure 0
usize -> u8
 ensures __r == (if __a0 == N - 1 { 0x80u8 } else { 0u8 })
//@tail
    proof { lemma_min_max(__ret.0@, N as nat, 0x80, 0); lemma_half(N as nat); }
//@endfn
//@fn I::max_value ints/src/i.rs impl:Bounded~for~I<N>/max_value pub calls=array::from_fn->v_from_fn
    requires N >= 1,
    ensures r.sv() == half(N as nat) - 1,
//@closure 0
usize -> u8
 ensures __r == (if __a0 == N - 1 { 0x7fu8 } else { 0xffu8 })
//@tail
    proof { lemma_min_max(__ret.0@, N as nat, 0x7f, 0xff); lemma_half(N as nat); }
//@endfn
//@fn I::min_positive ints/src/i.rs impl:BoundedSigned~for~I<N>/min_positive pub calls=I::one->I::<N>::one
    requires N >= 1,
    ensures r.sv() == 1,
//@endfn
//@fn I::max_negative ints/src/i.rs impl:BoundedSigned~for~I<N>/max_negative pub
    requires N >= 1,
    ensures r.sv() == -1,
//@tail
    proof { lemma_all_max(__ret.0@, N as nat); lemma_half(N as nat); }
//@endfn
//@fn I::is_positive ints/src/i.rs impl:Signed~for~I<N>/is_positive pub methods=last->v_last unwrap
    requires N >= 1,
    ensures r == (self.sv() >= 0),
//@entry
    proof { lemma_sign(*self); }
//@endfn
//@fn I::is_negative ints/src/i.rs impl:Signed~for~I<N>/is_negative pub methods=last->v_last unwrap
    requires N >= 1,
    ensures r == (self.sv() < 0),
//@entry
    proof { lemma_sign(*self); }
//@endfn
//@fn I::eq ints/src/i.rs impl:PartialEq~for~I<N>/eq pub name=v_eq params=other ops===->v_arr_eq
    requires N >= 1,
    ensures r == (self.sv() == other.sv()),
//@entry
    proof { lemma_in(*self); lemma_in(*other); if self.n() == other.n() { lemma_unique(self.0@, other.0@, N as nat); assert forall|i: int| 0 <= i < N implies self.0@[i] == other.0@[i] by { assert(dg(self.0@, i) == dg(other.0@, i)); } assert(self.0@ =~= other.0@); } }
//@endfn
//@fn I::cmp ints/src/i.rs impl:Ord~for~I<N>/cmp pub name=v_cmp params=other methods=cmp->v_bcmp
    requires N >= 1,
    ensures r == ord_of(self.sv(), other.sv()),
//@entry
    proof { lemma_in(*self); lemma_in(*other); }
//@endfn
//@fn I::partial_cmp ints/src/i.rs impl:PartialOrd~for~I<N>/partial_cmp pub name=v_partial_cmp params=other methods=cmp->v_cmp
    requires N >= 1,
    ensures r == Some(ord_of(self.sv(), other.sv())),
//@endfn
}
}
pub use iid::*;
pub mod iarith {
use super::*;
impl<const N: usize> I<N> {
//@fn I::add ints/src/i.rs impl:Add~for~I<N>/add pub name=v_add params=rhs subst=Self::Output->Self
    requires sz(N), N >= 1,
    ensures r.sv() == wrapi(self.sv() + rhs.sv(), N as nat), r.n() == (self.n() + rhs.n()) % pw(N as nat),
//@entry
    let ghost s0 = self;
    proof { lemma_in(self); lemma_in(rhs); lemma_cong_add(self.sv(), rhs.sv(), pw(N as nat)); }
//@tail
    proof { lemma_mod_sv(__ret, s0.sv() + rhs.sv()); }
//@endfn
//@fn I::sub ints/src/i.rs impl:Sub~for~I<N>/sub pub name=v_sub params=rhs subst=Self::Output->Self
    requires sz(N), N >= 1,
    ensures r.sv() == wrapi(self.sv() - rhs.sv(), N as nat),
//@entry
    let ghost s0 = self;
    proof { lemma_in(self); lemma_in(rhs); lemma_cong_add(self.sv(), rhs.sv(), pw(N as nat)); }
//@tail
    proof { lemma_mod_sv(__ret, s0.sv() - rhs.sv()); }
//@endfn
//@fn I::mul ints/src/i.rs impl:Mul~for~I<N>/mul pub name=v_mul params=rhs subst=Self::Output->Self
    requires sz(N), N >= 1,
    ensures r.sv() == wrapi(self.sv() * rhs.sv(), N as nat),
//@entry
    let ghost s0 = self;
    proof { lemma_in(self); lemma_in(rhs); lemma_cong_add(self.sv(), rhs.sv(), pw(N as nat)); }
//@tail
    proof { lemma_mod_sv(__ret, s0.sv() * rhs.sv()); }
//@endfn
//@fn I::neg ints/src/i.rs impl:Neg~for~I<N>/neg pub name=v_neg subst=Self::Output->Self nooptmap methods=map->v_map ops=+->v_add
    requires sz(N), N >= 1,
    ensures r.sv() == wrapi(-self.sv(), N as nat), r.n() == (-self.sv()) % pw(N as nat),
//@entry
    let ghost s0 = self;
    proof { assert forall|t: Seq<u8>| #![trigger num(t)] t.len() == N && (forall|i: int| 0 <= i < N ==> t[i] == !s0.0@[i]) implies num(t) == pw(N as nat) - 1 - s0.n() by { lemma_compl(s0.0@, t, N as nat); } }
//@closure 0
u8 -> u8
 ensures __r == !__a0
//@tail
    proof {
        lemma_in(s0);
        lemma_neg_mod(s0.n(), s0.sv(), pw(N as nat));
        lemma_mod_sv(__ret, -s0.sv());
    }
//@endfn
//@fn I::abs ints/src/i.rs impl:Signed~for~I<N>/abs pub name=v_abs ops=u-->v_neg
    requires sz(N), N >= 1,
    ensures r.sv() == wrapi(iabs(self.sv()), N as nat), r.n() == iabs(self.sv()),
//@entry
    proof { lemma_in(self); lemma_small_mod(iabs(self.sv()) as nat, pw(N as nat) as nat); }
//@endfn
//@fn I::div ints/src/i.rs impl:Div~for~I<N>/div pub name=v_div params=rhs subst=Self::Output->Self methods=abs->v_abs ops=u-->v_neg
    requires sz(N), N >= 1,
    ensures rhs.sv() != 0, r.sv() == wrapi(tquo(self.sv(), rhs.sv()), N as nat),
//@entry
    let ghost s0 = self; let ghost r0 = rhs;
    proof { lemma_in(self); lemma_in(rhs); lemma_num_zeros([0u8; N]@); lemma_qr_unique_all(iabs(self.sv()), iabs(rhs.sv())); if rhs.sv() != 0 { lemma_div_facts(self, rhs); } }
//@endfn
//@fn I::rem ints/src/i.rs impl:Rem~for~I<N>/rem pub name=v_rem params=rhs subst=Self::Output->Self methods=abs->v_abs ops=u-->v_neg
    requires sz(N), N >= 1,
    ensures rhs.sv() != 0, r.sv() == trem(self.sv(), rhs.sv()),
//@entry
    let ghost s0 = self; let ghost r0 = rhs;
    proof { lemma_in(self); lemma_in(rhs); lemma_num_zeros([0u8; N]@); lemma_qr_unique_all(iabs(self.sv()), iabs(rhs.sv())); if rhs.sv() != 0 { lemma_div_facts(self, rhs); } }
//@endfn
//@fn I::not ints/src/i.rs impl:Not~for~I<N>/not pub name=v_not subst=Self::Output->Self nooptmap methods=map->v_map
    requires N >= 1,
    ensures r.sv() == -self.sv() - 1, forall|i: nat| i < N * 8 ==> #[trigger] nbit(r.n(), i) == !nbit(self.n(), i),
//@closure 0
u8 -> u8
 ensures __r == !__a0
//@tail
    proof { lemma_not_bits(self.0@, __ret.0@); lemma_compl(self.0@, __ret.0@, N as nat); lemma_in(self); lemma_in(__ret); }
//@endfn
//%for TR,F,OP,BOP in BitAnd,bitand,&,&& BitOr,bitor,|,|| BitXor,bitxor,^,!=
//@fn I::$F ints/src/i.rs impl:$TR~for~I<N>/$F pub name=v_$F params=rhs subst=Self::Output->Self nooptmap
    ensures forall|i: nat| #[trigger] nbit(r.n(), i) == (nbit(self.n(), i) $BOP nbit(rhs.n(), i)),
//@closure 0
(u8, u8) -> u8
 ensures __r == (__a0.0 $OP __a0.1)
//@tail
    proof { assert forall|i: int| 0 <= i < N implies __ret.0@[i] == (dg(self.0@, i) as u8) $OP (dg(rhs.0@, i) as u8) by {} lemma_$F(self.0@, rhs.0@, __ret.0@); }
//@endfn
//%endfor
}
/// results of the unsigned division as signed numbers
pub proof fn lemma_div_facts<const N: usize>(a: I<N>, b: I<N>)
    requires N >= 1, b.sv() != 0,
    ensures ({ let q = iabs(a.sv()) / iabs(b.sv()); let m = iabs(a.sv()) % iabs(b.sv()); let h = half(N as nat);
        &&& 0 <= q <= h && 0 <= m < h && m < iabs(b.sv())
        &&& (forall|x: I<N>| #[trigger] x.n() == q ==> x.sv() == wrapi(q, N as nat))
        &&& (forall|x: I<N>| #[trigger] x.n() == m ==> x.sv() == m)
        &&& wrapi(-wrapi(q, N as nat), N as nat) == wrapi(-q, N as nat)
        &&& wrapi(-m, N as nat) == -m && wrapi(m, N as nat) == m }),
{
    lemma_in(a); lemma_in(b);
    let n = N as nat;
    let q = iabs(a.sv()) / iabs(b.sv()); let m = iabs(a.sv()) % iabs(b.sv()); let h = half(n);
    lemma_quo_bound(iabs(a.sv()), iabs(b.sv()), h);
    if iabs(a.sv()) == h { assert(m < h) by { assert(iabs(b.sv()) <= h); } }
    lemma_wrapi_id(m, n); lemma_wrapi_id(-m, n);
    assert forall|x: I<N>| #[trigger] x.n() == q implies x.sv() == wrapi(q, n) by { lemma_small_mod(q as nat, pw(n) as nat); lemma_mod_sv(x, q); }
    if q < h { lemma_wrapi_id(q, n); } else { lemma_small_mod(q as nat, pw(n) as nat); assert(wrapi(q, n) == -h); lemma_wrapi_id(-h, n); }
}
pub proof fn lemma_qr_unique_all(n: int, d: int)
    requires n >= 0, d >= 0,
    ensures forall|q: int, r: int| d > 0 && #[trigger] is_quot_rem(n, d, q, r) ==> q == n / d && r == n % d,
{
    assert forall|q: int, r: int| d > 0 && #[trigger] is_quot_rem(n, d, q, r) implies q == n / d && r == n % d by {
        lemma_div_mod_unique(n, d, q, r);
    }
}
}
