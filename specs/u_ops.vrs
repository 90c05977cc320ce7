// the fixed-width unsigned integer (element type u8 throughout)
use vstd::arithmetic::power::*;
//%include sit.vrs
#[derive(Copy, Clone)]
pub struct U<const N: usize>(pub [u8; N]);
impl<const N: usize> U<N> {
    /// the number denoted
    pub open spec fn n(self) -> int { num(self.0@) }
}
pub proof fn lemma_un<const N: usize>(x: U<N>)
    ensures 0 <= x.n() < pw(N as nat), x.0@.len() == N, pw(N as nat) >= 1,
{ lemma_num_bound(x.0@); lemma_pw_pos(N as nat); }

pub mod uid {
use super::*;
impl<const N: usize> U<N> {
//@fn U::new ints/src/u.rs impl:U<N>/new pub
    ensures r.n() == 0,
//@entry
    proof { lemma_num_zeros([0u8; N]@); }
//@endfn
//@fn U::from_le_bytes ints/src/u.rs impl:U<N>/from_le_bytes pub params=bytes
    ensures r.0@ == bytes@, r.n() == num(bytes@),
//@endfn
//@fn U::from_be_bytes ints/src/u.rs impl:U<N>/from_be_bytes pub params=bytes calls=const_reverse->super::reverse::const_reverse
    ensures r.0@ == bytes@.reverse(), r.n() == num(bytes@.reverse()),
//@endfn
//@fn U::from_ne_bytes ints/src/u.rs impl:U<N>/from_ne_bytes pub params=bytes
    ensures r.0@ == bytes@,
//@endfn
//@fn U::to_le_bytes ints/src/u.rs impl:U<N>/to_le_bytes pub
    ensures r@ == self.0@,
//@endfn
//@fn U::to_be_bytes ints/src/u.rs impl:U<N>/to_be_bytes pub calls=const_reverse->super::reverse::const_reverse
    ensures r@ == self.0@.reverse(),
//@endfn
//@fn U::to_ne_bytes ints/src/u.rs impl:U<N>/to_ne_bytes pub
    ensures r@ == self.0@,
//@endfn
//@fn U::default ints/src/u.rs impl:Default~for~U<N>/default pub
    ensures r.n() == 0,
//@endfn
//@fn U::min_value ints/src/u.rs impl:Bounded~for~U<N>/min_value pub
    ensures r.n() == 0,
//@entry
    proof { lemma_num_zeros([0u8; N]@); }
//@endfn
//@fn U::max_value ints/src/u.rs impl:Bounded~for~U<N>/max_value pub
    ensures r.n() == pw(N as nat) - 1,
//@entry
    proof { lemma_all_max([u8::MAX; N]@, N as nat); }
//@endfn
//@fn U::zero ints/src/u.rs impl:Zero~for~U<N>/zero pub
    ensures r.n() == 0,
//@entry
    proof { lemma_num_zeros([0u8; N]@); }
//@endfn
//@fn U::is_zero ints/src/u.rs impl:Zero~for~U<N>/is_zero pub
    ensures r == (self.n() == 0),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    proof { lemma_num_zero_iff(self.0@); }
//@loop 0
    invariant __k0 <= N, __s0@ == self.0@, __r0 == (forall|i: int| 0 <= i < __k0 ==> self.0@[i] == 0),
    decreases N - __k0,
//@endfn
//@fn U::one ints/src/u.rs impl:One~for~U<N>/one pub calls=array::from_fn->v_from_fn;u8::from->vbool_u8
    requires N >= 1,
    ensures r.n() == 1,
//@closure 0
usize -> u8
 ensures __r == (if __a0 == 0 { 1u8 } else { 0u8 })
//@tail
    proof { lemma_is_one(__ret.0@); }
//@endfn
//@fn U::is_one ints/src/u.rs impl:One~for~U<N>/is_one pub
    requires N >= 1,
    ensures r == (self.n() == 1),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    proof { lemma_is_one(self.0@); }
//@loop 0
    invariant __k0 <= N - 1, __s0@ == self.0@.subrange(1, N as int), __r0 == (forall|i: int| 1 <= i < __k0 + 1 ==> self.0@[i] == 0),
    decreases N - 1 - __k0,
//@endfn
//@fn U::eq ints/src/u.rs impl:PartialEq~for~U<N>/eq pub name=v_eq params=other ops===->v_arr_eq
    ensures r == (self.n() == other.n()), r == (self.0@ == other.0@),
//@entry
    proof { if self.n() == other.n() { lemma_unique(self.0@, other.0@, N as nat); assert forall|i: int| 0 <= i < N implies self.0@[i] == other.0@[i] by { assert(dg(self.0@, i) == dg(other.0@, i)); } assert(self.0@ =~= other.0@); } }
//@endfn
//@fn U::cmp ints/src/u.rs impl:Ord~for~U<N>/cmp pub name=v_cmp params=other
    ensures r == ord_of(self.n(), other.n()),
//@endfn
//@fn U::partial_cmp ints/src/u.rs impl:PartialOrd~for~U<N>/partial_cmp pub name=v_partial_cmp params=other methods=cmp->v_cmp
    ensures r == Some(ord_of(self.n(), other.n())),
//@endfn
}
/// big-endian and little-endian round trips
pub proof fn lemma_be_roundtrip(s: Seq<u8>)
    ensures s.reverse().reverse() == s,
{ assert(s.reverse().reverse() =~= s); }
}
pub use uid::*;
//%for M,S,T in 1,1,u8 2,2,u16 4,4,u32 8,8,u64 16,16,u128 8,8,usize
pub mod u_$T {
use super::*;
/// standard library byte conversions (assumed)
#[verifier::external_body]
pub fn v_from_le(b: [u8; $S]) -> (r: $T) ensures r as int == num(b@) { <$T>::from_le_bytes(b) }
#[verifier::external_body]
pub fn v_to_le(x: $T) -> (r: [u8; $S]) ensures x as int == num(r@) { x.to_le_bytes() }
pub trait VToLe { fn v_le(self) -> (r: [u8; $S]) ; spec fn vi(self) -> int; }
impl VToLe for $T { open spec fn vi(self) -> int { self as int } fn v_le(self) -> (r: [u8; $S]) ensures num(r@) == self.vi() { v_to_le(self) } }
impl U<$M> {
//@fn U::as_$T ints/src/u.rs impl:U<$M>/as_$T pub calls=$T::from_le_bytes->v_from_le
    ensures r as int == self.n(),
//@endfn
//@fn U::from_$T ints/src/u.rs impl:U<$M>/from_$T pub params=val methods=to_le_bytes->v_le
    ensures r.n() == val as int,
//@endfn
}
/// the low digits of a longer number
pub proof fn lemma_low(s: Seq<u8>, a: Seq<u8>, m: nat)
    requires m <= s.len(), m <= a.len(), forall|i: int| 0 <= i < m ==> a[i] == s[i], forall|i: int| m <= i < a.len() ==> a[i] == 0,
        m == s.len() || m == a.len(),
    ensures num(a) == num(s) % pw(a.len()), num(a) == num(s) % pw(m), num(a) == val(s, m), num(s) < pw(m) ==> num(a) == num(s),
{
    lemma_val_ext(a, s, m); lemma_val_zeros(a, m, a.len()); lemma_mod(s, a.len()); lemma_mod(s, m);
    lemma_val_bound(s, m); lemma_num_bound(s);
    if a.len() > s.len() { lemma_val_pad(s, a.len()); }
    if num(s) < pw(m) { lemma_small_mod(num(s) as nat, pw(m) as nat); }
}
//@fn $T<-U::from_checked @ints impl:FromChecked<U<N>>~for~$T/from_checked name=from_checked pub implgen subst=Self->$T params=val calls=<$T>::from_le_bytes->v_from_le
    requires sz(N),
    ensures r == (if val.n() < pw($S) { Some(val.n() as $T) } else { None::<$T> }),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    proof { lemma_num_bound(val.0@); lemma_pw_mono(if N < $S { N as nat } else { $S }, $S);
    }
//@loop 0
    invariant N <= $S, __k0 <= N, __e0 == N, forall|i: int| 0 <= i < __k0 ==> arr@[i] == val.0@[i], forall|i: int| __k0 <= i < $S ==> arr@[i] == 0,
    decreases N - __k0,
//@after 0
    proof { lemma_low(val.0@, arr@, N as nat); }
//@loop 1
    invariant N > $S, __k0 <= N, __e0 == N, forall|i: int| 0 <= i < __k0 && i < $S ==> arr@[i] == val.0@[i], forall|i: int| __k0 <= i < $S ==> arr@[i] == 0,
        forall|i: int| $S <= i < __k0 ==> val.0@[i] == 0,
    decreases N - __k0,
//@start 1
    proof { if i >= $S && val.0@[i as int] != 0 { lemma_val_ge_digit(val.0@, i as nat, N as nat); lemma_pw_mono($S, i as nat); } }
//@after 1
    proof { lemma_low(val.0@, arr@, $S); lemma_val_zeros(val.0@, $S, N as nat); lemma_val_bound(val.0@, $S); }
//@endfn
//@fn $T<-U::saturate_from @ints impl:FromSaturating<U<N>>~for~$T/saturate_from name=saturate_from pub implgen subst=Self->$T params=val calls=<$T>::from_checked->from_checked
    requires sz(N),
    ensures r == (if val.n() < pw($S) { val.n() as $T } else { $T::MAX }),
//@endfn
//@fn $T<-U::truncate_from @ints impl:FromTruncating<U<N>>~for~$T/truncate_from name=truncate_from pub implgen subst=Self->$T params=val calls=<$T>::from_le_bytes->v_from_le
    requires sz(N),
    ensures r as int == val.n() % pw($S),
//@attr
#[verifier::loop_isolation(false)]
//@loop 0
    invariant __k0 <= __e0, __e0 == (if N < $S { N } else { $S }), forall|i: int| 0 <= i < __k0 ==> arr@[i] == val.0@[i], forall|i: int| __k0 <= i < $S ==> arr@[i] == 0,
    decreases __e0 - __k0,
//@after 0
    proof { lemma_low(val.0@, arr@, __e0 as nat); }
//@endfn
//@fn U<-$T::from_checked @ints impl:FromChecked<$T>~for~U<N>/from_checked name=u_from_checked pub implgen subst=Self->U<N> params=val methods=to_le_bytes->v_le calls=U::from_le_bytes->U::<N>::from_le_bytes
    requires sz(N),
    ensures r is Some <==> (val as int) < pw(N as nat), r matches Some(x) ==> x.n() == val as int,
//@attr
#[verifier::loop_isolation(false)]
//@let bytes#0
    proof { lemma_num_bound(bytes@); assert(val.vi() == val as int); if N >= $S { lemma_pw_mono($S, N as nat); } }
//@loop 0
    invariant N >= $S, __k0 <= $S, __e0 == $S, forall|i: int| 0 <= i < __k0 ==> arr@[i] == bytes@[i], forall|i: int| __k0 <= i < N ==> arr@[i] == 0,
    decreases $S - __k0,
//@after 0
    proof { lemma_low(bytes@, arr@, $S); }
//@loop 1
    invariant N < $S, __k0 <= $S, __e0 == $S, forall|i: int| 0 <= i < __k0 && i < N ==> arr@[i] == bytes@[i], forall|i: int| __k0 <= i < N ==> arr@[i] == 0,
        forall|i: int| N <= i < __k0 ==> bytes@[i] == 0,
    decreases $S - __k0,
//@start 1
    proof { if i >= N && bytes@[i as int] != 0 { lemma_val_ge_digit(bytes@, i as nat, $S); lemma_pw_mono(N as nat, i as nat); } }
//@after 1
    proof { lemma_low(bytes@, arr@, N as nat); lemma_val_zeros(bytes@, N as nat, $S); lemma_val_bound(bytes@, N as nat); }
//@endfn
}
//%endfor
pub mod uarith {
use super::*;
impl<const N: usize> U<N> {
//@fn U::checked_add ints/src/u.rs impl:CheckedAdd~for~U<N>/checked_add pub params=rhs
    requires sz(N),
    ensures r is Some <==> self.n() + rhs.n() < pw(N as nat), r matches Some(x) ==> x.n() == self.n() + rhs.n(),
//@endfn
//@fn U::checked_sub ints/src/u.rs impl:CheckedSub~for~U<N>/checked_sub pub params=rhs
    requires sz(N),
    ensures r is Some <==> self.n() >= rhs.n(), r matches Some(x) ==> x.n() == self.n() - rhs.n(),
//@endfn
//@fn U::checked_mul ints/src/u.rs impl:CheckedMul~for~U<N>/checked_mul pub params=rhs
    requires sz(N),
    ensures r is Some <==> self.n() * rhs.n() < pw(N as nat), r matches Some(x) ==> x.n() == self.n() * rhs.n(),
//@endfn
//@fn U::wrapping_add ints/src/u.rs impl:WrappingAdd~for~U<N>/wrapping_add pub params=rhs subst=Self::Output->Self
    requires sz(N),
    ensures r.n() == (self.n() + rhs.n()) % pw(N as nat),
//@endfn
//@fn U::wrapping_sub ints/src/u.rs impl:WrappingSub~for~U<N>/wrapping_sub pub params=rhs subst=Self::Output->Self
    requires sz(N),
    ensures r.n() == (self.n() - rhs.n()) % pw(N as nat),
//@endfn
//@fn U::saturating_add ints/src/u.rs impl:SaturatingAdd~for~U<N>/saturating_add pub params=rhs
    requires sz(N),
    ensures r.n() == (if self.n() + rhs.n() < pw(N as nat) { self.n() + rhs.n() } else { pw(N as nat) - 1 }),
//@endfn
//@fn U::saturating_sub ints/src/u.rs impl:SaturatingSub~for~U<N>/saturating_sub pub params=rhs
    requires sz(N),
    ensures r.n() == (if self.n() >= rhs.n() { self.n() - rhs.n() } else { 0 }),
//@endfn
//@fn U::saturating_mul ints/src/u.rs impl:SaturatingMul~for~U<N>/saturating_mul pub params=rhs
    requires sz(N),
    ensures r.n() == (if self.n() * rhs.n() < pw(N as nat) { self.n() * rhs.n() } else { pw(N as nat) - 1 }),
//@endfn
//%if DEBUG=1

//@fn U::add ints/src/u.rs impl:Add~for~U<N>/add pub name=v_add params=rhs subst=Self::Output->Self unwrap
    requires sz(N),
    ensures self.n() + rhs.n() < pw(N as nat), r.n() == self.n() + rhs.n(),
//@unwrap 0
    (self.n() + rhs.n() < pw(N as nat))
//@endfn
//@fn U::sub ints/src/u.rs impl:Sub~for~U<N>/sub pub name=v_sub params=rhs subst=Self::Output->Self unwrap
    requires sz(N),
    ensures self.n() >= rhs.n(), r.n() == self.n() - rhs.n(),
//@unwrap 0
    (self.n() >= rhs.n())
//@endfn
//@fn U::mul ints/src/u.rs impl:Mul~for~U<N>/mul pub name=v_mul params=rhs subst=Self::Output->Self unwrap
    requires sz(N),
    ensures self.n() * rhs.n() < pw(N as nat), r.n() == self.n() * rhs.n(),
//@entry
    let ghost s0 = self;
//@unwrap 0
    (s0.n() * rhs.n() < pw(N as nat))
//@endfn
//%endif
//%if DEBUG=0
//@fn U::add ints/src/u.rs impl:Add~for~U<N>/add pub name=v_add params=rhs subst=Self::Output->Self unwrap
    requires sz(N),
    ensures r.n() == (self.n() + rhs.n()) % pw(N as nat),
//@entry
    proof { lemma_un(self); lemma_un(rhs); lemma_pw_pos(N as nat); if self.n() + rhs.n() < pw(N as nat) { lemma_small_mod((self.n() + rhs.n()) as nat, pw(N as nat) as nat); } }
//@endfn
//@fn U::sub ints/src/u.rs impl:Sub~for~U<N>/sub pub name=v_sub params=rhs subst=Self::Output->Self unwrap
    requires sz(N),
    ensures r.n() == (self.n() - rhs.n()) % pw(N as nat),
//@entry
    proof { lemma_un(self); lemma_un(rhs); lemma_pw_pos(N as nat); if self.n() >= rhs.n() { lemma_small_mod((self.n() - rhs.n()) as nat, pw(N as nat) as nat); } }
//@endfn
//@fn U::mul ints/src/u.rs impl:Mul~for~U<N>/mul pub name=v_mul params=rhs subst=Self::Output->Self unwrap
    requires sz(N),
    ensures r.n() == (self.n() * rhs.n()) % pw(N as nat),
//@endfn
//%endif
}
}
pub use uarith::*;
pub mod udiv {
use super::*;
impl<const N: usize> U<N> {
//@fn U::checked_div ints/src/u.rs impl:CheckedDiv~for~U<N>/checked_div pub params=rhs
    requires sz(N), N >= 1,
    ensures r is Some <==> rhs.n() != 0, r matches Some(x) ==> x.n() == self.n() / rhs.n(),
//@entry
    proof { lemma_un(self); lemma_un(rhs); lemma_num_zeros([0u8; N]@); lemma_qr_unique_all(self.n(), rhs.n()); }
//@endfn
//@fn U::div ints/src/u.rs impl:Div~for~U<N>/div pub name=v_div params=rhs subst=Self::Output->Self unwrap
    requires sz(N), N >= 1,
    ensures rhs.n() != 0, r.n() == self.n() / rhs.n(),
//@entry
    proof { lemma_un(self); lemma_un(rhs); lemma_num_zeros([0u8; N]@); lemma_qr_unique_all(self.n(), rhs.n()); }
//%if DEBUG=1
//@unwrap 0
    (rhs.n() != 0)
//%endif
//@endfn
//@fn U::rem ints/src/u.rs impl:Rem~for~U<N>/rem pub name=v_rem params=rhs subst=Self::Output->Self unwrap
    requires sz(N), N >= 1,
    ensures rhs.n() != 0, r.n() == self.n() % rhs.n(),
//@entry
    proof { lemma_un(self); lemma_un(rhs); lemma_num_zeros([0u8; N]@); }
//@unwrap 0
    (rhs.n() != 0)
//@endfn

//@fn U::shl(usize) ints/src/u.rs impl:Shl<usize>~for~U<N>/shl pub name=v_shl params=rhs subst=Self::Output->Self unwrap
    requires sz(N),
//%if DEBUG=1
    ensures rhs <= N * 8, r.n() == (self.n() * pow2(rhs as nat)) % pw(N as nat),
//@unwrap 0
    (rhs <= N * 8)
//%endif
//%if DEBUG=0
    ensures r.n() == (self.n() * pow2(wrap_amt(rhs as nat, N as nat))) % pw(N as nat),
//%endif
//@endfn
//@fn U::shr(usize) ints/src/u.rs impl:Shr<usize>~for~U<N>/shr pub name=v_shr params=rhs subst=Self::Output->Self unwrap
    requires sz(N),
//%if DEBUG=1
    ensures rhs <= N * 8, r.n() == self.n() / (pow2(rhs as nat) as int),
//@unwrap 0
    (rhs <= N * 8)
//%endif
//%if DEBUG=0
    ensures r.n() == self.n() / (pow2(wrap_amt(rhs as nat, N as nat)) as int),
//%endif
//@endfn
//@fn U::shl ints/src/u.rs impl:Shl~for~U<N>/shl pub name=v_shl_u params=rhs subst=Self::Output->Self calls=usize::from_checked->u_usize::from_checked unwrap
    requires sz(N),
//%if DEBUG=1
    ensures rhs.n() <= N * 8, r.n() == (self.n() * pow2(rhs.n() as nat)) % pw(N as nat),
//@entry
    proof { lemma_un(rhs); reveal_with_fuel(pw, 9); }
//@unwrap 0
    (rhs.n() < 0x1_0000_0000_0000_0000)
//@unwrap 1
    (rhs.n() <= N * 8)
//%endif
//%if DEBUG=0
    ensures rhs.n() < 0x1_0000_0000_0000_0000, r.n() == (self.n() * pow2(wrap_amt(rhs.n() as nat, N as nat))) % pw(N as nat),
//@entry
    proof { lemma_un(rhs); reveal_with_fuel(pw, 9); }
//@unwrap 0
    (rhs.n() < 0x1_0000_0000_0000_0000)
//%endif
//@endfn
//@fn U::shr ints/src/u.rs impl:Shr~for~U<N>/shr pub name=v_shr_u params=rhs subst=Self::Output->Self calls=usize::from_checked->u_usize::from_checked unwrap
    requires sz(N),
//%if DEBUG=1
    ensures rhs.n() <= N * 8, r.n() == self.n() / (pow2(rhs.n() as nat) as int),
//@entry
    proof { lemma_un(rhs); reveal_with_fuel(pw, 9); }
//@unwrap 0
    (rhs.n() < 0x1_0000_0000_0000_0000)
//@unwrap 1
    (rhs.n() <= N * 8)
//%endif
//%if DEBUG=0
    ensures rhs.n() < 0x1_0000_0000_0000_0000, r.n() == self.n() / (pow2(wrap_amt(rhs.n() as nat, N as nat)) as int),
//@entry
    proof { lemma_un(rhs); reveal_with_fuel(pw, 9); }
//@unwrap 0
    (rhs.n() < 0x1_0000_0000_0000_0000)
//%endif
//@endfn
//@fn U::not ints/src/u.rs impl:Not~for~U<N>/not pub name=v_not subst=Self::Output->Self nooptmap methods=map->v_map
    ensures forall|i: nat| i < N * 8 ==> #[trigger] nbit(r.n(), i) == !nbit(self.n(), i),
//@closure 0
u8 -> u8
 ensures __r == !__a0
//@tail
    proof { lemma_not_bits(self.0@, __ret.0@); }
//@endfn
//%for TR,F,OP,BOP in BitAnd,bitand,&,&& BitOr,bitor,|,|| BitXor,bitxor,^,!=
//@fn U::$F ints/src/u.rs impl:$TR~for~U<N>/$F pub name=v_$F params=rhs subst=Self::Output->Self nooptmap
    ensures forall|i: nat| #[trigger] nbit(r.n(), i) == (nbit(self.n(), i) $BOP nbit(rhs.n(), i)),
//@closure 0
(u8, u8) -> u8
 ensures __r == (__a0.0 $OP __a0.1)
//@tail
    proof { assert forall|i: int| 0 <= i < N implies __ret.0@[i] == (dg(self.0@, i) as u8) $OP (dg(rhs.0@, i) as u8) by {} lemma_$F(self.0@, rhs.0@, __ret.0@); }
//@endfn
//%endfor
}
pub proof fn lemma_qr_unique_all(n: int, d: int)
    requires n >= 0, d >= 0,
    ensures forall|q: int, r: int| d > 0 && #[trigger] is_quot_rem(n, d, q, r) ==> q == n / d && r == n % d,
{
    assert forall|q: int, r: int| d > 0 && #[trigger] is_quot_rem(n, d, q, r) implies q == n / d && r == n % d by {
        lemma_div_mod_unique(n, d, q, r);
    }
}
}
pub use udiv::*;
pub mod upow {
use super::*;
//%if DEBUG=1
pub open spec fn step<const N: usize>(a: U<N>, b: U<N>, r: U<N>) -> bool { a.n() * b.n() < pw(N as nat) && r.n() == a.n() * b.n() }
pub open spec fn reach(v: int, n: nat) -> bool { v < pw(n) }
pub open spec fn red(v: int, n: nat) -> int { v }
//%endif
//%if DEBUG=0
pub open spec fn step<const N: usize>(a: U<N>, b: U<N>, r: U<N>) -> bool { r.n() == (a.n() * b.n()) % pw(N as nat) }
pub open spec fn reach(v: int, n: nat) -> bool { true }
pub open spec fn red(v: int, n: nat) -> int { v % pw(n) }
//%endif
pub proof fn lemma_run<const N: usize>(x: U<N>, s: Seq<U<N>>, n: nat, k: nat)
    requires s.len() == n + 1, k <= n, s[0].n() == 1, N >= 1, forall|i: int| 0 <= i < n ==> step(#[trigger] s[i], x, s[i + 1]),
    ensures reach(pow(x.n(), k), N as nat), s[k as int].n() == red(pow(x.n(), k), N as nat),
    decreases k,
{
    lemma_pow0(x.n()); lemma_pw_mono(1, N as nat); lemma_pw_step(0);
    if k == 0 { lemma_small_mod(1, pw(N as nat) as nat); }
    else {
        lemma_run(x, s, n, (k - 1) as nat);
        assert(step(s[k - 1], x, s[(k - 1) + 1]));
        reveal(pow);
        let p = pow(x.n(), (k - 1) as nat);
        assert(pow(x.n(), k) == x.n() * p);
        assert(x.n() * p == p * x.n()) by(nonlinear_arith);
        lemma_mul_mod_noop_left(p, x.n(), pw(N as nat));
    }
}
impl<const N: usize> U<N> {
//@fn U::product ints/src/u.rs impl:Product<U<N>>~for~U<N>/product pub name=v_product subst=I->VRep<U<N>> params=iter methods=fold->v_fold ops=*->v_mul calls=U::one->U::<N>::one
    requires sz(N), N >= 1,
    ensures reach(pow(rep_val(iter).n(), rep_n(iter)), N as nat), r.n() == red(pow(rep_val(iter).n(), rep_n(iter)), N as nat),
//@closure 0
U<N>; U<N> -> U<N>
 ensures step(__a0, __a1, __r)
//@tail
    proof {
        let n = rep_n(iter); let x = rep_val(iter);
        assert(exists|s: Seq<U<N>>| s.len() == n + 1 && s[0].n() == 1 && s[n as int] == __ret && forall|i: int| 0 <= i < n ==> step(#[trigger] s[i], x, s[i + 1]));
        let s = choose|s: Seq<U<N>>| s.len() == n + 1 && s[0].n() == 1 && s[n as int] == __ret && forall|i: int| 0 <= i < n ==> step(#[trigger] s[i], x, s[i + 1]);
        lemma_run(x, s, n, n);
    }
//@endfn
//@fn U::pow ints/src/u.rs impl:Pow~for~U<N>/pow pub name=v_pow params=rhs subst=Self::Output->Self unwrap calls=iter::repeat_n->v_repeat_n;usize::from_checked->u_usize::from_checked methods=product->v_prod
    requires sz(N), N >= 1,
    ensures reach(pow(self.n(), rhs.n() as nat), N as nat), r.n() == red(pow(self.n(), rhs.n() as nat), N as nat),
//@entry
    proof {
        lemma_un(self); lemma_un(rhs); reveal_with_fuel(pw, 9); lemma_pow0(self.n()); lemma_pw_mono(1, N as nat);
        if self.n() == 1 { lemma1_pow(rhs.n() as nat); } if self.n() == 0 && rhs.n() > 0 { lemma0_pow(rhs.n() as nat); }
        lemma_small_mod(self.n() as nat, pw(N as nat) as nat); lemma_small_mod(1, pw(N as nat) as nat);
    }
//@unwrap 0
    (rhs.n() < 0x1_0000_0000_0000_0000)
//@endfn
}
impl<const N: usize> VRep<U<N>> {
    /// `Iterator::product` is `Product::product`
    pub fn v_prod(self) -> (r: U<N>)
        requires sz(N), N >= 1,
        ensures reach(pow(rep_val(self).n(), rep_n(self)), N as nat), r.n() == red(pow(rep_val(self).n(), rep_n(self)), N as nat),
    { U::<N>::v_product(self) }
}
}
