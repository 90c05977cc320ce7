// text of fixed-width integers
pub mod ufmt {
use super::*;
/// the operator > of core::cmp, in terms of partial_cmp
pub trait VGt: Copy { spec fn gv(self) -> int; fn v_gt(self, o: Self) -> (r: bool) ensures r == (self.gv() > o.gv()); }
impl<const N: usize> VGt for U<N> { open spec fn gv(self) -> int { self.n() } fn v_gt(self, o: Self) -> (r: bool) { matches!(self.v_partial_cmp(&o), Some(Ordering::Greater)) } }
/// the blanket IntoChecked (P17)
pub trait VInto<const N: usize>: Sized { spec fn iv(self) -> int; fn v_into_checked(self) -> (r: Option<U<N>>) requires sz(N) ensures r is Some <==> self.iv() < pw(N as nat), r matches Some(x) ==> x.n() == self.iv(); }
impl<const N: usize> VInto<N> for usize { open spec fn iv(self) -> int { self as int } fn v_into_checked(self) -> (r: Option<U<N>>) { u_usize::u_from_checked(self) } }
impl<const N: usize> U<N> {
//@fn U::write_base ints/src/u.rs impl:U<N>/write_base pub params=base,w,chars subst=W->VOut;fmt::Result->Result<(),FmtErr> ops=>->v_gt;%->v_rem;/->v_div methods=expect->v_expect2;into_checked->v_into_checked calls=u8::from_checked->u_u8::from_checked;U::zero->U::<N>::zero
    requires sz(N), N >= 1, 2 <= base <= 36, chars@.len() >= base,
    ensures wrote(*old(w), *final(w), r, text(digs(self.n(), base as int), chars@)),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost m = self.n(); let ghost bb = base as int; let ghost w0 = *w;
    proof { lemma_un(*self); lemma_pw_mono(1, N as nat); lemma_pw_step(0); assert(pw(1) == 256); }
//@loop 0
    invariant *w == w0, base.n() == bb, scratch.n() >= 0, digits@ + low(scratch.n(), bb) =~= low(m, bb), scratch.n() == m || digits@.len() > 0,
    decreases scratch.n(),
//@start 0
    proof { lemma_un(scratch); lemma_div_dec(scratch.n(), bb); }
//@loop 1
    invariant digits@ == digs(m, bb), w.0@ =~= w0.0@ + text(digs(m, bb), chars@).take(digits@.len() - __k0), w.1@ == w0.1@, __k0 <= digits@.len(), __s0@ == digits@,
    decreases __k0,
//@start 1
    proof { let n = digits@.len() - __k0; let t = text(digs(m, bb), chars@); lemma_dig(m, bb, __k0 as int); assert(t.take(n as int) =~= t.take(n - 1).push(t[n - 1])); }
//@tail
    proof { let t = text(digs(m, bb), chars@); assert(t.take(t.len() as int) =~= t); }
//@endfn
//@fn U::display ints/src/u.rs impl:fmt::Display~for~U<N>/fmt pub name=v_display params=f subst=fmt::Formatter<'_>->VOut;fmt::Result->Result<(),FmtErr>
    requires sz(N), N >= 1,
    ensures wrote(*old(f), *final(f), r, text(digs(self.n(), 10), dec_chars())),
//@entry
    proof { lemma_dec(digs(self.n(), 10)); }
//@endfn
//@fn U::debug ints/src/u.rs impl:fmt::Debug~for~U<N>/fmt pub name=v_debug params=f subst=fmt::Formatter<'_>->VOut;fmt::Result->Result<(),FmtErr> calls=fmt::Display::fmt->U::<N>::v_display
    requires sz(N), N >= 1,
    ensures wrote(*old(f), *final(f), r, text(digs(self.n(), 10), dec_chars())),
//@endfn
}
}
