pub open spec fn all_zero_from(s: Seq<Limb>, k: int) -> bool { forall|i: int| k <= i < s.len() ==> s[i] == 0 }

pub trait IntSlice: Sized {
    spec fn iv(&self) -> Seq<Limb>;
    fn shrink(self) -> (r: Self)
        requires self.iv().len() < usize::MAX,
        ensures num(r.iv()) == num(self.iv()), norm(r.iv()), r.iv().len() <= self.iv().len(),
            self.iv().len() > 0 ==> r.iv().len() > 0,
            r.iv() == self.iv().subrange(0, r.iv().len() as int);
}
pub mod shrink {
use super::*;
pub proof fn lemma_shrunk(s: Seq<Limb>, n: int)
    requires 0 <= n <= s.len(), all_zero_from(s, n),
    ensures num(s.subrange(0, n)) == num(s),
{
    let t = s.subrange(0, n);
    lemma_val_ext(s, t, n as nat);
    lemma_val_zeros(s, n as nat, s.len());
}
impl IntSlice for &[Limb] {
    open spec fn iv(&self) -> Seq<Limb> { self@ }
//@fn IntSlice::shrink(&[T]) bits/src/utils.rs impl:IntSlice<T>~for~&[T]/shrink limb subst=T->Limb
//@attr
#[verifier::loop_isolation(false)]
//@loop 0
    invariant 0 <= __k0 <= self@.len(),
        match __r0 { Some(i) => i == __k0 && i < self@.len() && self@[i as int] != 0 && all_zero_from(self@, i + 1), None => all_zero_from(self@, __k0 as int) },
    decreases __k0,
//@let idx#0
    proof { lemma_shrunk(self@, if idx + 1 <= self@.len() { idx + 1 } else { self@.len() as int }); }
//@endfn
}
impl IntSlice for Vec<Limb> {
    open spec fn iv(&self) -> Seq<Limb> { self@ }
//@fn IntSlice::shrink(Vec) bits/src/utils.rs impl:IntSlice<T>~for~alloc::vec::Vec<T>/shrink limb subst=T->Limb
//@attr
#[verifier::loop_isolation(false)]
//@loop 0
    invariant 0 <= __k0 <= self@.len(), self@ == s0,
        match __r0 { Some(i) => i == __k0 && i < s0.len() && s0[i as int] != 0 && all_zero_from(s0, i + 1), None => all_zero_from(s0, __k0 as int) },
    decreases __k0,
//@entry
    let ghost s0 = self@;
//@let idx#0
    proof { assert(self.iv() == s0); lemma_shrunk(s0, if idx + 1 <= s0.len() { idx + 1 } else { s0.len() as int }); }
//@endfn
}
}
