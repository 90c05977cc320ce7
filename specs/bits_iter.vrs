// growing bit vectors and the bit iterator
pub trait BitVecExt: BitSliceExt {
    fn bextend(&mut self, len: usize, val: Limb)
        ensures final(self).v() == (if len > old(self).v().len() { old(self).v() + Seq::new((len - old(self).v().len()) as nat, |i: int| val) } else { old(self).v() });
//@fn BitVecExt::set_push bits/src/bit_slice.rs trait:BitVecExt/set_push limb params=idx,val methods=extend->bextend
    requires idx < usize::MAX,
    ensures final(self).v().len() == (if idx < old(self).v().len() { old(self).v().len() } else { idx as nat + 1 }),
        forall|i: int| 0 <= i < final(self).v().len() ==> final(self).v()[i] == (if i == idx { val } else if i < old(self).v().len() { old(self).v()[i] } else { 0 }),
//@endfn
//@fn BitVecExt::set_bit_push bits/src/bit_slice.rs trait:BitVecExt/set_bit_push limb params=idx,val calls=idx_bit::<Self>->idx_bit methods=extend->bextend
    ensures final(self).v().len() == (if idx < old(self).v().len() * LB() { old(self).v().len() } else { idx as nat / LB() + 1 }),
        num(final(self).v()) == num(old(self).v()) + (b2i(val) - b2i(nbit(num(old(self).v()), idx as nat))) * pow2(idx as nat),
//@entry
    let ghost s0 = self.v();
    proof {
        lemma_idx_split(s0.len(), idx as nat);
        let n = (idx / LIMB_BIT_LEN + 1) as nat;
        lemma_idx_split(n, idx as nat);
        if n > s0.len() { lemma_extend_zero(s0, (n - s0.len()) as nat); }
    }
//@endfn
}
impl BitVecExt for Vec<Limb> {
//@fn BitVecExt::extend(Vec) bits/src/bit_slice.rs impl:BitVecExt~for~alloc::vec::Vec<I>/extend limb name=bextend subst=I->Limb params=len,val
//@endfn
}
pub proof fn lemma_extend_zero(s: Seq<Limb>, n: nat)
    ensures num(s + Seq::new(n, |i: int| 0 as Limb)) == num(s),
{
    let t = s + Seq::new(n, |i: int| 0 as Limb);
    lemma_val_ext(s, t, s.len());
    lemma_val_zeros(t, s.len(), t.len());
}
pub struct BitIter<'a, I> {
    pub iter: core::slice::Iter<'a, I>,
    pub cur: Option<I>,
    pub idx: usize,
}
/// the iterator stands at bit `self.idx` of the number with digits s
#[verifier::prophetic]
pub open spec fn bi_at(it: BitIter<Limb>, s: Seq<Limb>) -> bool {
    let q = (it.idx as nat / LB()) as int;
    &&& fits(s) && it.idx <= s.len() * LB()
    &&& it.iter.remaining().len() == (if q < s.len() { s.len() - q - 1 } else { 0 })
    &&& forall|j: int| 0 <= j < it.iter.remaining().len() ==> *(#[trigger] it.iter.remaining()[j]) == s[q + 1 + j]
    &&& it.cur == (if q < s.len() { Some(s[q]) } else { None::<Limb> })
}
pub mod biter {
use super::*;
impl<'a> BitIter<'a, Limb> {
//@fn BitIter::new bits/src/bit_slice/iter.rs impl:BitIter<'a,I>/new limb pub params=slice subst=I->Limb
    requires fits(slice@),
    ensures bi_at(r, slice@), r.idx == 0,
//@endfn
//@fn BitIter::next bits/src/bit_slice/iter.rs impl:Iterator~for~BitIter<'_,I>/next limb pub subst=I->Limb;Self::Item->bool
    requires exists|s: Seq<Limb>| bi_at(*old(self), s),
    ensures forall|s: Seq<Limb>| #[trigger] bi_at(*old(self), s) ==> bi_at(*final(self), s)
        && final(self).idx == (if old(self).idx < s.len() * LB() { old(self).idx + 1 } else { old(self).idx as int })
        && r == (if old(self).idx < s.len() * LB() { Some(nbit(num(s), old(self).idx as nat)) } else { None::<bool> }),
//@entry
    let ghost it0 = *self;
    let ghost s0 = choose|s: Seq<Limb>| bi_at(*self, s);
    proof {
        lemma_idx_split(s0.len(), self.idx as nat);
        assert forall|s: Seq<Limb>| #[trigger] bi_at(it0, s) implies bi_ready(it0, s) by { lemma_bi_ready(it0, s); }
    }
//@tail
    proof {
        assert forall|s: Seq<Limb>| #[trigger] bi_at(it0, s) implies bi_at(*self, s)
            && self.idx == (if it0.idx < s.len() * LB() { it0.idx + 1 } else { it0.idx as int })
            && __ret == (if it0.idx < s.len() * LB() { Some(nbit(num(s), it0.idx as nat)) } else { None::<bool> }) by { lemma_bi_ready(it0, s); lemma_idx_split(s.len(), it0.idx as nat); lemma_idx_split(s.len(), it0.idx as nat + 1); }
    }
//@endfn
//@fn BitIter::len bits/src/bit_slice/iter.rs impl:ExactSizeIterator~for~BitIter<'_,I>/len limb pub subst=I->Limb
    requires exists|s: Seq<Limb>| bi_at(*self, s),
    ensures forall|s: Seq<Limb>| #[trigger] bi_at(*self, s) ==> r == s.len() * LB() - self.idx,
//@entry
    proof {
        assert forall|s: Seq<Limb>| #[trigger] bi_at(*self, s) implies bi_len(*self, s) by { lemma_bi_len(*self, s); }
    }
//@endfn
//@fn BitIter::size_hint bits/src/bit_slice/iter.rs impl:Iterator~for~BitIter<'_,I>/size_hint limb pub subst=I->Limb
    requires exists|s: Seq<Limb>| bi_at(*self, s),
    ensures forall|s: Seq<Limb>| #[trigger] bi_at(*self, s) ==> r.0 == s.len() * LB() - self.idx && r.1 == Some(r.0),
//@endfn
}
/// facts about the current position that next() relies on
#[verifier::prophetic]
pub open spec fn bi_ready(it: BitIter<Limb>, s: Seq<Limb>) -> bool {
    let b = (it.idx as nat % LB()) as usize; let q = (it.idx as nat / LB()) as int;
    (it.cur is Some <==> it.idx < s.len() * LB()) && it.idx < usize::MAX
    && (it.cur matches Some(x) ==> ((x & ((1 as Limb) << b)) != 0) == nbit(num(s), it.idx as nat))
    && (it.idx as nat + 1) / LB() == (if b == LB() - 1 { q + 1 } else { q })
}
pub proof fn lemma_bi_ready(it: BitIter<Limb>, s: Seq<Limb>)
    requires bi_at(it, s),
    ensures bi_ready(it, s),
{
    lemma_get_bit_opt(s, it.idx);
    lemma_idx_split(s.len(), it.idx as nat);
    assert(s.len() * LB() < usize::MAX) by(nonlinear_arith) requires s.len() <= 0x3f_ffff_ffff_ffff, LB() <= 128;
    let q = it.idx as nat / LB(); let b = it.idx as nat % LB();
    if b == LB() - 1 {
        assert((q + 1) * LB() + 0 == it.idx + 1) by(nonlinear_arith) requires q * LB() + b == it.idx, b == LB() - 1;
        lemma_div_mod_unique(it.idx + 1, LB() as int, q as int + 1, 0);
    } else {
        lemma_div_mod_unique(it.idx + 1, LB() as int, q as int, b as int + 1);
    }
}
#[verifier::prophetic]
pub open spec fn bi_len(it: BitIter<Limb>, s: Seq<Limb>) -> bool {
    s.len() * LB() - it.idx == (if it.cur is Some { it.iter.remaining().len() * LB() + LB() - it.idx as nat % LB() } else { 0 })
    && (it.cur is None ==> it.iter.remaining().len() == 0) && it.iter.remaining().len() * LB() <= s.len() * LB() && it.iter.remaining().len() <= 0x3f_ffff_ffff_ffff
}
pub proof fn lemma_bi_len(it: BitIter<Limb>, s: Seq<Limb>)
    requires bi_at(it, s),
    ensures bi_len(it, s),
{
    lemma_idx_split(s.len(), it.idx as nat);
    let q = it.idx as nat / LB(); let m = it.iter.remaining().len();
    if q < s.len() {
        assert(s.len() * LB() == q * LB() + m * LB() + LB()) by(nonlinear_arith) requires s.len() == q + m + 1;
        assert(m * LB() <= s.len() * LB()) by(nonlinear_arith) requires m <= s.len();
    } else {
        assert(q * LB() >= s.len() * LB()) by(nonlinear_arith) requires q >= s.len();
        assert(0 * LB() == 0);
    }
}
}
