pub mod logic {
use super::*;
//%for N,F,OP,BOP in Bitand,bitand,&,&& Bitor,bitor,|,|| Bitxor,bitxor,^,!=
pub proof fn lemma_limb_$F(x: Limb, y: Limb, b: usize)
    requires b < LB(),
    ensures (((x $OP y) as int / e2(b as nat)) % 2 == 1) == (((x as int / e2(b as nat)) % 2 == 1) $BOP ((y as int / e2(b as nat)) % 2 == 1)),
{
    lemma_limb_getbit(x, b); lemma_limb_getbit(y, b); lemma_limb_getbit(x $OP y, b);
    assert((((x $OP y) & ((1 as Limb) << b)) != 0) == (((x & ((1 as Limb) << b)) != 0) $BOP ((y & ((1 as Limb) << b)) != 0))) by(bit_vector) requires b < $LBITS;
}
/// acting on every digit is acting on every binary digit of the numbers
pub proof fn lemma_$F(l: Seq<Limb>, r: Seq<Limb>, o: Seq<Limb>)
    requires o.len() >= l.len(), o.len() >= r.len(), forall|i: int| 0 <= i < o.len() ==> o[i] == (dg(l, i) as Limb) $OP (dg(r, i) as Limb),
    ensures forall|i: nat| #[trigger] nbit(num(o), i) == (nbit(num(l), i) $BOP nbit(num(r), i)),
{
    assert forall|i: nat| #[trigger] nbit(num(o), i) == (nbit(num(l), i) $BOP nbit(num(r), i)) by {
        let q = i / LB(); let b = i % LB();
        lemma_idx_split(o.len(), i);
        lemma_bit_of_digit(l, q, b); lemma_bit_of_digit(r, q, b); lemma_bit_of_digit(o, q, b);
        lemma_limb_$F(dg(l, q as int) as Limb, dg(r, q as int) as Limb, b as usize);
        lemma_dg_range(l, q as int); lemma_dg_range(r, q as int);
        if q >= o.len() { lemma_pow2_pos(b); lemma_basic_div(0, e2(b)); }
    }
}
pub trait Element$N: BitSliceExt {
//@fn Element$N::$F bits/src/algos/element/$F.rs trait:Element$N/$F limb params=left,right
    requires fits(left.v()), fits(right.v()),
    ensures r@.len() == (if left.v().len() > right.v().len() { left.v().len() } else { right.v().len() }),
        forall|i: int| 0 <= i < r@.len() ==> r@[i] == (dg(left.v(), i) as Limb) $OP (dg(right.v(), i) as Limb),
        forall|i: nat| #[trigger] nbit(num(r@), i) == (nbit(num(left.v()), i) $BOP nbit(num(right.v()), i)),
//@attr
#[verifier::loop_isolation(false)]
//@loop 0
    invariant out@.len() == len, __k0 <= len, __e0 == len,
        forall|i: int| 0 <= i < __k0 ==> out@[i] == (dg(left.v(), i) as Limb) $OP (dg(right.v(), i) as Limb),
    decreases len - __k0,
//@after 0
    proof { lemma_$F(left.v(), right.v(), out@); }
//@endfn
}
impl<T: ?Sized + BitSliceExt> Element$N for T {}
//%endfor
pub proof fn lemma_limb_not(x: Limb, b: usize)
    requires b < LB(),
    ensures (((!x) as int / e2(b as nat)) % 2 == 1) == !((x as int / e2(b as nat)) % 2 == 1),
{
    lemma_limb_getbit(x, b); lemma_limb_getbit(!x, b);
    assert((((!x) & ((1 as Limb) << b)) != 0) == !((x & ((1 as Limb) << b)) != 0)) by(bit_vector) requires b < $LBITS;
}
/// complementing every digit complements every binary digit inside the width
pub proof fn lemma_not_bits(l: Seq<Limb>, o: Seq<Limb>)
    requires o.len() == l.len(), forall|i: int| 0 <= i < o.len() ==> o[i] == !l[i],
    ensures forall|i: nat| i < o.len() * LB() ==> #[trigger] nbit(num(o), i) == !nbit(num(l), i),
{
    assert forall|i: nat| i < o.len() * LB() implies #[trigger] nbit(num(o), i) == !nbit(num(l), i) by {
        let q = i / LB(); let b = i % LB();
        lemma_idx_split(o.len(), i);
        lemma_bit_of_digit(l, q, b); lemma_bit_of_digit(o, q, b);
        lemma_limb_not(l[q as int], b as usize);
    }
}
}
pub use logic::*;
