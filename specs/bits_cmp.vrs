pub open spec fn ord_of(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub mod cmp {
use super::*;
pub trait ElementCmp: BitSliceExt {
//@fn ElementCmp::cmp bits/src/algos/element/cmp.rs trait:ElementCmp/cmp limb params=left,right
    ensures r == ord_of(num(left.v()), num(right.v())),
//@attr
#[verifier::loop_isolation(false)]
//@loop 0
    invariant 0 <= __k0 <= len, __e0 == 0,
        num(left.v()) - num(right.v()) == val(left.v(), __k0 as nat) - val(right.v(), __k0 as nat),
    decreases __k0,
//@let len#0
    proof { lemma_val_pad(left.v(), len as nat); lemma_val_pad(right.v(), len as nat); }
//@start 0
    proof { lemma_cmp_step(left.v(), right.v(), idx as nat); }
//@after 0
    proof { lemma_val_step(left.v(), 0); lemma_val_step(right.v(), 0); }
//@endfn
}
impl<T: ?Sized + BitSliceExt> ElementCmp for T {}
}
pub use cmp::*;
