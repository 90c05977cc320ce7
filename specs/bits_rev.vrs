// reversing an array
pub mod reverse {
use super::*;
//@fn const_reverse bits/src/utils.rs fn:const_reverse pub params=bytes
    ensures r@ == bytes@.reverse(),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost b0 = bytes@;
//@loop 0
    invariant idx <= N / 2, b0.len() == N, bytes@.len() == N,
        forall|i: int| 0 <= i < idx ==> #[trigger] bytes@[i] == b0[N - 1 - i], forall|i: int| N - idx <= i < N ==> #[trigger] bytes@[i] == b0[N - 1 - i],
        forall|i: int| idx <= i < N - idx ==> bytes@[i] == b0[i],
    decreases N / 2 - idx,
//@after 0
    proof { assert(bytes@ =~= b0.reverse()); }
//@endfn
}
