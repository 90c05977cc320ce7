// fixed-size matrices over an arbitrary integer type
pub mod mats {
use super::*;
#[derive(Copy)]
pub struct Matrix<T, const ROW: usize, const COL: usize>(pub [[T; COL]; ROW]);
impl<T: Copy, const ROW: usize, const COL: usize> Clone for Matrix<T, ROW, COL> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
/// slice::swap
pub trait VSwap<T>: Sized {
    spec fn sv(&self) -> Seq<T>;
    fn v_swap(&mut self, a: usize, b: usize)
        requires a < old(self).sv().len(), b < old(self).sv().len(),
        ensures final(self).sv() == old(self).sv().update(a as int, old(self).sv()[b as int]).update(b as int, old(self).sv()[a as int]);
}
impl<T, const N: usize> VSwap<T> for [T; N] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_swap(&mut self, a: usize, b: usize) { self.swap(a, b) }
}
/// array indexing: panics out of range
#[verifier::external_body]
pub fn v_at<T, const N: usize>(a: &[T; N], i: usize) -> (r: &T) ensures i < N, *r == a[i as int] { &a[i] }
#[verifier::external_body]
pub fn v_at_mut<T, const N: usize>(a: &mut [T; N], i: usize) -> (r: &mut T) ensures i < N, *r == old(a)[i as int], final(a)@ == old(a)@.update(i as int, *final(r)) { &mut a[i] }
/// equality of nested arrays in core: every row equal
pub trait VAEq2: Copy { spec fn aq2(self, o: Self) -> bool; fn v_aeq2(self, o: Self) -> (r: bool) ensures r == self.aq2(o); }
impl<T: VInt, const R: usize, const C: usize> VAEq2 for [[T; C]; R] {
    open spec fn aq2(self, o: Self) -> bool { forall|i: int| 0 <= i < R ==> (#[trigger] self[i]).aq(o[i]) }
    fn v_aeq2(self, o: Self) -> (r: bool) {
        let mut k = 0usize;
        while k < R
            invariant k <= R, forall|i: int| 0 <= i < k ==> (#[trigger] self[i]).aq(o[i]),
            decreases R - k,
        {
            if !self[k].v_aeq(o[k]) { assert(!self[k as int].aq(o[k as int])); return false; }
            k += 1;
        }
        true
    }
}
impl<T, const ROW: usize, const COL: usize> Matrix<T, ROW, COL> {
    pub open spec fn at(self, i: int, j: int) -> T { self.0[i][j] }
//@fn Matrix::new compounds/src/matrix/static.rs impl:Matrix<T,ROW,COL>/new pub params=rows
    ensures r.0 == rows,
//@endfn
//@fn Matrix::swap_rows compounds/src/matrix/static.rs impl:Matrix<T,ROW,COL>/swap_rows pub params=a,b methods=swap->v_swap
    requires a < ROW, b < ROW,
    ensures final(self).0@ == old(self).0@.update(a as int, old(self).0[b as int]).update(b as int, old(self).0[a as int]),
//@endfn
//@fn Matrix::index compounds/src/matrix/static.rs impl:Index<(usize,usize)>~for~Matrix<T,ROW,COL>/index pub name=v_index params=index subst=Self::Output->T
    requires index.0 < ROW, index.1 < COL,
    ensures *r == self.at(index.0 as int, index.1 as int),
//@endfn
//@fn Matrix::index_mut compounds/src/matrix/static.rs impl:IndexMut<(usize,usize)>~for~Matrix<T,ROW,COL>/index_mut pub name=v_index_mut params=index subst=Self::Output->T
    requires index.0 < ROW, index.1 < COL,
    ensures *r == old(self).at(index.0 as int, index.1 as int),
        final(self).at(index.0 as int, index.1 as int) == *final(r),
        forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL && (i != index.0 || j != index.1) ==> #[trigger] final(self).at(i, j) == old(self).at(i, j),
//@endfn
//@fn Matrix::index(any) compounds/src/matrix/static.rs impl:Index<(usize,usize)>~for~Matrix<T,ROW,COL>/index pub name=v_index_any params=index subst=Self::Output->T bidx
    ensures index.0 < ROW, index.1 < COL, *r == self.at(index.0 as int, index.1 as int),
//@endfn
//@fn Matrix::index_mut(any) compounds/src/matrix/static.rs impl:IndexMut<(usize,usize)>~for~Matrix<T,ROW,COL>/index_mut pub name=v_index_mut_any params=index subst=Self::Output->T bidx
    ensures index.0 < ROW, index.1 < COL, *r == old(self).at(index.0 as int, index.1 as int),
        final(self).at(index.0 as int, index.1 as int) == *final(r),
        forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL && (i != index.0 || j != index.1) ==> #[trigger] final(self).at(i, j) == old(self).at(i, j),
//@endfn
//@fn Matrix::transpose compounds/src/matrix/static.rs impl:Matrix<T,ROW,COL>/transpose pub hoist chain=collect
    ensures forall|i: int, j: int| 0 <= i < COL && 0 <= j < ROW ==> #[trigger] r.at(i, j) == self.at(j, i),
//@chain 0
    proof {
        let a: [[T; ROW]; COL] = __v0;
        assert forall|i: int, j: int| 0 <= i < COL && 0 <= j < ROW implies #[trigger] a[i][j] == self.at(j, i) by {
            assert(__m0.gives(i, a[i])); assert(self.0.zsrc(i, a[i])); assert(self.0[j].src(i, a[i][j]));
        }
    }
//@endfn
//@fn Matrix::from_columns compounds/src/matrix/static.rs impl:Matrix<T,ROW,COL>/from_columns pub params=vecs methods=map->v_amap calls=<[T;ROW]>::from->v_into_arr nooptmap hoist chain=v_amap,collect
    ensures forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> #[trigger] r.at(i, j) == vecs[j].0[i],
//@entry
    let ghost v0 = vecs;
//@chain 1
    proof {
        let w: [[T; ROW]; COL] = __v0;
        let a: [[T; COL]; ROW] = __v1;
        assert forall|j: int| 0 <= j < COL implies #[trigger] w[j] == v0[j].0 by { let _ = v0.va()[j]; }
        assert forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL implies #[trigger] a[i][j] == v0[j].0[i] by {
            assert(__m1.gives(i, a[i])); assert(w.zsrc(i, a[i])); assert(w[j].src(i, a[i][j]));
        }
    }
//@endfn
//@fn Matrix::from_rows compounds/src/matrix/static.rs impl:Matrix<T,ROW,COL>/from_rows pub params=vecs calls=Vector::into->v_into nooptmap
    ensures forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> #[trigger] r.at(i, j) == vecs[i].0[j],
//@endfn
}
pub open spec fn row_sum<T: VInt, const R: usize, const K: usize, const C: usize>(a: Matrix<T, R, K>, b: Matrix<T, K, C>, i: int, j: int, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { row_sum(a, b, i, j, n - 1) + a.at(i, n - 1).ov() * b.at(n - 1, j).ov() } }
impl<T: VInt, const ROW: usize, const COL: usize> Matrix<T, ROW, COL> {
//%for M,f,O in Add,add,+ Sub,sub,-
//@fn Matrix::$f compounds/src/matrix/static.rs impl:$M~for~Matrix<T,ROW,COL>/$f pub name=v_$f params=rhs subst=Self::Output->Self ops=@num nooptmap
    ensures forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> (#[trigger] r.at(i, j)).ov() == self.at(i, j).ov() $O rhs.at(i, j).ov(),
//@closure 0
(T, T) -> T
 ensures __r.ov() == __a0.0.ov() $O __a0.1.ov()
//@closure 1
[T; COL]; [T; COL] -> [T; COL]
 ensures forall|j: int| 0 <= j < COL ==> (#[trigger] __r[j]).ov() == __a0[j].ov() $O __a1[j].ov()
//@closure 2
([T; COL], [T; COL]) -> [T; COL]
 ensures forall|j: int| 0 <= j < COL ==> (#[trigger] __r[j]).ov() == __a0.0[j].ov() $O __a0.1[j].ov()
//@endfn
//%endfor
//@fn Matrix::mul compounds/src/matrix/static.rs impl:Mul<Matrix<T,COL,COL2>>~for~Matrix<T,ROW,COL>/mul pub name=v_mul params=rhs subst=Self::Output->Matrix<T,ROW,COL2> ops=+->v_add;*->v_mul methods=clone->v_clone index=v_index fromfn=ROW:[T;COL2],COL2:T implgen=COL2 nowhere
    requires COL > 0,
    ensures forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL2 ==> (#[trigger] r.at(i, j)).ov() == row_sum(self, rhs, i, j, COL as int),
//@loop 0
    invariant __k0 <= ROW, COL > 0, __b0@.len() == __k0, forall|i: int, j: int| 0 <= i < __k0 && 0 <= j < COL2 ==> (#[trigger] __b0@[i][j]).ov() == row_sum(self, rhs, i, j, COL as int),
    decreases ROW - __k0,
//@loop 1
    invariant __k1 <= COL2, i < ROW, COL > 0, __b1@.len() == __k1, forall|j: int| 0 <= j < __k1 ==> (#[trigger] __b1@[j]).ov() == row_sum(self, rhs, i as int, j, COL as int),
    decreases COL2 - __k1,
//@start 1
    proof { reveal_with_fuel(row_sum, 2); }
//@loop 2
    invariant 1 <= __k2 <= COL, __e2 == COL, i < ROW, j < COL2, out.ov() == row_sum(self, rhs, i as int, j as int, __k2 as int),
    decreases COL - __k2,
//@endfn
//@fn Matrix::eq @compounds impl:PartialEq~for~Matrix<T,ROW,COL>/eq pub name=v_eqr params=other ops===->v_aeq2
    ensures r == (forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> (#[trigger] self.at(i, j)).ov() == other.at(i, j).ov()),
//@tail
    proof {
        if __ret { assert forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL implies (#[trigger] self.at(i, j)).ov() == other.at(i, j).ov() by { assert(self.0[i].aq(other.0[i])); assert(self.0[i][j].ov() == other.0[i][j].ov()); } }
        else { let i = choose|i: int| 0 <= i < ROW && !(#[trigger] self.0[i]).aq(other.0[i]); let j = choose|j: int| 0 <= j < COL && (#[trigger] self.0[i][j]).ov() != other.0[i][j].ov(); assert(self.at(i, j).ov() != other.at(i, j).ov()); }
    }
//@endfn
//@fn Matrix::default compounds/src/matrix/static.rs impl:Default~for~Matrix<T,ROW,COL>/default pub name=v_default fromfn=ROW:[T;COL],COL:T nowhere calls=T::default->T::zero
    ensures forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> (#[trigger] r.at(i, j)).ov() == 0,
//@loop 0
    invariant __k0 <= ROW, __b0@.len() == __k0, forall|i: int, j: int| 0 <= i < __k0 && 0 <= j < COL ==> (#[trigger] __b0@[i][j]).ov() == 0,
    decreases ROW - __k0,
//@loop 1
    invariant __k1 <= COL, __b1@.len() == __k1, forall|j: int| 0 <= j < __k1 ==> (#[trigger] __b1@[j]).ov() == 0,
    decreases COL - __k1,
//@endfn
//@fn Matrix::zero compounds/src/matrix/static.rs impl:Zero~for~Matrix<T,ROW,COL>/zero pub name=v_zero fromfn=ROW:[T;COL],COL:T
    ensures forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> (#[trigger] r.at(i, j)).ov() == 0,
//@loop 0
    invariant __k0 <= ROW, __b0@.len() == __k0, forall|i: int, j: int| 0 <= i < __k0 && 0 <= j < COL ==> (#[trigger] __b0@[i][j]).ov() == 0,
    decreases ROW - __k0,
//@loop 1
    invariant __k1 <= COL, __b1@.len() == __k1, forall|j: int| 0 <= j < __k1 ==> (#[trigger] __b1@[j]).ov() == 0,
    decreases COL - __k1,
//@endfn
//@fn Matrix::is_zero compounds/src/matrix/static.rs impl:Zero~for~Matrix<T,ROW,COL>/is_zero pub name=v_is_zero noall hoist chain=all
    ensures r == forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> (#[trigger] self.at(i, j)).ov() == 0,
//@closure 0
&[T; COL] -> bool
 ensures __r == row_zero(*__a0)
//@chain 0
    proof {
        if __v0 {
            assert forall|j: int| 0 <= j < COL implies (#[trigger] __a0[j]).ov() == 0 by { assert(test_at(__m0, T::is_zero, j, true)); }
        } else {
            let n = choose|n: int| 0 <= n < COL && #[trigger] test_at(__m0, T::is_zero, n, false) && passes(__m0, T::is_zero, n, true);
            assert(__a0[n].ov() != 0);
        }
    }
//@chain 1
    proof {
        if __v1 {
            assert forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL implies (#[trigger] self.at(i, j)).ov() == 0 by { assert(test_at(__m1, __c0, i, true)); let x = choose|x: &[T; COL]| __m1.gives(i, x) && #[trigger] __c0.ensures((x,), true); assert(*x == self.0[i]); assert(x[j].ov() == 0); }
        } else {
            let n = choose|n: int| 0 <= n < ROW && #[trigger] test_at(__m1, __c0, n, false) && passes(__m1, __c0, n, true);
            assert(exists|j: int| 0 <= j < COL && (#[trigger] self.0[n][j]).ov() != 0);
            let j = choose|j: int| 0 <= j < COL && (#[trigger] self.0[n][j]).ov() != 0;
            assert(self.at(n, j).ov() != 0);
        }
    }
//@endfn
//@fn Matrix::one compounds/src/matrix/static.rs impl:One~for~Matrix<T,ROW,COL>/one pub name=v_one fromfn=ROW:[T;COL],COL:T
    ensures forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> (#[trigger] r.at(i, j)).ov() == id_at(i, j),
//@loop 0
    invariant __k0 <= ROW, __b0@.len() == __k0, forall|i: int, j: int| 0 <= i < __k0 && 0 <= j < COL ==> (#[trigger] __b0@[i][j]).ov() == id_at(i, j),
    decreases ROW - __k0,
//@loop 1
    invariant __k1 <= COL, __b1@.len() == __k1, forall|j: int| 0 <= j < __k1 ==> (#[trigger] __b1@[j]).ov() == id_at(i as int, j),
    decreases COL - __k1,
//@endfn
//@fn Matrix::is_one compounds/src/matrix/static.rs impl:One~for~Matrix<T,ROW,COL>/is_one pub name=v_is_one noall hoist chain=all
    ensures r == forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> (#[trigger] self.at(i, j)).ov() == id_at(i, j),
//@closure 0
(usize, &T) -> bool
 ensures __r == (__a0.1.ov() == id_at(i as int, __a0.0 as int))
//@closure 1
(usize, &[T; COL]) -> bool
 ensures __r == row_one(*__a0.1, __a0.0 as int)
//@chain 0
    proof {
        if __v0 {
            assert forall|j: int| 0 <= j < COL implies (#[trigger] __a0.1[j]).ov() == id_at(__a0.0 as int, j) by { assert(test_at(__m0, __c0, j, true)); }
        } else {
            let n = choose|n: int| 0 <= n < COL && #[trigger] test_at(__m0, __c0, n, false) && passes(__m0, __c0, n, true);
            assert(__a0.1[n].ov() != id_at(__a0.0 as int, n));
        }
    }
//@chain 1
    proof {
        if __v1 {
            assert forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL implies (#[trigger] self.at(i, j)).ov() == id_at(i, j) by { assert(test_at(__m1, __c1, i, true)); let x = choose|x: (usize, &[T; COL])| __m1.gives(i, x) && #[trigger] __c1.ensures((x,), true); assert(*x.1 == self.0[i]); assert(x.1[j].ov() == id_at(i, j)); }
        } else {
            let n = choose|n: int| 0 <= n < ROW && #[trigger] test_at(__m1, __c1, n, false) && passes(__m1, __c1, n, true);
            assert(exists|j: int| 0 <= j < COL && (#[trigger] self.0[n][j]).ov() != id_at(n, j));
            let j = choose|j: int| 0 <= j < COL && (#[trigger] self.0[n][j]).ov() != id_at(n, j);
            assert(self.at(n, j).ov() != id_at(n, j));
        }
    }
//@endfn
}
pub open spec fn row_zero<T: VInt, const COL: usize>(a: [T; COL]) -> bool { forall|j: int| 0 <= j < COL ==> (#[trigger] a[j]).ov() == 0 }
pub open spec fn row_one<T: VInt, const COL: usize>(a: [T; COL], i: int) -> bool { forall|j: int| 0 <= j < COL ==> (#[trigger] a[j]).ov() == id_at(i, j) }
pub open spec fn id_at(i: int, j: int) -> int { if i == j { 1 } else { 0 } }
impl<T: VInt, const N: usize> Matrix<T, N, N> {
//@fn Matrix::diag compounds/src/matrix/static.rs impl:SquareMatrix<T,N>/diag pub methods=clone->v_clone;into->v_arr_into index=v_index fromfn=N:T
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.0[i] == self.at(i, i),
//@loop 0
    invariant __k0 <= N, __b0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __b0@[i] == self.at(i, i),
    decreases N - __k0,
//@endfn
}
impl<T: VInt, const N: usize> Vector<T, N> {
//@fn Vector::into_row compounds/src/vector.rs impl:Vector<T,N>/into_row pub methods=into->v_into_m
    ensures r.0[0] == self.0,
//@endfn
//@fn Vector::into_column compounds/src/vector.rs impl:Vector<T,N>/into_column pub nooptmap calls=<[_;N]>::from->v_into_arr
    ensures forall|i: int| 0 <= i < N ==> (#[trigger] r.0[i])[0] == self.0[i],
//@closure 0
T -> [T; 1]
 ensures __r[0] == __a0
//@endfn
    pub fn v_into_m(self) -> (r: [T; N]) ensures r == self.0 { v_into(self) }
}
}
pub use mats::*;
