// dynamically sized matrices and views
pub mod dynm {
use super::*;
use core::marker::PhantomData;
pub struct DynMatrix<T> { pub data: Vec<T>, pub rows: usize, pub cols: usize }
/// row-major position
pub open spec fn pos(i: int, j: int, cols: int) -> int { i * cols + j }
pub proof fn lemma_pos(i: int, j: int, rows: int, cols: int)
    requires 0 <= i < rows, 0 <= j < cols,
    ensures 0 <= pos(i, j, cols) < rows * cols, 0 <= i * cols <= pos(i, j, cols), (i + 1) * cols <= rows * cols, i * cols + cols == (i + 1) * cols,
{
    assert(i * cols + cols == (i + 1) * cols && 0 <= i * cols) by(nonlinear_arith) requires 0 <= i, 0 <= j < cols;
    assert((i + 1) * cols <= rows * cols) by(nonlinear_arith) requires i + 1 <= rows, cols > 0;
}
/// positions are different for different pairs
pub proof fn lemma_pos_inj(i: int, j: int, a: int, b: int, cols: int)
    requires 0 <= j < cols, 0 <= b < cols, pos(i, j, cols) == pos(a, b, cols),
    ensures i == a, j == b,
{
    assert(i == a) by(nonlinear_arith) requires 0 <= j < cols, 0 <= b < cols, i * cols + j == a * cols + b;
}
pub open spec fn vspmin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn vspmax(a: int, b: int) -> int { if a <= b { b } else { a } }
pub proof fn lemma_swap_bounds(l: int, r: int, rows: int, cols: int)
    requires 0 <= l <= r < rows, 0 <= cols,
    ensures 0 <= l * cols <= (l + 1) * cols, l * cols + cols == (l + 1) * cols, l < r ==> (l + 1) * cols <= r * cols, 0 <= r * cols, r * cols + cols == (r + 1) * cols, (r + 1) * cols <= rows * cols,
{
    assert(0 <= l * cols && 0 <= r * cols) by(nonlinear_arith) requires 0 <= l <= r, 0 <= cols;
    assert(l * cols + cols == (l + 1) * cols) by(nonlinear_arith);
    assert(r * cols + cols == (r + 1) * cols) by(nonlinear_arith);
    assert((r + 1) * cols <= rows * cols) by(nonlinear_arith) requires r + 1 <= rows, 0 <= cols;
    if l < r { assert((l + 1) * cols <= r * cols) by(nonlinear_arith) requires l + 1 <= r, 0 <= cols; }
}
/// d1 is d0 with the two stretches of length cols exchanged
pub open spec fn exchanged<T>(d0: Seq<T>, d1: Seq<T>, p: int, q: int, n: int) -> bool {
    d1.len() == d0.len() && forall|k: int| 0 <= k < d0.len() ==> #[trigger] d1[k] == (if p <= k < p + n { d0[k - p + q] } else if q <= k < q + n { d0[k - q + p] } else { d0[k] })
}
pub proof fn lemma_swap_rows<T>(d0: Seq<T>, d1: Seq<T>, l: int, r: int, rows: int, cols: int)
    requires 0 <= l < r < rows, 0 <= cols, d0.len() == rows * cols, exchanged(d0, d1, l * cols, r * cols, cols),
    ensures forall|i: int, j: int| 0 <= i < rows && 0 <= j < cols ==> #[trigger] d1[pos(i, j, cols)] == d0[pos(if i == l { r } else if i == r { l } else { i }, j, cols)],
{
    assert forall|i: int, j: int| 0 <= i < rows && 0 <= j < cols implies #[trigger] d1[pos(i, j, cols)] == d0[pos(if i == l { r } else if i == r { l } else { i }, j, cols)] by {
        lemma_pos(i, j, rows, cols); lemma_swap_bounds(l, r, rows, cols);
        let k = pos(i, j, cols);
        if l * cols <= k < l * cols + cols { lemma_pos_inj(i, j, l, k - l * cols, cols); }
        else if r * cols <= k < r * cols + cols { lemma_pos_inj(i, j, r, k - r * cols, cols); }
        else if i == l || i == r { assert(false); }
    }
}
/// an in-place sub-slice `&mut s[lo..hi]`
#[verifier::external_body]
pub fn v_sub_mut<T>(s: &mut [T], lo: usize, hi: usize) -> (r: &mut [T])
    requires lo <= hi <= old(s)@.len(),
    ensures r@ == old(s)@.subrange(lo as int, hi as int), r@.len() == final(r)@.len(), final(s)@ == old(s)@.subrange(0, lo as int) + final(r)@ + old(s)@.subrange(hi as int, old(s)@.len() as int),
{ &mut s[lo..hi] }
pub trait VSplit<T> {
    spec fn sq(&self) -> Seq<T>;
    fn v_split_at_mut(&mut self, m: usize) -> (r: (&mut [T], &mut [T]))
        requires m <= old(self).sq().len(),
        ensures r.0@ == old(self).sq().subrange(0, m as int), r.1@ == old(self).sq().subrange(m as int, old(self).sq().len() as int),
            final(r.0)@.len() == m, final(r.1)@.len() == old(self).sq().len() - m,
            final(self).sq() == final(r.0)@ + final(r.1)@;
}
impl<T> VSplit<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_split_at_mut(&mut self, m: usize) -> (r: (&mut [T], &mut [T])) { self.split_at_mut(m) }
}
pub trait VSwapWith<T> {
    spec fn qs(&self) -> Seq<T>;
    fn v_swap_with_slice(&mut self, o: &mut [T])
        requires old(self).qs().len() == old(o)@.len(),
        ensures final(self).qs() == old(o)@, final(o)@ == old(self).qs();
}
impl<T> VSwapWith<T> for [T] {
    open spec fn qs(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_swap_with_slice(&mut self, o: &mut [T]) { self.swap_with_slice(o) }
}
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vmax(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { b } else { a }) { if a <= b { b } else { a } }
/// `value.into_iter().flatten().collect::<Vec<_>>()` of an array of arrays: the rows one after the other
pub trait VFlat<T, const R: usize, const C: usize>: Sized {
    spec fn fl(self) -> [[T; C]; R];
    fn v_ii(self) -> (r: Self) ensures r == self;
    fn v_fl(self) -> (r: Self) ensures r == self;
    fn v_col(self) -> (r: Vec<T>) ensures r@.len() == R * C, forall|i: int, j: int| 0 <= i < R && 0 <= j < C ==> #[trigger] self.fl()[i][j] == r@[pos(i, j, C as int)];
}
impl<T, const R: usize, const C: usize> VFlat<T, R, C> for [[T; C]; R] {
    open spec fn fl(self) -> [[T; C]; R] { self }
    fn v_ii(self) -> (r: Self) { self }
    fn v_fl(self) -> (r: Self) { self }
    #[verifier::external_body]
    fn v_col(self) -> (r: Vec<T>) { self.into_iter().flatten().collect() }
}
/// A pointer to the first of m.len() consecutive elements. `&*p.add(k)` is allowed for k < m.len() only.
pub struct VPtr<'a, T> { pub m: &'a [T] }
impl<'a, T> Copy for VPtr<'a, T> {}
impl<'a, T> Clone for VPtr<'a, T> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl<'a, T> VPtr<'a, T> {
    pub fn v_ptr_at(&self, k: usize) -> (r: &T) requires k < self.m@.len(), ensures *r == self.m@[k as int] { &self.m[k] }
}
pub struct VPtrMut<'a, T> { pub m: &'a mut [T] }
impl<'a, T> VPtrMut<'a, T> {
    pub open spec fn mem(&self) -> Seq<T> { (*self.m)@ }
    pub fn v_ptr_at(&self, k: usize) -> (r: &T) requires k < self.mem().len(), ensures *r == self.mem()[k as int] { &self.m[k] }
    #[verifier::external_body]
    pub fn v_ptr_at_mut(&mut self, k: usize) -> (r: &mut T)
        requires k < old(self).mem().len(),
        ensures *r == old(self).mem()[k as int], final(self).mem() == old(self).mem().update(k as int, *final(r)), final(final(self).m)@ == final(old(self).m)@,
    { &mut self.m[k] }
}
/// what the memory behind a pointer to a matrix holds
pub open spec fn lays<T, const R: usize, const C: usize>(a: [[T; C]; R], m: Seq<T>) -> bool {
    m.len() == R * C && forall|i: int, j: int| 0 <= i < R && 0 <= j < C ==> #[trigger] a[i][j] == m[pos(i, j, C as int)]
}
/// NonNull::from(&array).cast(): arrays are laid out row after row (guaranteed by the language)
pub struct VNN<'a, A> { pub p: &'a A }
pub struct VNNM<'a, A> { pub p: &'a mut A }
pub fn v_nn<'a, A>(x: &'a A) -> (r: VNN<'a, A>) ensures r.p == x { VNN { p: x } }
pub fn v_nnm<'a, A>(x: &'a mut A) -> (r: VNNM<'a, A>) ensures *r.p == *old(x), *final(r.p) == *final(x) { VNNM { p: x } }
impl<'a, T, const R: usize, const C: usize> VNN<'a, [[T; C]; R]> {
    #[verifier::external_body]
    pub fn v_cast(self) -> (r: VPtr<'a, T>) requires R * C <= usize::MAX, ensures lays(*self.p, r.m@) { VPtr { m: self.p.as_flattened() } }
}
impl<'a, T, const R: usize, const C: usize> VNNM<'a, [[T; C]; R]> {
    #[verifier::external_body]
    pub fn v_cast(self) -> (r: VPtrMut<'a, T>) requires R * C <= usize::MAX, ensures lays(*old(self.p), r.m@), lays(*final(self.p), final(r.m)@) { VPtrMut { m: self.p.as_flattened_mut() } }
}
pub open spec fn inb(index: (usize, usize), rows: usize, cols: usize) -> bool { index.0 < rows && index.1 < cols }
impl<T> DynMatrix<T> {
    pub open spec fn wf(self) -> bool { self.data@.len() == self.rows * self.cols }
    pub open spec fn at(self, i: int, j: int) -> T { self.data@[pos(i, j, self.cols as int)] }
//@fn DynMatrix::new compounds/src/matrix/dynamic.rs impl:DynMatrix<T>/new pub params=data,rows,cols unwrap
    ensures r.wf(), r.data == data, r.rows == rows, r.cols == cols,
//@unwrap 0
    rows * cols <= usize::MAX
//@assert 0
    data@.len() == rows * cols
//@endfn
//@fn DynMatrix::rows compounds/src/matrix/dynamic.rs impl:DynMatrix<T>/rows pub
    ensures r == self.rows,
//@endfn
//@fn DynMatrix::cols compounds/src/matrix/dynamic.rs impl:DynMatrix<T>/cols pub
    ensures r == self.cols,
//@endfn
//@fn DynMatrix::index compounds/src/matrix/dynamic.rs impl:Index<(usize,usize)>~for~DynMatrix<T>/index pub name=v_index params=index subst=Self::Output->T
    requires self.wf(),
    ensures index.0 < self.rows, index.1 < self.cols, *r == self.at(index.0 as int, index.1 as int),
//@entry
    proof { assert(self.data@.len() == self.data.len()); if index.0 < self.rows && index.1 < self.cols { lemma_pos(index.0 as int, index.1 as int, self.rows as int, self.cols as int); } }
//@assert 0
    inb(index, self.rows, self.cols)
//@endfn
//@fn DynMatrix::index_mut compounds/src/matrix/dynamic.rs impl:IndexMut<(usize,usize)>~for~DynMatrix<T>/index_mut pub name=v_index_mut params=index subst=Self::Output->T
    requires old(self).wf(),
    ensures index.0 < old(self).rows, index.1 < old(self).cols, *r == old(self).at(index.0 as int, index.1 as int),
        final(self).wf(), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
        final(self).data@ == old(self).data@.update(pos(index.0 as int, index.1 as int, old(self).cols as int), *final(r)),
        final(self).at(index.0 as int, index.1 as int) == *final(r),
        forall|i: int, j: int| 0 <= i < old(self).rows && 0 <= j < old(self).cols && (i != index.0 || j != index.1) ==> #[trigger] final(self).at(i, j) == old(self).at(i, j),
//@entry
    proof {
        assert(self.data@.len() == self.data.len());
        if index.0 < self.rows && index.1 < self.cols { lemma_pos(index.0 as int, index.1 as int, self.rows as int, self.cols as int); }
        assert forall|i: int, j: int| 0 <= i < self.rows && 0 <= j < self.cols && (i != index.0 || j != index.1) && inb(index, self.rows, self.cols) implies 0 <= #[trigger] pos(i, j, self.cols as int) < self.data@.len() && pos(i, j, self.cols as int) != pos(index.0 as int, index.1 as int, self.cols as int) by {
            lemma_pos(i, j, self.rows as int, self.cols as int);
            if pos(i, j, self.cols as int) == pos(index.0 as int, index.1 as int, self.cols as int) { lemma_pos_inj(i, j, index.0 as int, index.1 as int, self.cols as int); }
        }
    }
//@assert 0
    inb(index, self.rows, self.cols)
//@endfn
//@fn DynMatrix::swap_rows compounds/src/matrix/dynamic.rs impl:DynMatrix<T>/swap_rows pub params=a,b ptr methods=split_at_mut->v_split_at_mut;swap_with_slice->v_swap_with_slice
    requires old(self).wf(), a < old(self).rows, b < old(self).rows,
    ensures final(self).wf(), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
        forall|i: int, j: int| 0 <= i < old(self).rows && 0 <= j < old(self).cols ==> #[trigger] final(self).at(i, j) == old(self).at(if i == a { b as int } else if i == b { a as int } else { i }, j),
//@entry
    proof { assert(self.data@.len() == self.data.len()); lemma_swap_bounds(vspmin(a as int, b as int), vspmax(a as int, b as int), self.rows as int, self.cols as int); }
    let ghost d0 = self.data@;
//@tail
    proof {
        if a != b { lemma_swap_rows(d0, self.data@, vspmin(a as int, b as int), vspmax(a as int, b as int), self.rows as int, self.cols as int); }
        assert forall|i: int, j: int| 0 <= i < self.rows && 0 <= j < self.cols implies self.data@[pos(i, j, self.cols as int)] == d0[pos(if i == a { b as int } else if i == b { a as int } else { i }, j, self.cols as int)] by { }
    }
//@endfn
}
//@fn DynMatrix::from compounds/src/matrix/dynamic.rs impl:From<[[T;COL];ROW]>~for~DynMatrix<T>/from pub name=v_dyn_from params=value implgen ret=DynMatrix<T> methods=into_iter->v_ii;flatten->v_fl;collect->v_col
    ensures r.wf(), r.rows == ROW, r.cols == COL, forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> #[trigger] r.at(i, j) == value[i][j],
//@tail
    proof { assert forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL implies #[trigger] __ret.at(i, j) == value[i][j] by { let _ = value.fl()[i][j]; assert(value.fl()[i][j] == value[i][j]); } }
//@endfn
/// Vec::as_ptr, as_mut_ptr, cast_mut and NonNull::new
pub trait VVecPtr<T> {
    spec fn vp(&self) -> Seq<T>;
    fn v_as_ptr<'a>(&'a self) -> (r: VPtr<'a, T>) ensures r.m@ == self.vp();
    fn v_as_mut_ptr<'a>(&'a mut self) -> (r: VPtrMut<'a, T>) ensures r.m@ == old(self).vp(), final(r.m)@ == final(self).vp();
}
impl<T> VVecPtr<T> for Vec<T> {
    open spec fn vp(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_as_ptr<'a>(&'a self) -> (r: VPtr<'a, T>) { VPtr { m: self.as_slice() } }
    #[verifier::external_body]
    fn v_as_mut_ptr<'a>(&'a mut self) -> (r: VPtrMut<'a, T>) { VPtrMut { m: self.as_mut_slice() } }
}
impl<'a, T> VPtr<'a, T> { pub fn v_cast_mut(self) -> (r: Self) ensures r == self { self } }
pub fn v_nn_new<P>(p: P) -> (r: Option<P>) ensures r == Some(p) { Some(p) }
impl<T, const ROW: usize, const COL: usize> Matrix<T, ROW, COL> {
//@fn Matrix::as_ptr compounds/src/matrix/static.rs impl:Matrix<T,ROW,COL>/as_ptr pub calls=NonNull::from->v_nn methods=cast->v_cast subst=NonNull<T>->VPtr<'_,T>
    requires ROW * COL <= usize::MAX,
    ensures lays(self.0, r.m@),
//@endfn
//@fn Matrix::as_mut_ptr compounds/src/matrix/static.rs impl:Matrix<T,ROW,COL>/as_mut_ptr pub calls=NonNull::from->v_nnm methods=cast->v_cast subst=NonNull<T>->VPtrMut<'_,T>
    requires ROW * COL <= usize::MAX,
    ensures lays(old(self).0, r.m@), lays(final(self).0, final(r.m)@),
//@endfn
}
impl<T> DynMatrix<T> {
//@fn DynMatrix::as_ptr compounds/src/matrix/dynamic.rs impl:DynMatrix<T>/as_ptr pub calls=NonNull::new->v_nn_new methods=as_ptr->v_as_ptr;cast_mut->v_cast_mut subst=NonNull<T>->VPtr<'_,T> unwrap
    ensures r.m@ == self.data@,
//@unwrap 0
    true
//@endfn
//@fn DynMatrix::as_mut_ptr compounds/src/matrix/dynamic.rs impl:DynMatrix<T>/as_mut_ptr pub calls=NonNull::new->v_nn_new methods=as_mut_ptr->v_as_mut_ptr subst=NonNull<T>->VPtrMut<'_,T> unwrap
    ensures r.m@ == old(self).data@, final(r.m)@ == final(self).data@, final(self).rows == old(self).rows, final(self).cols == old(self).cols,
//@unwrap 0
    true
//@endfn
}
pub struct MatrixRef<'a, T> { pub data: VPtr<'a, T>, pub rows: usize, pub cols: usize, pub _phantom: PhantomData<&'a [T]> }
pub struct MatrixMut<'a, T> { pub data: VPtrMut<'a, T>, pub rows: usize, pub cols: usize, pub _phantom: PhantomData<&'a mut [T]> }
impl<'a, T> MatrixRef<'a, T> {
    pub open spec fn wf(self) -> bool { self.data.m@.len() == self.rows * self.cols }
    pub open spec fn at(self, i: int, j: int) -> T { self.data.m@[pos(i, j, self.cols as int)] }
//@fn MatrixRef::new compounds/src/matrix/refs.rs impl:MatrixRef<'a,T>/new pub params=data,rows,cols subst=NonNull<T>->VPtr<'a,T>
    ensures r.data == data, r.rows == rows, r.cols == cols,
//@endfn
//@fn MatrixRef::index @compounds impl:Index<(usize,usize)>~for~MatrixRef<'a,T>/index pub name=v_index params=index subst=Self::Output->T ptr
    requires self.wf(),
    ensures index.0 < self.rows, index.1 < self.cols, *r == self.at(index.0 as int, index.1 as int),
//@entry
    proof { assert(self.data.m@.len() == self.data.m.len()); if index.0 < self.rows && index.1 < self.cols { lemma_pos(index.0 as int, index.1 as int, self.rows as int, self.cols as int); } }
//@panic 0
    inb(index, self.rows, self.cols)
//@endfn
}
impl<'a, T> MatrixMut<'a, T> {
    pub open spec fn mem(&self) -> Seq<T> { self.data.mem() }
    pub open spec fn wf(&self) -> bool { self.mem().len() == self.rows * self.cols }
    pub open spec fn at(&self, i: int, j: int) -> T { self.mem()[pos(i, j, self.cols as int)] }
//@fn MatrixMut::new compounds/src/matrix/refs.rs impl:MatrixMut<'a,T>/new pub params=data,rows,cols subst=NonNull<T>->VPtrMut<'a,T>
    ensures r.data == data, r.rows == rows, r.cols == cols,
//@endfn
//@fn MatrixMut::index @compounds impl:Index<(usize,usize)>~for~MatrixMut<'a,T>/index pub name=v_index params=index subst=Self::Output->T ptr
    requires self.wf(),
    ensures index.0 < self.rows, index.1 < self.cols, *r == self.at(index.0 as int, index.1 as int),
//@entry
    proof { assert(self.data.mem().len() == self.data.m.len()); if index.0 < self.rows && index.1 < self.cols { lemma_pos(index.0 as int, index.1 as int, self.rows as int, self.cols as int); } }
//@panic 0
    inb(index, self.rows, self.cols)
//@endfn
//@fn MatrixMut::index_mut compounds/src/matrix/refs.rs impl:IndexMut<(usize,usize)>~for~MatrixMut<'_,T>/index_mut pub name=v_index_mut params=index subst=Self::Output->T ptr
    requires old(self).wf(),
    ensures index.0 < old(self).rows, index.1 < old(self).cols, *r == old(self).at(index.0 as int, index.1 as int),
        final(self).wf(), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
        final(self).mem() == old(self).mem().update(pos(index.0 as int, index.1 as int, old(self).cols as int), *final(r)),
        final(final(self).data.m)@ == final(old(self).data.m)@,
//@entry
    proof { assert(self.data.mem().len() == self.data.m.len()); if index.0 < self.rows && index.1 < self.cols { lemma_pos(index.0 as int, index.1 as int, self.rows as int, self.cols as int); } }
//@assert 0
    inb(index, self.rows, self.cols)
//@endfn
}
//@fn MatrixRef::from_matrix compounds/src/matrix/refs.rs impl:From<&'aMatrix<T,ROW,COL>>~for~MatrixRef<'a,T>/from pub name=v_ref_from params=value implgen ret=MatrixRef<'a,T>
    requires ROW * COL <= usize::MAX,
    ensures r.wf(), r.rows == ROW, r.cols == COL, forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> #[trigger] r.at(i, j) == value.at(i, j),
//@tail
    proof { assert forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL implies #[trigger] __ret.at(i, j) == value.at(i, j) by { assert(value.0[i][j] == __ret.data.m@[pos(i, j, COL as int)]); } }
//@endfn
//@fn MatrixRef::from_dyn compounds/src/matrix/refs.rs impl:From<&'aDynMatrix<T>>~for~MatrixRef<'a,T>/from pub name=v_dref_from params=value implgen ret=MatrixRef<'a,T>
    requires value.wf(),
    ensures r.wf(), r.rows == value.rows, r.cols == value.cols, forall|i: int, j: int| 0 <= i < r.rows && 0 <= j < r.cols ==> #[trigger] r.at(i, j) == value.at(i, j),
//@endfn
/// the entries of the viewed matrix after the view ends are those of the view's memory then
//@fn MatrixMut::from_matrix compounds/src/matrix/refs.rs impl:From<&'amutMatrix<T,ROW,COL>>~for~MatrixMut<'a,T>/from pub name=v_mut_from params=value implgen ret=MatrixMut<'a,T>
    requires ROW * COL <= usize::MAX,
    ensures r.wf(), r.rows == ROW, r.cols == COL, forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> #[trigger] r.at(i, j) == old(value).at(i, j),
        final(r.data.m)@.len() == ROW * COL,
        forall|i: int, j: int| 0 <= i < ROW && 0 <= j < COL ==> #[trigger] final(value).at(i, j) == final(r.data.m)@[pos(i, j, COL as int)],
//@endfn
//@fn MatrixMut::from_dyn compounds/src/matrix/refs.rs impl:From<&'amutDynMatrix<T>>~for~MatrixMut<'a,T>/from pub name=v_dmut_from params=value implgen ptr ret=MatrixMut<'a,T>
    requires old(value).wf(),
    ensures r.wf(), r.rows == old(value).rows, r.cols == old(value).cols, forall|i: int, j: int| 0 <= i < r.rows && 0 <= j < r.cols ==> #[trigger] r.at(i, j) == old(value).at(i, j),
        final(value).rows == old(value).rows, final(value).cols == old(value).cols, final(value).data@ == final(r.data.m)@,
//@endfn
/// writing an entry through a mutable view writes exactly that entry of the viewed matrix
pub fn prop_write_through<T, const R: usize, const C: usize>(m: &mut Matrix<T, R, C>, i: usize, j: usize, x: T)
    requires i < R, j < C, R * C <= usize::MAX,
    ensures final(m).at(i as int, j as int) == x, forall|a: int, b: int| 0 <= a < R && 0 <= b < C && (a != i || b != j) ==> #[trigger] final(m).at(a, b) == old(m).at(a, b),
{
    let ghost m0 = *m;
    let mut v = v_mut_from(m);
    let ghost s0 = v.mem();
    proof { assert forall|a: int, b: int| 0 <= a < R && 0 <= b < C implies #[trigger] s0[pos(a, b, C as int)] == m0.at(a, b) by { assert(v.at(a, b) == m0.at(a, b)); } }
    *v.v_index_mut((i, j)) = x;
    proof {
        lemma_pos(i as int, j as int, R as int, C as int);
        let s1 = v.mem();
        assert forall|a: int, b: int| 0 <= a < R && 0 <= b < C && (a != i || b != j) implies #[trigger] s1[pos(a, b, C as int)] == m0.at(a, b) by {
            lemma_pos(a, b, R as int, C as int);
            if pos(a, b, C as int) == pos(i as int, j as int, C as int) { lemma_pos_inj(a, b, i as int, j as int, C as int); }
            assert(s1[pos(a, b, C as int)] == s0[pos(a, b, C as int)]);
        }
    }
}
pub fn prop_write_through_dyn<T>(m: &mut DynMatrix<T>, i: usize, j: usize, x: T)
    requires i < old(m).rows, j < old(m).cols, old(m).wf(),
    ensures final(m).wf(), final(m).rows == old(m).rows, final(m).cols == old(m).cols, final(m).at(i as int, j as int) == x, forall|a: int, b: int| 0 <= a < old(m).rows && 0 <= b < old(m).cols && (a != i || b != j) ==> #[trigger] final(m).at(a, b) == old(m).at(a, b),
{
    let ghost m0 = *m;
    let mut v = v_dmut_from(m);
    let ghost s0 = v.mem();
    proof { assert forall|a: int, b: int| 0 <= a < m0.rows && 0 <= b < m0.cols implies #[trigger] s0[pos(a, b, m0.cols as int)] == m0.at(a, b) by { assert(v.at(a, b) == m0.at(a, b)); } }
    *v.v_index_mut((i, j)) = x;
    proof {
        let (rr, cc) = (m0.rows as int, m0.cols as int);
        lemma_pos(i as int, j as int, rr, cc);
        let s1 = v.mem();
        assert forall|a: int, b: int| 0 <= a < rr && 0 <= b < cc && (a != i || b != j) implies #[trigger] s1[pos(a, b, cc)] == m0.at(a, b) by {
            lemma_pos(a, b, rr, cc);
            if pos(a, b, cc) == pos(i as int, j as int, cc) { lemma_pos_inj(a, b, i as int, j as int, cc); }
            assert(s1[pos(a, b, cc)] == s0[pos(a, b, cc)]);
        }
    }
}
}
pub use dynm::*;
