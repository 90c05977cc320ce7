// row reduction and determinants over an exact ordered field
pub mod gaussmath {
use super::*;
pub type Mx = Seq<Seq<real>>;
pub open spec fn shape(m: Mx, r: int, c: int) -> bool { m.len() == r && forall|i: int| 0 <= i < r ==> (#[trigger] m[i]).len() == c }
pub open spec fn swapr(m: Mx, a: int, b: int) -> Mx { m.update(a, m[b]).update(b, m[a]) }
/// row t less f times row s
pub open spec fn subr(m: Mx, t: int, s: int, f: real) -> Mx { m.update(t, Seq::new(m[t].len(), |j: int| m[t][j] - m[s][j] * f)) }
pub open spec fn upper(m: Mx, n: int) -> bool { forall|i: int, j: int| 0 <= j < i < n ==> #[trigger] m[i][j] == 0real }
pub open spec fn diagp(m: Mx, k: int) -> real decreases k { if k <= 0 { 1real } else { diagp(m, k - 1) * m[k - 1][k - 1] } }
/// D is the determinant of n by n matrices: exchanging two rows negates it, taking a multiple of one
/// row from another keeps it, and on triangular matrices it is the product of the diagonal
pub open spec fn is_det(d: spec_fn(Mx) -> real, n: int) -> bool {
    &&& forall|m: Mx, a: int, b: int| shape(m, n, n) && 0 <= a < n && 0 <= b < n && a != b ==> d(#[trigger] swapr(m, a, b)) == -d(m)
    &&& forall|m: Mx, t: int, s: int, f: real| shape(m, n, n) && 0 <= t < n && 0 <= s < n && t != s ==> d(#[trigger] subr(m, t, s, f)) == d(m)
    &&& forall|m: Mx| shape(m, n, n) && #[trigger] upper(m, n) ==> d(m) == diagp(m, n)
}
/// the determinant of b is f times that of a
pub open spec fn det_by(a: Mx, b: Mx, n: int, f: real) -> bool { forall|d: spec_fn(Mx) -> real| #[trigger] is_det(d, n) ==> d(b) == f * d(a) }
/// v is a combination of the rows of m
pub open spec fn comb(c: Seq<real>, m: Mx, j: int, k: int) -> real decreases k { if k <= 0 { 0real } else { comb(c, m, j, k - 1) + c[k - 1] * m[k - 1][j] } }
pub open spec fn is_comb(c: Seq<real>, m: Mx, v: Seq<real>) -> bool { c.len() == m.len() && forall|j: int| 0 <= j < v.len() ==> #[trigger] v[j] == comb(c, m, j, m.len() as int) }
pub open spec fn in_span(m: Mx, v: Seq<real>) -> bool { exists|c: Seq<real>| #[trigger] is_comb(c, m, v) }
/// the rows of a and of b span the same space
pub open spec fn same_span(a: Mx, b: Mx, cols: int) -> bool { forall|v: Seq<real>| v.len() == cols ==> #[trigger] in_span(a, v) == in_span(b, v) }
pub proof fn lemma_comb_update(c: Seq<real>, m: Mx, j: int, n: int, k: int, x: real, row: Seq<real>)
    requires 0 <= k < m.len(), 0 <= n <= m.len(), c.len() == m.len(),
    ensures comb(c.update(k, x), m.update(k, row), j, n) == comb(c, m, j, n) + (if k < n { x * row[j] - c[k] * m[k][j] } else { 0real }),
    decreases n,
{
    if n > 0 { lemma_comb_update(c, m, j, n - 1, k, x, row); }
}
pub proof fn lemma_swap_in(m: Mx, a: int, b: int, v: Seq<real>)
    requires 0 <= a < m.len(), 0 <= b < m.len(), in_span(m, v),
    ensures in_span(swapr(m, a, b), v),
{
    let c = choose|c: Seq<real>| #[trigger] is_comb(c, m, v);
    let d = c.update(a, c[b]).update(b, c[a]);
    assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] == comb(d, swapr(m, a, b), j, m.len() as int) by {
        lemma_comb_update(c, m, j, m.len() as int, a, c[b], m[b]);
        lemma_comb_update(c.update(a, c[b]), m.update(a, m[b]), j, m.len() as int, b, c[a], m[a]);
    }
    assert(is_comb(d, swapr(m, a, b), v));
}
pub proof fn lemma_sub_in(m: Mx, t: int, s: int, f: real, v: Seq<real>, cols: int)
    requires shape(m, m.len() as int, cols), 0 <= t < m.len(), 0 <= s < m.len(), t != s, in_span(m, v), v.len() == cols,
    ensures in_span(subr(m, t, s, f), v),
{
    let c = choose|c: Seq<real>| #[trigger] is_comb(c, m, v);
    let x = c[s] + f * c[t];
    let d = c.update(s, x);
    let m2 = subr(m, t, s, f);
    assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] == comb(d, m2, j, m.len() as int) by {
        lemma_comb_update(c, m, j, m.len() as int, s, x, m[s]);
        assert(m.update(s, m[s]) =~= m);
        lemma_comb_update(d, m, j, m.len() as int, t, c[t], m2[t]);
        assert(d.update(t, c[t]) =~= d);
        assert(m2[t][j] == m[t][j] - m[s][j] * f);
        let (p, q, r, g) = (m[t][j], m[s][j], c[t], c[s]);
        assert((x * q - g * q) + (r * (p - q * f) - r * p) == 0real) by(nonlinear_arith) requires x == g + f * r;
    }
    assert(is_comb(d, m2, v));
}
pub proof fn lemma_swap(a: Mx, p: int, q: int, cols: int)
    requires shape(a, a.len() as int, cols), 0 <= p < a.len(), 0 <= q < a.len(), p != q,
    ensures shape(swapr(a, p, q), a.len() as int, cols), same_span(a, swapr(a, p, q), cols), a.len() == cols ==> det_by(a, swapr(a, p, q), cols, -1real),
{
    let b = swapr(a, p, q);
    assert forall|v: Seq<real>| v.len() == cols implies #[trigger] in_span(a, v) == in_span(b, v) by {
        if in_span(a, v) { lemma_swap_in(a, p, q, v); }
        if in_span(b, v) { lemma_swap_in(b, p, q, v); assert(swapr(b, p, q) =~= a); }
    }
}
pub proof fn lemma_sub(a: Mx, t: int, s: int, f: real, cols: int)
    requires shape(a, a.len() as int, cols), 0 <= t < a.len(), 0 <= s < a.len(), t != s,
    ensures shape(subr(a, t, s, f), a.len() as int, cols), same_span(a, subr(a, t, s, f), cols), a.len() == cols ==> det_by(a, subr(a, t, s, f), cols, 1real),
{
    let b = subr(a, t, s, f);
    assert forall|v: Seq<real>| v.len() == cols implies #[trigger] in_span(a, v) == in_span(b, v) by {
        if in_span(a, v) { lemma_sub_in(a, t, s, f, v, cols); }
        if in_span(b, v) {
            lemma_sub_in(b, t, s, -f, v, cols);
            assert forall|j: int| 0 <= j < cols implies subr(b, t, s, -f)[t][j] == a[t][j] by {
                let (x, y) = (a[t][j], a[s][j]);
                assert((x - y * f) - y * (-f) == x) by(nonlinear_arith);
            }
            assert(subr(b, t, s, -f)[t] =~= a[t]);
            assert(subr(b, t, s, -f) =~= a);
        }
    }
}
pub proof fn lemma_det_trans(a: Mx, b: Mx, c: Mx, n: int, f: real, g: real)
    requires det_by(a, b, n, f), det_by(b, c, n, g),
    ensures det_by(a, c, n, g * f),
{
    assert forall|d: spec_fn(Mx) -> real| #[trigger] is_det(d, n) implies d(c) == (g * f) * d(a) by {
        let x = d(a);
        assert(g * (f * x) == (g * f) * x) by(nonlinear_arith);
    }
}
/// rows [0, row) are in echelon form with leading entries in columns piv, all before `col`; every row from `row` on is zero before `col`
pub open spec fn ech(m: Mx, piv: Seq<int>, row: int, rows: int, col: int) -> bool {
    &&& piv.len() == row && 0 <= row <= rows
    &&& forall|k: int| 0 <= k < row ==> 0 <= #[trigger] piv[k] < col && m[k][piv[k]] != 0real
    &&& forall|k: int, l: int| 0 <= k < l < row ==> #[trigger] piv[k] < #[trigger] piv[l]
    &&& forall|k: int, j: int| 0 <= k < row && 0 <= j < piv[k] ==> #[trigger] m[k][j] == 0real
    &&& forall|k: int, j: int| row <= k < rows && 0 <= j < col ==> #[trigger] m[k][j] == 0real
}
/// row echelon form: leading entries move strictly right, zero rows come last
pub open spec fn echelon(m: Mx, rows: int, cols: int) -> bool { exists|piv: Seq<int>, row: int| #[trigger] ech(m, piv, row, rows, cols) }
pub proof fn lemma_piv(m: Mx, piv: Seq<int>, row: int, rows: int, col: int, k: int)
    requires ech(m, piv, row, rows, col), 0 <= k < row,
    ensures piv[k] >= k,
    decreases k,
{
    if k > 0 { lemma_piv(m, piv, row, rows, col, k - 1); assert(piv[k - 1] < piv[k]); }
}
pub proof fn lemma_upper(m: Mx, n: int)
    requires echelon(m, n, n),
    ensures upper(m, n),
{
    let (piv, row) = choose|piv: Seq<int>, row: int| #[trigger] ech(m, piv, row, n, n);
    assert forall|i: int, j: int| 0 <= j < i < n implies #[trigger] m[i][j] == 0real by {
        if i < row { lemma_piv(m, piv, row, n, n, i); }
    }
}
}
pub use gaussmath::*;
pub mod gauss {
use super::*;
pub open spec fn midx<T>(o: Option<(usize, &T)>) -> int { (o->0).0 as int }
pub trait VField: Copy {
    spec fn fv(self) -> real;
    fn zero() -> (r: Self) ensures r.fv() == 0real;
    fn one() -> (r: Self) ensures r.fv() == 1real;
    fn is_zero(&self) -> (r: bool) ensures r == (self.fv() == 0real);
    fn v_add(self, o: Self) -> (r: Self) ensures r.fv() == self.fv() + o.fv();
    fn v_sub(self, o: Self) -> (r: Self) ensures r.fv() == self.fv() - o.fv();
    fn v_mul(self, o: Self) -> (r: Self) ensures r.fv() == self.fv() * o.fv();
    fn v_div(self, o: Self) -> (r: Self) requires o.fv() != 0real, ensures r.fv() == self.fv() / o.fv();
    fn v_neg(self) -> (r: Self) ensures r.fv() == -self.fv();
    fn v_clone(&self) -> (r: Self) ensures r == *self { *self }
    fn v_partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r is Some;
}
impl<T: VField, const ROW: usize, const COL: usize> Matrix<T, ROW, COL> {
    pub open spec fn mv(self) -> Mx { Seq::new(ROW as nat, |i: int| Seq::new(COL as nat, |j: int| self.at(i, j).fv())) }
    pub open spec fn wf(self) -> bool { true }
    pub open spec fn rw(self) -> usize { ROW }
    pub open spec fn cl(self) -> usize { COL }
}
impl<T: VField> DynMatrix<T> {
    pub open spec fn mv(self) -> Mx { Seq::new(self.rows as nat, |i: int| Seq::new(self.cols as nat, |j: int| self.at(i, j).fv())) }
    pub open spec fn rw(self) -> usize { self.rows }
    pub open spec fn cl(self) -> usize { self.cols }
}
impl<T: VField, const ROW: usize, const COL: usize> Matrix<T, ROW, COL> {
//@fn Matrix::gauss_elim @compounds impl:Matrix<T,ROW,COL>/gauss_elim pub name=v_gauss_elim index=v_index ops=-->v_sub;*->v_mul;/->v_div methods=clone->v_clone;neg->v_neg;partial_cmp->v_partial_cmp subst=Self->Matrix<T,ROW,COL>
//%include gauss_body.vrs
}
impl<T: VField> DynMatrix<T> {
//@fn DynMatrix::gauss_elim @compounds impl:DynMatrix<T>/gauss_elim pub name=v_gauss_elim index=v_index ops=-->v_sub;*->v_mul;/->v_div methods=clone->v_clone;neg->v_neg;partial_cmp->v_partial_cmp subst=Self->DynMatrix<T>
//%include gauss_body.vrs
}
pub open spec fn rpmul(a: real, b: real) -> real { a * b }
pub open spec fn rprods<const N: usize, I: StaticIter<N>>(it: I, n: int, v: real) -> bool where I::Item: VField
    decreases n,
{ if n <= 0 { v == 1real } else { exists|x: I::Item, u: real| #![trigger it.gives(n - 1, x), rpmul(u, x.fv())] it.gives(n - 1, x) && rprods(it, n - 1, u) && v == rpmul(u, x.fv()) } }
pub proof fn lemma_rproduct<const N: usize, I: StaticIter<N>, G: Fn(I::Item, I::Item) -> I::Item>(it: I, g: G, n: int, a: I::Item) where I::Item: VField
    requires exists|z: I::Item| z.fv() == 1real && #[trigger] reach(it, g, z, n, a), forall|x: I::Item, y: I::Item, r: I::Item| #[trigger] g.ensures((x, y), r) ==> r.fv() == x.fv() * y.fv(),
    ensures rprods(it, n, a.fv()),
    decreases n,
{
    let z = choose|z: I::Item| z.fv() == 1real && #[trigger] reach(it, g, z, n, a);
    if n > 0 {
        let (b, x) = choose|b: I::Item, x: I::Item| #![trigger it.gives(n - 1, x), g.ensures((b, x), a)] reach(it, g, z, n - 1, b) && it.gives(n - 1, x) && g.ensures((b, x), a);
        lemma_rproduct(it, g, n - 1, b);
        assert(it.gives(n - 1, x) && rprods(it, n - 1, b.fv()) && a.fv() == rpmul(b.fv(), x.fv()));
    }
}
pub trait SIterExtF<const N: usize>: StaticIter<N> {
//@fn StaticIter::product(field) static-iter/src/lib.rs trait:StaticIter/product name=product_f ops=*->v_mul hoist where=Self::Item:VField
    requires self.at(0),
    ensures rprods(self, N as int, r.fv()),
//@entry
    let ghost it0 = self;
//@closure 0
Self::Item; Self::Item -> Self::Item
 ensures __r.fv() == __a0.fv() * __a1.fv()
//@tail
    proof { lemma_rproduct(it0, __c0, N as int, __ret); }
//@endfn
}
impl<const N: usize, I: StaticIter<N>> SIterExtF<N> for I {}
pub open spec fn rvprod<T: VField, const N: usize>(a: Vector<T, N>, n: int) -> real decreases n { if n <= 0 { 1real } else { rpmul(rvprod(a, n - 1), a.0[n - 1].fv()) } }
proof fn lemma_rvprod<T: VField, const N: usize>(a: Vector<T, N>, it: IntoIter<T, N>, n: int, v: real)
    requires n <= N, rprods(it, n, v), forall|i: int, x: T| #![trigger it.gives(i, x)] 0 <= i < N ==> it.gives(i, x) == a.0.src(i, x),
    ensures v == rvprod(a, n),
    decreases n,
{
    if n > 0 {
        let (x, u) = choose|x: T, u: real| #![trigger it.gives(n - 1, x), rpmul(u, x.fv())] it.gives(n - 1, x) && rprods(it, n - 1, u) && v == rpmul(u, x.fv());
        assert(a.0.src(n - 1, x));
        lemma_rvprod(a, it, n - 1, u);
    }
}
impl<T: VField, const N: usize> Vector<T, N> {
//@fn Vector::product(field) compounds/src/vector.rs impl:Vector<T,N>/product pub name=v_product_f methods=product->product_f
    ensures r.fv() == rvprod(self, N as int),
//@tail
    proof { assert forall|it: IntoIter<T, N>, v: real| (forall|i: int, x: T| #![trigger it.gives(i, x)] 0 <= i < N ==> it.gives(i, x) == self.0.src(i, x)) && #[trigger] rprods(it, N as int, v) implies v == rvprod(self, N as int) by { lemma_rvprod(self, it, N as int, v); } }
//@endfn
}
proof fn lemma_diagp<T: VField, const N: usize>(a: Vector<T, N>, m: Matrix<T, N, N>, n: int)
    requires 0 <= n <= N, forall|i: int| 0 <= i < N ==> #[trigger] a.0[i] == m.at(i, i),
    ensures rvprod(a, n) == diagp(m.mv(), n),
    decreases n,
{
    if n > 0 { lemma_diagp(a, m, n - 1); assert(m.mv()[n - 1][n - 1] == m.at(n - 1, n - 1).fv()); let _ = a.0[n - 1]; }
}
/// a 2 by 2 determinant is a d - c b
proof fn lemma_det2(m: Mx, d: spec_fn(Mx) -> real)
    requires shape(m, 2, 2), is_det(d, 2),
    ensures d(m) == m[0][0] * m[1][1] - m[1][0] * m[0][1],
{
    let (p, q, r, s) = (m[0][0], m[0][1], m[1][0], m[1][1]);
    reveal_with_fuel(diagp, 3);
    if p != 0real {
        let f = r / p;
        let n = subr(m, 1, 0, f);
        assert(r - p * f == 0real) by(nonlinear_arith) requires f == r / p, p != 0real;
        assert(upper(n, 2));
        assert(d(n) == p * (s - q * f));
        assert(p * (s - q * f) == p * s - r * q) by(nonlinear_arith) requires f == r / p, p != 0real;
    } else if r == 0real {
        assert(upper(m, 2));
        assert(0real * s == 0real && 0real * q == 0real) by(nonlinear_arith);
    } else {
        let n = swapr(m, 0, 1);
        assert(upper(n, 2));
        assert(d(n) == r * q);
        assert(0real * s == 0real) by(nonlinear_arith);
    }
}
proof fn lemma_det1(m: Mx, d: spec_fn(Mx) -> real)
    requires shape(m, 1, 1), is_det(d, 1),
    ensures d(m) == m[0][0],
{
    reveal_with_fuel(diagp, 2);
    assert(upper(m, 1));
}
impl<T: VField, const ROW: usize, const COL: usize> Matrix<T, ROW, COL> {
    /// derived Clone
    #[verifier::external_body]
    pub fn v_clone(&self) -> (r: Self) ensures r == *self { *self }
//@fn Matrix::row_reduce @compounds impl:Matrix<T,ROW,COL>/row_reduce pub name=v_row_reduce methods=gauss_elim->v_gauss_elim
    ensures echelon(r.mv(), ROW as int, COL as int), same_span(self.mv(), r.mv(), COL as int),
//@endfn
}
impl<T: VField> DynMatrix<T> {
//@fn DynMatrix::row_reduce @compounds impl:DynMatrix<T>/row_reduce pub name=v_row_reduce methods=gauss_elim->v_gauss_elim
    requires self.wf(),
    ensures r.wf(), r.rows == self.rows, r.cols == self.cols, echelon(r.mv(), self.rows as int, self.cols as int), same_span(self.mv(), r.mv(), self.cols as int),
//@endfn
}
impl<T: VField, const N: usize> Matrix<T, N, N> {
//@fn Matrix::diag(field) compounds/src/matrix/static.rs impl:SquareMatrix<T,N>/diag pub name=v_diag_f methods=clone->v_clone;into->v_arr_into index=v_index fromfn=N:T
    ensures forall|i: int| 0 <= i < N ==> #[trigger] r.0[i] == self.at(i, i),
//@loop 0
    invariant __k0 <= N, __b0@.len() == __k0, forall|i: int| 0 <= i < __k0 ==> #[trigger] __b0@[i] == self.at(i, i),
    decreases N - __k0,
//@endfn
//@fn Matrix::determinant compounds/src/matrix/static.rs impl:SquareMatrix<T,N>/determinant pub index=v_index ops=-->v_sub;*->v_mul;/->v_div methods=clone->v_clone;gauss_elim->v_gauss_elim;diag->v_diag_f;product->v_product_f
    ensures forall|d: spec_fn(Mx) -> real| #[trigger] is_det(d, N as int) ==> r.fv() == d(self.mv()),
//@let reduced#0
    proof {
        let rm = reduced.mv();
        let f = factor.fv();
        lemma_upper(rm, N as int);
        assert forall|d: spec_fn(Mx) -> real| #[trigger] is_det(d, N as int) implies d(self.mv()) == diagp(rm, N as int) / f by {
            let (x, y) = (d(self.mv()), d(rm));
            assert(y == f * x);
            assert(x == y / f) by(nonlinear_arith) requires y == f * x, f == 1real || f == -1real;
        }
        assert forall|a: Vector<T, N>| (forall|i: int| 0 <= i < N ==> #[trigger] a.0[i] == reduced.at(i, i)) implies #[trigger] rvprod(a, N as int) == diagp(rm, N as int) by { lemma_diagp(a, reduced, N as int); }
    }
//@tail
    proof {
        let m = self.mv();
        assert forall|d: spec_fn(Mx) -> real| #[trigger] is_det(d, N as int) implies __ret.fv() == d(m) by {
            if N == 1 { lemma_det1(m, d); assert(m[0][0] == self.at(0, 0).fv()); }
            else if N == 2 { lemma_det2(m, d); assert(m[0][0] == self.at(0, 0).fv() && m[0][1] == self.at(0, 1).fv() && m[1][0] == self.at(1, 0).fv() && m[1][1] == self.at(1, 1).fv()); }
        }
    }
//@endfn
}
}
pub use gauss::*;
