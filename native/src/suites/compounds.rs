use native::*;
use core::cmp::Ordering;
use core::ops::*;
use numeric_compounds::complex::Complex;
use numeric_compounds::matrix::*;
use numeric_compounds::vector::*;
use numeric_traits::class::*;
use numeric_traits::identity::*;
use numeric_traits::ops::checked::{CheckedAdd, CheckedSub};
use numeric_traits::ops::Pow;

fn sm(c: &mut Ctx, r: i64) -> i64 { match c.rng.below(5) { 0 => *c.rng.pick(&[0, 1, -1]), _ => c.rng.below(2 * r as usize + 1) as i64 - r } }

// ---------------------------------------------------------------- complex
pub fn p22(c: &mut Ctx) {
    c.spend(1, 20000, |c| {
        let r = *c.rng.pick(&[3i64, 20, 5000]);
        let v: [i64; 4] = core::array::from_fn(|_| sm(c, r));
        let (a, b, d, e) = (v[0], v[1], v[2], v[3]);
        let sh = || format!("({}+{}i) ({}+{}i)", a, b, d, e);
        let (x, y) = (|| Complex::new(a, b), || Complex::new(d, e));
        let p = |z: Complex<i64>| (*z.real(), *z.imag());
        c.check("Complex add", sh, Is((a + d, b + e)), || p(x() + y()));
        c.check("Complex sub", sh, Is((a - d, b - e)), || p(x() - y()));
        c.check("Complex mul", sh, Is((a * d - b * e, a * e + b * d)), || p(x() * y()));
        c.check("Complex add scalar", sh, Is((a + d, b)), || p(x() + d));
        c.check("Complex sub scalar", sh, Is((a - d, b)), || p(x() - d));
        c.check("Complex mul scalar", sh, Is((a * d, b * d)), || p(x() * d));
        let q = d * d + e * e;
        if q != 0 { c.check("Complex div", sh, Is(((a * d + b * e) / q, (b * d - a * e) / q)), || p(x() / y())); }
        if q != 0 { c.check("Complex mul then div", sh, Is((a, b)), || p((x() * y()) / y())); }
        if d != 0 { c.check("Complex div scalar", sh, Is((a / d, b / d)), || p(x() / d)); }
        c.check("Complex new/from", sh, Is(((a, b), (a, 0), (0, b))), || (p(x()), p(Complex::from_real(a)), p(Complex::from_imag(b))));
        c.check("Complex identities", sh, Is(((0, 0), (1, 0), a == 0 && b == 0, a == 1 && b == 0, a == d && b == e, (0, 0))), || (p(Complex::zero()), p(Complex::one()), x().is_zero(), x().is_one(), x() == y(), p(Complex::default())));
        let (fa, fb, fd, fe) = (a as f64, b as f64, d as f64, e as f64);
        let pf = |z: Complex<f64>| (*z.real(), *z.imag());
        c.check("Complex f64 mul", sh, Is((fa * fd - fb * fe, fa * fe + fb * fd)), || pf(Complex::new(fa, fb) * Complex::new(fd, fe)));
        c.check("Complex f64 abs_squared", sh, Is(fa * fa + fb * fb), || Complex::new(fa, fb).abs_squared());
        // Pythagorean triples, so the root is exact
        let k = d.abs() as f64;
        c.check("Complex f64 abs", sh, Is(5.0 * k), || Complex::new(3.0 * k, -4.0 * k).abs());
        let u = |x: i64| x.unsigned_abs() as u32;
        if u(a) >= u(d) && u(b) >= u(e) { c.check("Complex u32 sub", sh, Is((u(a) - u(d), u(b) - u(e))), || { let z = Complex::new(u(a), u(b)) - Complex::new(u(d), u(e)); (*z.real(), *z.imag()) }); }
    });
}

// ---------------------------------------------------------------- vectors and matrices
fn arr<const N: usize>(c: &mut Ctx, r: i64) -> [i64; N] { core::array::from_fn(|_| sm(c, r)) }
fn vec_n<const N: usize>(c: &mut Ctx) {
    let r = *c.rng.pick(&[3, 50, 4000]);
    let (a, b): ([i64; N], [i64; N]) = (arr(c, r), arr(c, r));
    let s = sm(c, r);
    let sh = || format!("Vector {:?} {:?} scalar {}", a, b, s);
    let (x, y) = (Vector::new(a), Vector::new(b));
    fn z<const N: usize>(a: [i64; N], b: [i64; N], f: impl Fn(i64, i64) -> i64) -> [i64; N] { core::array::from_fn(|i| f(a[i], b[i])) }
    fn o<const N: usize>(v: Vector<i64, N>) -> [i64; N] { v.into() }
    let nz = b.map(|v| if v == 0 { 7 } else { v });
    let yn = Vector::new(nz);
    let t = if s == 0 { 3 } else { s };
    macro_rules! op { ($n:literal $op:tt $as:tt $b:ident $y:ident $s:ident) => {
        c.check(concat!("Vector ", $n), sh, Is((z(a, $b, |p, q| p $op q), z(a, $b, |p, q| p $op q), a.map(|p| p $op $s), a.map(|p| p $op $s))),
            || (o(x $op $y), o(x $op &$y), o(x $op $s), o(x $op &$s)));
        c.check(concat!("Vector ", $n, " assign"), sh, Is((z(a, $b, |p, q| p $op q), z(a, $b, |p, q| p $op q), a.map(|p| p $op $s), a.map(|p| p $op $s))),
            || { let (mut w1, mut w2, mut w3, mut w4) = (x, x, x, x); w1 $as $y; w2 $as &$y; w3 $as $s; w4 $as &$s; (o(w1), o(w2), o(w3), o(w4)) });
    } }
    op!("add" + += b y s); op!("sub" - -= b y s); op!("mul" * *= b y s); op!("div" / /= nz yn t); op!("rem" % %= nz yn t);
    c.check("Vector eq", sh, Is(a == b), || x == y);
    c.check("Vector zero", sh, Is(([0; N], [0; N], a.iter().all(|v| *v == 0), [s; N], [0; N])), || (o(Vector::zeroed()), o(<Vector<i64, N> as Zero>::zero()), x.is_zero(), o(Vector::from_scalar(s)), o(Vector::default())));
    c.check("Vector index", sh, Is(a.to_vec()), || (0..N).map(|i| x[i]).collect());
    c.check("Vector index out of bounds", sh, Panics, || x[N]);
    c.check("Vector index mut", sh, Is({ let mut v = a; if N > 0 { v[N - 1] = s } v }), || { let mut v = x; if N > 0 { v[N - 1] = s } o(v) });
    let (f, g) = (a.map(|v| v as f64), b.map(|v| v as f64));
    c.check("Vector dot", sh, Is(z(a, b, |p, q| p * q).iter().sum::<i64>() as f64), || Vector::dot_product(Vector::new(f), Vector::new(g)));
    c.check("Vector distance_squared", sh, Is(z(a, b, |p, q| (p - q) * (p - q)).iter().sum::<i64>() as f64), || Vector::distance_squared(Vector::new(f), Vector::new(g)));
    c.check("Vector distance", sh, Is((z(a, b, |p, q| (p - q) * (p - q)).iter().sum::<i64>() as f64).sqrt()), || Vector::distance(Vector::new(f), Vector::new(g)));
    c.check("Vector sum", sh, Is(a.iter().sum::<i64>() as f64), || Vector::new(f).sum());
    let small = a.map(|v| (v % 9) as f64);
    c.check("Vector product", sh, Is(small.iter().fold(1.0, |p, q| p * q)), || Vector::new(small).product());
    let (l, m) = (a.map(|v| v as i8), b.map(|v| v as i8));
    let want = |f: fn(i8, i8) -> Option<i8>| (0..N).map(|i| f(l[i], m[i])).collect::<Option<Vec<i8>>>();
    c.check("Vector checked_add", sh, Is(want(i8::checked_add)), || Vector::new(l).checked_add(Vector::new(m)).map(|v| <[i8; N]>::from(v).to_vec()));
    c.check("Vector checked_sub", sh, Is(want(i8::checked_sub)), || Vector::new(l).checked_sub(Vector::new(m)).map(|v| <[i8; N]>::from(v).to_vec()));
    c.check("Vector into_row/column", sh, Is((vec![a.to_vec()], a.iter().map(|v| vec![*v]).collect::<Vec<_>>())), || (mv(&x.into_row()), mv(&x.into_column())));
}
fn mv<T: Clone, const R: usize, const C: usize>(m: &Matrix<T, R, C>) -> Vec<Vec<T>> { (0..R).map(|i| (0..C).map(|j| m[(i, j)].clone()).collect()).collect() }
fn mat<const R: usize, const C: usize>(c: &mut Ctx, r: i64) -> [[i64; C]; R] { core::array::from_fn(|_| arr(c, r)) }
fn mat_n<const R: usize, const C: usize, const K: usize>(c: &mut Ctx) {
    let r = *c.rng.pick(&[2, 9, 1000]);
    let (a, b, d): ([[i64; C]; R], [[i64; C]; R], [[i64; K]; C]) = (mat(c, r), mat(c, r), mat(c, r));
    let sh = || format!("Matrix {:?} {:?} {:?}", a, b, d);
    let w = |f: &dyn Fn(usize, usize) -> i64, n: usize, m: usize| (0..n).map(|i| (0..m).map(|j| f(i, j)).collect::<Vec<_>>()).collect::<Vec<_>>();
    let (x, y, z) = (Matrix::new(a), Matrix::new(b), Matrix::new(d));
    c.check("Matrix add", sh, Is(w(&|i, j| a[i][j] + b[i][j], R, C)), || mv(&(x.clone() + y.clone())));
    c.check("Matrix sub", sh, Is(w(&|i, j| a[i][j] - b[i][j], R, C)), || mv(&(x.clone() - y.clone())));
    c.check("Matrix mul", sh, Is(w(&|i, j| (0..C).map(|k| a[i][k] * d[k][j]).sum(), R, K)), || mv(&(x.clone() * z.clone())));
    c.check("Matrix transpose", sh, Is(w(&|i, j| a[j][i], C, R)), || mv(&x.clone().transpose()));
    c.check("Matrix identities", sh, Is((w(&|_, _| 0, R, C), w(&|i, j| (i == j) as i64, R, C), w(&|_, _| 0, R, C))), || (mv(&<Matrix<i64, R, C> as Zero>::zero()), mv(&<Matrix<i64, R, C> as One>::one()), mv(&Matrix::<i64, R, C>::default())));
    c.check("Matrix is_zero", sh, Is(a.iter().flatten().all(|v| *v == 0)), || x.is_zero());
    let mut id: [[i64; C]; R] = core::array::from_fn(|i| core::array::from_fn(|j| (i == j) as i64));
    if c.rng.below(2) == 0 { let (i, j) = (c.rng.below(R), c.rng.below(C)); id[i][j] = sm(c, 1); }
    let isid = (0..R).all(|i| (0..C).all(|j| id[i][j] == (i == j) as i64));
    c.check("Matrix is_one", || format!("{:?}", id), Is((isid, id.iter().flatten().all(|v| *v == 0))), || (Matrix::new(id).is_one(), Matrix::new(id).is_zero()));
    c.check("Matrix eq", sh, Is(a == b), || x == y);
    c.check("Matrix from rows", sh, Is(w(&|i, j| a[i][j], R, C)), || mv(&Matrix::from_rows(a.map(Vector::new))));
    c.check("Matrix from columns", sh, Is(w(&|i, j| a[j][i], C, R)), || mv(&Matrix::<i64, C, R>::from_columns(a.map(Vector::new))));
    let (p, q) = (c.rng.below(R), c.rng.below(R));
    let mut sw = a; sw.swap(p, q);
    c.check("Matrix swap_rows", || format!("{:?} {} {}", a, p, q), Is(w(&|i, j| sw[i][j], R, C)), || { let mut m = x.clone(); m.swap_rows(p, q); mv(&m) });
    c.check("DynMatrix swap_rows", || format!("{:?} {} {}", a, p, q), Is(w(&|i, j| sw[i][j], R, C)), || { let mut m = DynMatrix::from(a); m.swap_rows(p, q); (0..R).map(|i| (0..C).map(|j| m[(i, j)]).collect()).collect() });
    c.check("DynMatrix from/eq", sh, Is((R, C, a == b)), || { let m = DynMatrix::from(a); (m.rows(), m.cols(), m == DynMatrix::from(b)) });
}
pub fn p23(c: &mut Ctx) {
    c.spend(1, 300, |c| {
        vec_n::<1>(c); vec_n::<2>(c); vec_n::<3>(c); vec_n::<4>(c); vec_n::<5>(c); vec_n::<8>(c); vec_n::<0>(c);
        mat_n::<1, 1, 1>(c); mat_n::<2, 2, 2>(c); mat_n::<3, 3, 3>(c); mat_n::<2, 3, 4>(c); mat_n::<3, 1, 2>(c); mat_n::<1, 4, 1>(c); mat_n::<4, 2, 3>(c); mat_n::<4, 4, 4>(c);
        if c.rng.below(6) == 0 { vec_n::<16>(c); vec_n::<33>(c); vec_n::<70>(c); mat_n::<9, 12, 10>(c); mat_n::<2, 70, 3>(c); mat_n::<40, 3, 2>(c); mat_n::<3, 2, 66>(c); mat_n::<5, 17, 1>(c); }
        let v: [i64; 6] = arr(c, 60);
        let (a, b) = ([v[0], v[1], v[2]], [v[3], v[4], v[5]]);
        let sh = || format!("{:?} x {:?}", a, b);
        c.check("Vector cross", sh, Is([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]), || Vector::new(a).cross(Vector::new(b)).into());
        c.check("Vec2 accessors", sh, Is((v[0], v[1], [v[2], v[3]], [v[4], v[5]])), || { let x = Vec2::from_xy(v[0], v[1]); let mut y = x; y.set_x(v[2]); y.set_y(v[3]); let mut z = x; *z.x_mut() = v[4]; *z.y_mut() = v[5]; (*x.x(), *x.y(), y.into(), z.into()) });
        c.check("Vec3 accessors", sh, Is((v[0], v[1], v[2], b, b)), || { let x = Vec3::from_xyz(v[0], v[1], v[2]); let mut y = x; y.set_x(b[0]); y.set_y(b[1]); y.set_z(b[2]); let mut z = x; *z.x_mut() = b[0]; *z.y_mut() = b[1]; *z.z_mut() = b[2]; (*x.x(), *x.y(), *x.z(), y.into(), z.into()) });
        let w4 = [v[2], v[3], v[4], v[5]];
        c.check("Vec4 accessors", sh, Is((v[0], v[1], v[2], v[3], w4, w4)), || { let x = Vec4::from_xyzw(v[0], v[1], v[2], v[3]); let mut y = x; y.set_x(w4[0]); y.set_y(w4[1]); y.set_z(w4[2]); y.set_w(w4[3]); let mut z = x; *z.x_mut() = w4[0]; *z.y_mut() = w4[1]; *z.z_mut() = w4[2]; *z.w_mut() = w4[3]; (*x.x(), *x.y(), *x.z(), *x.w(), y.into(), z.into()) });
        let d: [[i64; 3]; 3] = mat(c, 9);
        c.check("Matrix diag", || format!("{:?}", d), Is([d[0][0], d[1][1], d[2][2]]), || Matrix::new(d).diag().into());
    });
}

// ---------------------------------------------------------------- row reduction (exact rationals)
#[derive(Clone, Debug, PartialEq)]
pub struct Q(i128, i128);
fn g(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.abs(), b.abs()); while b != 0 { (a, b) = (b, a % b) } a }
impl Q {
    pub fn new(n: i128, d: i128) -> Q { let k = g(n, d).max(1); let s = if d < 0 { -1 } else { 1 }; Q(s * n / k, s * d / k) }
    pub fn int(n: i64) -> Q { Q(n as i128, 1) }
}
impl Add for Q { type Output = Q; fn add(self, o: Q) -> Q { let k = g(self.1, o.1); Q::new(self.0 * (o.1 / k) + o.0 * (self.1 / k), self.1 / k * o.1) } }
impl Sub for Q { type Output = Q; fn sub(self, o: Q) -> Q { self + Q(-o.0, o.1) } }
impl Mul for Q { type Output = Q; fn mul(self, o: Q) -> Q { let (k, l) = (g(self.0, o.1).max(1), g(o.0, self.1).max(1)); Q::new((self.0 / k) * (o.0 / l), (self.1 / l) * (o.1 / k)) } }
impl Div for Q { type Output = Q; fn div(self, o: Q) -> Q { assert!(o.0 != 0, "division by zero"); self * Q::new(o.1, o.0) } }
impl Rem for Q { type Output = Q; fn rem(self, _: Q) -> Q { unimplemented!() } }
impl Neg for Q { type Output = Q; fn neg(self) -> Q { Q(-self.0, self.1) } }
impl PartialOrd for Q { fn partial_cmp(&self, o: &Q) -> Option<Ordering> { (self.0 * o.1).partial_cmp(&(o.0 * self.1)) } }
impl Zero for Q { fn zero() -> Q { Q(0, 1) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for Q { fn one() -> Q { Q(1, 1) } fn is_one(&self) -> bool { self.0 == 1 && self.1 == 1 } }
impl Pow for Q { type Output = Q; fn pow(self, _: Q) -> Q { unimplemented!() } }
impl Numeric for Q {}
impl Signed for Q { fn abs(self) -> Q { Q(self.0.abs(), self.1) } fn is_positive(&self) -> bool { self.0 >= 0 } fn is_negative(&self) -> bool { self.0 < 0 } }
impl Real for Q { fn floor(self) -> Q { unimplemented!() } fn ceil(self) -> Q { unimplemented!() } fn round(self) -> Q { unimplemented!() } fn trunc(self) -> Q { unimplemented!() } fn fract(self) -> Q { unimplemented!() } fn log(self, _: Q) -> Q { unimplemented!() } }
impl RealSigned for Q {}

/// reduced row echelon form, the canonical name of a row space
fn rref(mut m: Vec<Vec<Q>>) -> Vec<Vec<Q>> {
    let (r, n) = (m.len(), if m.is_empty() { 0 } else { m[0].len() });
    let mut row = 0;
    for col in 0..n {
        let Some(p) = (row..r).find(|&i| !m[i][col].is_zero()) else { continue };
        m.swap(row, p);
        let k = m[row][col].clone();
        for j in 0..n { m[row][j] = m[row][j].clone() / k.clone() }
        for i in 0..r { if i != row && !m[i][col].is_zero() { let f = m[i][col].clone(); for j in 0..n { m[i][j] = m[i][j].clone() - f.clone() * m[row][j].clone() } } }
        row += 1;
        if row == r { break }
    }
    m
}
fn echelon(m: &[Vec<Q>]) -> bool {
    let mut last: Option<usize> = None;
    let mut zero_seen = false;
    for r in m {
        match r.iter().position(|v| !v.is_zero()) {
            None => zero_seen = true,
            Some(p) => { if zero_seen || last.map_or(false, |l| p <= l) { return false } last = Some(p) }
        }
    }
    true
}
fn det(m: &[Vec<i64>]) -> i128 {
    if m.is_empty() { return 1 }
    (0..m.len()).map(|j| {
        let sub: Vec<Vec<i64>> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, v)| *v).collect()).collect();
        (if j % 2 == 0 { 1 } else { -1 }) * m[0][j] as i128 * det(&sub)
    }).sum()
}
fn gen_mat<const R: usize, const C: usize>(c: &mut Ctx) -> [[i64; C]; R] {
    let r = *c.rng.pick(&[1i64, 3, 9]);
    let mut m = mat::<R, C>(c, r);
    match c.rng.below(6) {
        0 => { let (i, j) = (c.rng.below(R), c.rng.below(R)); m[i] = m[j]; }
        1 => { let j = c.rng.below(C); for i in 0..R { m[i][j] = 0 } }
        2 => { let i = c.rng.below(R); m[i] = [0; C]; }
        3 => { for i in 0..R { for j in 0..i.min(C) { m[i][j] = 0 } } }
        4 => { for row in m.iter_mut() { for v in row.iter_mut() { if c.rng.below(2) == 0 { *v = 0 } } } }
        _ => {}
    }
    m
}
fn rr_n<const R: usize, const C: usize>(c: &mut Ctx) {
    let m = gen_mat::<R, C>(c);
    let q = m.map(|r| r.map(Q::int));
    let sh = || format!("{:?}", m);
    let orig: Vec<Vec<Q>> = q.iter().map(|r| r.to_vec()).collect();
    let want = rref(orig);
    c.check("row_reduce echelon and row space", sh, Is((true, want.clone())), || { let x = mv(&Matrix::new(q.clone()).row_reduce()); (echelon(&x), rref(x)) });
    c.check("DynMatrix row_reduce echelon and row space", sh, Is((true, want.clone())), || { let y = DynMatrix::from(q.clone()).row_reduce(); let x: Vec<Vec<Q>> = (0..y.rows()).map(|i| (0..y.cols()).map(|j| y[(i, j)].clone()).collect()).collect(); (echelon(&x), rref(x)) });
}
fn det_n<const N: usize>(c: &mut Ctx) {
    let m = gen_mat::<N, N>(c);
    let q = m.map(|r| r.map(Q::int));
    let rows: Vec<Vec<i64>> = m.iter().map(|r| r.to_vec()).collect();
    c.check("determinant", || format!("{:?}", m), Is(Q(det(&rows), 1)), || Matrix::new(q.clone()).determinant());
    if N <= 2 { let f = m.map(|r| r.map(|v| v as f64)); c.check("determinant f64", || format!("{:?}", m), Is(det(&rows) as f64), || Matrix::new(f).determinant()); }
}
pub fn p24(c: &mut Ctx) {
    c.spend(1, 400, |c| {
        det_n::<1>(c); det_n::<2>(c); det_n::<3>(c); det_n::<4>(c); det_n::<5>(c);
        rr_n::<1, 1>(c); rr_n::<2, 2>(c); rr_n::<3, 3>(c); rr_n::<2, 3>(c); rr_n::<3, 2>(c); rr_n::<4, 4>(c); rr_n::<1, 3>(c); rr_n::<3, 1>(c); rr_n::<4, 2>(c); rr_n::<2, 5>(c);
        if c.rng.below(6) == 0 { det_n::<6>(c); det_n::<7>(c); rr_n::<8, 8>(c); rr_n::<10, 3>(c); rr_n::<3, 10>(c); rr_n::<9, 7>(c); rr_n::<7, 9>(c); rr_n::<5, 70>(c); rr_n::<70, 5>(c); }
    });
}

// ---------------------------------------------------------------- views
fn view_n<const R: usize, const C: usize>(c: &mut Ctx) {
    let m = mat::<R, C>(c, 50);
    let (i, j) = match c.rng.below(6) {
        0 => (R, c.rng.below(C)), 1 => (c.rng.below(R), C), 2 => (R, C),
        3 => { let k = *c.rng.pick(&[usize::MAX, usize::MAX / C.max(1), usize::MAX / 2 + 1, (usize::MAX / C.max(1)).wrapping_add(1)]); (k, c.rng.below(C)) }
        _ => (c.rng.below(R), c.rng.below(C + 1)),
    };
    let sh = || format!("{}x{} {:?} at ({}, {})", R, C, m, i, j);
    let want = || if i < R && j < C { Is(m[i][j]) } else { Panics };
    let x = Matrix::new(m);
    let d = DynMatrix::from(m);
    c.check("Matrix index", sh, want(), || x[(i, j)]);
    c.check("DynMatrix index", sh, want(), || d[(i, j)]);
    c.check("MatrixRef index", sh, want(), || MatrixRef::from(&x)[(i, j)]);
    c.check("MatrixRef(dyn) index", sh, want(), || MatrixRef::from(&d)[(i, j)]);
    c.check("MatrixMut read", sh, want(), || { let mut y = x.clone(); MatrixMut::from(&mut y)[(i, j)] });
    c.check("MatrixMut(dyn) read", sh, want(), || { let mut y = d.clone(); MatrixMut::from(&mut y)[(i, j)] });
    let mut after = m;
    if i < R && j < C { after[i][j] = 99 }
    let all = |f: &dyn Fn(usize, usize) -> i64| (0..R).map(|p| (0..C).map(|q| f(p, q)).collect::<Vec<_>>()).collect::<Vec<_>>();
    let wantw = || if i < R && j < C { Is(all(&|p, q| after[p][q])) } else { Panics };
    c.check("Matrix write", sh, wantw(), || { let mut y = x.clone(); y[(i, j)] = 99; mv(&y) });
    c.check("DynMatrix write", sh, wantw(), || { let mut y = d.clone(); y[(i, j)] = 99; all(&|p, q| y[(p, q)]) });
    c.check("MatrixMut write", sh, wantw(), || { let mut y = x.clone(); MatrixMut::from(&mut y)[(i, j)] = 99; mv(&y) });
    c.check("MatrixMut(dyn) write", sh, wantw(), || { let mut y = d.clone(); MatrixMut::from(&mut y)[(i, j)] = 99; all(&|p, q| y[(p, q)]) });
}
pub fn p25(c: &mut Ctx) {
    c.spend(1, 3000, |c| {
        view_n::<1, 1>(c); view_n::<2, 3>(c); view_n::<3, 2>(c); view_n::<4, 4>(c); view_n::<1, 5>(c); view_n::<5, 1>(c);
        if c.rng.below(6) == 0 { view_n::<9, 70>(c); view_n::<70, 9>(c); view_n::<1, 130>(c); view_n::<130, 1>(c); view_n::<17, 16>(c); }
        let (r, k, n) = (c.rng.below(5), c.rng.below(5), c.rng.below(18));
        c.check("DynMatrix new", || format!("{} values as {}x{}", n, r, k), if r * k == n { Is((r, k, (0..n as i64).collect::<Vec<_>>())) } else { Panics }, || {
            let m = DynMatrix::new((0..n as i64).collect(), r, k);
            let v = (0..r).flat_map(|i| (0..k).map(move |j| (i, j))).map(|p| m[p]).collect();
            (m.rows(), m.cols(), v)
        });
        let h = 1usize << 32;
        for (r, k) in [(h, h), (usize::MAX, 2), (2, usize::MAX / 2 + 1), (h, h << 1)] {
            let n = r.wrapping_mul(k);
            if n < 20 { c.check("DynMatrix new overflow", || format!("{} values as {}x{}", n, r, k), Panics, || { let m = DynMatrix::new(vec![7i64; n], r, k); (m.rows(), m.cols()) }); }
        }
        let big = usize::MAX;
        c.check("DynMatrix 0 columns", || "0 values as MAX x 0".into(), Panics, || DynMatrix::new(Vec::<i64>::new(), big, 0)[(0, 0)]);
        c.check("MatrixRef 0 columns", || "0 values as 3 x 0".into(), Panics, || { let d = DynMatrix::new(Vec::<i64>::new(), 3, 0); MatrixRef::from(&d)[(0, 0)] });
    });
}
