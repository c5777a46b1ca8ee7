//! C17: matrix products follow row-by-column multiplication.
use num_traits::{One, Zero};
use std::ops::*;
use vecmat::{traits::Dot, transform::Linear, Matrix, Vector};
use vh::{elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl, gen::Ring, tol::*};

/// Elements whose sums of a few products are exact.
trait Num: Ring + Add<Output = Self> + Mul<Output = Self> {}
impl<T: Ring + Add<Output = T> + Mul<Output = T>> Num for T {}

fn mat<T: Num, const M: usize, const N: usize>(c: &mut Cx) -> [[T; N]; M] {
    gen::structured::<T, M, N>(&mut c.s)
}
fn vct<T: Num, const N: usize>(c: &mut Cx) -> [T; N] {
    match c.s.below(4) {
        0 => {
            let k = c.s.idx(N);
            std::array::from_fn(|i| if i == k { T::one() } else { T::zero() })
        }
        _ => std::array::from_fn(|_| T::gen(&mut c.s)),
    }
}
fn mul<T: Num, const L: usize, const M: usize, const N: usize>(a: &[[T; M]; L], b: &[[T; N]; M]) -> [[T; N]; L] {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..M).rev().fold(T::zero(), |s, k| a[i][k] * b[k][j] + s)))
}
fn mm<T: Num, const M: usize, const N: usize>(a: [[T; N]; M]) -> Matrix<T, M, N> {
    Matrix::from_array_of_arrays(a)
}
fn dense<T: Num, const M: usize, const N: usize>(a: &[[T; N]; M]) -> bool {
    a.iter().flatten().filter(|x| !x.is_zero()).count() >= (M * N).min(2)
}
fn product<T: Num, const L: usize, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let (a, b) = (mat::<T, L, M>(c), mat::<T, M, N>(c));
    let (x, y) = (vct::<T, M>(c), vct::<T, M>(c));
    c.show(|| format!("{:?} * {:?}; vectors {:?}, {:?}", a, b, &x[..], &y[..]));
    c.nontrivial(dense(&a) && dense(&b));
    let (ma, mb) = (mm(a), mm(b));
    ensure_eq!(ma.dot(mb).into_array_of_arrays(), mul(&a, &b), "matrix product");
    // matrix by vector and vector by matrix
    let col: [[T; 1]; M] = x.map(|x| [x]);
    let row: [[T; M]; 1] = [y];
    let ax = ma.dot(Vector::from(x));
    ensure_eq!(ax.into_array(), mul(&a, &col).map(|r| r[0]), "matrix by vector");
    let yb = Vector::from(y).dot(mb);
    ensure_eq!(yb.into_array(), mul(&row, &b)[0], "vector by matrix");
    // one-column and one-row matrices
    ensure_eq!(ma.dot(mm(col)).into_array_of_arrays(), ax.into_array().map(|x| [x]), "product with a one-column matrix");
    ensure_eq!(mm(row).dot(mb).into_array_of_arrays(), [yb.into_array()], "product with a one-row matrix");
    ensure_eq!(mm(row).dot(mm(col)).into_array_of_arrays()[0][0], Vector::from(y).dot(Vector::from(x)), "one row by one column");
    Ok(())
}
fn laws<T: Num, const K: usize, const L: usize, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let (a, b, d, d2) = (mm(mat::<T, K, L>(c)), mm(mat::<T, L, M>(c)), mm(mat::<T, M, N>(c)), mm(mat::<T, M, N>(c)));
    let x = Vector::from(vct::<T, M>(c));
    let (p, q): ([T; L], [T; M]) = (vct(c), vct(c));
    c.show(|| format!("{:?} {:?} {:?} {:?} {:?}", a, b, d, d2, x));
    c.nontrivial(dense(a.as_array_of_arrays()) && dense(b.as_array_of_arrays()) && dense(d.as_array_of_arrays()));
    ensure_eq!(a.dot(b).dot(d), a.dot(b.dot(d)), "associativity");
    ensure_eq!(a.dot(b).dot(x), a.dot(b.dot(x)), "associativity with a vector");
    ensure_eq!(b.dot(d + d2), b.dot(d) + b.dot(d2), "left distributivity");
    ensure_eq!((d + d2).transpose().dot(b.transpose()), d.transpose().dot(b.transpose()) + d2.transpose().dot(b.transpose()), "right distributivity");
    ensure_eq!(Matrix::<T, L, L>::one().dot(b), b, "identity on the left");
    ensure_eq!(b.dot(Matrix::<T, M, M>::one()), b, "identity on the right");
    ensure_eq!(Matrix::<T, M, M>::one().dot(x), x, "identity by a vector");
    ensure_eq!(x.dot(Matrix::<T, M, M>::one()), x, "vector by identity");
    let (dl, dr) = (Matrix::diagonal(Vector::from(p)), Matrix::diagonal(Vector::from(q)));
    let bb = *b.as_array_of_arrays();
    let rows: [[T; M]; L] = std::array::from_fn(|i| std::array::from_fn(|j| p[i] * bb[i][j]));
    let cols: [[T; M]; L] = std::array::from_fn(|i| std::array::from_fn(|j| bb[i][j] * q[j]));
    ensure_eq!(dl.dot(b), mm(rows), "diagonal matrix on the left scales rows");
    ensure_eq!(b.dot(dr), mm(cols), "diagonal matrix on the right scales columns");
    Ok(())
}
/// Diagonal matrices and identities of any size.
fn scaling<const N: usize>(c: &mut Cx) -> Res {
    let (a, b) = (mat::<F, N, 2>(c), mat::<F, 2, N>(c));
    let p = vct::<F, N>(c);
    c.show(|| format!("{:?} {:?} {:?}", p, a, b));
    c.nontrivial(dense(&a) && dense(&b));
    let d = Matrix::diagonal(Vector::from(p));
    ensure_eq!(d.dot(mm(a)).into_array_of_arrays(), std::array::from_fn::<_, N, _>(|i| a[i].map(|x| p[i] * x)), "diagonal matrix on the left scales rows");
    ensure_eq!(mm(b).dot(d).into_array_of_arrays(), b.map(|r| std::array::from_fn(|j| r[j] * p[j])), "diagonal matrix on the right scales columns");
    ensure_eq!(d.dot(Vector::from(p)).into_array(), p.map(|x| x * x), "diagonal matrix by a vector");
    let one = Matrix::<F, N, N>::one();
    ensure_eq!(one.dot(mm(a)), mm(a), "identity on the left");
    ensure_eq!(mm(b).dot(one), mm(b), "identity on the right");
    Ok(())
}
/// Full-range integers whose terms are representable.
fn wide_int<const L: usize, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let a: [[i64; M]; L] = std::array::from_fn(|_| std::array::from_fn(|_| i32::any(&mut c.s) as i64 / M as i64));
    let b: [[i64; N]; M] = std::array::from_fn(|_| std::array::from_fn(|_| i32::any(&mut c.s) as i64));
    c.show(|| format!("{:?} * {:?}", a, b));
    c.nontrivial(M > 1);
    let w: [[i64; N]; L] = std::array::from_fn(|i| std::array::from_fn(|j| (0..M).map(|k| a[i][k] * b[k][j]).sum()));
    ensure_eq!(Matrix::from_array_of_arrays(a).dot(Matrix::from_array_of_arrays(b)).into_array_of_arrays(), w, "integer product");
    Ok(())
}
fn floats<T: Fl, const L: usize, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let e = if T::EPS < 1e-10 { 100 } else { 8 };
    let (sa, sb) = (10f64.powi(c.s.zigzag(e) as i32), 10f64.powi(c.s.zigzag(e) as i32));
    let a: [[T; M]; L] = std::array::from_fn(|_| std::array::from_fn(|_| T::of(gen::moderate(&mut c.s) * sa)));
    let b: [[T; N]; M] = std::array::from_fn(|_| std::array::from_fn(|_| T::of(gen::moderate(&mut c.s) * sb)));
    c.show(|| format!("{:?} * {:?}", a, b));
    c.nontrivial(a.iter().flatten().all(|x| x.f() != 0.0) && b.iter().flatten().all(|x| x.f() != 0.0));
    let (ma, mb) = (Matrix::from_array_of_arrays(a), Matrix::from_array_of_arrays(b));
    let p = ma.dot(mb);
    let v = ma.dot(mb.col(0));
    let w = ma.row(0).dot(mb);
    for i in 0..L {
        for j in 0..N {
            let want: f64 = (0..M).map(|k| a[i][k].f() * b[k][j].f()).sum();
            let mag: f64 = (0..M).map(|k| (a[i][k].f() * b[k][j].f()).abs()).sum();
            let k = 3.0 * M as f64 + 4.0;
            ensure!(nearf(p[(i, j)], want, mag, k), "element ({}, {}): {:?}, expected about {:?}", i, j, p[(i, j)], want);
            if j == 0 {
                ensure!(nearf(v[i], want, mag, k), "matrix by vector, element {}: {:?}, expected about {:?}", i, v[i], want);
            }
            if i == 0 {
                ensure!(nearf(w[j], want, mag, k), "vector by matrix, element {}: {:?}, expected about {:?}", j, w[j], want);
            }
        }
    }
    Ok(())
}
/// Signed zeros, infinities and NaN reach the right elements.
fn special<const N: usize>(c: &mut Cx) -> Res {
    let v = |c: &mut Cx| -> [[f64; N]; N] { std::array::from_fn(|_| std::array::from_fn(|_| *c.s.pick(&[1.0, 2.0, -1.0, 0.0, 3.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]))) };
    let (a, b) = (v(c), v(c));
    c.show(|| format!("{:?} * {:?}", a, b));
    c.nontrivial(a.iter().chain(&b).flatten().any(|x| !x.is_finite()));
    let p = Matrix::from_array_of_arrays(a).dot(Matrix::from_array_of_arrays(b));
    for i in 0..N {
        for j in 0..N {
            let want: f64 = (0..N).map(|k| a[i][k] * b[k][j]).sum();
            ensure!(p[(i, j)] == want || (p[(i, j)].is_nan() && want.is_nan()), "element ({}, {}): {:?}, expected {:?}", i, j, p[(i, j)], want);
        }
    }
    Ok(())
}
/// The linear transformation type composes and applies by the same products.
fn linear<const N: usize>(c: &mut Cx) -> Res {
    use vecmat::transform::Transform;
    let (a, b, x) = (mat::<F, N, N>(c), mat::<F, N, N>(c), vct::<F, N>(c));
    c.show(|| format!("{:?} {:?} {:?}", a, b, &x[..]));
    c.nontrivial(dense(&a) && dense(&b));
    let l = Linear::from_matrix(mm(a)).chain(Linear::from_matrix(mm(b)));
    ensure_eq!(l.into_matrix().into_array_of_arrays(), mul(&a, &b), "matrix of the composed linear map");
    ensure_eq!(l.apply(Vector::from(x)).into_array(), mul(&a, &mul(&b, &x.map(|x| [x]))).map(|r| r[0]), "composed linear map of a vector");
    Ok(())
}

fn main() {
    let mut p = Prop::new("C17", "both factors have at least two non-zero elements (or their only one)");
    macro_rules! prod { ($(($l:literal $m:literal $n:literal))*) => {$(
        p.sub(concat!("field ", $l, "x", $m, "x", $n), 150, product::<F, $l, $m, $n>);
        p.sub(concat!("non-commutative ", $l, "x", $m, "x", $n), 60, product::<Nc, $l, $m, $n>);
        p.sub(concat!("f64 ", $l, "x", $m, "x", $n), 120, floats::<f64, $l, $m, $n>);
    )*}}
    prod!((1 1 1)(1 1 2)(1 2 1)(2 1 1)(1 1 3)(1 3 1)(3 1 1)(1 2 2)(2 1 2)(2 2 1)(1 2 3)(1 3 2)(2 1 3)(2 3 1)(3 1 2)(3 2 1)
        (2 2 2)(2 2 3)(2 3 2)(3 2 2)(2 3 3)(3 2 3)(3 3 2)(3 3 3)(2 3 4)(4 3 2)(3 4 2)(3 2 4)(4 2 3)(2 4 3)(3 3 4)(3 4 3)(4 3 3)
        (4 4 4)(4 4 1)(1 4 4)(4 1 4)(4 4 3)(4 4 2)(2 4 4)(5 5 5)(5 6 7)(7 5 6)(6 6 6)(1 8 1)(8 1 8)(8 8 8)(2 9 3)(2 7 2)(3 10 2)(1 11 2)(2 12 1)(2 13 2)(1 14 1)(2 15 2)(2 16 3)(1 17 1)(2 31 1)(1 32 2)(1 33 1)(7 7 7)(9 3 4)(3 4 9)(10 2 11));
    macro_rules! ints { ($(($l:literal $m:literal $n:literal))*) => {$(
        p.sub(concat!("wide i64 ", $l, "x", $m, "x", $n), 100, wide_int::<$l, $m, $n>);
        p.sub(concat!("small i32 ", $l, "x", $m, "x", $n), 100, product::<i32, $l, $m, $n>);
        p.sub(concat!("f32 ", $l, "x", $m, "x", $n), 150, floats::<f32, $l, $m, $n>);
        p.sub(concat!("small f64 ", $l, "x", $m, "x", $n), 100, product::<f64, $l, $m, $n>);
    )*}}
    ints!((1 1 1)(2 2 2)(3 3 3)(4 4 4)(2 3 4)(4 3 2)(1 4 1)(4 1 4)(5 5 5)(3 2 6)(2 7 2)(2 8 2)(1 9 1)(2 11 1)(1 13 2)(1 16 2));
    macro_rules! laws { ($(($k:literal $l:literal $m:literal $n:literal))*) => {$(
        p.sub(concat!("laws ", $k, "x", $l, "x", $m, "x", $n), 120, laws::<F, $k, $l, $m, $n>);
        p.sub(concat!("laws non-commutative ", $k, "x", $l, "x", $m, "x", $n), 40, laws_nc::<$k, $l, $m, $n>);
    )*}}
    laws!((1 1 1 1)(2 2 2 2)(3 3 3 3)(4 4 4 4)(1 2 3 4)(4 3 2 1)(2 4 1 3)(3 1 4 2)(5 5 5 5)(2 5 6 3));
    p.sub("special 1", 100, special::<1>);
    p.sub("special 2", 400, special::<2>);
    p.sub("special 3", 400, special::<3>);
    p.sub("special 4", 400, special::<4>);
    p.sub("linear 1", 100, linear::<1>);
    p.sub("linear 2", 300, linear::<2>);
    p.sub("linear 3", 300, linear::<3>);
    p.sub("linear 4", 300, linear::<4>);
    p.sub("linear 5", 100, linear::<5>);
    macro_rules! scaling {
        ($($n:literal)*) => {$(
            p.sub(concat!("scaling ", $n), 20, scaling::<$n>);
        )*};
    }
    scaling!(1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 24 32 33 64 65);
    p.sub("field 2x300x2", 3, product::<F, 2, 300, 2>);
    p.sub("field 2x65x2", 10, product::<F, 2, 65, 2>);
    p.sub("field 2x129x1", 10, product::<F, 2, 129, 1>);
    p.sub("field 300x2x2", 3, product::<F, 300, 2, 2>);
    p.sub("field 2x2x300", 3, product::<F, 2, 2, 300>);
    p.sub("field 16x17x18", 3, product::<F, 16, 17, 18>);
    p.sub("non-commutative 12x11x13", 3, product::<Nc, 12, 11, 13>);
    macro_rules! shapes { ([$(($m:literal, $n:literal)),*]) => {$(
        p.sub(concat!("every shape, times square ", $m, "x", $n), 6, product::<F, $m, $n, $n>);
        p.sub(concat!("every shape, square times ", $m, "x", $n), 6, product::<i32, $m, $m, $n>);
        p.sub(concat!("every shape, times column ", $m, "x", $n), 6, product::<Nc, $m, $n, 1>);
        p.sub(concat!("every shape, row times ", $m, "x", $n), 6, floats::<f64, 1, $m, $n>);
        p.sub(concat!("every shape, times transposed ", $m, "x", $n), 4, product::<F, $m, $n, $m>);
    )*}}
    shapes!([(1, 5), (5, 1), (1, 6), (6, 1), (2, 5), (5, 2), (2, 6), (6, 2), (3, 5), (5, 3), (3, 6), (6, 3), (3, 7), (7, 3), (3, 8), (8, 3), (4, 5), (5, 4), (4, 6), (6, 4), (4, 7), (7, 4), (4, 8), (8, 4), (5, 6), (6, 5), (5, 7), (7, 5), (5, 8), (8, 5), (6, 7), (7, 6), (6, 8), (8, 6), (7, 8), (8, 7), (6, 6), (7, 7), (8, 8), (9, 9), (1, 9), (9, 1), (9, 2), (2, 9), (9, 8), (8, 9), (10, 10), (12, 12), (16, 16), (17, 3), (3, 17), (1, 33), (33, 1), (20, 4), (4, 20)]);
    p.main();
}
/// The laws that need no commutativity.
fn laws_nc<const K: usize, const L: usize, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let (a, b, d) = (mm(mat::<Nc, K, L>(c)), mm(mat::<Nc, L, M>(c)), mm(mat::<Nc, M, N>(c)));
    let (x, y) = (Vector::from(vct::<Nc, M>(c)), Vector::from(vct::<Nc, K>(c)));
    c.show(|| format!("{:?} {:?} {:?} {:?}", a, b, d, x));
    c.nontrivial(dense(a.as_array_of_arrays()) && dense(b.as_array_of_arrays()));
    ensure_eq!(a.dot(b).dot(d), a.dot(b.dot(d)), "associativity");
    ensure_eq!(a.dot(b).dot(x), a.dot(b.dot(x)), "associativity with a vector");
    ensure_eq!(y.dot(a).dot(b), y.dot(a.dot(b)), "associativity with a row vector");
    Ok(())
}
