//! C16: dot, cross and outer products satisfy their definitions.
use num_traits::Num;
use std::ops::*;
use vecmat::{traits::*, Matrix, Vector};
use vh::{cont::*, elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl, tol::*};

fn two<T: Elem>(c: &mut Cx, n: usize, m: usize) -> (Vec<T>, Vec<T>) {
    let mut a: Vec<T> = (0..n).map(|_| T::any(&mut c.s)).collect();
    let b: Vec<T> = (0..m).map(|_| T::any(&mut c.s)).collect();
    if n == m && c.s.chance(1, 10) {
        a = b.clone();
    }
    c.show(|| format!("{:?} {:?}", a, b));
    c.nontrivial(a.windows(2).any(|w| !w[0].same(&w[1])) || n == 1);
    (a, b)
}
fn dot_exact<T, const N: usize>(c: &mut Cx) -> Res
where
    T: Elem + Add<Output = T> + Mul<Output = T> + num_traits::Zero,
{
    let (a, b) = two::<T>(c, N, N);
    let want = a.iter().zip(&b).rev().fold(T::zero(), |s, (x, y)| *x * *y + s);
    ensure_eq!(Dot::dot(Vector::<T, N>::make(&a), Vector::<T, N>::make(&b)), want, "dot");
    Ok(())
}
fn dot_int<T, const N: usize>(c: &mut Cx) -> Res
where
    T: Elem + Add<Output = T> + Mul<Output = T> + TryFrom<i128> + TryInto<i128>,
    <T as TryInto<i128>>::Error: std::fmt::Debug,
{
    let (mut a, b): (Vec<T>, Vec<T>) = (list(&mut c.s, N), list(&mut c.s, N));
    let (mut hi, mut lo) = (0i128, 0i128);
    for (x, y) in a.iter_mut().zip(&b) {
        let p: i128 = (*x).try_into().unwrap() * (*y).try_into().unwrap();
        let (h, l) = (hi + p.max(0), lo + p.min(0));
        if T::try_from(h).is_err() || T::try_from(l).is_err() || T::try_from(p).is_err() {
            *x = T::try_from(0).ok().unwrap();
        } else {
            hi = h;
            lo = l;
        }
    }
    c.show(|| format!("{:?} {:?}", a, b));
    c.nontrivial(hi != 0 || lo != 0);
    let g: i128 = Vector::<T, N>::make(&a).dot(Vector::make(&b)).try_into().unwrap();
    ensure_eq!(g, hi + lo, "dot");
    Ok(())
}
fn floats<T: Fl, const N: usize>(c: &mut Cx) -> [T; N] {
    let sc = if c.s.bool() { 1.0 } else { 10f64.powi(c.s.zigzag(8) as i32) };
    std::array::from_fn(|_| T::of(gen::moderate(&mut c.s) * sc))
}
fn dot_float<T: Fl, const N: usize>(c: &mut Cx) -> Res {
    let (a, b) = (floats::<T, N>(c), floats::<T, N>(c));
    c.show(|| format!("{:?} {:?}", &a[..], &b[..]));
    c.nontrivial(a.iter().zip(&b).filter(|(x, y)| x.f() * y.f() != 0.0).count() >= 2.min(N));
    let want: f64 = a.iter().zip(&b).map(|(x, y)| x.f() * y.f()).sum();
    let mag: f64 = a.iter().zip(&b).map(|(x, y)| (x.f() * y.f()).abs()).sum();
    let g = Vector::from(a).dot(Vector::from(b));
    ensure!(nearf(g, want, mag, 3.0 * N as f64 + 4.0), "dot: {:?}, expected about {:?}", g, want);
    Ok(())
}
fn cross_def<T: Copy + Mul<Output = T> + Sub<Output = T>>(a: &[T], b: &[T]) -> [T; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn cross_exact<T>(c: &mut Cx) -> Res
where
    T: Elem + Num + Neg<Output = T>,
{
    // entries small enough for exact products in every element type used
    let mut a: [T; 4] = gen::small_arr(&mut c.s);
    let mut b: [T; 4] = gen::small_arr(&mut c.s);
    if c.s.chance(1, 3) {
        // axes
        let f = |i: usize| std::array::from_fn::<T, 4, _>(|j| if i == j { T::one() } else { T::zero() });
        a = f(c.s.idx(4));
        if c.s.bool() {
            b = f(c.s.idx(4));
        }
    }
    c.show(|| format!("{:?} {:?}", a, b));
    c.nontrivial(cross_def(&a, &b).iter().any(|x| !x.is_zero()));
    let v2 = |x: &[T; 4]| Vector::<T, 2>::make(&x[..2]);
    let v3 = |x: &[T; 4]| Vector::<T, 3>::make(&x[..3]);
    let v4 = |x: &[T; 4]| Vector::<T, 4>::make(x);
    ensure_eq!(v2(&a).cross(v2(&b)), a[0] * b[1] - a[1] * b[0], "2-dimensional cross");
    ensure_eq!(v2(&b).cross(v2(&a)), -(a[0] * b[1] - a[1] * b[0]), "2-dimensional cross, swapped");
    let w = cross_def(&a, &b);
    let g = v3(&a).cross(v3(&b));
    ensure_eq!(g.into_array(), w, "3-dimensional cross");
    ensure_eq!((-v3(&b).cross(v3(&a))).into_array(), w, "3-dimensional cross is antisymmetric");
    ensure!(g.dot(v3(&a)).is_zero() && g.dot(v3(&b)).is_zero(), "cross is not orthogonal to its operands");
    let d = v3(&a).dot(v3(&b));
    ensure_eq!(g.dot(g), v3(&a).dot(v3(&a)) * v3(&b).dot(v3(&b)) - d * d, "Lagrange identity");
    ensure_eq!(v4(&a).cross(v4(&b)).into_array(), [w[0], w[1], w[2], T::zero()], "4-dimensional cross");
    Ok(())
}
fn cross_field(c: &mut Cx) -> Res {
    let (a, b) = two::<F>(c, 4, 4);
    let w = cross_def(&a, &b);
    ensure_eq!(Vector::<F, 2>::make(&a[..2]).cross(Vector::make(&b[..2])), w[2], "2-dimensional cross");
    ensure_eq!(Vector::<F, 3>::make(&a[..3]).cross(Vector::make(&b[..3])).into_array(), w, "3-dimensional cross");
    ensure_eq!(Vector::<F, 4>::make(&a).cross(Vector::make(&b)).into_array(), [w[0], w[1], w[2], F::of(0)], "4-dimensional cross");
    Ok(())
}
fn cross_float<T: Fl>(c: &mut Cx) -> Res {
    let (a, b) = (floats::<T, 4>(c), floats::<T, 4>(c));
    c.show(|| format!("{:?} {:?}", a, b));
    let (fa, fb) = (a.map(|x| x.f()), b.map(|x| x.f()));
    let w = cross_def(&fa, &fb);
    c.nontrivial(w.iter().any(|x| *x != 0.0));
    let m = |i: usize, j: usize| (fa[i] * fb[j]).abs() + (fa[j] * fb[i]).abs();
    let mag = [m(1, 2), m(2, 0), m(0, 1)];
    let g2 = Vector::<T, 2>::make(&a[..2]).cross(Vector::make(&b[..2]));
    ensure!(nearf(g2, w[2], mag[2], 8.0), "2-dimensional cross: {:?}, expected {:?}", g2, w[2]);
    let g3 = Vector::<T, 3>::make(&a[..3]).cross(Vector::make(&b[..3]));
    let g4 = Vector::<T, 4>::make(&a).cross(Vector::make(&b));
    for i in 0..3 {
        ensure!(nearf(g3[i], w[i], mag[i], 8.0), "3-dimensional cross, component {}: {:?}, expected {:?}", i, g3[i], w[i]);
        ensure!(nearf(g4[i], w[i], mag[i], 8.0), "4-dimensional cross, component {}: {:?}, expected {:?}", i, g4[i], w[i]);
    }
    ensure!(g4[3].f() == 0.0, "4-dimensional cross: the last component is {:?}", g4[3]);
    Ok(())
}
/// The fourth components never matter: whatever they are, nothing overflows and the result ends in zero.
fn cross_fourth<T>(c: &mut Cx) -> Res
where
    T: Elem + Num + Neg<Output = T>,
{
    let mut a: [T; 4] = gen::small_arr(&mut c.s);
    let mut b: [T; 4] = gen::small_arr(&mut c.s);
    let w = cross_def(&a, &b);
    (a[3], b[3]) = (T::any(&mut c.s), T::any(&mut c.s));
    if c.s.chance(1, 4) {
        a[3] = b[3];
    }
    c.show(|| format!("{:?} {:?}", a, b));
    c.nontrivial(!a[3].is_zero() && !b[3].is_zero());
    let want = [w[0], w[1], w[2], T::zero()];
    let g = guard(|| Vector::<T, 4>::make(&a).cross(Vector::make(&b)).into_array());
    ensure!(g.is_ok(), "4-dimensional cross panicked because of its fourth components: {:?}", g);
    let g = g.unwrap();
    ensure!(g == want, "4-dimensional cross: {:?}, expected {:?}", g, want);
    Ok(())
}
fn outer<T, const M: usize, const N: usize>(c: &mut Cx) -> Res
where
    T: Elem + Mul<Output = T>,
{
    let (a, b) = two::<T>(c, M, N);
    let want: Option<Vec<T>> = guard(|| a.iter().flat_map(|x| b.iter().map(move |y| *x * *y)).collect()).ok();
    let got = || -> Matrix<T, M, N> { Vector::<T, M>::make(&a).outer(Vector::<T, N>::make(&b)) };
    compare("outer", want, got)
}

fn main() {
    let mut p = Prop::new("C16", "the operand has two different components, or the product is not zero");
    macro_rules! d { ($($n:literal)*) => {$(
        p.sub(concat!("dot F[", $n, "]"), 500, dot_exact::<F, $n>);
        p.sub(concat!("dot Nc[", $n, "]"), 300, dot_exact::<Nc, $n>);
        p.sub(concat!("dot f64[", $n, "]"), 600, dot_float::<f64, $n>);
        p.sub(concat!("dot f32[", $n, "]"), 600, dot_float::<f32, $n>);
        p.sub(concat!("dot i32[", $n, "]"), 300, dot_int::<i32, $n>);
    )*}}
    d!(1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 31 32 33 64);
    p.sub("dot u8[3]", 300, dot_int::<u8, 3>);
    p.sub("dot i8[4]", 300, dot_int::<i8, 4>);
    p.sub("dot i64[3]", 300, dot_int::<i64, 3>);
    p.sub("cross i32", 2000, cross_exact::<i32>);
    p.sub("cross i8", 2000, |c| {
        // wrapping is excluded: components are at most 1 in magnitude
        let z: Vec<i8> = (0..6).map(|_| c.s.zigzag(1) as i8).collect();
        c.nontrivial(true);
        c.show(|| format!("{:?}", z));
        ensure_eq!(Vector::<i8, 3>::make(&z[..3]).cross(Vector::make(&z[3..])).into_array(), cross_def(&z[..3], &z[3..]), "cross");
        Ok(())
    });
    p.sub("cross f64 exact", 2000, cross_exact::<f64>);
    p.sub("cross F", 2000, cross_field);
    p.sub("cross laws F", 2000, cross_exact::<F>);
    p.sub("cross f64", 3000, cross_float::<f64>);
    p.sub("cross f32", 3000, cross_float::<f32>);
    p.sub("cross fourth i32", 1500, cross_fourth::<i32>);
    p.sub("cross fourth i8", 1500, cross_fourth::<i8>);
    p.sub("cross fourth i64", 1500, cross_fourth::<i64>);
    p.sub("cross fourth f64", 1500, cross_fourth::<f64>);
    p.sub("cross fourth f32", 1500, cross_fourth::<f32>);
    macro_rules! o { ($($m:literal $n:literal,)*) => {$(
        p.sub(concat!("outer Nc ", $m, "x", $n), 200, outer::<Nc, $m, $n>);
        p.sub(concat!("outer f64 ", $m, "x", $n), 300, outer::<f64, $m, $n>);
        p.sub(concat!("outer i32 ", $m, "x", $n), 300, outer::<i32, $m, $n>);
        p.sub(concat!("outer symbolic ", $m, "x", $n), 300, outer::<Sym, $m, $n>);
    )*}}
    o!(1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 3 4, 4 3, 4 4, 2 4, 1 5, 6 2, 0 2, 2 0, 5 5, 7 3, 4 9, 8 8, 16 2, 3 17,);
    p.sub("dot F[300]", 10, dot_exact::<F, 300>);
    p.sub("dot Nc[129]", 10, dot_exact::<Nc, 129>);
    p.sub("dot f64[257]", 10, dot_float::<f64, 257>);
    p.sub("outer symbolic 16x17", 10, outer::<Sym, 16, 17>);
    p.sub("outer symbolic 2x300", 5, outer::<Sym, 2, 300>);
    p.sub("outer symbolic 300x2", 5, outer::<Sym, 300, 2>);
    macro_rules! dims { ([$($n:literal),*]) => {$(
        p.sub(concat!("every dimension, dot Nc[", $n, "]"), 12, dot_exact::<Nc, $n>);
        p.sub(concat!("every dimension, dot f64[", $n, "]"), 12, dot_float::<f64, $n>);
        p.sub(concat!("every dimension, dot i32[", $n, "]"), 12, dot_int::<i32, $n>);
    )*}}
    vh::every_dim!(dims!());
    macro_rules! shapes { ([$(($m:literal, $n:literal)),*]) => {$(
        p.sub(concat!("every shape, outer ", $m, "x", $n), 12, outer::<Sym, $m, $n>);
    )*}}
    vh::every_shape!(shapes!());
    p.main();
}
