//! C35: approximate equality is component-wise absolute difference.
use approx::AbsDiffEq;
use std::fmt::Debug;
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    transform::{Chain, Linear, Rotation2, Rotation3, Scale, Shift},
    Matrix, Vector,
};
use vh::{elems::*, engine::*, ensure, gen};

/// Scalars with a tolerance.
trait Ap: Elem + AbsDiffEq<Epsilon = Self> {
    fn finite(c: &mut Cx) -> Self;
    fn tolerance(c: &mut Cx) -> Self;
    /// Something at about the tolerance from it, or far away, or not a number.
    fn moved(self, tol: Self, c: &mut Cx) -> Self;
    /// Something closer than the tolerance, if possible.
    fn nudged(self, tol: Self, c: &mut Cx) -> Self;
    fn is_finite(self) -> bool;
}
macro_rules! float {
    ($($t:ident)*) => {$(
        impl Ap for $t {
            fn finite(c: &mut Cx) -> $t {
                match c.s.below(6) {
                    0 => 0.0,
                    1 => c.s.zigzag(9) as $t,
                    2 => (gen::moderate(&mut c.s) * 10f64.powi(c.s.zigzag(30) as i32)) as $t,
                    _ => gen::moderate(&mut c.s) as $t,
                }
            }
            fn tolerance(c: &mut Cx) -> $t {
                match c.s.below(6) {
                    0 => 0.0,
                    1 => $t::EPSILON,
                    2 => $t::INFINITY,
                    3 => 1.0,
                    _ => 10f64.powi(-(c.s.below(14) as i32)) as $t,
                }
            }
            fn moved(self, tol: $t, c: &mut Cx) -> $t {
                let d = match c.s.below(8) {
                    0 => tol,
                    1 => tol * (1.0 + 2.0 * $t::EPSILON),
                    2 => tol * 1.5,
                    3 => tol * 2.0 + $t::EPSILON,
                    4 => return $t::NAN,
                    5 => return $t::INFINITY,
                    6 => 1e6,
                    _ => return -self,
                };
                if c.s.bool() { self + d } else { self - d }
            }
            fn nudged(self, tol: $t, c: &mut Cx) -> $t {
                if !tol.is_finite() {
                    return Self::finite(c);
                }
                self + tol * (gen::unit_f64(&mut c.s) * 0.9) as $t
            }
            fn is_finite(self) -> bool {
                $t::is_finite(self)
            }
        }
    )*};
}
float!(f64 f32);
macro_rules! int {
    ($($t:ident $lo:literal;)*) => {$(
        impl Ap for $t {
            fn finite(c: &mut Cx) -> $t {
                c.s.range($lo, 60) as $t
            }
            fn tolerance(c: &mut Cx) -> $t {
                if c.s.bool() { 0 } else { c.s.below(40) as $t }
            }
            fn moved(self, tol: $t, c: &mut Cx) -> $t {
                let d = tol as i64 + c.s.below(3) as i64;
                (if c.s.bool() { self as i64 + d } else { self as i64 - d }).clamp($lo, 60) as $t
            }
            fn nudged(self, tol: $t, c: &mut Cx) -> $t {
                let d = c.s.zigzag(tol as u64);
                (self as i64 + d).clamp($lo, 60) as $t
            }
            fn is_finite(self) -> bool {
                true
            }
        }
    )*};
}
int!(i32 -60; i8 -60; u8 0; u64 0;);

fn pair<T: Ap, X: AbsDiffEq<Epsilon = T> + Debug>(c: &mut Cx, n: usize, make: impl Fn(&[T]) -> X) -> Res {
    let tol = T::tolerance(c);
    let a: Vec<T> = (0..n).map(|_| T::finite(c)).collect();
    let mut b = a.clone();
    let nudge = c.s.bool();
    if nudge {
        for x in b.iter_mut() {
            *x = x.nudged(tol, c);
        }
    }
    let moves = if n == 0 { 0 } else { *c.s.pick(&[1, 1, 1, 0, 2]) };
    for _ in 0..moves {
        let i = c.s.idx(n);
        b[i] = b[i].moved(tol, c);
    }
    c.show(|| format!("{:?} and {:?} within {:?}", a, b, tol));
    let far = a.iter().zip(&b).filter(|(x, y)| !x.abs_diff_eq(y, tol)).count();
    let want = far == 0;
    c.nontrivial(far == 1 || (want && a.iter().zip(&b).any(|(x, y)| x != y)));
    c.label_if(far == 1 && n > 1, "one component out of tolerance");
    c.label_if(want, "equal");
    let (x, y) = (make(&a), make(&b));
    ensure!(x.abs_diff_eq(&y, tol) == want, "abs_diff_eq is {}, expected {}", !want, want);
    ensure!(y.abs_diff_eq(&x, tol) == want, "abs_diff_eq swapped is {}, expected {}", !want, want);
    ensure!(x.abs_diff_ne(&y, tol) == !want, "abs_diff_ne is {}, expected {}", want, !want);
    ensure!(X::default_epsilon() == T::default_epsilon(), "default tolerance {:?}", X::default_epsilon());
    ensure!(x.abs_diff_eq(&x, tol), "not equal to itself: {:?}", x);
    if b.iter().all(|t| t.is_finite()) {
        ensure!(y.abs_diff_eq(&y, tol), "not equal to itself: {:?}", y);
    }
    let d = T::default_epsilon();
    let want = a.iter().zip(&b).all(|(x, y)| x.abs_diff_eq(y, d));
    ensure!(approx::abs_diff_eq!(x, y) == want, "abs_diff_eq with the default tolerance is {}, expected {}", !want, want);
    Ok(())
}
fn vector<T: Ap, const N: usize>(c: &mut Cx) -> Res {
    pair::<T, Vector<T, N>>(c, N, |a| Vector::from_array(std::array::from_fn(|i| a[i])))
}
fn mat<T: Ap, const M: usize, const N: usize>(a: &[T]) -> Matrix<T, M, N> {
    Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| a[i * N + j])))
}
fn matrix<T: Ap, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    pair::<T, Matrix<T, M, N>>(c, M * N, mat)
}
fn shift<T: Ap, const N: usize>(c: &mut Cx) -> Res {
    pair::<T, Shift<T, N>>(c, N, |a| Shift::from_vector(Vector::from_array(std::array::from_fn(|i| a[i]))))
}
fn linear<T: Ap, const N: usize>(c: &mut Cx) -> Res {
    pair::<T, Linear<T, N>>(c, N * N, |a| Linear::from_matrix(mat(a)))
}
fn others<T: Ap>(c: &mut Cx) -> Res {
    let q = |a: &[T]| Quaternion::new(a[0], a[1], a[2], a[3]);
    match c.s.below(6) {
        0 => pair::<T, Complex<T>>(c, 2, |a| Complex::new(a[0], a[1])),
        1 => pair::<T, Quaternion<T>>(c, 4, q),
        2 => pair::<T, Moebius<T>>(c, 4, |a| Moebius::new(a[0], a[1], a[2], a[3])),
        3 => pair::<T, Scale<T>>(c, 1, |a| Scale::from_mag(a[0])),
        4 => pair::<T, Rotation2<T>>(c, 2, |a| Rotation2::from_complex(Complex::new(a[0], a[1]))),
        _ => pair::<T, Rotation3<T>>(c, 4, |a| Rotation3::from_quaternion(q(a))),
    }
}
/// Two transformations together.
fn chains<T: Ap>(c: &mut Cx) -> Res {
    let v = |a: &[T]| Shift::from_vector(Vector::from_array([a[0], a[1], a[2]]));
    let s = |a: &[T]| Scale::from_mag(a[0]);
    let l = |a: &[T]| Linear::<T, 2>::from_matrix(mat(a));
    match c.s.below(4) {
        0 => pair::<T, Chain<Shift<T, 3>, Scale<T>, T>>(c, 4, |a| Chain::new(v(a), s(&a[3..]))),
        1 => pair::<T, Chain<Linear<T, 2>, Shift<T, 3>, T>>(c, 7, |a| Chain::new(l(a), v(&a[4..]))),
        2 => pair::<T, Chain<Scale<T>, Scale<T>, T>>(c, 2, |a| (s(a), s(&a[1..])).into()),
        _ => pair::<T, Chain<Chain<Scale<T>, Linear<T, 2>, T>, Scale<T>, T>>(c, 6, |a| Chain::new(Chain::new(s(a), l(&a[1..])), s(&a[5..]))),
    }
}
macro_rules! all {
    ($p:ident; $($t:ident $k:literal;)*) => {$(
        let n = |s: &str| format!("{} {}", s, stringify!($t));
        $p.sub(n("vector 0"), 10, vector::<$t, 0>);
        $p.sub(n("vector 1"), $k, vector::<$t, 1>);
        $p.sub(n("vector 2"), $k, vector::<$t, 2>);
        $p.sub(n("vector 3"), $k, vector::<$t, 3>);
        $p.sub(n("vector 7"), $k, vector::<$t, 7>);
        $p.sub(n("vector 32"), $k, vector::<$t, 32>);
        $p.sub(n("matrix 0x2"), 10, matrix::<$t, 0, 2>);
        $p.sub(n("matrix 2x2"), $k, matrix::<$t, 2, 2>);
        $p.sub(n("matrix 2x3"), $k, matrix::<$t, 2, 3>);
        $p.sub(n("matrix 4x1"), $k, matrix::<$t, 4, 1>);
        $p.sub(n("matrix 5x5"), $k, matrix::<$t, 5, 5>);
        $p.sub(n("shift 3"), $k, shift::<$t, 3>);
        $p.sub(n("linear 3"), $k, linear::<$t, 3>);
        $p.sub(n("linear 2"), $k, linear::<$t, 2>);
        $p.sub(n("complex, quaternion, moebius, scale, rotations"), $k * 8, others::<$t>);
        $p.sub(n("chained pairs"), $k * 4, chains::<$t>);
    )*};
}
fn main() {
    let mut p = Prop::new("C35", "exactly one component is out of tolerance, or all are within it and some differ");
    all!(p; f64 600; f32 400; i32 200; u8 200; i8 100; u64 100;);
    p.sub("vector 300 f64", 100, vector::<f64, 300>);
    p.sub("matrix 16x17 f64", 100, matrix::<f64, 16, 17>);
    p.sub("matrix 300x1 f64", 50, matrix::<f64, 300, 1>);
    macro_rules! dims { ([$($n:literal),*]) => {$(
        p.sub(concat!("every dimension, vector ", $n), 60, vector::<f64, $n>);
        p.sub(concat!("every dimension, vector ", $n, " i32"), 30, vector::<i32, $n>);
    )*}}
    vh::every_dim!(dims!());
    macro_rules! shapes { ([$(($m:literal, $n:literal)),*]) => {$(
        p.sub(concat!("every shape, matrix ", $m, "x", $n), 40, matrix::<f32, $m, $n>);
    )*}}
    vh::every_shape!(shapes!());
    p.sub("shift 1", 300, shift::<f64, 1>);
    p.sub("shift 5", 300, shift::<f64, 5>);
    p.sub("shift 9", 300, shift::<f32, 9>);
    p.sub("shift 17", 300, shift::<f64, 17>);
    p.sub("linear 1", 300, linear::<f64, 1>);
    p.sub("linear 4", 300, linear::<f64, 4>);
    p.sub("linear 5", 300, linear::<f32, 5>);
    p.sub("linear 8", 300, linear::<f64, 8>);
    p.main();
}
