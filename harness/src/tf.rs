//! Generators and reference models of the transformations.
use crate::alg::{self, Fd};
use crate::det::{gauss, leibniz, minor, rows};
use crate::elems::*;
use crate::engine::*;
use crate::gen::{self, Fl};
use num_traits::{Inv, Num, NumCast};
use std::fmt::Debug;
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    transform::{Chain, Linear, Reorder, Rotation2, Rotation3, Scale, Shift},
    Matrix, Transform, Vector,
};

/// Scalars transformations are built of.
pub trait Sc: Fd + Num + Inv<Output = Self> + NumCast {
    const EXACT: bool;
    fn coef(c: &mut Cx) -> Self;
    fn nonzero(c: &mut Cx) -> Self;
    fn unit<const N: usize>(c: &mut Cx) -> [Self; N];
    fn invertible<const N: usize>(c: &mut Cx) -> [[Self; N]; N];
    /// May divide by a number of this squared norm.
    fn divisible(nsq: Self) -> bool;
    fn close(a: &[Self], b: &[Self], mag: f64) -> bool;
    fn size(self) -> f64;
}
impl Sc for F {
    const EXACT: bool = true;
    fn coef(c: &mut Cx) -> F {
        F::any(&mut c.s)
    }
    fn nonzero(c: &mut Cx) -> F {
        let x = F::any(&mut c.s);
        if x.raw() == 0 {
            F::of(if c.s.bool() { -1 } else { 1 })
        } else {
            x
        }
    }
    /// `z^2 / |z|^2` has squared norm one.
    fn unit<const N: usize>(c: &mut Cx) -> [F; N] {
        let mut v: [F; N] = gen::arr(&mut c.s);
        let n = alg::nsq(v);
        if n.raw() == 0 {
            v = std::array::from_fn(|_| F::of(0));
            let i = c.s.idx(N);
            v[i] = F::of(if c.s.bool() { -1 } else { 1 });
            return v;
        }
        // square of a + u is a^2 - |u|^2 + 2 a u for complex numbers and quaternions alike
        let a = v[0];
        let u = n - a * a;
        let mut r = v.map(|x| (a + a) * x / n);
        r[0] = (a * a - u) / n;
        r
    }
    fn invertible<const N: usize>(c: &mut Cx) -> [[F; N]; N] {
        let a = gen::structured::<F, N, N>(&mut c.s);
        if gauss(&rows(&a)).raw() != 0 {
            return a;
        }
        // triangular with a diagonal that is not zero
        let lower = c.s.bool();
        let mut b = a;
        for i in 0..N {
            for j in 0..N {
                if (lower && j > i) || (!lower && j < i) {
                    b[i][j] = F::of(0);
                }
            }
            if b[i][i].raw() == 0 {
                b[i][i] = Self::nonzero(c);
            }
        }
        b
    }
    fn divisible(nsq: F) -> bool {
        nsq.raw() != 0
    }
    fn close(a: &[F], b: &[F], _: f64) -> bool {
        a == b
    }
    fn size(self) -> f64 {
        0.0
    }
}
macro_rules! float {
    ($($t:ident $tol:literal;)*) => {$(
        impl Sc for $t {
            const EXACT: bool = false;
            fn coef(c: &mut Cx) -> $t {
                match c.s.below(4) {
                    0 => c.s.zigzag(3) as $t,
                    _ => gen::unit_f64(&mut c.s) as $t * 2.0,
                }
            }
            fn nonzero(c: &mut Cx) -> $t {
                let x = gen::unit_f64(&mut c.s) as $t;
                (if x < 0.0 { x - 0.5 } else { x + 0.5 }) * if c.s.chance(1, 4) { 3.0 } else { 1.0 }
            }
            fn unit<const N: usize>(c: &mut Cx) -> [$t; N] {
                gen::unit_vec::<N>(&mut c.s).map(|x| x as $t)
            }
            /// Close to a signed permutation matrix, times a factor, or of small integers in some structure.
            fn invertible<const N: usize>(c: &mut Cx) -> [[$t; N]; N] {
                if c.s.chance(1, 3) {
                    let a = gen::structured::<f64, N, N>(&mut c.s);
                    let r = rows(&a);
                    let d = leibniz(&r).abs();
                    let cofactor = |i: usize, j: usize| leibniz(&minor(&r, i, j)).abs();
                    if d > 0.5 && (0..N * N).all(|k| cofactor(k / N, k % N) <= 3.0 * d) {
                        return a.map(|r| r.map(|x| x as $t));
                    }
                }
                let k = Self::nonzero(c);
                let mut p: Vec<usize> = (0..N).collect();
                for i in 0..N {
                    let j = i + c.s.idx(N - i);
                    p.swap(i, j);
                }
                let sg: Vec<$t> = (0..N).map(|_| if c.s.bool() { -1.0 } else { 1.0 }).collect();
                std::array::from_fn(|i| std::array::from_fn(|j| {
                    let e = gen::unit_f64(&mut c.s) as $t * 0.5 / N as $t;
                    (if p[i] == j { sg[i] } else { 0.0 } + e) * k
                }))
            }
            fn divisible(nsq: $t) -> bool {
                nsq > 0.05 && nsq.is_finite()
            }
            fn close(a: &[$t], b: &[$t], mag: f64) -> bool {
                let m = b.iter().fold(1.0, |m: f64, x| m.max(x.f().abs())).max(mag);
                a.iter().zip(b).all(|(x, y)| (x.f() - y.f()).abs() <= $tol * m)
            }
            fn size(self) -> f64 {
                self.f().abs()
            }
        }
    )*};
}
float!(f64 1e-9; f32 1e-3;);

/// Points.
pub trait Pt: Copy + Debug + Send + Sync + 'static {
    type S: Sc;
    fn make(a: &[Self::S]) -> Self;
    fn list(&self) -> Vec<Self::S>;
    const DIM: usize;
    fn gen(c: &mut Cx) -> Self {
        let v: Vec<Self::S> = (0..Self::DIM).map(|_| Self::S::coef(c)).collect();
        Self::make(&v)
    }
    fn size(&self) -> f64 {
        self.list().iter().fold(0.0, |m: f64, x| m.max(x.size()))
    }
    fn plus(&self, o: &Self) -> Self {
        let v: Vec<_> = self.list().iter().zip(o.list()).map(|(x, y)| *x + y).collect();
        Self::make(&v)
    }
    fn minus(&self, o: &Self) -> Self {
        let v: Vec<_> = self.list().iter().zip(o.list()).map(|(x, y)| *x - y).collect();
        Self::make(&v)
    }
    fn times(&self, k: Self::S) -> Self {
        let v: Vec<_> = self.list().iter().map(|x| *x * k).collect();
        Self::make(&v)
    }
}
impl<T: Sc, const N: usize> Pt for Vector<T, N> {
    type S = T;
    const DIM: usize = N;
    fn make(a: &[T]) -> Self {
        Vector::from_array(std::array::from_fn(|i| a[i]))
    }
    fn list(&self) -> Vec<T> {
        self.as_array().to_vec()
    }
}
impl<T: Sc> Pt for Complex<T> {
    type S = T;
    const DIM: usize = 2;
    fn make(a: &[T]) -> Self {
        Complex::new(a[0], a[1])
    }
    fn list(&self) -> Vec<T> {
        self.into_array().to_vec()
    }
}
impl<T: Sc> Pt for Quaternion<T> {
    type S = T;
    const DIM: usize = 4;
    fn make(a: &[T]) -> Self {
        Quaternion::new(a[0], a[1], a[2], a[3])
    }
    fn list(&self) -> Vec<T> {
        self.into_array().to_vec()
    }
}

/// A transformation with a generator (of invertible ones) and a reference model.
pub trait Tf<V: Pt>: Transform<V> + Copy + Debug + Send + Sync + 'static {
    fn gen(c: &mut Cx) -> Self;
    /// The image by definition, unless the point is (close to) a pole.
    fn model(&self, x: V) -> Option<V>;
    /// The point with this image, unless there is none (or it is close to that).
    fn back(&self, y: V) -> Option<V>;
    /// The derivative by definition.
    fn slope(&self, x: V, v: V) -> Option<V>;
}
impl<T: Sc, const N: usize> Tf<Vector<T, N>> for Shift<T, N> {
    fn gen(c: &mut Cx) -> Self {
        Shift::from_vector(Pt::gen(c))
    }
    fn model(&self, x: Vector<T, N>) -> Option<Vector<T, N>> {
        Some(x.plus(&self.into_vector()))
    }
    fn back(&self, y: Vector<T, N>) -> Option<Vector<T, N>> {
        Some(y.minus(&self.into_vector()))
    }
    fn slope(&self, _: Vector<T, N>, v: Vector<T, N>) -> Option<Vector<T, N>> {
        Some(v)
    }
}
impl<T: Sc, const N: usize> Tf<Vector<T, N>> for Scale<T> {
    fn gen(c: &mut Cx) -> Self {
        Scale::from_mag(T::nonzero(c))
    }
    fn model(&self, x: Vector<T, N>) -> Option<Vector<T, N>> {
        Some(x.times(self.into_mag()))
    }
    fn back(&self, y: Vector<T, N>) -> Option<Vector<T, N>> {
        Some(y.times(T::one() / self.into_mag()))
    }
    fn slope(&self, _: Vector<T, N>, v: Vector<T, N>) -> Option<Vector<T, N>> {
        Some(v.times(self.into_mag()))
    }
}
impl<T: Sc, const N: usize> Tf<Vector<T, N>> for Linear<T, N> {
    fn gen(c: &mut Cx) -> Self {
        Linear::from_matrix(Matrix::from_array_of_arrays(T::invertible(c)))
    }
    fn model(&self, x: Vector<T, N>) -> Option<Vector<T, N>> {
        let m = self.into_matrix().into_array_of_arrays();
        let x = x.list();
        let v: Vec<T> = (0..N).map(|i| (0..N).fold(T::zero(), |s, j| s + m[i][j] * x[j])).collect();
        Some(Pt::make(&v))
    }
    /// Cramer's rule.
    fn back(&self, y: Vector<T, N>) -> Option<Vector<T, N>> {
        let m = self.into_matrix().into_array_of_arrays();
        let d = leibniz(&rows(&m));
        let v: Vec<T> = (0..N)
            .map(|j| {
                let mut a = rows(&m);
                for i in 0..N {
                    a[i][j] = y[i];
                }
                leibniz(&a) / d
            })
            .collect();
        Some(Pt::make(&v))
    }
    fn slope(&self, _: Vector<T, N>, v: Vector<T, N>) -> Option<Vector<T, N>> {
        self.model(v)
    }
}
impl<T: Sc> Tf<Vector<T, 2>> for Rotation2<T> {
    fn gen(c: &mut Cx) -> Self {
        Rotation2::from_complex(Complex::from_array(T::unit(c)))
    }
    fn model(&self, x: Vector<T, 2>) -> Option<Vector<T, 2>> {
        Some(Vector::from(alg::cmul(self.into_complex().into_array(), x.into_array())))
    }
    fn back(&self, y: Vector<T, 2>) -> Option<Vector<T, 2>> {
        Some(Vector::from(alg::cmul(alg::inv(self.into_complex().into_array()), y.into_array())))
    }
    fn slope(&self, _: Vector<T, 2>, v: Vector<T, 2>) -> Option<Vector<T, 2>> {
        self.model(v)
    }
}
impl<T: Sc> Tf<Vector<T, 3>> for Rotation3<T> {
    fn gen(c: &mut Cx) -> Self {
        Rotation3::from_quaternion(Quaternion::from_array(T::unit(c)))
    }
    fn model(&self, x: Vector<T, 3>) -> Option<Vector<T, 3>> {
        let q = self.into_quaternion().into_array();
        let r = alg::qmul(alg::qmul(q, [T::zero(), x[0], x[1], x[2]]), alg::conj(q));
        Some(Vector::from([r[1], r[2], r[3]]))
    }
    fn back(&self, y: Vector<T, 3>) -> Option<Vector<T, 3>> {
        let q = self.into_quaternion().into_array();
        let r = alg::qmul(alg::qmul(alg::inv(q), [T::zero(), y[0], y[1], y[2]]), alg::inv(alg::conj(q)));
        Some(Vector::from([r[1], r[2], r[3]]))
    }
    fn slope(&self, _: Vector<T, 3>, v: Vector<T, 3>) -> Option<Vector<T, 3>> {
        self.model(v)
    }
}
impl<A, B, V: Pt> Tf<V> for Chain<A, B, V>
where
    A: Tf<V> + Reorder<B, V>,
    B: Tf<V> + Reorder<A, V>,
{
    fn gen(c: &mut Cx) -> Self {
        Chain::new(A::gen(c), B::gen(c))
    }
    fn model(&self, x: V) -> Option<V> {
        self.outer().model(self.inner().model(x)?)
    }
    fn back(&self, y: V) -> Option<V> {
        self.inner().back(self.outer().back(y)?)
    }
    fn slope(&self, x: V, v: V) -> Option<V> {
        self.outer().slope(self.inner().model(x)?, self.inner().slope(x, v)?)
    }
}
/// Coefficients of a Moebius map as embedded arrays.
pub fn coefs<T: Sc>(m: &Moebius<Complex<T>>) -> [[T; 4]; 4] {
    let (a, b, c, d) = m.into_tuple();
    [a, b, c, d].map(|z| alg::embed(z.into_array()))
}
/// `a x + b` and `c x + d`.
pub fn parts<T: Sc>(k: &[[T; 4]; 4], x: [T; 4]) -> ([T; 4], [T; 4]) {
    (alg::add(alg::qmul(k[0], x), k[1]), alg::add(alg::qmul(k[2], x), k[3]))
}
pub fn moebius_gen<T: Sc>(c: &mut Cx) -> Moebius<Complex<T>> {
    let z = |c: &mut Cx| Complex::new(T::coef(c), T::coef(c));
    let (o, n) = (Complex::new(T::one(), T::zero()), Complex::new(T::zero(), T::zero()));
    for _ in 0..20 {
        let m = match c.s.below(6) {
            0 => Moebius::new(o, z(c), n, o),
            1 => Moebius::new(z(c), n, n, o),
            2 => Moebius::new(n, z(c), z(c), n),
            _ => Moebius::new(z(c), z(c), z(c), z(c)),
        };
        let (p, q, r, s) = m.into_tuple();
        let det = alg::sub(alg::cmul(p.into_array(), s.into_array()), alg::cmul(q.into_array(), r.into_array()));
        if T::divisible(alg::nsq(det)) {
            return m;
        }
    }
    Moebius::new(o, n, n, o)
}
pub fn moebius_model<T: Sc>(k: &[[T; 4]; 4], x: [T; 4]) -> Option<[T; 4]> {
    let (u, d) = parts(k, x);
    if !T::divisible(alg::nsq(d)) {
        return None;
    }
    Some(alg::qmul(u, alg::inv(d)))
}
/// `y (c p + d) = a p + b` solved for `p`.
pub fn moebius_back<T: Sc>(k: &[[T; 4]; 4], y: [T; 4]) -> Option<[T; 4]> {
    let l = alg::sub(alg::qmul(y, k[2]), k[0]);
    if !T::divisible(alg::nsq(l)) {
        return None;
    }
    Some(alg::qmul(alg::inv(l), alg::sub(k[1], alg::qmul(y, k[3]))))
}
/// `a v (cp+d)^-1 - (ap+b) (cp+d)^-1 c v (cp+d)^-1`
pub fn moebius_slope<T: Sc>(k: &[[T; 4]; 4], x: [T; 4], v: [T; 4]) -> Option<[T; 4]> {
    let (u, d) = parts(k, x);
    if !T::divisible(alg::nsq(d)) {
        return None;
    }
    let i = alg::inv(d);
    let g = alg::qmul(alg::qmul(k[0], v), i);
    let h = alg::qmul(alg::qmul(alg::qmul(alg::qmul(u, i), k[2]), v), i);
    Some(alg::sub(g, h))
}
impl<T: Sc> Tf<Quaternion<T>> for Moebius<Complex<T>> {
    fn gen(c: &mut Cx) -> Self {
        moebius_gen(c)
    }
    fn model(&self, x: Quaternion<T>) -> Option<Quaternion<T>> {
        moebius_model(&coefs(self), x.into_array()).map(Quaternion::from_array)
    }
    fn back(&self, y: Quaternion<T>) -> Option<Quaternion<T>> {
        moebius_back(&coefs(self), y.into_array()).map(Quaternion::from_array)
    }
    fn slope(&self, x: Quaternion<T>, v: Quaternion<T>) -> Option<Quaternion<T>> {
        moebius_slope(&coefs(self), x.into_array(), v.into_array()).map(Quaternion::from_array)
    }
}
impl<T: Sc> Tf<Complex<T>> for Moebius<Complex<T>> {
    fn gen(c: &mut Cx) -> Self {
        moebius_gen(c)
    }
    fn model(&self, x: Complex<T>) -> Option<Complex<T>> {
        moebius_model(&coefs(self), alg::embed(x.into_array())).map(|r| Complex::new(r[0], r[1]))
    }
    fn back(&self, y: Complex<T>) -> Option<Complex<T>> {
        moebius_back(&coefs(self), alg::embed(y.into_array())).map(|r| Complex::new(r[0], r[1]))
    }
    fn slope(&self, x: Complex<T>, v: Complex<T>) -> Option<Complex<T>> {
        moebius_slope(&coefs(self), alg::embed(x.into_array()), alg::embed(v.into_array())).map(|r| Complex::new(r[0], r[1]))
    }
}
pub fn same<V: Pt>(what: &str, got: V, want: V, mag: f64) -> Res {
    if V::S::close(&got.list(), &want.list(), mag) {
        Ok(())
    } else {
        Err(Fail::new(format!("{}: got {:?}, expected {:?}", what, got, want)))
    }
}
