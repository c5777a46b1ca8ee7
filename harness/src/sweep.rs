//! Calls over the whole public surface on generated inputs, results recorded (used by C36 and C06).
use num_traits::{Float, Inv, One, Zero};
#[cfg(feature = "extras")]
use rand::{distributions::Distribution, Error, Rng, RngCore};
use std::fmt::Debug;
use std::ops::*;
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    matrix::FlatIter,
    traits::{Conj, Dot, NormL1, NormL2, NormLInf, Normalize, Outer},
    transform::{Affine, Chain, Directional, Linear, Reorder, Rotation2, Rotation3, Scale, Shift},
    vector::GroupIter,
    Matrix, Transform, Vector,
};
#[cfg(feature = "extras")]
use vecmat::{
    distr::{Invertible, NonZero, Normal, Uniform, Unit},
    matrix::MatrixDistribution,
    vector::VectorDistribution,
};
use vh::{elems::*, engine::*, gen, gen::Fl, tf::*};

/// A result as numbers.
trait Bits {
    /// Exactly, any NaN being any NaN.
    fn bits(&self, v: &mut Vec<u64>);
    /// As values.
    fn vals(&self, v: &mut Vec<f64>);
}
macro_rules! float_bits {
    ($($t:ident)*) => {$(
        impl Bits for $t {
            fn bits(&self, v: &mut Vec<u64>) {
                v.push(if self.is_nan() { !0 } else { self.to_bits() as u64 });
            }
            fn vals(&self, v: &mut Vec<f64>) {
                v.push(*self as f64);
            }
        }
    )*};
}
float_bits!(f32 f64);
macro_rules! int_bits {
    ($($t:ident)*) => {$(
        impl Bits for $t {
            fn bits(&self, v: &mut Vec<u64>) {
                v.push(*self as u64);
            }
            fn vals(&self, v: &mut Vec<f64>) {
                v.push(*self as f64);
            }
        }
    )*};
}
int_bits!(u8 u16 u32 u64 usize i8 i16 i32 i64);
impl Bits for bool {
    fn bits(&self, v: &mut Vec<u64>) {
        v.push(*self as u64);
    }
    fn vals(&self, v: &mut Vec<f64>) {
        v.push(*self as u8 as f64);
    }
}
impl Bits for F {
    fn bits(&self, v: &mut Vec<u64>) {
        v.push(self.raw() as u64);
    }
    fn vals(&self, v: &mut Vec<f64>) {
        v.push(self.raw() as f64);
    }
}
impl Bits for String {
    fn bits(&self, v: &mut Vec<u64>) {
        v.push(self.len() as u64);
        v.extend(self.bytes().map(|b| b as u64));
    }
    fn vals(&self, _: &mut Vec<f64>) {}
}
impl Bits for () {
    fn bits(&self, _: &mut Vec<u64>) {}
    fn vals(&self, _: &mut Vec<f64>) {}
}
macro_rules! each {
    ($self:ident, $it:expr) => {
        fn bits(&$self, v: &mut Vec<u64>) {
            for x in $it {
                x.bits(v);
            }
        }
        fn vals(&$self, v: &mut Vec<f64>) {
            for x in $it {
                x.vals(v);
            }
        }
    };
}
impl<T: Bits, const N: usize> Bits for [T; N] {
    each!(self, self.iter());
}
impl<T: Bits> Bits for Vec<T> {
    fn bits(&self, v: &mut Vec<u64>) {
        v.push(self.len() as u64);
        for x in self {
            x.bits(v);
        }
    }
    fn vals(&self, v: &mut Vec<f64>) {
        for x in self {
            x.vals(v);
        }
    }
}
impl<T: Bits> Bits for Option<T> {
    fn bits(&self, v: &mut Vec<u64>) {
        v.push(self.is_some() as u64);
        for x in self {
            x.bits(v);
        }
    }
    fn vals(&self, v: &mut Vec<f64>) {
        for x in self {
            x.vals(v);
        }
    }
}
impl<T: Bits> Bits for &T {
    each!(self, [*self]);
}
impl<T: Bits, const N: usize> Bits for Vector<T, N> {
    each!(self, self.as_array());
}
impl<T: Bits, const M: usize, const N: usize> Bits for Matrix<T, M, N> {
    each!(self, self.as_array_of_vectors());
}
impl<T: Bits + Copy> Bits for Complex<T> {
    each!(self, self.into_array().iter());
}
impl<T: Bits + Copy> Bits for Quaternion<T> {
    each!(self, self.into_array().iter());
}
impl<T: Bits> Bits for Moebius<T> {
    each!(self, [self.as_matrix()]);
}
impl<T: Bits + Copy, const N: usize> Bits for Shift<T, N> {
    each!(self, [self.into_vector()]);
}
impl<T: Bits + Copy> Bits for Scale<T> {
    each!(self, [self.into_mag()]);
}
impl<T: Bits + Copy, const N: usize> Bits for Linear<T, N> {
    each!(self, [self.into_matrix()]);
}
impl<T: Bits + Copy> Bits for Rotation2<T> {
    each!(self, [self.into_complex()]);
}
impl<T: Bits + Copy> Bits for Rotation3<T> {
    each!(self, [self.into_quaternion()]);
}
impl<A: Bits, B: Bits, V> Bits for Chain<A, B, V> {
    fn bits(&self, v: &mut Vec<u64>) {
        self.outer().bits(v);
        self.inner().bits(v);
    }
    fn vals(&self, v: &mut Vec<f64>) {
        self.outer().vals(v);
        self.inner().vals(v);
    }
}
macro_rules! tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Bits),*> Bits for ($($t,)*) {
            fn bits(&self, v: &mut Vec<u64>) {
                $(self.$i.bits(v);)*
            }
            fn vals(&self, v: &mut Vec<f64>) {
                $(self.$i.vals(v);)*
            }
        }
    };
}
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);

/// One recorded result.
pub enum Item {
    Exact(&'static str, Vec<u64>),
    /// Values and the allowed difference.
    Near(&'static str, Vec<f64>, f64),
}
/// Results, those that need the features of the library which C36 also turns off apart.
#[derive(Default)]
pub struct Out(pub Vec<Item>, pub Vec<Item>);
pub const PANIC: u64 = 0xdead_dead_dead_dead;
impl Out {
    #[cfg(feature = "extras")]
    fn extra(&mut self, f: impl FnOnce(&mut Self)) {
        std::mem::swap(&mut self.0, &mut self.1);
        f(self);
        std::mem::swap(&mut self.0, &mut self.1);
    }
    fn exact<R: Bits>(&mut self, tag: &'static str, f: impl FnOnce() -> R) {
        let mut v = Vec::new();
        match guard(f) {
            Ok(r) => r.bits(&mut v),
            Err(_) => v = vec![PANIC],
        }
        self.0.push(Item::Exact(tag, v));
    }
    /// Minimum and maximum may return a zero of either sign.
    fn zeros<R: Bits>(&mut self, tag: &'static str, f: impl FnOnce() -> R) {
        let mut v = Vec::new();
        match guard(f) {
            Ok(r) => r.vals(&mut v),
            Err(_) => v = vec![f64::MAX / 3.0],
        }
        let mut b = Vec::new();
        for x in v {
            (x + 0.0).bits(&mut b);
        }
        self.0.push(Item::Exact(tag, b));
    }
    /// Up to some roundings of the largest component or of `mag`.
    fn near<R: Bits>(&mut self, tag: &'static str, eps: f64, mag: f64, f: impl FnOnce() -> R) {
        let mut v = Vec::new();
        match guard(f) {
            Ok(r) => r.vals(&mut v),
            Err(_) => v = vec![f64::MAX / 3.0],
        }
        let m = v.iter().filter(|x| x.is_finite()).fold(mag, |m, x| m.max(x.abs()));
        self.0.push(Item::Near(tag, v, 4096.0 * eps * m));
    }
}
macro_rules! exact {
    ($o:expr; $($tag:literal: $e:expr),* $(,)?) => {$( $o.exact($tag, || $e); )*};
}
macro_rules! zeros {
    ($o:expr; $($tag:literal: $e:expr),* $(,)?) => {$( $o.zeros($tag, || $e); )*};
}
macro_rules! near {
    ($o:expr, $eps:expr; $($tag:literal: $e:expr),* $(,)?) => {$( $o.near($tag, $eps, 0.0, || $e); )*};
}
/// The value after an assigning operator.
fn then<A>(mut a: A, f: impl FnOnce(&mut A)) -> A {
    f(&mut a);
    a
}

pub type Job = fn(&mut Cx, &mut Out);

// ---- vectors and matrices of numbers ----
trait Num2: Fl + Bits + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + NormL1<Output = Self> + Zero {}
impl<T> Num2 for T where T: Fl + Bits + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + NormL1<Output = T> + Zero {}

fn tame<T: Fl>(c: &mut Cx) -> T {
    T::of(gen::moderate(&mut c.s))
}
fn positive<T: Fl>(c: &mut Cx) -> T {
    T::of(gen::away(&mut c.s).abs())
}
fn rough<T: Fl>(c: &mut Cx, wild: bool) -> T {
    if wild {
        T::any(&mut c.s)
    } else {
        tame(c)
    }
}
macro_rules! arith {
    ($o:ident, $T:ty, $a:ident, $b:ident, $k:ident) => {
        exact!($o;
            "neg": -$a, "add": $a + $b, "sub": $a - $b, "mul": $a * $b, "div": $a / $b, "rem": $a % $b,
            "mul scalar": $a * $k, "div scalar": $a / $k, "rem scalar": $a % $k,
            "add_assign": then($a, |x| *x += $b), "sub_assign": then($a, |x| *x -= $b), "mul_assign": then($a, |x| *x *= $b),
            "div_assign": then($a, |x| *x /= $b), "rem_assign": then($a, |x| *x %= $b),
            "mul_assign scalar": then($a, |x| *x *= $k), "div_assign scalar": then($a, |x| *x /= $k), "rem_assign scalar": then($a, |x| *x %= $k),
            "is_zero": ($a.is_zero(), ($a - $a).is_zero()),
            "sum": $a.sum(),
            "veq": $a.veq($b), "vne": $a.vne($b), "vlt": $a.vlt($b), "vle": $a.vle($b), "vgt": $a.vgt($b), "vge": $a.vge($b),
            "any": $a.vlt($b).any(), "all": $a.vle($b).all(), "eq": $a == $b,
            "Sum": [$a, $b, $a].into_iter().sum::<$T>(),
        );
        zeros!($o; "max": $a.max(), "min": $a.min());
    };
}
macro_rules! functions {
    ($o:ident, $eps:expr, $a:ident, $b:ident, $p:ident, $q:ident, $u:ident, $e:ident, $k:ident) => {
        // rounding and sign: any input
        exact!($o;
            "abs": $a.abs(), "signum": $a.signum(), "floor": $a.floor(), "ceil": $a.ceil(), "round": $a.round(), "trunc": $a.trunc(), "fract": $a.fract(),
            "recip": $a.recip(), "mul_add": $a.mul_add($b, $p), "mul_add scalar": $a.mul_add($k, $p), "sqrt": $p.sqrt(),
        );
        zeros!($o; "vmin": $a.vmin($b), "vmax": $a.vmax($b), "vmax scalar": $a.vmax($k), "clamp": $q.clamp($u, $p), "abs_sub": $q.abs_sub($u));
        // transcendental: tame input, away from zeros, poles and ends of domains
        near!($o, $eps;
            "cbrt": $q.cbrt(), "sin": $q.sin(), "cos": $q.cos(), "sin_cos": $q.sin_cos(), "atan": $q.atan(), "atan2": $q.atan2($p), "asinh": $q.asinh(),
            "sinh": $q.sinh(), "cosh": $q.cosh(), "tanh": $q.tanh(), "exp": $q.exp(), "exp2": $q.exp2(), "exp_m1": $q.exp_m1(), "hypot": $q.hypot($p),
            "asin": $u.asin(), "acos": $u.acos(), "atanh": $u.atanh(), "tan": $u.tan(), "ln": $p.ln(), "log2": $p.log2(), "log10": $p.log10(), "ln_1p": $p.ln_1p(),
            "acosh": $p.mul_add($p, $p.sqrt()).acosh(), "powf": $p.powf($u), "powf scalar": $p.powf($k), "powi": $p.powi($e),
        );
        $o.near("log", $eps * 16.0, 1.0, || $p.log($p.exp()));
    };
}
fn inside<T: Fl>(c: &mut Cx) -> T {
    T::of(gen::unit_f64(&mut c.s) * 0.9)
}
fn vector_floats<T: Num2, const N: usize>(c: &mut Cx, o: &mut Out)
where
    Vector<T, N>: NormL1<Output = T> + NormL2<Output = T> + NormLInf<Output = T>,
{
    let wild = c.s.bool();
    let mut v = |c: &mut Cx| Vector::<T, N>::from_array(std::array::from_fn(|_| rough(c, wild)));
    let (a, b) = (v(c), v(c));
    let k: T = tame(c);
    let p = Vector::<T, N>::from_array(std::array::from_fn(|_| positive(c)));
    let q = Vector::<T, N>::from_array(std::array::from_fn(|_| tame(c)));
    let u = Vector::<T, N>::from_array(std::array::from_fn(|_| inside(c)));
    let e = Vector::<i32, N>::from_array(std::array::from_fn(|_| c.s.zigzag(6) as i32));
    c.show(|| format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?}", a, b, k, p, q, u, e));
    c.nontrivial(N > 0);
    arith!(o, Vector<T, N>, a, b, k);
    functions!(o, T::EPS, a, b, p, q, u, e, k);
    exact!(o;
        "dot": a.dot(b), "square_length": a.square_length(), "norm_l1": q.norm_l1(), "norm_l2_sqr": q.norm_l2_sqr(), "outer": a.outer(b),
        "norm_l_inf": q.norm_l_inf(), "length": p.length(), "norm_l2": p.norm_l2(), "normalize": p.normalize(), "Normalize": Normalize::normalize(p),
        "text": format!("{} {:?} {:.3}", a, b, q),
    );
    #[cfg(feature = "extras")]
    o.extra(|o| { exact!(o; "approx": (approx::AbsDiffEq::abs_diff_eq(&a, &b, k.abs()), approx::AbsDiffEq::abs_diff_eq(&q, &(q + u), T::of(0.4)))); });
}
fn crosses<T: Num2>(c: &mut Cx, o: &mut Out) {
    let wild = c.s.bool();
    let mut g = |c: &mut Cx| -> T { rough(c, wild) };
    let a: [T; 4] = std::array::from_fn(|_| g(c));
    let b: [T; 4] = std::array::from_fn(|_| g(c));
    c.show(|| format!("{:?} {:?}", a, b));
    c.nontrivial(true);
    let (a2, b2) = (Vector::from([a[0], a[1]]), Vector::from([b[0], b[1]]));
    let (a3, b3) = (Vector::from([a[0], a[1], a[2]]), Vector::from([b[0], b[1], b[2]]));
    let (a4, b4) = (Vector::from(a), Vector::from(b));
    exact!(o; "cross 2": a2.cross(b2), "cross 3": a3.cross(b3), "cross 4": a4.cross(b4),
        "letters 2": (a2.x(), a2.y(), *a2.x_ref(), *a2.y_ref()), "letters 3": (a3.x(), a3.y(), a3.z(), *a3.z_ref()), "letters 4": (a4.x(), a4.y(), a4.z(), a4.w()),
        "tuples": (a2.into_tuple(), a3.into_tuple(), a4.into_tuple()), "from tuples": (Vector::from((a[0], b[0])), Vector::from((a[0], b[0], a[1])), Vector::from((a[0], b[0], a[1], b[1]))),
        "written": then(a4, |v| { *v.x_mut() = b[3]; *v.w_mut() = b[0]; *v.z_mut() = b[1]; *v.y_mut() = b[2]; }),
    );
}
fn matrix_floats<T: Num2, const M: usize, const N: usize>(c: &mut Cx, o: &mut Out)
where
    Matrix<T, M, N>: NormL1<Output = T> + NormL2<Output = T> + NormLInf<Output = T>,
{
    let wild = c.s.bool();
    let mut v = |c: &mut Cx| Matrix::<T, M, N>::from_array_of_arrays(std::array::from_fn(|_| std::array::from_fn(|_| rough(c, wild))));
    let (a, b) = (v(c), v(c));
    let k: T = tame(c);
    let p = Matrix::<T, M, N>::from_array_of_arrays(std::array::from_fn(|_| std::array::from_fn(|_| positive(c))));
    let q = Matrix::<T, M, N>::from_array_of_arrays(std::array::from_fn(|_| std::array::from_fn(|_| tame(c))));
    let u = Matrix::<T, M, N>::from_array_of_arrays(std::array::from_fn(|_| std::array::from_fn(|_| inside(c))));
    let e = Matrix::<i32, M, N>::from_array_of_arrays(std::array::from_fn(|_| std::array::from_fn(|_| c.s.zigzag(6) as i32)));
    let r = Vector::<T, N>::from_array(std::array::from_fn(|_| tame(c)));
    let l = Vector::<T, M>::from_array(std::array::from_fn(|_| tame(c)));
    c.show(|| format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}", a, b, k, p, q, u, e, r, l));
    c.nontrivial(M * N > 0);
    arith!(o, Matrix<T, M, N>, a, b, k);
    functions!(o, T::EPS, a, b, p, q, u, e, k);
    exact!(o;
        "norm_l1": q.norm_l1(), "norm_l2_sqr": q.norm_l2_sqr(), "norm_l_inf": q.norm_l_inf(), "norm_l2": p.norm_l2(),
        "transpose": a.transpose(), "matrix by vector": a.dot(r), "vector by matrix": l.dot(a), "matrix by matrix": a.dot(b.transpose()), "other way round": a.transpose().dot(b),
        "text": format!("{} {:?} {:.3}", a, b, q),
        "rows": (0..M).map(|i| a.row(i)).collect::<Vec<_>>(), "columns": (0..N).map(|i| a.col(i)).collect::<Vec<_>>(),
    );
    #[cfg(feature = "extras")]
    o.extra(|o| { exact!(o; "approx": (approx::AbsDiffEq::abs_diff_eq(&a, &b, k.abs()), approx::AbsDiffEq::abs_diff_eq(&q, &(q + u), T::of(0.4)))); });
    zeros!(o; "vmax row": a.vmax(r));
    exact!(o; "mul_add row": a.mul_add(r, b));
}
/// The plain operations at more shapes than the full lists above are instantiated for.
fn wide<T: Num2, const M: usize, const N: usize>(c: &mut Cx, o: &mut Out)
where
    Vector<T, N>: NormL1<Output = T> + NormL2<Output = T> + NormLInf<Output = T>,
    Matrix<T, M, N>: NormL1<Output = T> + NormL2<Output = T> + NormLInf<Output = T>,
{
    let wild = c.s.chance(1, 4);
    let mut m = |c: &mut Cx| Matrix::<T, M, N>::from_array_of_arrays(std::array::from_fn(|_| std::array::from_fn(|_| rough(c, wild))));
    let (a, b) = (m(c), m(c));
    let mut v = |c: &mut Cx| Vector::<T, N>::from_array(std::array::from_fn(|_| rough(c, wild)));
    let (x, y) = (v(c), v(c));
    let l = Vector::<T, M>::from_array(std::array::from_fn(|_| rough(c, wild)));
    let k: T = tame(c);
    c.show(|| format!("{:?} {:?} {:?} {:?} {:?} {:?}", a, b, x, y, l, k));
    c.nontrivial(M * N > 0);
    exact!(o;
        "vector": [-x, x + y, x - y, x * y, x / y, x % y], "vector and scalar": (x * k, x / k, x % k), "written": (then(x, |v| *v += y), then(x, |v| *v -= y), then(x, |v| *v *= y), then(x, |v| *v /= k)),
        "matrix": [-a, a + b, a - b, a * b, a / b, a % b], "matrix and scalar": (a * k, a / k, a % k), "matrix written": (then(a, |v| *v += b), then(a, |v| *v -= b), then(a, |v| *v *= b), then(a, |v| *v /= k)),
        "dot": x.dot(y), "square_length": x.square_length(), "length": x.length(), "normalize": x.normalize(), "outer": l.outer(x), "vector sum": x.sum(), "matrix sum": a.sum(),
        "matrix by vector": a.dot(x), "vector by matrix": l.dot(a), "matrix by matrix": a.dot(b.transpose()), "other way round": a.transpose().dot(b), "transpose": a.transpose(),
        "norms": (x.norm_l1(), x.norm_l2_sqr(), x.norm_l_inf(), x.norm_l2()), "matrix norms": (a.norm_l1(), a.norm_l2_sqr(), a.norm_l_inf(), a.norm_l2()),
        "comparisons": (x.veq(y), x.vlt(y), x.vle(y), x == y), "matrix comparisons": (a.veq(b), a.vlt(b), a.vle(b), a == b), "zero": (x.is_zero(), a.is_zero()),
        "any and all": (x.vlt(y).any(), x.vle(y).all(), a.vlt(b).any(), a.vle(b).all()),
        "text": format!("{} {:?} {} {:?}", x, y, a, b),
        "rounded": [x.floor(), x.abs(), x.mul_add(y, x), x.sqrt(), x.recip()], "matrix rounded": [a.floor(), a.abs(), a.mul_add(b, a), a.sqrt(), a.recip()],
    );
    zeros!(o; "vector extremes": (x.max(), x.min(), x.vmax(y), x.vmin(y)), "matrix extremes": (a.max(), a.min(), a.vmax(b), a.vmin(b)));
}
fn square_floats<T: Num2, const N: usize>(c: &mut Cx, o: &mut Out) {
    let wild = c.s.chance(1, 4);
    let a: [[T; N]; N] = if c.s.bool() {
        std::array::from_fn(|_| std::array::from_fn(|_| rough(c, wild)))
    } else {
        gen::structured::<f64, N, N>(&mut c.s).map(|r| r.map(T::of))
    };
    let d = Vector::<T, N>::from_array(std::array::from_fn(|_| tame(c)));
    c.show(|| format!("{:?} {:?}", a, d));
    c.nontrivial(N > 0);
    square(o, Matrix::from_array_of_arrays(a), d);
}
fn square<T, const N: usize>(o: &mut Out, a: Matrix<T, N, N>, d: Vector<T, N>)
where
    T: Bits + Copy + num_traits::Num + Neg<Output = T>,
{
    exact!(o; "det": a.det(), "adj": a.adj(), "inv": a.inv(), "Inv": Inv::inv(a), "diagonal": Matrix::diagonal(d), "one": Matrix::<T, N, N>::one(),
        "cofactors": (0..N).flat_map(|i| (0..N).map(move |j| (i, j))).map(|(i, j)| a.cofactor(i, j)).collect::<Vec<_>>());
}
fn square_field<const N: usize>(c: &mut Cx, o: &mut Out) {
    let a = gen::structured::<F, N, N>(&mut c.s);
    let d: [F; N] = gen::arr(&mut c.s);
    c.show(|| format!("{:?} {:?}", a, d));
    c.nontrivial(N > 0);
    square(o, Matrix::from_array_of_arrays(a), Vector::from_array(d));
}
macro_rules! submatrices {
    ($($name:ident $n:literal;)*) => {$(
        fn $name<T: Num2>(c: &mut Cx, o: &mut Out) {
            let a: [[T; $n]; $n] = std::array::from_fn(|_| std::array::from_fn(|_| T::any(&mut c.s)));
            c.show(|| format!("{:?}", a));
            c.nontrivial(true);
            let m = Matrix::from_array_of_arrays(a);
            o.exact("row access", || (0..$n).map(|i| (*m.row_ref(i), m.row(i), m.col(i))).collect::<Vec<_>>());
        }
    )*};
}
submatrices!(rows3 3; rows5 5;);

// ---- integers ----
macro_rules! ints {
    ($($name:ident $t:ident;)*) => {$(
        fn $name<const N: usize>(c: &mut Cx, o: &mut Out) {
            let g = |c: &mut Cx| -> $t { let v = c.s.zigzag(7); if <$t>::MIN == 0 { v.unsigned_abs() as $t } else { v as $t } };
            let big = |c: &mut Cx| -> $t { <$t as Elem>::any(&mut c.s) };
            let a = Vector::<$t, N>::from_array(std::array::from_fn(|_| g(c)));
            let b = Vector::<$t, N>::from_array(std::array::from_fn(|_| g(c)));
            let x = Vector::<$t, N>::from_array(std::array::from_fn(|_| big(c)));
            let y = Vector::<$t, N>::from_array(std::array::from_fn(|_| big(c)));
            let z = y.map(|t| if t == 0 || t == !0 { 1 } else { t });
            let k = g(c);
            c.show(|| format!("{:?} {:?} {:?} {:?} {:?}", a, b, x, y, k));
            c.nontrivial(N > 0);
            let (m, n) = (Matrix::<$t, 2, N>::from_vector_of_vectors(Vector::from([a, b])), Matrix::<$t, 2, N>::from_vector_of_vectors(Vector::from([z, x])));
            exact!(o;
                // nothing here can overflow
                "add": a + b, "mul": a * b, "div": x / z, "rem": x % z, "dot": a.dot(b), "sum": a.sum(), "max": x.max(), "min": x.min(), "outer": a.outer(b),
                "not": !x, "and": x & y, "or": x | y, "xor": x ^ y, "and_assign": then(x, |t| *t &= y), "or_assign": then(x, |t| *t |= y), "xor_assign": then(x, |t| *t ^= y),
                "scalar": a * k, "reverse": k * a, "div by zero": x / b, "rem by zero": x % b,
                "div_floor": x.div_floor(z), "mod_floor": x.mod_floor(z), "div_mod_floor": x.div_mod_floor(z), "floor by zero": x.div_floor(b),
                "compare": (x.vlt(y), x.vle(y), x.vgt(y)), "equal": (x.veq(y), x == y),
                "is_zero": a.is_zero(), "square_length": a.square_length(), "text": format!("{} {:?}", x, y),
                "matrix add": m + m, "matrix mul": m * m, "matrix dot": m.dot(m.transpose()), "matrix not": !n, "matrix and": n & m, "matrix xor": n ^ m,
                "matrix floor": m.div_mod_floor(n.map(|t| if t == 0 || t == !0 { 1 } else { t })), "matrix sum": m.sum(), "matrix max": n.max(), "matrix min": n.min(),
                "product": [a, b].into_iter().product::<Vector<$t, N>>(),
            );
        }
    )*};
}
ints!(ints_i32 i32; ints_u8 u8; ints_i64 i64; ints_u64 u64; ints_i8 i8;);

// ---- containers ----
fn containers<const M: usize, const N: usize>(c: &mut Cx, o: &mut Out) {
    let a: [[u32; N]; M] = std::array::from_fn(|_| std::array::from_fn(|_| c.s.bits() as u32));
    let b: [u32; N] = std::array::from_fn(|_| c.s.bits() as u32);
    let n = c.s.idx(2 * N + 2);
    let l: Vec<u32> = (0..n).map(|_| c.s.bits() as u32).collect();
    let (i, j) = (c.s.idx(M + 1), c.s.idx(N + 1));
    c.show(|| format!("{:?} {:?} {:?} {} {}", a, b, l, i, j));
    c.nontrivial(M * N > 1);
    let m = Matrix::<u32, M, N>::from_array_of_arrays(a);
    let v = Vector::<u32, N>::from(b);
    let mut s = 1u32;
    let mut h = move |x: u32| {
        s = s.wrapping_mul(31) ^ x;
        s
    };
    let h2 = h;
    exact!(o;
        "from array": v, "into array": v.into_array(), "index": v[j], "matrix index": m[(i, j)], "map": v.map(&mut h),
        "matrix map": m.map(h2), "zip": v.zip(Vector::from(b)), "unzip": v.map(|x| (x, x ^ 1)).unzip(),
        "enumerate": v.enumerate(), "fold": v.fold(7u32, |s, x| s.wrapping_mul(31) ^ x), "fold_first": v.fold_first(|s, x| s.wrapping_mul(31) ^ x),
        "scan": v.scan(3u32, |s, x| { *s = s.wrapping_mul(31) ^ x; *s }), "indices": Vector::<usize, N>::indices(),
        "matrix zip": m.zip(m.map(|x| !x)), "matrix unzip": m.map(|x| (x, x ^ 1)).unzip(), "matrix fold": m.fold(7u32, |s, x| s.wrapping_mul(31) ^ x),
        "matrix fold_first": m.fold_first(|s, x| s.wrapping_mul(31) ^ x), "matrix scan": m.scan(3u32, |s, x| { *s = s.wrapping_mul(31) ^ x; *s }),
        "matrix indices": Matrix::<(usize, usize), M, N>::indices(),
        "iter": v.iter().copied().collect::<Vec<_>>(), "into_iter": v.into_iter().rev().collect::<Vec<_>>(), "iter_mut": then(v, |v| v.iter_mut().for_each(|x| *x = !*x)),
        "matrix iter": m.iter().copied().collect::<Vec<_>>(), "matrix into_iter": m.into_iter().collect::<Vec<_>>(), "matrix iter_mut": then(m, |v| v.iter_mut().for_each(|x| *x = !*x)),
        "init": { let mut k = 0u32; Vector::<u32, N>::init(|| { k += 3; k }) }, "matrix init": { let mut k = 0u32; Matrix::<u32, M, N>::init(|| { k += 3; k }) },
        "fill": Vector::<u32, N>::fill(b.len() as u32), "matrix fill": Matrix::<u32, M, N>::fill(9), "new": Vector::<u32, N>::new(), "default": Matrix::<u32, M, N>::default(),
        "try_from slice": Vector::<u32, N>::try_from(&l[..]).ok(), "try_from_iter": Vector::<u32, N>::try_from_iter(l.iter().copied()),
        "rest": { let mut it = l.iter().copied(); let r = Vector::<u32, N>::try_from_iter(&mut it); (r, it.collect::<Vec<_>>()) },
        "matrix try_from_iter": Matrix::<u32, M, N>::try_from_iter(l.iter().copied().cycle().take(if l.is_empty() { 0 } else { M * N + n % 2 })),
        "transpose": m.transpose(), "rows": (0..M).map(|i| (m.row(i), *m.row_ref(i))).collect::<Vec<_>>(), "columns": (0..N).map(|i| m.col(i)).collect::<Vec<_>>(),
        "written": then(m, |m| if i < M && j < N { m[(i, j)] = 77; }), "row written": then(m, |m| if i < M { *m.row_mut(i) = v; }),
        "conversions": (m.into_vector_of_vectors(), *m.as_array_of_arrays()),
        "array of vectors": m.into_array_of_vectors(), "arrays": m.into_array_of_arrays(),
        "group": GroupIter::<_, 3>::new(l.iter().copied()).collect::<Vec<_>>(),
        "flat": FlatIter::new(l.chunks(2).map(|x| x.iter().copied())).map(|f| f.collect::<Vec<_>>()),
        "eq": (m == m.map(|x| x), v == v.map(|x| x ^ (n as u32 & 1))),
        "unchecked": unsafe { (if j < N { *v.get_unchecked(j) } else { 0 }, if i < M && j < N { *m.get_unchecked(i, j) } else { 0 }) },
        "bools": (v.map(|x| x & 1 == 1).any(), v.map(|x| x & 1 == 1).all(), m.map(|x| x & 3 != 0).all()),
    );
}

// ---- complex numbers and quaternions ----
fn c2<T: Fl>(c: &mut Cx, f: impl Fn(&mut Cx) -> T) -> Complex<T> {
    Complex::new(f(c), f(c))
}
fn q4<T: Fl>(c: &mut Cx, f: impl Fn(&mut Cx) -> T) -> Quaternion<T> {
    Quaternion::new(f(c), f(c), f(c), f(c))
}
macro_rules! field_ops {
    ($o:ident, $a:ident, $b:ident, $k:ident) => {
        exact!($o; "neg": -$a, "add": $a + $b, "sub": $a - $b, "mul": $a * $b, "div": $a / $b, "inv": $a.inv(),  "conj": $a.conj(),
            "add scalar": $a + $k, "sub scalar": $a - $k, "mul scalar": $a * $k, "div scalar": $a / $k,
            "add_assign": then($a, |x| *x += $b), "sub_assign": then($a, |x| *x -= $b), "mul_assign": then($a, |x| *x *= $b), "div_assign": then($a, |x| *x /= $b),
            "add_assign scalar": then($a, |x| *x += $k), "sub_assign scalar": then($a, |x| *x -= $k), "mul_assign scalar": then($a, |x| *x *= $k), "div_assign scalar": then($a, |x| *x /= $k),
            "norm_sqr": $a.norm_sqr(), "dot": $a.dot($b), "into_matrix": $a.into_matrix(), "zero": ($a.is_zero(), ($a - $a).is_zero()), "eq": $a == $b,
            "Sum": then($b, |x| *x = [$a, $b, $a].into_iter().sum()), "Product": then($b, |x| *x = [$a, $b, $a].into_iter().product()),
        );
    };
}
macro_rules! algebra {
    ($($name:ident $t:ident;)*) => {$(
fn $name(c: &mut Cx, o: &mut Out) {
    let wild = c.s.chance(1, 4);
    let f = |c: &mut Cx| rough::<$t>(c, wild);
    let (a, b, k) = (c2(c, f), c2(c, f), f(c));
    let (p, q) = (q4(c, f), q4(c, f));
    let (e, u) = (c.s.zigzag(6) as i32, c.s.below(9) as u32);
    c.show(|| format!("{:?} {:?} {:?} {:?} {:?} {} {}", a, b, k, p, q, e, u));
    c.nontrivial(true);
    field_ops!(o, a, b, k);
    exact!(o; "rem": a % b, "powu": a.powu(u), "powi": a.powi(e), "text": format!("{} {:?}", a, b), "norm_l1": a.norm_l1(), "norm_l2_sqr": a.norm_l2_sqr());
    exact!(o; "Conj": (Conj::conj(a), Conj::conj(p)), "Inv": (Inv::inv(a), Inv::inv(p)), "scalar plus complex": k + a, "scalar minus complex": k - a, "scalar times complex": k * a, "scalar by complex": k / a);
    exact!(o; "conversions": (a.re(), a.im(), a.into_tuple(), a.into_num().re), "units": (Complex::<$t>::i(), Complex::<$t>::one(), Quaternion::<$t>::j(), Quaternion::<$t>::k()));
    field_ops!(o, p, q, k);
    exact!(o; "quaternion text": format!("{} {:?}", p, q), "quaternion norm_l1": p.norm_l1(), "parts": (p.xyz(), p.w(), p.into_scalar_and_vector3()));
    exact!(o; "scalar plus": k + p, "scalar minus": k - p, "scalar times": k * p, "scalar by": k / p);
    exact!(o; "mixed add": p + a, "mixed sub": p - a, "mixed mul": p * a, "mixed div": p / a, "complex plus": a + p, "complex minus": a - p, "complex times": a * p, "complex by": a / p,
        "mixed add_assign": then(p, |x| *x += a), "mixed sub_assign": then(p, |x| *x -= a), "mixed mul_assign": then(p, |x| *x *= a), "mixed div_assign": then(p, |x| *x /= a));
    #[cfg(feature = "extras")]
    o.extra(|o| { exact!(o; "approx": (approx::AbsDiffEq::abs_diff_eq(&a, &b, k.abs()), approx::AbsDiffEq::abs_diff_eq(&p, &q, k.abs()))); });
    let e = <$t as Fl>::EPS;
    if !wild {
        near!(o, e; "norm": a.norm(), "norm_l2": a.norm_l2(), "normalize": a.normalize(), "Normalize": Normalize::normalize(a));
        exact!(o; "quaternion norm": p.norm(), "quaternion norm_l2": p.norm_l2(), "quaternion normalize": p.normalize(), "quaternion Normalize": Normalize::normalize(p));
    }
}
    )*};
}
algebra!(algebra_f64 f64; algebra_f32 f32;);
/// Away from axes, branch cuts and poles.
fn complex_functions<T: Num2>(c: &mut Cx, o: &mut Out) {
    let f = |c: &mut Cx| {
        let x = gen::unit_f64(&mut c.s);
        T::of(if x < 0.0 { x * 1.5 - 0.1 } else { x * 1.5 + 0.1 })
    };
    let (a, b, r) = (c2(c, f), c2(c, f), f(c));
    let p = T::of(0.3 + 1.7 * gen::unit_f64(&mut c.s).abs());
    let th = T::of(gen::angle(&mut c.s).clamp(-50.0, 50.0));
    c.show(|| format!("{:?} {:?} {:?} {:?} {:?}", a, b, r, p, th));
    c.nontrivial(true);
    near!(o, T::EPS; "norm": a.norm(), "arg": a.arg(), "to_polar": a.to_polar(), "from_polar": Complex::from_polar(p, th),
        "exp": a.exp(), "sqrt": a.sqrt(), "cbrt": a.cbrt(), "powf": a.powf(r), "powc": a.powc(b), "expf": a.expf(p),
        "sin": a.sin(), "cos": a.cos(), "sinh": a.sinh(), "cosh": a.cosh(), "tan": a.tan(), "tanh": a.tanh());
    for (t, z) in [("ln", a.ln()), ("asin", a.asin()), ("acos", a.acos()), ("atan", a.atan()), ("asinh", a.asinh()), ("acosh", a.acosh()), ("atanh", a.atanh())] {
        o.near(t, T::EPS, 1.0, || z);
    }
    // the base stays away from one
    let base = if p < T::of(1.2) { p * T::of(0.5) } else { p };
    o.near("log", T::EPS * 16.0, 1.0, || a.log(base));
    // by way of the norm
    near!(o, T::EPS; "finv": a.finv(), "fdiv": a.fdiv(b));
}
fn field_algebra(c: &mut Cx, o: &mut Out) {
    let v: [F; 4] = gen::arr(&mut c.s);
    let w: [F; 4] = gen::arr(&mut c.s);
    let k = F::any(&mut c.s);
    c.show(|| format!("{:?} {:?} {:?}", v, w, k));
    c.nontrivial(true);
    let (a, b) = (Complex::new(v[0], v[1]), Complex::new(w[0], w[1]));
    field_ops!(o, a, b, k);
    let (p, q) = (Quaternion::from_array(v), Quaternion::from_array(w));
    field_ops!(o, p, q, k);
    exact!(o; "powers": (a.powu(5), a.powi(3)), "mixed": (p * a, a * p, p + a), "mixed div": p / a);
}
fn moebius_maps<T: Sc + Bits + Num2>(c: &mut Cx, o: &mut Out) {
    let z = |c: &mut Cx| Complex::new(<T as Sc>::coef(c), <T as Sc>::coef(c));
    let (m, n) = if c.s.chance(1, 4) { (Moebius::new(z(c), z(c), z(c), z(c)), moebius_gen::<T>(c)) } else { (moebius_gen::<T>(c), moebius_gen::<T>(c)) };
    let (x, d) = (z(c), z(c));
    let (p, q) = (q4(c, |c| T::coef(c)), q4(c, |c| T::coef(c)));
    let r: [T; 5] = std::array::from_fn(|_| T::coef(c));
    c.show(|| format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?}", m, n, x, d, p, q, r));
    c.nontrivial(true);
    let s = Moebius::new(r[0], r[1], r[2], r[3]);
    exact!(o; "chain": m.chain(n), "inv": m.inv(), "det": m.det(), "normalize": m.normalize(), "apply": m.apply(x), "apply to a quaternion": m.apply(p), "deriv": m.deriv(x), "deriv_dir": m.deriv_dir(p, q),
        "real apply": s.apply(r[4]), "real chain": s.chain(s), "real inv": s.inv(), "real det": s.det(), "identity": Moebius::<Complex<T>>::identity(),
        "Transform complex": (Transform::<Complex<T>>::apply(&m, x), Transform::<Complex<T>>::deriv(&m, x, d), Transform::<Complex<T>>::chain(m, n), Transform::<Complex<T>>::inv(m)),
        "Transform quaternion": (Transform::<Quaternion<T>>::apply(&m, p), Transform::<Quaternion<T>>::deriv(&m, p, q), Transform::<Quaternion<T>>::chain(m, n), Transform::<Quaternion<T>>::inv(m)),
        "conversions": (m.into_tuple(), m.into_array(), m.into_matrix()));
    near!(o, T::EPS; "direction": Directional::<Complex<T>>::apply_dir(&m, x, d), "normal": Directional::<Complex<T>>::apply_normal(&m, x, d));
    exact!(o; "quaternion direction": Directional::<Quaternion<T>>::apply_dir(&m, p, q), "quaternion normal": Directional::<Quaternion<T>>::apply_normal(&m, p, q));
}

// ---- transformations ----
fn maps<A, V>(c: &mut Cx, o: &mut Out)
where
    A: Tf<V> + Bits,
    V: Pt + Bits,
{
    let (a, b) = (A::gen(c), A::gen(c));
    let (x, d) = (V::gen(c), V::gen(c));
    c.show(|| format!("{:?} {:?} {:?} {:?}", a, b, x, d));
    c.nontrivial(true);
    exact!(o; "apply": a.apply(x), "deriv": a.deriv(x, d), "inv": a.inv(), "chain": a.chain(b), "identity": A::identity(), "chain applied": a.chain(b).inv().apply(x));
}
fn directions<A, V>(c: &mut Cx, o: &mut Out)
where
    A: Tf<V> + Bits + Directional<V>,
    V: Pt + Bits,
    V::S: Fl,
{
    let a = A::gen(c);
    let (x, d) = (V::gen(c), V::gen(c));
    c.show(|| format!("{:?} {:?} {:?}", a, x, d));
    // a direction to normalise
    let ok = d.size() > 0.1;
    c.nontrivial(ok);
    if ok {
        exact!(o; "apply_dir": a.apply_dir(x, d), "apply_normal": a.apply_normal(x, d));
    }
}
fn pairs<A, B, V>(c: &mut Cx, o: &mut Out)
where
    A: Tf<V> + Reorder<B, V> + Bits,
    B: Tf<V> + Reorder<A, V> + Bits,
    V: Pt + Bits,
{
    let (a, b) = (A::gen(c), B::gen(c));
    let x = V::gen(c);
    c.show(|| format!("{:?} {:?} {:?}", a, b, x));
    c.nontrivial(true);
    let t = Chain::<A, B, V>::new(a, b);
    exact!(o; "reorder": a.reorder(b), "reorder back": b.reorder(a), "chain of a chain": t.chain(t), "inverse": t.inv(), "apply": t.apply(x), "deriv": t.deriv(x, x));
}
fn conversions<T: Sc + Bits + Num2>(c: &mut Cx, o: &mut Out) {
    let r = <Rotation2<T> as Tf<Vector<T, 2>>>::gen(c);
    let q = <Rotation3<T> as Tf<Vector<T, 3>>>::gen(c);
    let l = <Linear<T, 3> as Tf<Vector<T, 3>>>::gen(c);
    c.show(|| format!("{:?} {:?} {:?}", r, q, l));
    c.nontrivial(true);
    exact!(o; "planar matrix": r.to_linear(), "spatial matrix": q.to_linear(), "normal_transform": l.normal_transform());
    #[cfg(feature = "extras")]
    o.extra(|o| { exact!(o; "approx": (approx::AbsDiffEq::abs_diff_eq(&q, &q.inv(), T::of(0.3)), approx::AbsDiffEq::abs_diff_eq(&r, &r.inv(), T::of(0.3)), approx::AbsDiffEq::abs_diff_eq(&l, &l.inv(), T::of(0.3)))); });
}
fn rotations<T: Sc + Bits + Num2>(c: &mut Cx, o: &mut Out) {
    let r = <Rotation2<T> as Tf<Vector<T, 2>>>::gen(c);
    let q = <Rotation3<T> as Tf<Vector<T, 3>>>::gen(c);
    let g = T::of(gen::angle(&mut c.s));
    let k = Vector::from(gen::unit_vec::<3>(&mut c.s).map(T::of));
    let v: Vector<T, 3> = Pt::gen(c);
    let u = Vector::from(gen::unit_vec::<3>(&mut c.s).map(T::of));
    c.show(|| format!("{:?} {:?} {:?} {:?} {:?} {:?}", r, q, g, k, v, u));
    c.nontrivial(true);
    let e = T::EPS;
    o.near("new planar", e, 1.0, || Rotation2::new(g));
    o.near("new spatial", e, 1.0, || Rotation3::new(k, g));
    o.near("turned", e, 1.0 + v.size(), || Rotation3::new(k, g).apply(v));
    // the ends of the ranges of the angles are the same direction, but not the same number
    o.near("angle of a planar rotation", e, 1.0, || r.angle());
    o.near("angle of a spatial rotation", e, 1.0, || q.angle());
    let (_, xyz) = q.into_quaternion().into_scalar_and_vector3();
    if xyz.into_array().iter().any(|x| x.abs() > T::of(1e-3)) {
        o.near("axis", e, 1.0, || q.axis());
    }
    o.near("look_at_any", e, 1.0, || Rotation3::look_at_any(k));
    o.near("linear look_at_any", e, 1.0, || Linear::look_at_any(k));
    let x = k.cross(u);
    if x.into_array().iter().any(|x| x.abs() > T::of(0.1)) {
        o.near("linear look_at", e, 1.0, || Linear::look_at(k, u));
    }
}

// ---- random distributions ----
#[cfg(feature = "extras")]
struct Words(Rng64);
#[cfg(feature = "extras")]
impl RngCore for Words {
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn next_u32(&mut self) -> u32 {
        (self.0.next() >> 32) as u32
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.0.next() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
#[cfg(feature = "extras")]
/// The generator's own words.
struct Raw;
#[cfg(feature = "extras")]
impl Distribution<u32> for Raw {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> u32 {
        r.next_u32()
    }
}
#[cfg(feature = "extras")]
fn draws<T: Fl + Bits + NormL1>(c: &mut Cx, o: &mut Out)
where
    Normal: Distribution<T> + Distribution<Complex<T>> + Distribution<Quaternion<T>> + Distribution<Shift<T, 2>> + Distribution<Scale<T>> + Distribution<Affine<T, 2>>,
    Normal: Distribution<Matrix<T, 2, 3>> + Distribution<Linear<T, 2>>,
    NonZero: Distribution<Vector<T, 3>> + Distribution<Complex<T>> + Distribution<Quaternion<T>>,
    Unit: Distribution<Vector<T, 3>> + Distribution<Complex<T>> + Distribution<Quaternion<T>>,
    Uniform: Distribution<Rotation2<T>> + Distribution<Rotation3<T>>,
    Invertible: Distribution<Matrix<T, 3, 3>> + Distribution<Linear<T, 2>> + Distribution<Affine<T, 2>> + Distribution<Moebius<Complex<T>>>,
{
    let seed = c.s.bits();
    c.show(|| format!("generator {:x}", seed));
    c.nontrivial(true);
    let r = || Words(Rng64::new(seed));
    macro_rules! d {
        ($($tag:literal: $d:expr => $X:ty),* $(,)?) => {$(
            o.extra(|o| o.near($tag, T::EPS, 1.0, || {
                let mut r = r();
                let x: $X = r.sample(&$d);
                x
            }));
            // the same number of words is used
            o.extra(|o| o.exact(concat!($tag, ": words"), || {
                let mut r = r();
                let _: $X = r.sample(&$d);
                r.next_u64()
            }));
        )*};
    }
    d!("normal": Normal => T, "normal complex": Normal => Complex<T>, "normal quaternion": Normal => Quaternion<T>, "normal shift": Normal => Shift<T, 2>, "normal scale": Normal => Scale<T>,
        "normal affine": Normal => Affine<T, 2>, "normal matrix": Normal => Matrix<T, 2, 3>, "normal linear": Normal => Linear<T, 2>,
        "nonzero vector": NonZero => Vector<T, 3>, "nonzero complex": NonZero => Complex<T>, "nonzero quaternion": NonZero => Quaternion<T>,
        "unit vector": Unit => Vector<T, 3>, "unit complex": Unit => Complex<T>, "unit quaternion": Unit => Quaternion<T>,
        "planar rotation": Uniform => Rotation2<T>, "spatial rotation": Uniform => Rotation3<T>,
        "invertible matrix": Invertible => Matrix<T, 3, 3>, "invertible linear": Invertible => Linear<T, 2>, "invertible affine": Invertible => Affine<T, 2>, "invertible moebius": Invertible => Moebius<Complex<T>>,
        "vector of words": VectorDistribution::new(Raw) => Vector<u32, 5>, "matrix of words": MatrixDistribution::new(Raw) => Matrix<u32, 2, 3>);
}
/// Only the same choices: this build has no distributions.
#[cfg(not(feature = "extras"))]
fn draws<T: Fl>(c: &mut Cx, _: &mut Out) {
    let seed = c.s.bits();
    c.show(|| format!("generator {:x}", seed));
    c.nontrivial(true);
}

pub fn jobs() -> Vec<(String, u64, Job)> {
    let mut v: Vec<(String, u64, Job)> = Vec::new();
    macro_rules! add {
        ($($name:expr, $n:expr, $f:expr;)*) => {$( v.push(($name.to_string(), $n, $f)); )*};
    }
    macro_rules! floats {
        ($($t:ident)*) => {$(
            let n = |s: &str| format!("{} {}", s, stringify!($t));
            add!(
                n("vector 1"), 150, vector_floats::<$t, 1>;
                n("vector 2"), 150, vector_floats::<$t, 2>;
                n("vector 3"), 250, vector_floats::<$t, 3>;
                n("vector 4"), 250, vector_floats::<$t, 4>;
                n("vector 9"), 100, vector_floats::<$t, 9>;
                n("cross"), 400, crosses::<$t>;
                n("matrix 2x3"), 150, matrix_floats::<$t, 2, 3>;
                n("matrix 3x3"), 150, matrix_floats::<$t, 3, 3>;
                n("matrix 4x1"), 150, matrix_floats::<$t, 4, 1>;
                n("square 1"), 200, square_floats::<$t, 1>;
                n("square 2"), 400, square_floats::<$t, 2>;
                n("square 3"), 600, square_floats::<$t, 3>;
                n("square 4"), 400, square_floats::<$t, 4>;
                n("square 5"), 60, square_floats::<$t, 5>;
                n("rows 3"), 100, rows3::<$t>;
                n("rows 5"), 100, rows5::<$t>;
                n("complex functions"), 1500, complex_functions::<$t>;
                n("moebius"), 600, moebius_maps::<$t>;
                n("shift 3"), 200, maps::<Shift<$t, 3>, Vector<$t, 3>>;
                n("scale 3"), 200, maps::<Scale<$t>, Vector<$t, 3>>;
                n("linear 2"), 300, maps::<Linear<$t, 2>, Vector<$t, 2>>;
                n("linear 3"), 300, maps::<Linear<$t, 3>, Vector<$t, 3>>;
                n("planar rotation"), 300, maps::<Rotation2<$t>, Vector<$t, 2>>;
                n("spatial rotation"), 300, maps::<Rotation3<$t>, Vector<$t, 3>>;
                n("affine 2"), 300, maps::<Affine<$t, 2>, Vector<$t, 2>>;
                n("affine 3"), 300, maps::<Affine<$t, 3>, Vector<$t, 3>>;
                n("directions of shift 3"), 200, directions::<Shift<$t, 3>, Vector<$t, 3>>;
                n("directions of scale 2"), 200, directions::<Scale<$t>, Vector<$t, 2>>;
                n("directions of linear 3"), 300, directions::<Linear<$t, 3>, Vector<$t, 3>>;
                n("directions of planar rotation"), 200, directions::<Rotation2<$t>, Vector<$t, 2>>;
                n("directions of spatial rotation"), 200, directions::<Rotation3<$t>, Vector<$t, 3>>;
                n("directions of affine 3"), 300, directions::<Affine<$t, 3>, Vector<$t, 3>>;
                n("shift and scale"), 200, pairs::<Shift<$t, 3>, Scale<$t>, Vector<$t, 3>>;
                n("shift and linear"), 200, pairs::<Shift<$t, 3>, Linear<$t, 3>, Vector<$t, 3>>;
                n("shift and planar rotation"), 200, pairs::<Shift<$t, 2>, Rotation2<$t>, Vector<$t, 2>>;
                n("shift and spatial rotation"), 200, pairs::<Shift<$t, 3>, Rotation3<$t>, Vector<$t, 3>>;
                n("conversions"), 300, conversions::<$t>;
                n("rotations"), 1500, rotations::<$t>;
                n("distributions"), 600, draws::<$t>;
            );
        )*};
    }
    floats!(f64 f32);
    macro_rules! wides {
        ($(($m:literal, $n:literal)),*) => {$( v.push((concat!("shape ", $m, "x", $n).to_string(), 20, wide::<f64, $m, $n>)); )*};
    }
    wides!((1, 5), (5, 1), (1, 6), (6, 2), (2, 7), (7, 2), (3, 8), (8, 3), (3, 9), (9, 4), (5, 5), (6, 6), (7, 7), (8, 8), (9, 9), (12, 12), (4, 10), (11, 4), (2, 16), (16, 2), (17, 3), (3, 17), (1, 33), (33, 2), (2, 65), (16, 16), (0, 2), (2, 0));
    add!(
        "algebra f64", 800, algebra_f64;
        "algebra f32", 800, algebra_f32;
        "field square 3", 300, square_field::<3>;
        "field square 4", 200, square_field::<4>;
        "field square 5", 60, square_field::<5>;
        "field algebra", 400, field_algebra;
        "field affine 3", 200, maps::<Affine<F, 3>, Vector<F, 3>>;
        "field linear 4", 150, maps::<Linear<F, 4>, Vector<F, 4>>;
        "field shift and rotation", 200, pairs::<Shift<F, 3>, Rotation3<F>, Vector<F, 3>>;
        "i32 3", 300, ints_i32::<3>;
        "i32 1", 100, ints_i32::<1>;
        "u8 4", 300, ints_u8::<4>;
        "u8 2", 200, ints_u8::<2>;
        "i8 2", 300, ints_i8::<2>;
        "i64 2", 300, ints_i64::<2>;
        "u64 5", 200, ints_u64::<5>;
        "containers 2x3", 200, containers::<2, 3>;
        "containers 3x2", 200, containers::<3, 2>;
        "containers 4x4", 200, containers::<4, 4>;
        "containers 1x7", 200, containers::<1, 7>;
        "containers 0x3", 40, containers::<0, 3>;
        "containers 3x0", 40, containers::<3, 0>;
        "containers 8x1", 100, containers::<8, 1>;
        "containers 6x5", 100, containers::<6, 5>;
    );
    v
}