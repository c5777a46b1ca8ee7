//! C32: random distributions keep their promises for any generator output.
use num_traits::{Float, Zero};
use rand::{distributions::Distribution, Error, Rng, RngCore};
use std::cell::Cell;
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    distr::{Invertible, NonZero, Normal, Uniform, Unit},
    matrix::MatrixDistribution,
    traits::NormL1,
    transform::{Affine, Linear, Rotation2, Rotation3, Scale, Shift},
    vector::VectorDistribution,
    Matrix, Vector,
};
use vh::{engine::*, ensure, gen::Fl};

/// A scripted prefix, then good random words.
struct Stream {
    prefix: Vec<u64>,
    pos: usize,
    rest: Rng64,
}
const BUDGET: usize = 100_000;
impl RngCore for Stream {
    fn next_u64(&mut self) -> u64 {
        self.pos += 1;
        assert!(self.pos < BUDGET, "no sample after {} words of randomness", BUDGET);
        match self.prefix.get(self.pos - 1) {
            Some(x) => *x,
            None => self.rest.next(),
        }
    }
    fn next_u32(&mut self) -> u32 {
        // the high half: the same word means about the same number for either float type
        (self.next_u64() >> 32) as u32
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
fn word(c: &mut Cx, last: u64) -> u64 {
    const H: u64 = 1 << 63;
    match c.s.below(12) {
        0 | 1 => 0,
        2 => !0,
        3 => H,
        // close to one half: the cosine of the phase almost vanishes
        4 => H.wrapping_add((c.s.zigzag(8) as u64) << 12),
        5 => H.wrapping_add((c.s.zigzag(8) as u64) << 41),
        6 => c.s.below(9) << 12,
        7 => c.s.below(9) << 41,
        8 => last,
        9 => (!0) << c.s.below(64),
        _ => c.s.bits(),
    }
}
fn stream(c: &mut Cx) -> Stream {
    let n = c.s.idx(40);
    let mut p: Vec<u64> = Vec::new();
    // a repeated pattern, or words on their own
    let period = if c.s.bool() { 1 + c.s.idx(6) } else { 0 };
    for i in 0..n {
        let w = if period > 0 && i >= period { p[i - period] } else { word(c, p.last().copied().unwrap_or(0)) };
        p.push(w);
    }
    let seed = c.s.bits();
    c.nontrivial(n >= 4);
    Stream { prefix: p, pos: 0, rest: Rng64::new(seed) }
}
/// Components of what is sampled.
trait Flat {
    type T: Fl;
    fn flat(&self) -> Vec<Self::T>;
}
macro_rules! scalar {
    ($($t:ty),*) => {$(
        impl Flat for $t {
            type T = $t;
            fn flat(&self) -> Vec<$t> {
                vec![*self]
            }
        }
    )*};
}
scalar!(f32, f64);
impl<T: Fl, const N: usize> Flat for Vector<T, N> {
    type T = T;
    fn flat(&self) -> Vec<T> {
        self.as_array().to_vec()
    }
}
impl<T: Fl, const M: usize, const N: usize> Flat for Matrix<T, M, N> {
    type T = T;
    fn flat(&self) -> Vec<T> {
        self.into_array_of_arrays().iter().flatten().copied().collect()
    }
}
impl<T: Fl> Flat for Complex<T> {
    type T = T;
    fn flat(&self) -> Vec<T> {
        self.into_array().to_vec()
    }
}
impl<T: Fl> Flat for Quaternion<T> {
    type T = T;
    fn flat(&self) -> Vec<T> {
        self.into_array().to_vec()
    }
}
impl<T: Fl, const N: usize> Flat for Shift<T, N> {
    type T = T;
    fn flat(&self) -> Vec<T> {
        self.into_vector().flat()
    }
}
impl<T: Fl> Flat for Scale<T> {
    type T = T;
    fn flat(&self) -> Vec<T> {
        vec![self.into_mag()]
    }
}
impl<T: Fl, const N: usize> Flat for Linear<T, N> {
    type T = T;
    fn flat(&self) -> Vec<T> {
        self.into_matrix().flat()
    }
}
impl<T: Fl, const N: usize> Flat for Affine<T, N> {
    type T = T;
    fn flat(&self) -> Vec<T> {
        let mut v = self.linear().flat();
        v.extend(self.shift().flat());
        v
    }
}
impl<T: Fl> Flat for Rotation2<T> {
    type T = T;
    fn flat(&self) -> Vec<T> {
        self.into_complex().flat()
    }
}
impl<T: Fl> Flat for Rotation3<T> {
    type T = T;
    fn flat(&self) -> Vec<T> {
        self.into_quaternion().flat()
    }
}
fn norm<X: Flat>(x: &X) -> f64 {
    x.flat().iter().map(|t| t.f() * t.f()).sum::<f64>().sqrt()
}
/// A few samples from one stream.
fn draw<X: Flat + std::fmt::Debug, D: Distribution<X>>(c: &mut Cx, d: D, ok: impl Fn(&X) -> Res) -> Res {
    let mut s = stream(c);
    let k = 1 + c.s.idx(4);
    c.show(|| format!("words {:x?} then random, sample {}", s.prefix, k));
    let mut rejected = false;
    for i in 0..k {
        let from = s.pos;
        let x = s.sample(&d);
        rejected |= s.pos - from > 2 * x.flat().len();
        ensure!(x.flat().iter().all(|t| t.is_finite()), "sample {} is not finite: {:?}", i, x);
        if let Err(f) = ok(&x) {
            return Err(Fail::new(format!("sample {}, {:?}: {}", i, x, f.msg)));
        }
    }
    c.label_if(rejected, "some draw rejected");
    Ok(())
}
fn normal<X: Flat + std::fmt::Debug>(c: &mut Cx) -> Res
where
    Normal: Distribution<X>,
{
    draw::<X, _>(c, Normal, |_| Ok(()))
}
fn nonzero<X: Flat + std::fmt::Debug>(c: &mut Cx) -> Res
where
    NonZero: Distribution<X>,
{
    draw::<X, _>(c, NonZero, |x| {
        ensure!(norm(x) > X::T::EPS * (1.0 - 1e-6), "norm {:e}", norm(x));
        Ok(())
    })
}
fn is_unit<X: Flat>(x: &X) -> Res {
    ensure!((norm(x) - 1.0).abs() <= 16.0 * X::T::EPS, "norm {:e}", norm(x));
    Ok(())
}
fn unit<X: Flat + std::fmt::Debug>(c: &mut Cx) -> Res
where
    Unit: Distribution<X>,
{
    draw::<X, _>(c, Unit, is_unit)
}
fn rotation<X: Flat + std::fmt::Debug>(c: &mut Cx) -> Res
where
    Uniform: Distribution<X>,
{
    draw::<X, _>(c, Uniform, is_unit)
}
fn big_det<T: Fl, const N: usize>(m: Matrix<T, N, N>) -> Res {
    ensure!(m.det().f().abs() > T::EPS, "determinant {:e}", m.det().f());
    Ok(())
}
fn invertible<T: Fl + NormL1, const N: usize>(c: &mut Cx) -> Res
where
    Invertible: Distribution<Matrix<T, N, N>> + Distribution<Linear<T, N>> + Distribution<Affine<T, N>>,
{
    match c.s.below(3) {
        0 => draw::<Matrix<T, N, N>, _>(c, Invertible, |m| big_det(*m)),
        1 => draw::<Linear<T, N>, _>(c, Invertible, |m| big_det(m.into_matrix())),
        _ => draw::<Affine<T, N>, _>(c, Invertible, |m| big_det(m.linear().into_matrix())),
    }
}
fn moebius<T: Fl + NormL1>(c: &mut Cx) -> Res
where
    Invertible: Distribution<Moebius<T>> + Distribution<Moebius<Complex<T>>> + Distribution<Matrix<Complex<T>, 3, 3>>,
{
    let mut s = stream(c);
    let k = c.s.below(3);
    c.show(|| format!("words {:x?} then random, kind {}", s.prefix, k));
    let z: [f64; 2] = match k {
        0 => {
            let m: Moebius<T> = s.sample(&Invertible);
            [m.det().f(), 0.0]
        }
        1 => {
            let m: Moebius<Complex<T>> = s.sample(&Invertible);
            m.det().into_array().map(|x| x.f())
        }
        _ => {
            let m: Matrix<Complex<T>, 3, 3> = s.sample(&Invertible);
            m.det().into_array().map(|x| x.f())
        }
    };
    ensure!(z[0].is_finite() && z[1].is_finite() && z[0].abs() + z[1].abs() > T::EPS, "determinant {:?}", z);
    Ok(())
}

/// Hands out 1, 2, 3 and so on.
struct Count<'a>(&'a Cell<u32>);
impl Distribution<u32> for Count<'_> {
    fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> u32 {
        self.0.set(self.0.get() + 1);
        self.0.get()
    }
}
fn separate(c: &mut Cx, what: &str, v: Vec<u32>, from: u32, drawn: u32) -> Res {
    let mut s = v.clone();
    s.sort();
    s.dedup();
    c.nontrivial(v.len() > 1);
    ensure!(s.len() == v.len(), "{}: components share draws: {:?}", what, v);
    ensure!(v.iter().enumerate().all(|(i, x)| *x == from + 1 + i as u32), "{}: not drawn once each in order, from {}: {:?}", what, from + 1, v);
    ensure!(v.iter().all(|x| *x > from && *x <= drawn), "{}: not drawn for this sample: {:?}", what, v);
    Ok(())
}
fn components<const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let n = Cell::new(c.s.below(100) as u32);
    let mut s = stream(c);
    for _ in 0..2 {
        let from = n.get();
        let v: Vector<u32, N> = s.sample(&VectorDistribution::new(Count(&n)));
        separate(c, "vector", v.as_array().to_vec(), from, n.get())?;
        let from = n.get();
        let d = MatrixDistribution::new(Count(&n));
        let m: Matrix<u32, M, N> = s.sample(&d);
        separate(c, "matrix", m.into_array_of_arrays().iter().flatten().copied().collect(), from, n.get())?;
    }
    c.show(|| format!("{} x {}, {} draws", M, N, n.get()));
    Ok(())
}
/// The inner distribution sees the words of the generator that samples the whole.
struct Words;
impl Distribution<u64> for Words {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> u64 {
        r.next_u64()
    }
}
fn words<const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let mut s = stream(c);
    // distinct words
    for (i, x) in s.prefix.iter_mut().enumerate() {
        *x = (*x << 8) | i as u64;
    }
    c.show(|| format!("{:x?}", s.prefix));
    let v: Vector<u64, N> = s.sample(&VectorDistribution::new(Words));
    let at = s.pos;
    let m: Matrix<u64, M, N> = s.sample(&MatrixDistribution::new(Words));
    let flat: Vec<u64> = m.into_array_of_arrays().iter().flatten().copied().collect();
    for (what, got, from) in [("vector", v.as_array().to_vec(), 0), ("matrix", flat, at)] {
        for x in got.iter() {
            let n = got.iter().filter(|y| *y == x).count();
            ensure!(n == 1, "{}: one word used {} times: {:x?}", what, n, got);
        }
        if from + got.len() <= s.prefix.len() {
            let all = &s.prefix[from..];
            ensure!(got.iter().all(|x| all.contains(x)), "{}: words that the generator did not yield: {:x?}", what, got);
        }
    }
    let _ = v.is_zero();
    Ok(())
}
macro_rules! all {
    ($p:ident; $($t:ident)*) => {$(
        let n = |s: &str| format!("{} {}", s, stringify!($t));
        $p.sub(n("normal scalar"), 800, normal::<$t>);
        $p.sub(n("normal vector 0"), 20, normal::<Vector<$t, 0>>);
        $p.sub(n("normal vector 3"), 400, normal::<Vector<$t, 3>>);
        $p.sub(n("normal matrix 2x3"), 400, normal::<Matrix<$t, 2, 3>>);
        $p.sub(n("normal complex"), 400, normal::<Complex<$t>>);
        $p.sub(n("normal quaternion"), 400, normal::<Quaternion<$t>>);
        $p.sub(n("normal shift 2"), 200, normal::<Shift<$t, 2>>);
        $p.sub(n("normal scale"), 200, normal::<Scale<$t>>);
        $p.sub(n("normal linear 3"), 200, normal::<Linear<$t, 3>>);
        $p.sub(n("normal affine 2"), 200, normal::<Affine<$t, 2>>);
        $p.sub(n("nonzero vector 1"), 3000, nonzero::<Vector<$t, 1>>);
        $p.sub(n("nonzero vector 2"), 2000, nonzero::<Vector<$t, 2>>);
        $p.sub(n("nonzero vector 3"), 2000, nonzero::<Vector<$t, 3>>);
        $p.sub(n("nonzero vector 6"), 1000, nonzero::<Vector<$t, 6>>);
        $p.sub(n("nonzero complex"), 2000, nonzero::<Complex<$t>>);
        $p.sub(n("nonzero quaternion"), 2000, nonzero::<Quaternion<$t>>);
        $p.sub(n("unit vector 1"), 2000, unit::<Vector<$t, 1>>);
        $p.sub(n("unit vector 2"), 2000, unit::<Vector<$t, 2>>);
        $p.sub(n("unit vector 3"), 2000, unit::<Vector<$t, 3>>);
        $p.sub(n("unit vector 5"), 1000, unit::<Vector<$t, 5>>);
        $p.sub(n("unit complex"), 2000, unit::<Complex<$t>>);
        $p.sub(n("unit quaternion"), 2000, unit::<Quaternion<$t>>);
        $p.sub(n("uniform planar rotation"), 3000, rotation::<Rotation2<$t>>);
        $p.sub(n("uniform spatial rotation"), 3000, rotation::<Rotation3<$t>>);
        $p.sub(n("invertible 1"), 3000, invertible::<$t, 1>);
        $p.sub(n("invertible 2"), 3000, invertible::<$t, 2>);
        $p.sub(n("invertible 3"), 3000, invertible::<$t, 3>);
        $p.sub(n("invertible 4"), 1500, invertible::<$t, 4>);
        $p.sub(n("invertible moebius"), 3000, moebius::<$t>);
    )*};
}
fn main() {
    let mut p = Prop::new("C32", "the generator yields at least four scripted words (component-wise: more than one component)");
    all!(p; f64 f32);
    p.sub("components 2x3", 300, components::<2, 3>);
    p.sub("components 4x1", 300, components::<4, 1>);
    p.sub("components 1x9", 300, components::<1, 9>);
    p.sub("components 0x2", 20, components::<0, 2>);
    p.sub("components 5x4", 300, components::<5, 4>);
    p.sub("words 3x3", 300, words::<3, 3>);
    p.sub("words 2x5", 300, words::<2, 5>);
    p.sub("components 9x4", 100, components::<9, 4>);
    p.sub("components 2x17", 100, components::<2, 17>);
    p.sub("components 17x1", 100, components::<17, 1>);
    p.sub("components 8x8", 100, components::<8, 8>);
    p.sub("components 3x33", 50, components::<3, 33>);
    p.sub("components 16x16", 20, components::<16, 16>);
    p.sub("components 2x300", 5, components::<2, 300>);
    p.sub("words 4x9", 100, words::<4, 9>);
    p.sub("words 2x17", 50, words::<2, 17>);
    p.sub("words 8x8", 50, words::<8, 8>);
    p.main();
}
