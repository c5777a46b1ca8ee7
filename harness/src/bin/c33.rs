//! C33: random distributions have the documented shape.
//!
//! Every case draws many samples and compares empirical distributions with exact ones: thresholds are
//! Dvoretzky-Kiefer-Wolfowitz and seven sigma, so that a case of a right distribution fails with a
//! probability of about 1e-11.
use rand::{distributions::Distribution, Error, Rng, RngCore};
use vecmat::{
    complex::{Complex, Quaternion},
    distr::{Normal, Uniform, Unit},
    transform::{Affine, Linear, Rotation2, Rotation3, Scale, Shift},
    Matrix, Transform, Vector,
};
use vh::{alg, engine::*, ensure, gen, gen::Fl};

struct Good(Rng64);
impl RngCore for Good {
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn next_u32(&mut self) -> u32 {
        (self.0.next() >> 32) as u32
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.0.next() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
const N: usize = 20_000;

/// Error function by its series and continued fraction.
fn erf(x: f64) -> f64 {
    let a = x.abs();
    let r = if a < 2.5 {
        // series
        let (mut t, mut s, mut n) = (a, a, 0.0);
        while t.abs() > 1e-17 {
            n += 1.0;
            t *= -a * a / n;
            s += t / (2.0 * n + 1.0);
        }
        s * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        let mut f = a;
        for k in (1..60).rev() {
            f = a + k as f64 / 2.0 / f;
        }
        1.0 - (-a * a).exp() / f / std::f64::consts::PI.sqrt()
    };
    r.copysign(x)
}
fn phi(x: f64) -> f64 {
    0.5 * (1.0 + erf(x / std::f64::consts::SQRT_2))
}
/// Distribution of one coordinate of a uniform point of the unit sphere in `n` dimensions.
fn sphere(n: usize, x: f64) -> f64 {
    let x = x.clamp(-1.0, 1.0);
    let pi = std::f64::consts::PI;
    match n {
        2 => 1.0 - x.acos() / pi,
        3 => (1.0 + x) / 2.0,
        4 => 1.0 - (x.acos() - x * (1.0 - x * x).sqrt()) / pi,
        5 => 0.5 + 0.75 * (x - x * x * x / 3.0),
        _ => {
            // the integral of sin^(n-2) from the pole
            let part = |t: f64| {
                let mut i = if n % 2 == 0 { t } else { 1.0 - t.cos() };
                for k in (if n % 2 == 0 { 2 } else { 3 }..=n - 2).step_by(2) {
                    let k = k as i32;
                    i = ((k - 1) as f64 * i - t.sin().powi(k - 1) * t.cos()) / k as f64;
                }
                i
            };
            1.0 - part(x.acos()) / part(pi)
        }
    }
}
/// Largest distance between the empirical distribution of the values and `cdf`.
fn ks(what: &str, mut v: Vec<f64>, cdf: impl Fn(f64) -> f64) -> Res {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    let n = v.len() as f64;
    let mut d: f64 = 0.0;
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j] == v[i] {
            j += 1;
        }
        let c = cdf(v[i]);
        d = d.max((c - i as f64 / n).abs()).max((j as f64 / n - c).abs());
        i = j;
    }
    let lim = 3.6 / n.sqrt();
    ensure!(d <= lim, "{}: distance {:.4} from the right distribution (at most {:.4} is chance), {} samples", what, d, lim, v.len());
    Ok(())
}
/// Pairs of values are independent: cells of a grid of quartiles.
fn cells(what: &str, pairs: impl Iterator<Item = (f64, f64)>) -> Res {
    let mut c = [[0usize; 4]; 4];
    let mut n = 0;
    let q = |u: f64| ((u * 4.0) as usize).min(3);
    for (a, b) in pairs {
        c[q(a)][q(b)] += 1;
        n += 1;
    }
    let (e, s) = (n as f64 / 16.0, (n as f64 * 15.0).sqrt() / 16.0);
    for r in &c {
        for k in r {
            ensure!((*k as f64 - e).abs() <= 7.0 * s + 1.0, "{}: counts of a grid of quartiles {:?}, expected about {:.0} each", what, c, e);
        }
    }
    Ok(())
}
/// `k` of `n` independent events of probability `p`: neither tail is below 1e-12 (Chernoff).
fn count(what: &str, k: usize, n: usize, p: f64) -> Res {
    let (m, q) = (n as f64, k as f64 / n as f64);
    let part = |q: f64, p: f64| if q == 0.0 { 0.0 } else { q * (q / p).ln() };
    let far = m * (part(q, p) + part(1.0 - q, 1.0 - p));
    ensure!(far <= 27.6, "{}: {} of {} samples, expected about {:.1}", what, k, n, m * p);
    Ok(())
}
/// Signs of a few components are independent and even.
fn signs(what: &str, s: &[Vec<f64>], pick: &[usize]) -> Res {
    let mut k = vec![0usize; 1 << pick.len()];
    for v in s {
        k[pick.iter().fold(0, |a, i| 2 * a + (v[*i] > 0.0) as usize)] += 1;
    }
    for (i, n) in k.iter().enumerate() {
        count(&format!("{}sign pattern {:b} of components {:?}", what, i, pick), *n, s.len(), 1.0 / k.len() as f64)?;
    }
    Ok(())
}
/// Each component is the largest (in magnitude) as often as any other.
fn largest(what: &str, s: &[Vec<f64>]) -> Res {
    let n = s[0].len();
    let mut k = vec![0usize; n];
    for v in s {
        k[(0..n).fold(0, |a, i| if v[i].abs() > v[a].abs() { i } else { a })] += 1;
    }
    for (i, m) in k.iter().enumerate() {
        if n > 1 {
            count(&format!("{}component {} is the largest", what, i), *m, s.len(), 1.0 / n as f64)?;
        }
    }
    Ok(())
}
/// Thresholds of magnitude, and how often a value of a symmetric distribution function is beyond.
struct Tails {
    at: Vec<f64>,
    beyond: Vec<usize>,
    all: usize,
}
impl Tails {
    fn new(at: &[f64]) -> Self {
        Tails { at: at.to_vec(), beyond: vec![0; at.len()], all: 0 }
    }
    fn add(&mut self, x: f64) {
        self.all += 1;
        for (t, k) in self.at.iter().zip(&mut self.beyond) {
            *k += (x.abs() > *t) as usize;
        }
    }
    /// `beyond(t)` is the chance of a magnitude above `t`; small thresholds are judged by what is within.
    fn judge(&self, what: &str, beyond: impl Fn(f64) -> f64) -> Res {
        for (t, k) in self.at.iter().zip(&self.beyond) {
            count(&format!("{}: magnitude above {}", what, t), *k, self.all, beyond(*t))?;
        }
        Ok(())
    }
}
trait Flat {
    fn flat(&self) -> Vec<f64>;
}
macro_rules! flat {
    ($([$($g:tt)*] $t:ty => |$s:ident| $e:expr;)*) => {$(
        impl<$($g)*> Flat for $t {
            fn flat(&self) -> Vec<f64> {
                let $s = self;
                $e
            }
        }
    )*};
}
fn fs<T: Fl>(v: &[T]) -> Vec<f64> {
    v.iter().map(|x| x.f()).collect()
}
flat! {
    [] f32 => |s| vec![*s as f64];
    [] f64 => |s| vec![*s];
    [T: Fl, const N: usize] Vector<T, N> => |s| fs(s.as_array());
    [T: Fl, const M: usize, const N: usize] Matrix<T, M, N> => |s| s.into_array_of_arrays().iter().flatten().map(|x| x.f()).collect();
    [T: Fl] Complex<T> => |s| fs(&s.into_array());
    [T: Fl] Quaternion<T> => |s| fs(&s.into_array());
    [T: Fl, const N: usize] Shift<T, N> => |s| s.into_vector().flat();
    [T: Fl] Scale<T> => |s| vec![s.into_mag().f()];
    [T: Fl, const N: usize] Linear<T, N> => |s| s.into_matrix().flat();
    [T: Fl, const N: usize] Affine<T, N> => |s| { let mut v = s.linear().flat(); v.extend(s.shift().flat()); v };
}
fn samples<X: Flat, D: Distribution<X>>(c: &mut Cx, d: D) -> Vec<Vec<f64>> {
    let seed = c.s.bits();
    let mut r = Good(Rng64::new(seed));
    c.show(|| format!("{} samples of the generator seeded with {}", N, seed));
    c.nontrivial(true);
    (0..N).map(|_| r.sample(&d).flat()).collect()
}
fn direction(c: &mut Cx, n: usize) -> Vec<f64> {
    let v: Vec<f64> = (0..n).map(|_| gen::unit_f64(&mut c.s)).collect();
    let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    if l < 1e-3 {
        return (0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect();
    }
    v.iter().map(|x| x / l).collect()
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
fn is_normal(c: &mut Cx, s: Vec<Vec<f64>>) -> Res {
    let n = s[0].len();
    for k in 0..n.min(8) {
        let i = if n <= 8 { k } else { c.s.idx(n) };
        ks(&format!("component {}", i), s.iter().map(|v| v[i]).collect(), phi)?;
    }
    let u = direction(c, n);
    ks(&format!("projection on {:?}", u), s.iter().map(|v| dot(v, &u)).collect(), phi)?;
    let between = |i: usize, j: usize| cells(&format!("components {} and {}", j, i), s.iter().map(|v| (phi(v[j]), phi(v[i]))));
    for i in 0..n {
        for j in 0..i {
            if n <= 8 {
                between(i, j)?;
            }
        }
    }
    if n > 8 {
        for _ in 0..8 {
            let (i, j) = (c.s.idx(n), c.s.idx(n));
            if i != j {
                between(i, j)?;
            }
        }
    }
    for _ in 0..if n > 6 { 5 } else { 1 } {
        let first = c.s.idx(n);
        let step = 1 + c.s.idx(if n > 6 { n / 6 } else { 1 });
        let pick: Vec<usize> = (0..n.min(6)).map(|i| (first + i * step) % n).collect();
        signs("", &s, &pick)?;
    }
    largest("", &s)?;
    let half = |v: &Vec<f64>| dot(v, v) / 2.0;
    if n == 2 {
        ks("length", s.iter().map(half).collect(), |x| 1.0 - (-x).exp())?;
    } else if n == 4 {
        ks("length", s.iter().map(half).collect(), |x| 1.0 - (1.0 + x) * (-x).exp())?;
    }
    let (i, j) = (c.s.idx(n), c.s.idx(n));
    cells(&format!("component {} and the next sample's component {}", i, j), s.chunks(2).map(|w| (phi(w[0][i]), phi(w[1][j]))))
}
fn normal<X: Flat>(c: &mut Cx) -> Res
where
    Normal: Distribution<X>,
{
    let s = samples::<X, _>(c, Normal);
    is_normal(c, s)
}
fn on_sphere(c: &mut Cx, what: &str, s: &[Vec<f64>]) -> Res {
    let n = s[0].len();
    for i in 0..n {
        ks(&format!("{}component {}", what, i), s.iter().map(|v| v[i]).collect(), |x| sphere(n, x))?;
    }
    for _ in 0..2 {
        let u = direction(c, n);
        ks(&format!("{}projection on {:?}", what, u), s.iter().map(|v| dot(v, &u)).collect(), |x| sphere(n, x))?;
    }
    let first = c.s.idx(n);
    signs(what, s, &(0..n.min(6)).map(|i| (first + i) % n).collect::<Vec<_>>())?;
    largest(what, s)?;
    let (i, j) = (c.s.idx(n), c.s.idx(n));
    let g = |x: f64| sphere(n, x);
    cells(&format!("{}component {} and the next sample's component {}", what, i, j), s.chunks(2).map(|w| (g(w[0][i]), g(w[1][j]))))
}
fn unit<X: Flat>(c: &mut Cx) -> Res
where
    Unit: Distribution<X>,
{
    let s = samples::<X, _>(c, Unit);
    on_sphere(c, "", &s)
}
/// Plus or minus one.
fn unit1<T: Fl>(c: &mut Cx) -> Res
where
    Unit: Distribution<Vector<T, 1>>,
{
    let s = samples::<Vector<T, 1>, _>(c, Unit);
    let k = s.iter().filter(|v| v[0] > 0.0).count() as f64;
    ensure!((k - N as f64 / 2.0).abs() < 3.5 * (N as f64).sqrt(), "{} of {} samples are positive", k, N);
    let m = s.chunks(2).filter(|w| (w[0][0] > 0.0) == (w[1][0] > 0.0)).count() as f64;
    let n = N as f64 / 2.0;
    ensure!((m - n / 2.0).abs() < 3.5 * n.sqrt(), "{} of {} pairs of samples are equal", m, n);
    Ok(())
}
fn planar<T: Fl>(c: &mut Cx) -> Res
where
    Uniform: Distribution<Rotation2<T>>,
{
    let seed = c.s.bits();
    let mut r = Good(Rng64::new(seed));
    let v: [T; 2] = gen::unit_vec::<2>(&mut c.s).map(T::of);
    c.show(|| format!("{} rotations of {:?}, seed {}", N, v, seed));
    c.nontrivial(true);
    let rs: Vec<Rotation2<T>> = (0..N).map(|_| r.sample(&Uniform)).collect();
    let s: Vec<Vec<f64>> = rs.iter().map(|q| q.apply(Vector::from(v)).flat()).collect();
    on_sphere(c, "image's ", &s)?;
    let pi = std::f64::consts::PI;
    ks("angle", rs.iter().map(|q| q.angle().f()).collect(), |x| (x + pi) / 2.0 / pi)
}
fn spatial<T: Fl>(c: &mut Cx) -> Res
where
    Uniform: Distribution<Rotation3<T>>,
{
    let seed = c.s.bits();
    let mut r = Good(Rng64::new(seed));
    let v: [T; 3] = gen::unit_vec::<3>(&mut c.s).map(T::of);
    c.show(|| format!("{} rotations of {:?}, seed {}", N, v, seed));
    c.nontrivial(true);
    let rs: Vec<Rotation3<T>> = (0..N).map(|_| r.sample(&Uniform)).collect();
    let s: Vec<Vec<f64>> = rs.iter().map(|q| q.apply(Vector::from(v)).flat()).collect();
    on_sphere(c, "image's ", &s)?;
    // the cosine of half the angle between it and any fixed rotation
    for k in 0..3 {
        let u = if k == 0 { vec![1.0, 0.0, 0.0, 0.0] } else { direction(c, 4) };
        let d = rs.iter().map(|q| dot(&alg::f64s(q.into_quaternion().into_array()), &u).abs()).collect();
        ks(&format!("closeness to the rotation {:?}", u), d, |x| 2.0 * sphere(4, x) - 1.0)?;
    }
    // images of two orthogonal vectors determine each other only through orthogonality
    let z: [T; 3] = [T::zero(), T::zero(), T::one()];
    let x: [T; 3] = [T::one(), T::zero(), T::zero()];
    let turn = |q: &Rotation3<T>| -> f64 {
        let (zz, xx) = (q.apply(Vector::from(z)).flat(), q.apply(Vector::from(x)).flat());
        // angle of the image of x around the image of z, from the direction of growing latitude
        let l = (1.0 - zz[2] * zz[2]).max(1e-30).sqrt();
        let north = [-zz[2] * zz[0] / l, -zz[2] * zz[1] / l, l];
        let east = [-zz[1] / l, zz[0] / l, 0.0];
        dot(&xx, &east).atan2(dot(&xx, &north))
    };
    let pi = std::f64::consts::PI;
    let t: Vec<f64> = rs.iter().map(turn).collect();
    cells("height and turn", rs.iter().zip(&t).map(|(q, t)| (sphere(3, q.apply(Vector::from(z)).flat()[2]), (t + pi) / 2.0 / pi)))?;
    ks("turn", t, |x| (x + pi) / 2.0 / pi)
}
/// Far and near values of a million samples.
fn tails<X: Flat>(c: &mut Cx) -> Res
where
    Normal: Distribution<X>,
{
    let seed = c.s.bits();
    let mut r = Good(Rng64::new(seed));
    c.show(|| format!("tails of normal samples, seed {}", seed));
    c.nontrivial(true);
    let mut t = Tails::new(&[1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.3, 3.6, 4.0, 4.3, 4.6]);
    let mut up = Tails::new(&[1.0, 2.0, 3.0, 4.0, 4.3]);
    for _ in 0..MANY {
        for x in r.sample::<X, _>(&Normal).flat() {
            t.add(x);
            up.add(x.max(0.0));
        }
    }
    t.judge("normal", |t| 1.0 - erf(t / std::f64::consts::SQRT_2))?;
    up.judge("normal, positive", |t| (1.0 - erf(t / std::f64::consts::SQRT_2)) / 2.0)
}
const MANY: usize = 1_000_000;
/// Neighbourhoods of the axes and of the planes between them, of a million unit vectors.
fn caps<X: Flat>(c: &mut Cx) -> Res
where
    Unit: Distribution<X>,
{
    let seed = c.s.bits();
    let mut r = Good(Rng64::new(seed));
    c.show(|| format!("caps of the sphere, seed {}", seed));
    c.nontrivial(true);
    let mut t: Vec<Tails> = Vec::new();
    let mut octant = [0; 16];
    for _ in 0..MANY / 2 {
        let v = r.sample::<X, _>(&Unit).flat();
        if t.is_empty() {
            t = v.iter().map(|_| Tails::new(&[1e-4, 1e-3, 0.01, 0.1, 0.5, 0.9, 0.95, 0.99, 0.995, 0.999, 0.9999])).collect();
        }
        t.iter_mut().zip(&v).for_each(|(t, x)| t.add(*x));
        octant[v.iter().fold(0, |a, x| 2 * a + (*x > 0.0) as usize)] += 1;
    }
    let n = t.len();
    for (i, k) in octant.iter().take(1 << n).enumerate() {
        count(&format!("unit, sign pattern {:b}", i), *k, MANY / 2, 0.5f64.powi(n as i32))?;
    }
    for (i, t) in t.iter().enumerate() {
        t.judge(&format!("unit, component {}", i), |x| 2.0 * sphere(n, -x))?;
    }
    Ok(())
}
/// The same for rotations: close to none and to half a turn.
fn turns<T: Fl>(c: &mut Cx) -> Res
where
    Uniform: Distribution<Rotation3<T>> + Distribution<Rotation2<T>>,
{
    let seed = c.s.bits();
    let mut r = Good(Rng64::new(seed));
    c.show(|| format!("small and large turns, seed {}", seed));
    c.nontrivial(true);
    let at = [1e-3, 0.01, 0.1, 0.5, 0.9, 0.95, 0.99, 0.995, 0.999];
    let mut t: Vec<Tails> = (0..6).map(|_| Tails::new(&at)).collect();
    for _ in 0..MANY / 2 {
        let q = r.sample::<Rotation3<T>, _>(&Uniform).into_quaternion().flat();
        let z = r.sample::<Rotation2<T>, _>(&Uniform).into_complex().flat();
        t.iter_mut().zip(q.iter().chain(&z)).for_each(|(t, x)| t.add(*x));
    }
    for (i, t) in t.iter().enumerate() {
        let n = if i < 4 { 4 } else { 2 };
        t.judge(&format!("{} rotation, component {}", if i < 4 { "spatial" } else { "planar" }, i % 4), |x| 2.0 * sphere(n, -x))?;
    }
    Ok(())
}
macro_rules! all {
    ($p:ident; $($t:ident)*) => {$(
        let n = |s: &str| format!("{} {}", s, stringify!($t));
        $p.sub(n("normal scalar"), 4, normal::<$t>);
        $p.sub(n("normal vector 3"), 4, normal::<Vector<$t, 3>>);
        $p.sub(n("normal matrix 2x2"), 2, normal::<Matrix<$t, 2, 2>>);
        $p.sub(n("normal complex"), 2, normal::<Complex<$t>>);
        $p.sub(n("normal quaternion"), 2, normal::<Quaternion<$t>>);
        $p.sub(n("normal shift 2"), 1, normal::<Shift<$t, 2>>);
        $p.sub(n("normal scale"), 1, normal::<Scale<$t>>);
        $p.sub(n("normal linear 2"), 1, normal::<Linear<$t, 2>>);
        $p.sub(n("normal affine 2"), 1, normal::<Affine<$t, 2>>);
        $p.sub(n("normal vector 2"), 1, normal::<Vector<$t, 2>>);
        $p.sub(n("normal vector 6"), 1, normal::<Vector<$t, 6>>);
        $p.sub(n("normal vector 17"), 1, normal::<Vector<$t, 17>>);
        $p.sub(n("normal vector 64"), 1, normal::<Vector<$t, 64>>);
        $p.sub(n("normal matrix 5x5"), 1, normal::<Matrix<$t, 5, 5>>);
        $p.sub(n("normal matrix 2x9"), 1, normal::<Matrix<$t, 2, 9>>);
        $p.sub(n("normal matrix 7x3"), 1, normal::<Matrix<$t, 7, 3>>);
        $p.sub(n("normal linear 3"), 1, normal::<Linear<$t, 3>>);
        $p.sub(n("normal affine 3"), 1, normal::<Affine<$t, 3>>);
        $p.sub(n("normal shift 4"), 1, normal::<Shift<$t, 4>>);
        $p.sub(n("tails scalar"), 1, tails::<$t>);
        $p.sub(n("caps 2"), 1, caps::<Vector<$t, 2>>);
        $p.sub(n("caps 3"), 1, caps::<Vector<$t, 3>>);
        $p.sub(n("caps quaternion"), 1, caps::<Quaternion<$t>>);
        $p.sub(n("small and large turns"), 1, turns::<$t>);
        $p.sub(n("unit vector 4"), 2, unit::<Vector<$t, 4>>);
        $p.sub(n("unit vector 1"), 2, unit1::<$t>);
        $p.sub(n("unit vector 2"), 4, unit::<Vector<$t, 2>>);
        $p.sub(n("unit vector 3"), 4, unit::<Vector<$t, 3>>);
        $p.sub(n("unit vector 5"), 2, unit::<Vector<$t, 5>>);
        $p.sub(n("unit vector 6"), 1, unit::<Vector<$t, 6>>);
        $p.sub(n("unit vector 9"), 1, unit::<Vector<$t, 9>>);
        $p.sub(n("unit vector 16"), 1, unit::<Vector<$t, 16>>);
        $p.sub(n("unit complex"), 4, unit::<Complex<$t>>);
        $p.sub(n("unit quaternion"), 4, unit::<Quaternion<$t>>);
        $p.sub(n("uniform planar rotation"), 4, planar::<$t>);
        $p.sub(n("uniform spatial rotation"), 6, spatial::<$t>);
    )*};
}
fn main() {
    let mut p = Prop::new("C33", "every case compares 20000 samples or more with the exact distribution");
    all!(p; f64 f32);
    p.main();
}
