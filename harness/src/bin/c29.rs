//! C29: derivatives, directions and normals transform consistently.
use num_traits::Zero;
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    transform::{Chain, Directional, Linear, Reorder, Rotation2, Rotation3, Scale, Shift},
    Matrix, Transform, Vector,
};
use vh::{custom::*, det::*, elems::*, engine::*, ensure, gen, gen::Fl, tf::*};

/// The derivative against its definition.
fn deriv<P: Tf<V>, V: Pt>(c: &mut Cx) -> Res {
    let p = P::gen(c);
    let (x, v, w, k) = (V::gen(c), V::gen(c), V::gen(c), V::S::coef(c));
    c.show(|| format!("{:?} at {:?} along {:?} and {:?} * {:?}", p, x, v, w, k));
    c.nontrivial(v.list().iter().filter(|t| !t.is_zero()).count() * 2 > V::DIM);
    let (Some(sv), Some(sw)) = (p.slope(x, v), p.slope(x, w)) else { return Ok(()) };
    let m = 100.0 * (1.0 + sv.size() + sw.size() + x.size());
    same("derivative", p.deriv(x, v), sv, m)?;
    same("derivative along the scaled direction", p.deriv(x, v.times(k)), sv.times(k), m)?;
    same("derivative along the sum", p.deriv(x, v.plus(&w)), sv.plus(&sw), m)
}
/// Affine maps: the derivative is the difference of images.
fn difference<P: Tf<V>, V: Pt>(c: &mut Cx) -> Res {
    let p = P::gen(c);
    let (x, v) = (V::gen(c), V::gen(c));
    c.show(|| format!("{:?} at {:?} along {:?}", p, x, v));
    c.nontrivial(v.list().iter().filter(|t| !t.is_zero()).count() * 2 > V::DIM);
    let (y, z) = (p.apply(x), p.apply(x.plus(&v)));
    same("derivative", p.deriv(x, v), z.minus(&y), 100.0 * (1.0 + y.size() + z.size()))
}
fn normalized(v: &[f64]) -> Vec<f64> {
    let m = v.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    let l = v.iter().map(|x| x / m * (x / m)).sum::<f64>().sqrt();
    v.iter().map(|x| x / m / l).collect()
}
fn check<V: Pt>(what: &str, got: V, want: &[f64], tol: f64) -> Res
where
    V::S: Fl,
{
    let g: Vec<f64> = got.list().iter().map(|x| x.f()).collect();
    ensure!(g.iter().zip(want).all(|(a, b)| (a - b).abs() <= tol), "{}: got {:?}, expected about {:?}", what, got, want);
    Ok(())
}
/// Images of the axes, as columns.
fn jacobian<P: Tf<V>, V: Pt>(p: &P, x: V) -> Option<Vec<Vec<f64>>>
where
    V::S: Fl,
{
    let mut m = vec![vec![0.0; V::DIM]; V::DIM];
    for j in 0..V::DIM {
        let e: Vec<V::S> = (0..V::DIM).map(|i| V::S::of(if i == j { 1.0 } else { 0.0 })).collect();
        for (i, t) in p.slope(x, V::make(&e))?.list().iter().enumerate() {
            m[i][j] = t.f();
        }
    }
    Some(m)
}
fn unit<V: Pt>(c: &mut Cx) -> V
where
    V::S: Fl,
{
    let v: Vec<f64> = match V::DIM {
        1 => gen::unit_vec::<1>(&mut c.s).to_vec(),
        2 => gen::unit_vec::<2>(&mut c.s).to_vec(),
        3 => gen::unit_vec::<3>(&mut c.s).to_vec(),
        4 => gen::unit_vec::<4>(&mut c.s).to_vec(),
        // a unit vector of four dimensions spread over the components of a sparse one
        n => {
            let u = gen::unit_vec::<4>(&mut c.s);
            let mut v: Vec<f64> = (0..n).map(|_| gen::unit_f64(&mut c.s) * if c.s.bool() { 1.0 } else { 0.0 }).collect();
            for x in u {
                let i = c.s.idx(n);
                v[i] += 2.0 * x;
            }
            let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            if l < 1e-3 {
                v = (0..n).map(|i| if i == 0 { 1.0 } else { 0.0 }).collect();
            } else {
                v.iter_mut().for_each(|x| *x /= l);
            }
            v
        }
    };
    let v: Vec<V::S> = v.iter().map(|x| V::S::of(*x)).collect();
    V::make(&v)
}
/// Images of a unit direction and of a unit normal.
fn judge<P: Tf<V> + Directional<V>, V: Pt>(c: &mut Cx, p: P, tol: f64) -> Res
where
    V::S: Fl,
{
    let x = V::gen(c);
    let (d, n) = (unit::<V>(c), unit::<V>(c));
    c.show(|| format!("{:?} at {:?}, direction {:?}, normal {:?}", p, x, d, n));
    let Some(m) = jacobian(&p, x) else { return Ok(()) };
    let f = |v: V| -> Vec<f64> { v.list().iter().map(|t| t.f()).collect() };
    let (df, nf) = (f(d), f(n));
    let det = leibniz(&m);
    c.label_if(det < 0.0, "reverses orientation");
    c.nontrivial(df.iter().zip(&nf).any(|(a, b)| a != b));
    let md: Vec<f64> = m.iter().map(|r| r.iter().zip(&df).map(|(a, b)| a * b).sum()).collect();
    check("direction", p.apply_dir(x, d), &normalized(&md), tol)?;
    // transpose(m) w = n
    let w: Vec<f64> = (0..V::DIM)
        .map(|j| {
            let mut a: Vec<Vec<f64>> = (0..V::DIM).map(|i| (0..V::DIM).map(|k| m[k][i]).collect()).collect();
            for i in 0..V::DIM {
                a[i][j] = nf[i];
            }
            leibniz(&a) / det
        })
        .collect();
    check("normal", p.apply_normal(x, n), &normalized(&w), tol)
}
fn tol<T: Fl>() -> f64 {
    if T::EPS < 1e-10 {
        1e-8
    } else {
        1e-2
    }
}
fn directions<P: Tf<V> + Directional<V>, V: Pt>(c: &mut Cx) -> Res
where
    V::S: Fl,
{
    let p = P::gen(c);
    judge(c, p, tol::<V::S>())
}
/// Scalings of any magnitude.
fn scales<T: Sc + Fl, const N: usize>(c: &mut Cx) -> Res
where
    Scale<T>: Directional<Vector<T, N>>,
{
    let e = if T::EPS < 1e-10 { 60 } else { 8 };
    let k = 10f64.powi(c.s.zigzag(e) as i32) * gen::away(&mut c.s);
    judge::<Scale<T>, Vector<T, N>>(c, Scale::from_mag(T::of(k)), tol::<T>())
}
/// Reflections, shears, stretches, and products of these, symmetric matrices, circulants and the like, with or without a
/// shift.
fn shapes<T: Sc + Fl, const N: usize>(c: &mut Cx) -> Res
where
    Linear<T, N>: Directional<Vector<T, N>>,
    Shift<T, N>: Directional<Vector<T, N>> + Reorder<Linear<T, N>, Vector<T, N>>,
    Chain<Shift<T, N>, Linear<T, N>, Vector<T, N>>: Directional<Vector<T, N>>,
{
    let mut m = [[0.0; N]; N];
    for (i, r) in m.iter_mut().enumerate() {
        r[i] = 1.0;
    }
    let mut steps = 1 + c.s.idx(3);
    if c.s.chance(1, 3) {
        let a = gen::structured::<f64, N, N>(&mut c.s);
        let b: Vec<Vec<f64>> = a.iter().map(|r| r.to_vec()).collect();
        if leibniz(&b).abs() > 0.5 {
            m = a;
            steps = c.s.idx(2);
        }
    }
    for _ in 0..steps {
        let (i, j) = (c.s.idx(N), c.s.idx(N));
        match c.s.below(4) {
            0 => m[i].iter_mut().for_each(|x| *x = -*x),
            1 => m.swap(i, j),
            2 => {
                let k = [2.0, 0.5, -3.0, 0.25][c.s.idx(4)];
                m[i].iter_mut().for_each(|x| *x *= k);
            }
            _ => {
                let k = [1.0, -1.0, 0.5, 2.0][c.s.idx(4)];
                if i != j {
                    for l in 0..N {
                        m[i][l] += k * m[j][l];
                    }
                }
            }
        }
    }
    let e = if T::EPS < 1e-10 { 30 } else { 4 };
    let k = if c.s.chance(1, 4) { 10f64.powi(c.s.zigzag(e) as i32) } else { 1.0 };
    let l = Linear::from_matrix(Matrix::from_array_of_arrays(m.map(|r| r.map(|x| T::of(x * k)))));
    if c.s.bool() {
        judge(c, l, tol::<T>())
    } else {
        let s = <Shift<T, N> as Tf<Vector<T, N>>>::gen(c);
        judge(c, Chain::<_, _, Vector<T, N>>::new(s, l), tol::<T>())
    }
}
/// The normal transform is the transposed inverse.
fn normal_transform<T: Sc, const N: usize>(c: &mut Cx) -> Res {
    let p = <Linear<T, N> as Tf<Vector<T, N>>>::gen(c);
    let (n, v) = (Vector::<T, N>::gen(c), Vector::<T, N>::gen(c));
    c.show(|| format!("{:?} on {:?} and {:?}", p, n, v));
    c.nontrivial(N > 1);
    let t = p.normal_transform();
    // products with transformed vectors are kept
    let dot = |a: &Vector<T, N>, b: &Vector<T, N>| a.list().iter().zip(b.list()).fold(T::zero(), |s, (x, y)| s + *x * y);
    let (tn, pv) = (t.model(n).unwrap(), p.model(v).unwrap());
    let (g, w) = (dot(&tn, &pv), dot(&n, &v));
    ensure!(T::close(&[g], &[w], 100.0 * (1.0 + tn.size() * pv.size())), "product after the transformation {:?}, before {:?}", g, w);
    same("applied", t.apply(n), tn, 10.0 * tn.size())
}
fn kind<P: Tf<V>, V: Pt>(p: &mut Prop, name: &str, cases: u64) {
    p.sub(format!("derivative, {}", name), cases, deriv::<P, V>);
}
fn affine<P: Tf<V>, V: Pt>(p: &mut Prop, name: &str, cases: u64) {
    p.sub(format!("derivative, {}", name), cases, deriv::<P, V>);
    p.sub(format!("difference, {}", name), cases, difference::<P, V>);
}
fn dirs<P: Tf<V> + Directional<V>, V: Pt>(p: &mut Prop, name: &str, cases: u64)
where
    V::S: Fl,
{
    p.sub(format!("directions, {}", name), cases, directions::<P, V>);
}
type V<T, const N: usize> = Vector<T, N>;
type Ch<A, B, T, const N: usize> = Chain<A, B, Vector<T, N>>;
macro_rules! each {
    ($f:ident $p:ident $t:ty, $k:literal) => {
        let s = stringify!($t);
        $f::<Shift<$t, 3>, V<$t, 3>>(&mut $p, &format!("shift 3 {}", s), $k);
        $f::<Shift<$t, 1>, V<$t, 1>>(&mut $p, &format!("shift 1 {}", s), $k / 4);
        $f::<Shift<$t, 5>, V<$t, 5>>(&mut $p, &format!("shift 5 {}", s), $k / 10);
        $f::<Shift<$t, 6>, V<$t, 6>>(&mut $p, &format!("shift 6 {}", s), $k / 20);
        $f::<Scale<$t>, V<$t, 2>>(&mut $p, &format!("scale 2 {}", s), $k / 4);
        $f::<Scale<$t>, V<$t, 4>>(&mut $p, &format!("scale 4 {}", s), $k / 4);
        $f::<Scale<$t>, V<$t, 6>>(&mut $p, &format!("scale 6 {}", s), $k / 20);
        $f::<Linear<$t, 5>, V<$t, 5>>(&mut $p, &format!("linear 5 {}", s), $k / 40);
        $f::<Ch<Shift<$t, 5>, Linear<$t, 5>, $t, 5>, V<$t, 5>>(&mut $p, &format!("shift linear 5 {}", s), $k / 40);
        $f::<Ch<Shift<$t, 6>, Scale<$t>, $t, 6>, V<$t, 6>>(&mut $p, &format!("shift scale 6 {}", s), $k / 20);
        $f::<Scale<$t>, V<$t, 1>>(&mut $p, &format!("scale 1 {}", s), $k);
        $f::<Scale<$t>, V<$t, 3>>(&mut $p, &format!("scale 3 {}", s), $k);
        $f::<Linear<$t, 1>, V<$t, 1>>(&mut $p, &format!("linear 1 {}", s), $k);
        $f::<Linear<$t, 2>, V<$t, 2>>(&mut $p, &format!("linear 2 {}", s), $k);
        $f::<Linear<$t, 3>, V<$t, 3>>(&mut $p, &format!("linear 3 {}", s), $k);
        $f::<Linear<$t, 4>, V<$t, 4>>(&mut $p, &format!("linear 4 {}", s), $k);
        $f::<Rotation2<$t>, V<$t, 2>>(&mut $p, &format!("rotation 2 {}", s), $k);
        $f::<Rotation3<$t>, V<$t, 3>>(&mut $p, &format!("rotation 3 {}", s), $k);
        $f::<Ch<Shift<$t, 2>, Linear<$t, 2>, $t, 2>, V<$t, 2>>(&mut $p, &format!("shift linear 2 {}", s), $k);
        $f::<Ch<Shift<$t, 3>, Linear<$t, 3>, $t, 3>, V<$t, 3>>(&mut $p, &format!("shift linear 3 {}", s), $k);
        $f::<Ch<Linear<$t, 3>, Shift<$t, 3>, $t, 3>, V<$t, 3>>(&mut $p, &format!("linear shift 3 {}", s), $k);
        $f::<Ch<Shift<$t, 3>, Scale<$t>, $t, 3>, V<$t, 3>>(&mut $p, &format!("shift scale 3 {}", s), $k);
        $f::<Ch<Scale<$t>, Shift<$t, 2>, $t, 2>, V<$t, 2>>(&mut $p, &format!("scale shift 2 {}", s), $k);
        $f::<Ch<Shift<$t, 2>, Rotation2<$t>, $t, 2>, V<$t, 2>>(&mut $p, &format!("shift rotation 2 {}", s), $k);
        $f::<Ch<Rotation2<$t>, Shift<$t, 2>, $t, 2>, V<$t, 2>>(&mut $p, &format!("rotation shift 2 {}", s), $k);
        $f::<Ch<Shift<$t, 3>, Rotation3<$t>, $t, 3>, V<$t, 3>>(&mut $p, &format!("shift rotation 3 {}", s), $k);
        $f::<Ch<Rotation3<$t>, Shift<$t, 3>, $t, 3>, V<$t, 3>>(&mut $p, &format!("rotation shift 3 {}", s), $k);
    };
}
macro_rules! moebius {
    ($f:ident $p:ident $t:ty, $k:literal) => {
        let s = stringify!($t);
        $f::<Moebius<Complex<$t>>, Complex<$t>>(&mut $p, &format!("moebius at complex points {}", s), $k);
        $f::<Moebius<Complex<$t>>, Quaternion<$t>>(&mut $p, &format!("moebius at quaternion points {}", s), $k);
        $f::<Chain<Moebius<Complex<$t>>, Flip, Complex<$t>>, Complex<$t>>(&mut $p, &format!("moebius after user-defined flip, complex points {}", s), $k);
        $f::<Chain<Flip, Moebius<Complex<$t>>, Complex<$t>>, Complex<$t>>(&mut $p, &format!("user-defined flip after moebius, complex points {}", s), $k);
        $f::<Chain<Moebius<Complex<$t>>, Flip, Quaternion<$t>>, Quaternion<$t>>(&mut $p, &format!("moebius after user-defined flip, quaternion points {}", s), $k);
    };
}
macro_rules! floats {
    ($p:ident; $($t:ident)*) => {$(
        $p.sub(concat!("scales 1 ", stringify!($t)), 500, scales::<$t, 1>);
        $p.sub(concat!("scales 3 ", stringify!($t)), 1000, scales::<$t, 3>);
        $p.sub(concat!("scales 4 ", stringify!($t)), 500, scales::<$t, 4>);
        $p.sub(concat!("shapes 1 ", stringify!($t)), 500, shapes::<$t, 1>);
        $p.sub(concat!("shapes 2 ", stringify!($t)), 1500, shapes::<$t, 2>);
        $p.sub(concat!("shapes 3 ", stringify!($t)), 3000, shapes::<$t, 3>);
        $p.sub(concat!("shapes 4 ", stringify!($t)), 1500, shapes::<$t, 4>);
    )*};
}
macro_rules! nt {
    ($p:ident; $($t:ident)*) => {$(
        $p.sub(concat!("normal transform 1 ", stringify!($t)), 300, normal_transform::<$t, 1>);
        $p.sub(concat!("normal transform 2 ", stringify!($t)), 800, normal_transform::<$t, 2>);
        $p.sub(concat!("normal transform 3 ", stringify!($t)), 1500, normal_transform::<$t, 3>);
        $p.sub(concat!("normal transform 4 ", stringify!($t)), 500, normal_transform::<$t, 4>);
    )*};
}
fn main() {
    let mut p = Prop::new("C29", "more than half of the components of the direction are not zero (directions and normals: the two differ; normal transform: more than one dimension)");
    each!(affine p F, 500);
    each!(affine p f64, 500);
    each!(affine p f32, 300);
    moebius!(kind p F, 1500);
    moebius!(kind p f64, 1000);
    moebius!(kind p f32, 1000);
    kind::<Chain<Times, Power, Pf>, Pf>(&mut p, "user-defined times after power", 600);
    kind::<Chain<Power, Times, Pf>, Pf>(&mut p, "user-defined power after times", 600);
    each!(dirs p f64, 800);
    each!(dirs p f32, 500);
    moebius!(dirs p f64, 2000);
    moebius!(dirs p f32, 1000);
    floats!(p; f64 f32);
    nt!(p; F f64 f32);
    p.main();
}
