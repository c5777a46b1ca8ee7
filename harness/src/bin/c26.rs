//! C26: Moebius derivatives are the true derivatives.
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    Transform,
};
use vh::{alg, elems::*, engine::*, ensure, tf::*};

type Mc<T> = Moebius<Complex<T>>;

fn det<T: Sc>(m: &Mc<T>) -> [T; 2] {
    let (a, b, c, d) = m.into_tuple();
    alg::sub(alg::cmul(a.into_array(), d.into_array()), alg::cmul(b.into_array(), c.into_array()))
}
/// Everything that holds for complex and quaternion points alike.
fn common<T: Sc, V: Pt<S = T>>(c: &mut Cx) -> Res
where
    Mc<T>: Tf<V>,
{
    let (m, n): (Mc<T>, Mc<T>) = (moebius_gen(c), moebius_gen(c));
    let (x, v, w) = (V::gen(c), V::gen(c), V::gen(c));
    let k = T::coef(c);
    c.show(|| format!("{:?} {:?} at {:?} along {:?} and {:?} * {:?}", m, n, x, v, w, k));
    let z = Complex::new(T::zero(), T::zero());
    c.nontrivial(m.c() != z && m.b() != z && v.list().iter().filter(|t| !t.is_zero()).count() > 1);
    let d = |m: &Mc<T>, x: V, v: V| Transform::<V>::deriv(m, x, v);
    let Some(sv) = Tf::<V>::slope(&m, x, v) else { return Ok(()) };
    let Some(sw) = Tf::<V>::slope(&m, x, w) else { return Ok(()) };
    let y = Tf::<V>::model(&m, x).unwrap();
    let mag = y.size().max(sv.size()).max(sw.size());
    same("derivative", d(&m, x, v), sv, mag)?;
    same("derivative along the scaled direction", d(&m, x, v.times(k)), sv.times(k), mag * 4.0)?;
    same("derivative along the sum", d(&m, x, v.plus(&w)), sv.plus(&sw), mag * 4.0)?;
    // through the inverse and back
    let i = Transform::<V>::inv(m);
    if Tf::<V>::slope(&i, y, sv).is_some() {
        c.label("inverse");
        same("derivative of the inverse after the derivative", d(&i, y, d(&m, x, v)), v, mag * 10.0 * (1.0 + mag))?;
    }
    // chain rule
    let Some(s2) = Tf::<V>::slope(&n, y, sv) else { return Ok(()) };
    let mag = mag.max(s2.size()).max(Tf::<V>::model(&n, y).map_or(0.0, |z| z.size())) * 10.0;
    c.label("chain");
    same("outer derivative of the inner one", d(&n, y, d(&m, x, v)), s2, mag)?;
    same("derivative of the chain", d(&Transform::<V>::chain(n, m), x, v), s2, mag * 10.0)
}
fn complex<T: Sc>(c: &mut Cx) -> Res {
    let m: Mc<T> = moebius_gen(c);
    let (x, v) = (Complex::<T>::gen(c), Complex::<T>::gen(c));
    c.show(|| format!("{:?} at {:?} along {:?}", m, x, v));
    let z = Complex::new(T::zero(), T::zero());
    c.nontrivial(m.c() != z && m.b() != z);
    let (_, d) = parts(&coefs(&m), alg::embed(x.into_array()));
    if !T::divisible(alg::nsq(d)) {
        return Ok(());
    }
    // (ad - bc) / (cp + d)^2
    let i = alg::inv(alg::qmul(d, d));
    let want = alg::qmul(alg::embed(det(&m)), i);
    let mag = Tf::model(&m, x).map_or(0.0, |y: Complex<T>| y.size());
    let wc = Complex::new(want[0], want[1]);
    same("derivative", m.deriv(x), wc, mag)?;
    let wv = alg::cmul([want[0], want[1]], v.into_array());
    same("derivative along a direction", Transform::<Complex<T>>::deriv(&m, x, v), Complex::from_array(wv), mag)?;
    // embedding in quaternions
    let q = |a: [T; 2]| Quaternion::from_array(alg::embed(a));
    let g = m.deriv_dir(q(x.into_array()), q(v.into_array()));
    same("derivative at the embedded point", g, q(wv), mag)?;
    let g = Transform::<Quaternion<T>>::deriv(&m, q(x.into_array()), q(v.into_array()));
    same("Transform's derivative at the embedded point", g, q(wv), mag)
}
fn quaternion<T: Sc>(c: &mut Cx) -> Res {
    let m: Mc<T> = moebius_gen(c);
    let (x, v) = (Quaternion::<T>::gen(c), Quaternion::<T>::gen(c));
    c.show(|| format!("{:?} at {:?} along {:?}", m, x, v));
    let z = Complex::new(T::zero(), T::zero());
    c.nontrivial(m.c() != z && m.b() != z && !v.y().is_zero());
    let Some(s) = Tf::slope(&m, x, v) else { return Ok(()) };
    let mag = s.size().max(Tf::model(&m, x).map_or(0.0, |y: Quaternion<T>| y.size()));
    same("deriv_dir", m.deriv_dir(x, v), s, mag)
}
/// Divided differences over the exact field: `f(x + v) - f(x)` against the derivative at both ends.
fn divided(c: &mut Cx) -> Res {
    let m: Mc<F> = moebius_gen(c);
    let (x, v) = (Complex::<F>::gen(c), Complex::<F>::gen(c));
    c.show(|| format!("{:?} at {:?} along {:?}", m, x, v));
    c.nontrivial(m.c() != Complex::new(F::of(0), F::of(0)));
    let y = x.plus(&v);
    let (Some(fx), Some(fy)) = (Tf::model(&m, x), Tf::model(&m, y)) else { return Ok(()) };
    // for every Moebius map (f(y) - f(x))^2 = f'(x) f'(y) (y - x)^2
    let d = fy.minus(&fx).into_array();
    let l = alg::cmul(d, d);
    let v = v.into_array();
    let r = alg::cmul(alg::cmul(m.deriv(x).into_array(), m.deriv(y).into_array()), alg::cmul(v, v));
    ensure!(l == r, "(f(y) - f(x))^2 is {:?}, f'(x) f'(y) (y - x)^2 is {:?}", l, r);
    let g = m.apply(y).minus(&m.apply(x)).into_array();
    ensure!(g == d, "difference of images {:?}, expected {:?}", g, d);
    Ok(())
}
fn main() {
    let mut p = Prop::new("C26", "b and c are not zero and the direction has at least two components that are not zero");
    p.sub("complex derivative, field", 6000, complex::<F>);
    p.sub("complex derivative, f64", 6000, complex::<f64>);
    p.sub("complex derivative, f32", 6000, complex::<f32>);
    p.sub("quaternion derivative, field", 8000, quaternion::<F>);
    p.sub("quaternion derivative, f64", 8000, quaternion::<f64>);
    p.sub("quaternion derivative, f32", 8000, quaternion::<f32>);
    p.sub("rules at complex points, field", 5000, common::<F, Complex<F>>);
    p.sub("rules at complex points, f64", 5000, common::<f64, Complex<f64>>);
    p.sub("rules at complex points, f32", 5000, common::<f32, Complex<f32>>);
    p.sub("rules at quaternion points, field", 6000, common::<F, Quaternion<F>>);
    p.sub("rules at quaternion points, f64", 6000, common::<f64, Quaternion<f64>>);
    p.sub("rules at quaternion points, f32", 6000, common::<f32, Quaternion<f32>>);
    p.sub("differences, field", 4000, divided);
    p.main();
}
