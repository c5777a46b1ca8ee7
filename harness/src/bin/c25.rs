//! C25: Moebius transformations compose, invert and apply correctly.
use num_traits::One;
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    Matrix, Transform,
};
use vh::{alg, elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl, tf::*};

type Mc<T> = Moebius<Complex<T>>;

fn show<T: Sc>(c: &mut Cx, ms: &[Mc<T>], x: &dyn std::fmt::Debug) {
    let s = format!("{:?} at {:?}", ms, x);
    c.show(|| s);
    let (o, n) = (Complex::<T>::one(), Complex::new(T::zero(), T::zero()));
    let _ = o;
    c.nontrivial(ms.iter().all(|m| m.c() != n && m.a() != n));
}
/// Complex coefficients, complex or quaternion points.
fn complex<T: Sc, V: Pt<S = T>>(c: &mut Cx) -> Res
where
    Mc<T>: Tf<V>,
    Complex<T>: std::ops::Mul<V, Output = V>,
    V: std::ops::Add<Complex<T>, Output = V> + std::ops::Div<Output = V>,
{
    let (m, n, k): (Mc<T>, Mc<T>, Mc<T>) = (moebius_gen(c), moebius_gen(c), moebius_gen(c));
    let x = V::gen(c);
    show(c, &[m, n, k], &x);
    if let Some(w) = Tf::<V>::model(&m, x) {
        same("apply", m.apply(x), w, 0.0)?;
        same("Transform::apply", Transform::<V>::apply(&m, x), w, 0.0)?;
        // undone by the inverse
        let ok = Tf::<V>::model(&Transform::<V>::inv(m), w).is_some();
        if ok {
            same("inverse after the map", Moebius::inv(m).apply(m.apply(x)), x, w.size())?;
            same("Transform's inverse after the map", Transform::<V>::inv(m).apply(m.apply(x)), x, w.size())?;
            same("chain of inverse and map", Moebius::inv(m).chain(m).apply(x), x, w.size())?;
            same("chain of map and inverse", m.chain(Moebius::inv(m)).apply(x), x, w.size())?;
        }
    }
    let back = Tf::<V>::model(&Moebius::inv(m), x);
    if let Some(y) = back {
        if Tf::<V>::model(&m, y).is_some() {
            same("map after the inverse", m.apply(Moebius::inv(m).apply(x)), x, y.size())?;
        }
    }
    same("identity", Mc::<T>::identity().apply(x), x, 0.0)?;
    same("Transform's identity", <Mc<T> as Transform<V>>::identity().apply(x), x, 0.0)?;
    let Some(kx) = Tf::<V>::model(&k, x) else { return Ok(()) };
    let Some(nkx) = Tf::<V>::model(&n, kx) else { return Ok(()) };
    let mag = kx.size().max(nkx.size());
    same("chain of two", n.chain(k).apply(x), nkx, mag)?;
    same("Transform::chain of two", Transform::<V>::chain(n, k).apply(x), nkx, mag)?;
    same("identity on the left", Mc::<T>::identity().chain(k).apply(x), kx, 0.0)?;
    same("identity on the right", k.chain(Mc::<T>::identity()).apply(x), kx, 0.0)?;
    let Some(w) = Tf::<V>::model(&m, nkx) else { return Ok(()) };
    c.label("chain of three");
    let mag = mag.max(w.size());
    same("chain of three", m.chain(n).chain(k).apply(x), w, mag * 10.0)?;
    same("chain of three, other grouping", m.chain(n.chain(k)).apply(x), w, mag * 10.0)
}
/// Quaternion coefficients.
fn quaternion<T: Sc>(c: &mut Cx) -> Res {
    type Mq<T> = Moebius<Quaternion<T>>;
    let q = |c: &mut Cx| -> Quaternion<T> {
        match c.s.below(6) {
            0 => Quaternion::one(),
            1 => Quaternion::new(T::zero(), T::zero(), T::zero(), T::zero()),
            _ => Pt::gen(c),
        }
    };
    let m = |c: &mut Cx| -> Mq<T> { Moebius::new(q(c), q(c), q(c), q(c)) };
    let (m, n, k, x) = (m(c), m(c), m(c), Quaternion::<T>::gen(c));
    c.show(|| format!("{:?} {:?} {:?} at {:?}", m, n, k, x));
    c.nontrivial(m.a() * n.b() != n.b() * m.a());
    let model = |m: &Mq<T>, x: [T; 4]| -> Option<[T; 4]> {
        let (a, b, c, d) = m.into_tuple();
        moebius_model(&[a, b, c, d].map(|q| q.into_array()), x)
    };
    let eq = |what: &str, g: Quaternion<T>, w: [T; 4], mag: f64| same(what, g, Quaternion::from_array(w), mag);
    let size = |a: [T; 4]| Quaternion::from_array(a).size();
    let xa = x.into_array();
    eq("identity", Mq::<T>::identity().apply(x), xa, 0.0)?;
    let Some(kx) = model(&k, xa) else { return Ok(()) };
    eq("apply", k.apply(x), kx, 0.0)?;
    eq("identity on the left", Mq::<T>::identity().chain(k).apply(x), kx, 0.0)?;
    eq("identity on the right", k.chain(Mq::<T>::identity()).apply(x), kx, 0.0)?;
    let Some(nkx) = model(&n, kx) else { return Ok(()) };
    let mag = size(kx).max(size(nkx));
    eq("chain of two", n.chain(k).apply(x), nkx, mag)?;
    let Some(w) = model(&m, nkx) else { return Ok(()) };
    let mag = mag.max(size(w)) * 10.0;
    eq("chain of three", m.chain(n).chain(k).apply(x), w, mag)?;
    eq("chain of three, other grouping", m.chain(n.chain(k)).apply(x), w, mag)
}
/// Real coefficients, real points.
fn real<T: Sc>(c: &mut Cx) -> Res {
    let mut m = || -> [T; 4] { std::array::from_fn(|_| T::coef(c)) };
    let (k, l) = (m(), m());
    let x = T::coef(c);
    c.show(|| format!("{:?} {:?} at {:?}", k, l, x));
    c.nontrivial(!k[2].is_zero());
    let f = |k: &[T; 4], x: T| -> Option<T> {
        let d = k[2] * x + k[3];
        T::divisible(d * d).then(|| (k[0] * x + k[1]) / d)
    };
    let (mk, ml) = (Moebius::from_array([[k[0], k[1]], [k[2], k[3]]]), Moebius::from_array([[l[0], l[1]], [l[2], l[3]]]));
    let det = k[0] * k[3] - k[1] * k[2];
    ensure!(T::close(&[mk.det()], &[det], 0.0), "determinant: {:?}, expected {:?}", mk.det(), det);
    let Some(y) = f(&k, x) else { return Ok(()) };
    ensure!(T::close(&[mk.apply(x)], &[y], 0.0), "apply: {:?}, expected {:?}", mk.apply(x), y);
    let Some(z) = f(&l, y) else { return Ok(()) };
    let g = ml.chain(mk).apply(x);
    ensure!(T::close(&[g], &[z], y.size().max(z.size())), "chain of two: {:?}, expected {:?}", g, z);
    if T::divisible(det * det) {
        let i = mk.inv();
        if T::divisible((i.c() * y + i.d()) * (i.c() * y + i.d())) {
            ensure!(T::close(&[i.apply(y)], &[x], y.size()), "inverse: {:?}, expected {:?}", i.apply(y), x);
        }
    }
    Ok(())
}
/// Real float coefficients, complex and quaternion points.
fn real_mixed<T: Sc + Fl>(c: &mut Cx) -> Res
where
    T: std::ops::Mul<Complex<T>, Output = Complex<T>> + std::ops::Mul<Quaternion<T>, Output = Quaternion<T>>,
{
    let k: [T; 4] = std::array::from_fn(|_| T::coef(c));
    let (z, q) = (Complex::<T>::gen(c), Quaternion::<T>::gen(c));
    c.show(|| format!("{:?} at {:?} and {:?}", k, z, q));
    c.nontrivial(!k[2].f().is_nan() && k[2].f() != 0.0);
    let m = Moebius::from_array([[k[0], k[1]], [k[2], k[3]]]);
    let e = k.map(|x| alg::embed([x]));
    if let Some(w) = moebius_model(&e, alg::embed(z.into_array())) {
        same("complex point", m.apply(z), Complex::new(w[0], w[1]), 0.0)?;
    }
    if let Some(w) = moebius_model(&e, q.into_array()) {
        same("quaternion point", m.apply(q), Quaternion::from_array(w), 0.0)?;
    }
    Ok(())
}
fn conversions<T: Elem>(c: &mut Cx) -> Res {
    let a: [T; 4] = gen::arr(&mut c.s);
    let u = T::any(&mut c.s);
    let i = c.s.idx(4);
    c.show(|| format!("{:?}, {:?} at {}", a, u, i));
    c.nontrivial((1..4).any(|k| !a[k].same(&a[0])));
    let arr = [[a[0], a[1]], [a[2], a[3]]];
    let mat = Matrix::from_array_of_arrays(arr);
    let made = [
        ("new", Moebius::new(a[0], a[1], a[2], a[3])),
        ("from_matrix", Moebius::from_matrix(mat)),
        ("from_array", Moebius::from_array(arr)),
        ("from_tuple", Moebius::from_tuple((a[0], a[1], a[2], a[3]))),
        ("From<Matrix>", Moebius::from(mat)),
        ("From<[[T; 2]; 2]>", Moebius::from(arr)),
    ];
    let flat = |x: [[T; 2]; 2]| [x[0][0], x[0][1], x[1][0], x[1][1]];
    for (what, m) in made {
        let t = m.into_tuple();
        let (im, ia): (Matrix<T, 2, 2>, [[T; 2]; 2]) = (m.into(), m.into());
        let (rm, ra): (&Matrix<T, 2, 2>, &[[T; 2]; 2]) = ((&m).into(), (&m).into());
        let read = [
            ("a/b/c/d", [m.a(), m.b(), m.c(), m.d()]),
            ("references", [*m.a_ref(), *m.b_ref(), *m.c_ref(), *m.d_ref()]),
            ("into_tuple", [t.0, t.1, t.2, t.3]),
            ("into_array", flat(m.into_array())),
            ("into_matrix", flat(m.into_matrix().into_array_of_arrays())),
            ("as_matrix", flat(*m.as_matrix().as_array_of_arrays())),
            ("as_array_of_arrays", flat(*m.as_array_of_arrays())),
            ("Into<Matrix>", flat(im.into_array_of_arrays())),
            ("Into<[[T; 2]; 2]>", flat(ia)),
            ("Into<&Matrix>", flat(*rm.as_array_of_arrays())),
            ("Into<&[[T; 2]; 2]>", flat(*ra)),
        ];
        for (how, r) in read {
            ensure!(r.iter().zip(&a).all(|(x, y)| x.same(y)), "built by {}, read by {}: {:?}, expected {:?}", what, how, r, a);
        }
        let mut want = a;
        want[i] = u;
        for way in 0..5 {
            let mut w = m;
            match way {
                0 => match i {
                    0 => *w.a_mut() = u,
                    1 => *w.b_mut() = u,
                    2 => *w.c_mut() = u,
                    _ => *w.d_mut() = u,
                },
                1 => w.as_mut_matrix()[(i / 2, i % 2)] = u,
                2 => w.as_mut_array_of_arrays()[i / 2][i % 2] = u,
                3 => {
                    let r: &mut Matrix<T, 2, 2> = (&mut w).into();
                    r[(i / 2, i % 2)] = u;
                }
                _ => {
                    let r: &mut [[T; 2]; 2] = (&mut w).into();
                    r[i / 2][i % 2] = u;
                }
            }
            let g = flat(w.into_array());
            ensure!(g.iter().zip(&want).all(|(x, y)| x.same(y)), "coefficient {} written by way {}: {:?}, expected {:?}", i, way, g, want);
        }
    }
    Ok(())
}
fn determinant(c: &mut Cx) -> Res {
    let z = |c: &mut Cx| [F::any(&mut c.s), F::any(&mut c.s)];
    let (p, q, r, s) = (z(c), z(c), z(c), z(c));
    let m = Moebius::new(Complex::from(p), Complex::from(q), Complex::from(r), Complex::from(s));
    c.show(|| format!("{:?}", m));
    c.nontrivial(true);
    ensure_eq!(m.det().into_array(), alg::sub(alg::cmul(p, s), alg::cmul(q, r)), "determinant");
    Ok(())
}

fn main() {
    let mut p = Prop::new("C25", "a and c are not zero in any of the maps (quaternions: the maps do not commute; conversions: the coefficients are not all equal)");
    p.sub("complex points, field", 8000, complex::<F, Complex<F>>);
    p.sub("quaternion points, field", 8000, complex::<F, Quaternion<F>>);
    p.sub("complex points, f64", 8000, complex::<f64, Complex<f64>>);
    p.sub("quaternion points, f64", 8000, complex::<f64, Quaternion<f64>>);
    p.sub("complex points, f32", 8000, complex::<f32, Complex<f32>>);
    p.sub("quaternion points, f32", 8000, complex::<f32, Quaternion<f32>>);
    p.sub("quaternion coefficients, field", 8000, quaternion::<F>);
    p.sub("quaternion coefficients, f64", 6000, quaternion::<f64>);
    p.sub("quaternion coefficients, f32", 6000, quaternion::<f32>);
    p.sub("real, field", 3000, real::<F>);
    p.sub("real, f64", 3000, real::<f64>);
    p.sub("real, f32", 3000, real::<f32>);
    p.sub("real coefficients, f64 points", 3000, real_mixed::<f64>);
    p.sub("real coefficients, f32 points", 3000, real_mixed::<f32>);
    p.sub("determinant", 2000, determinant);
    p.sub("conversions f64", 1000, conversions::<f64>);
    p.sub("conversions u8", 1000, conversions::<u8>);
    p.sub("conversions pair", 1000, conversions::<(u8, u32)>);
    p.main();
}
