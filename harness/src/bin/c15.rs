//! C15: normalising keeps direction and gives unit length.
use num_traits::Zero;
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    traits::Normalize,
    Vector,
};
use vh::{cont::*, elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl, tol::*};

/// Components whose squared length is far from overflow and underflow.
fn comps<T: Fl, const N: usize>(c: &mut Cx) -> [T; N] {
    let e = if T::EPS < 1e-10 { 140 } else { 16 };
    let sc = match c.s.below(4) {
        0 => 1.0,
        1 => 10f64.powi(c.s.zigzag(e) as i32),
        2 => 10f64.powi(c.s.zigzag(3) as i32),
        _ => 1.0 + gen::unit_f64(&mut c.s) * 1e-6,
    };
    let mut v: [f64; N] = match c.s.below(3) {
        0 => gen::unit_vec(&mut c.s),
        _ => std::array::from_fn(|_| gen::moderate(&mut c.s)),
    };
    if v.iter().all(|x| x.abs() < 1e-2) {
        v[c.s.idx(N)] = gen::away(&mut c.s);
        if v.iter().all(|x| x.abs() < 1e-2) {
            v[0] = -1.0;
        }
    }
    let r = v.map(|x| T::of(x * sc));
    c.show(|| format!("{:?}", &r[..]));
    c.nontrivial(r.iter().any(|x| x.f() < 0.0) || N == 1);
    r
}
fn check<T: Fl>(what: &str, v: &[T], g: &[T]) -> Res {
    let m = v.iter().fold(0.0, |a: f64, x| a.max(x.f().abs()));
    let l = v.iter().map(|x| (x.f() / m) * (x.f() / m)).sum::<f64>().sqrt();
    let k = 4.0 * v.len() as f64 + 8.0;
    let q: f64 = g.iter().map(|x| x.f() * x.f()).sum();
    ensure!((q - 1.0).abs() <= 2.0 * k * T::EPS, "{}: squared length of the result is {:?} for {:?}", what, q, v);
    for i in 0..v.len() {
        let want = v[i].f() / m / l;
        ensure!(nearf(g[i], want, want.abs() + 1e-3 * T::EPS, k), "{}: component {} is {:?}, expected about {:?}, for {:?}", what, i, g[i], want, v);
    }
    Ok(())
}
fn vector<T: Fl, const N: usize>(c: &mut Cx) -> Res {
    let a = comps::<T, N>(c);
    check("normalize", &a, &Vector::<T, N>::make(&a).normalize().into_array())?;
    check("Normalize::normalize", &a, &Normalize::normalize(Vector::<T, N>::make(&a)).into_array())
}
fn numbers<T: Fl>(c: &mut Cx) -> Res {
    let a = comps::<T, 4>(c);
    check("quaternion normalize", &a, &Quaternion::from_array(a).normalize().into_array())?;
    check("quaternion Normalize::normalize", &a, &Normalize::normalize(Quaternion::from_array(a)).into_array())?;
    let a = comps::<T, 2>(c);
    check("complex normalize", &a, &Complex::from_array(a).normalize().into_array())?;
    check("complex Normalize::normalize", &a, &Normalize::normalize(Complex::from_array(a)).into_array())
}
fn moebius_exact(c: &mut Cx) -> Res {
    let a: [F7; 4] = gen::arr(&mut c.s);
    let x = F7::any(&mut c.s);
    let det = a[0] * a[3] - a[1] * a[2];
    c.show(|| format!("{:?} at {:?}", a, x));
    if det.is_zero() || (a[2] * x + a[3]).is_zero() {
        return Ok(());
    }
    c.nontrivial(!a[2].is_zero() && !a[1].is_zero());
    let m = Moebius::new(a[0], a[1], a[2], a[3]);
    ensure_eq!(m.normalize().apply(x), (a[0] * x + a[1]) / (a[2] * x + a[3]), "map of the normalised transformation at {:?}", x);
    Ok(())
}
fn moebius_complex_exact(c: &mut Cx) -> Res {
    type C = Complex<F7>;
    let g = |c: &mut Cx| C::new(F7::any(&mut c.s), F7::any(&mut c.s));
    let m = Moebius::new(g(c), g(c), g(c), g(c));
    let x = g(c);
    c.show(|| format!("{:?} at {:?}", m, x));
    if (m.a() * m.d() - m.b() * m.c()).is_zero() || (m.c() * x + m.d()).is_zero() {
        return Ok(());
    }
    c.nontrivial(!m.c().is_zero());
    ensure_eq!(m.normalize().apply(x), m.apply(x), "map of the normalised transformation at {:?}", x);
    Ok(())
}
fn moebius_float(c: &mut Cx) -> Res {
    let g = |c: &mut Cx| Complex::new(gen::moderate(&mut c.s), gen::moderate(&mut c.s));
    let m = Moebius::new(g(c), g(c), g(c), g(c));
    let (x, d) = (g(c), m.a() * m.d() - m.b() * m.c());
    c.show(|| format!("{:?} at {:?}", m, x));
    if d.norm() < 1e-3 || (m.c() * x + m.d()).norm() < 1e-3 {
        return Ok(());
    }
    c.nontrivial(m.c().norm() > 0.0);
    let (u, v) = (m.normalize().apply(x), m.apply(x));
    ensure!((u - v).norm() <= 1e-9 * (1.0 + v.norm()), "map of the normalised transformation at {:?}: {:?}, before {:?}", x, u, v);
    Ok(())
}

fn main() {
    let mut p = Prop::new("C15", "some component is negative (or there is a single one); for Moebius maps, c is not zero");
    macro_rules! v { ($($n:literal)*) => {$(
        p.sub(concat!("f64[", $n, "]"), 1500, vector::<f64, $n>);
        p.sub(concat!("f32[", $n, "]"), 1500, vector::<f32, $n>);
    )*}}
    p.sub("f64[65]", 60, vector::<f64, 65>);
    p.sub("f64[300]", 20, vector::<f64, 300>);
    v!(1 2 3 4 5 6 7 8 9 11 13 16 17 33);
    p.sub("numbers f64", 4000, numbers::<f64>);
    p.sub("numbers f32", 4000, numbers::<f32>);
    p.sub("Moebius over a finite field", 3000, moebius_exact);
    p.sub("Moebius over complex numbers of a finite field", 3000, moebius_complex_exact);
    p.sub("Moebius over complex floats", 3000, moebius_float);
    macro_rules! every { ([$($n:literal),*]) => {$(
        p.sub(concat!("every dimension ", $n), 60, vector::<f64, $n>);
    )*}}
    vh::every_dim!(every!());
    p.main();
}
