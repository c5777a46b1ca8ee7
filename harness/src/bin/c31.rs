//! C31: look-at constructions return proper rotations onto the target.
use vecmat::{
    transform::{Linear, Rotation3},
    Transform, Vector,
};
use vh::{alg, engine::*, ensure, gen, gen::Fl};

const K: f64 = 256.0;
fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    (0..3).map(|i| a[i] * b[i]).sum()
}
fn cross(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn unit(v: [f64; 3]) -> [f64; 3] {
    let l = dot(&v, &v).sqrt();
    v.map(|x| x / l)
}
fn near(what: &str, got: [f64; 3], want: [f64; 3], tol: f64) -> Res {
    ensure!((0..3).all(|i| (got[i] - want[i]).abs() <= tol), "{}: got {:?}, expected about {:?} (within {:e})", what, got, want, tol);
    Ok(())
}
/// Images of the axes under a map that must be a proper rotation.
fn axes<T: Fl, M: Transform<Vector<T, 3>>>(m: &M, tol: f64) -> Result<[[f64; 3]; 3], Fail> {
    let e = |i: usize| -> [f64; 3] {
        let v: [T; 3] = std::array::from_fn(|j| if i == j { T::one() } else { T::zero() });
        alg::f64s(m.apply(Vector::from(v)).into_array())
    };
    let a = [e(0), e(1), e(2)];
    for i in 0..3 {
        for j in 0..3 {
            let (d, w) = (dot(&a[i], &a[j]), if i == j { 1.0 } else { 0.0 });
            ensure!((d - w).abs() <= tol, "images of axes {} and {} have the product {} (within {:e}): {:?}", i, j, d, tol, a);
        }
    }
    let d = dot(&a[0], &cross(&a[1], &a[2]));
    ensure!((d - 1.0).abs() <= tol, "determinant {}: {:?}", d, a);
    Ok(a)
}
fn direction<T: Fl>(c: &mut Cx) -> ([T; 3], [f64; 3]) {
    let mut v = gen::unit_vec::<3>(&mut c.s);
    match c.s.below(8) {
        // near a pole
        0 => {
            let e = 10f64.powi(-(c.s.below(18) as i32));
            v = unit([v[0] * e, v[1] * e, if c.s.bool() { 1.0 } else { -1.0 }]);
        }
        // near the equator
        1 if v[0].abs() + v[1].abs() > 0.1 => {
            let e = 10f64.powi(-(c.s.below(300) as i32));
            v = unit([v[0], v[1], v[2] * e]);
        }
        // near a given height
        2 if v[0].abs() + v[1].abs() > 0.1 => {
            let h = [0.5, -0.5, 0.25, 0.75, 0.9, 0.99, 0.999999, -0.9][c.s.idx(8)] * (1.0 + [0.0, 1e-15, -1e-15, 1e-7, -1e-7][c.s.idx(5)]);
            let f = ((1.0 - h * h) / (v[0] * v[0] + v[1] * v[1])).sqrt();
            v = [v[0] * f, v[1] * f, h];
        }
        _ => {}
    }
    let t = v.map(T::of);
    (t, unit(alg::f64s(t)))
}
fn any<T: Fl>(c: &mut Cx) -> Res {
    let (d, df) = direction::<T>(c);
    c.show(|| format!("{:?}", d));
    c.nontrivial(df.iter().filter(|x| **x != 0.0).count() > 1);
    c.label_if(df[2] >= 0.0, "upper half");
    let e = K * T::EPS;
    let r = Rotation3::look_at_any(Vector::from(d));
    let a = axes::<T, _>(&r, e)?;
    near("-z under the rotation", a[2].map(|x| -x), df, e)?;
    let q = alg::f64s(r.into_quaternion().into_array());
    let n = alg::nsq(q);
    ensure!((n - 1.0).abs() <= e, "quaternion of norm {}: {:?}", n, q);
    near("-z under the matrix of the rotation", axes::<T, _>(&r.to_linear(), e)?[2].map(|x| -x), df, e)?;
    let l = Linear::look_at_any(Vector::from(d));
    let a = axes::<T, _>(&l, e)?;
    near("-z under the linear map", a[2].map(|x| -x), df, e)
}
fn with_up<T: Fl>(c: &mut Cx) -> Res {
    let (d, df) = direction::<T>(c);
    let wide = T::EPS < 1e-10;
    // any vector, or one close to the direction
    let close = c.s.chance(1, 3);
    let mut up = gen::unit_vec::<3>(&mut c.s);
    if close {
        let e = 10f64.powi(-(c.s.below(if wide { 7 } else { 3 }) as i32));
        let s = if c.s.bool() { 1.0 } else { -1.0 };
        up = std::array::from_fn(|i| df[i] * s + up[i] * e);
    }
    let k = if c.s.bool() { 10f64.powi(c.s.zigzag(if wide { 60 } else { 8 }) as i32) } else { 1.0 };
    let up = up.map(|x| T::of(x * k));
    let uf = unit(alg::f64s(up).map(|x| x / k));
    let x = cross(&df, &uf);
    let sin = dot(&x, &x).sqrt();
    c.show(|| format!("{:?} with {:?} up", d, up));
    let cl = (0..3).map(|i| (up[i].f() / k).powi(2)).sum::<f64>().sqrt() * k * sin;
    if !(cl > if wide { 1e-130 } else { 1e-14 }) {
        // the squared length of the cross product is not representable
        return Ok(());
    }
    if !(sin > if wide { 1e-7 } else { 1e-3 }) {
        return Ok(());
    }
    c.nontrivial(dot(&df, &uf).abs() > 1e-3 && k != 1.0);
    c.label_if(close, "up close to the direction");
    let e = K * T::EPS / sin;
    let right = unit(x);
    let m = Linear::look_at(Vector::from(d), Vector::from(up));
    let a = axes::<T, _>(&m, e)?;
    near("-z", a[2].map(|x| -x), df, e)?;
    near("y", a[1], cross(&right, &df), e)?;
    near("x", a[0], right, e)?;
    ensure!(dot(&a[1], &uf) > 0.0, "y goes to {:?}, away from up {:?}", a[1], uf);
    Ok(())
}
/// All 6 + 12 + 8 directions with small integer components, and every sign of zero.
fn lattice<T: Fl>(c: &mut Cx) -> Res {
    let mut v = [0.0; 3];
    for x in v.iter_mut() {
        *x = [0.0, -0.0, 1.0, -1.0][c.s.idx(4)];
    }
    if dot(&v, &v) == 0.0 {
        v[2] = 1.0;
    }
    let d = unit(v).map(T::of);
    let mut u = [0.0; 3];
    for x in u.iter_mut() {
        *x = [0.0, -0.0, 1.0, -1.0, 3.0][c.s.idx(5)];
    }
    c.show(|| format!("{:?} with {:?} up", d, u));
    c.nontrivial(true);
    let df = unit(alg::f64s(d));
    let e = K * T::EPS;
    let r = axes::<T, _>(&Rotation3::look_at_any(Vector::from(d)), e)?;
    near("-z under the rotation", r[2].map(|x| -x), df, e)?;
    let l = axes::<T, _>(&Linear::look_at_any(Vector::from(d)), e)?;
    near("-z under the linear map", l[2].map(|x| -x), df, e)?;
    let x = cross(&df, &u);
    if dot(&x, &x) > 1e-3 {
        let a = axes::<T, _>(&Linear::look_at(Vector::from(d), Vector::from(u.map(T::of))), e)?;
        near("-z under look_at", a[2].map(|x| -x), df, e)?;
        near("x under look_at", a[0], unit(x), e * 4.0)?;
    }
    Ok(())
}
fn main() {
    let mut p = Prop::new("C31", "the direction is no axis (with up: not orthogonal to up, which is not of unit length)");
    p.sub("any f64", 20000, any::<f64>);
    p.sub("any f32", 12000, any::<f32>);
    p.sub("up f64", 20000, with_up::<f64>);
    p.sub("up f32", 12000, with_up::<f32>);
    p.sub("lattice f64", 3000, lattice::<f64>);
    p.sub("lattice f32", 3000, lattice::<f32>);
    p.main();
}
