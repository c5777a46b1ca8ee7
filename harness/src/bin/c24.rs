//! C24: mixed quaternion-complex arithmetic equals embedded arithmetic.
use std::ops::*;
use vecmat::{traits::Dot, Complex, Quaternion, Vector};
use vh::{alg, alg::Fd, elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl};

fn qz<T>(a: [T; 4]) -> Quaternion<T> {
    Quaternion::from_array(a)
}
fn cz<T>(a: [T; 2]) -> Complex<T> {
    Complex::from_array(a)
}
macro_rules! via {
    ($a:expr, $op:ident, $b:expr) => {{
        let mut x = $a;
        x.$op($b);
        x.into_array()
    }};
}
fn ring<T>(c: &mut Cx, a: [T; 4], b: [T; 2]) -> Res
where
    T: Fd + AddAssign + SubAssign + MulAssign + DivAssign,
{
    c.show(|| format!("{:?} {:?}", a, b));
    let (q, z, e) = (qz(a), cz(b), alg::embed(b));
    let (right, left) = (alg::qmul(a, e), alg::qmul(e, a));
    c.nontrivial(left != right);
    ensure_eq!((q + z).into_array(), alg::add(a, e), "quaternion plus complex");
    ensure_eq!((q - z).into_array(), alg::sub(a, e), "quaternion minus complex");
    ensure_eq!((q * z).into_array(), right, "quaternion times complex");
    ensure_eq!((z * q).into_array(), left, "complex times quaternion");
    ensure_eq!(via!(q, add_assign, z), alg::add(a, e), "+= complex");
    ensure_eq!(via!(q, sub_assign, z), alg::sub(a, e), "-= complex");
    ensure_eq!(via!(q, mul_assign, z), right, "*= complex");
    // matrices act as left multiplication
    let x = [a[3], a[1], b[0], a[2]];
    ensure_eq!(q.into_matrix().dot(Vector::from(x)).into_array(), alg::qmul(a, x), "matrix of a quaternion by coordinates");
    let y = [a[0], a[1]];
    ensure_eq!(z.into_matrix().dot(Vector::from(y)).into_array(), alg::cmul(b, y), "matrix of a complex number by coordinates");
    let (p, w) = (qz(x), cz(y));
    ensure_eq!((q * p).into_matrix(), q.into_matrix().dot(p.into_matrix()), "matrix of a product of quaternions");
    ensure_eq!((q + p).into_matrix(), q.into_matrix() + p.into_matrix(), "matrix of a sum of quaternions");
    ensure_eq!(q.conj().into_matrix(), q.into_matrix().transpose(), "matrix of a conjugate quaternion");
    ensure_eq!((z * w).into_matrix(), z.into_matrix().dot(w.into_matrix()), "matrix of a product of complex numbers");
    ensure_eq!((z + w).into_matrix(), z.into_matrix() + w.into_matrix(), "matrix of a sum of complex numbers");
    ensure_eq!(z.conj().into_matrix(), z.into_matrix().transpose(), "matrix of a conjugate complex number");
    Ok(())
}
fn field<T>(c: &mut Cx) -> Res
where
    T: Fd + num_traits::Num + AddAssign + SubAssign + MulAssign + DivAssign,
{
    let (a, b): ([T; 4], [T; 2]) = (gen::arr(&mut c.s), gen::arr(&mut c.s));
    ring(c, a, b)?;
    let (q, z, e) = (qz(a), cz(b), alg::embed(b));
    if !alg::nsq(b).is_zero() {
        let want = alg::qmul(a, alg::inv(e));
        ensure_eq!((q / z).into_array(), want, "quaternion by complex");
        ensure_eq!(via!(q, div_assign, z), want, "/= complex");
    }
    if !alg::nsq(a).is_zero() {
        ensure_eq!((z / q).into_array(), alg::qmul(e, alg::inv(a)), "complex by quaternion");
    }
    if !alg::nsq(a).is_zero() {
        ensure_eq!(q.into_matrix().det(), alg::nsq(a) * alg::nsq(a), "determinant of the matrix of a quaternion");
    }
    ensure_eq!(z.into_matrix().det(), alg::nsq(b), "determinant of the matrix of a complex number");
    Ok(())
}
fn small<T: Fd + AddAssign + SubAssign + MulAssign + DivAssign>(c: &mut Cx) -> Res {
    let (a, b): ([T; 4], [T; 2]) = (gen::small_arr(&mut c.s), gen::small_arr(&mut c.s));
    ring(c, a, b)
}
fn floats<T: Fl>(c: &mut Cx) -> Res
where
    Complex<T>: Add<Quaternion<T>, Output = Quaternion<T>> + Sub<Quaternion<T>, Output = Quaternion<T>>,
{
    let (a, b): ([T; 4], [T; 2]) = (alg::invertible(c), alg::invertible(c));
    c.show(|| format!("{:?} {:?}", a, b));
    c.nontrivial(a.iter().chain(&b).all(|x| x.f() != 0.0));
    let (q, z) = (qz(a), cz(b));
    let (x, y) = (alg::f64s(a), alg::embed(alg::f64s(b)));
    let near = |what: &str, g: Quaternion<T>, want: [f64; 4], mag: [f64; 4]| alg::all_near(what, g.into_array(), want, mag, 32.0);
    let asg = |f: &dyn Fn(&mut Quaternion<T>)| {
        let mut v = q;
        f(&mut v);
        v
    };
    let s = alg::add(alg::abs(x), alg::abs(y));
    near("quaternion plus complex", q + z, alg::add(x, y), s)?;
    near("+= complex", asg(&|v| *v += z), alg::add(x, y), s)?;
    near("complex plus quaternion", z + q, alg::add(x, y), s)?;
    near("quaternion minus complex", q - z, alg::sub(x, y), s)?;
    near("-= complex", asg(&|v| *v -= z), alg::sub(x, y), s)?;
    near("complex minus quaternion", z - q, alg::sub(y, x), s)?;
    near("quaternion times complex", q * z, alg::qmul(x, y), alg::qmul_abs(x, y))?;
    near("*= complex", asg(&|v| *v *= z), alg::qmul(x, y), alg::qmul_abs(x, y))?;
    near("complex times quaternion", z * q, alg::qmul(y, x), alg::qmul_abs(y, x))?;
    let iy = alg::inv(y);
    near("quaternion by complex", q / z, alg::qmul(x, iy), alg::qmul_abs(x, iy))?;
    near("/= complex", asg(&|v| *v /= z), alg::qmul(x, iy), alg::qmul_abs(x, iy))?;
    let ix = alg::inv(x);
    near("complex by quaternion", z / q, alg::qmul(y, ix), alg::qmul_abs(y, ix))?;
    // matrices
    let v: [T; 4] = alg::comps(c);
    let vf = alg::f64s(v);
    alg::all_near("matrix of a quaternion by coordinates", q.into_matrix().dot(Vector::from(v)).into_array(), alg::qmul(x, vf), alg::qmul_abs(x, vf), 32.0)?;
    let (w, wf) = ([v[0], v[1]], [vf[0], vf[1]]);
    let yb = alg::f64s(b);
    let mag = [(yb[0] * wf[0]).abs() + (yb[1] * wf[1]).abs(), (yb[0] * wf[1]).abs() + (yb[1] * wf[0]).abs()];
    alg::all_near("matrix of a complex number by coordinates", z.into_matrix().dot(Vector::from(w)).into_array(), alg::cmul(yb, wf), mag, 32.0)
}
/// Sums of any floats (infinities and NaN included) are the scalar ones, component by component.
fn any_floats<T: Fl>(c: &mut Cx) -> Res
where
    Complex<T>: Add<Quaternion<T>, Output = Quaternion<T>> + Sub<Quaternion<T>, Output = Quaternion<T>>,
{
    let (a, b): ([T; 4], [T; 2]) = (gen::arr(&mut c.s), gen::arr(&mut c.s));
    c.show(|| format!("{:?} {:?}", a, b));
    c.nontrivial(a.iter().chain(&b).any(|x| !x.is_finite() || x.f().abs() > 1e30));
    let (q, z) = (qz(a), cz(b));
    let eq = |what: &str, g: Quaternion<T>, w: [T; 4]| -> Res {
        let g = g.into_array();
        for i in 0..4 {
            ensure!(g[i] == w[i] || (g[i].is_nan() && w[i].is_nan()), "{}: {:?}, expected {:?}", what, g, w);
        }
        Ok(())
    };
    let asg = |f: &dyn Fn(&mut Quaternion<T>)| {
        let mut v = q;
        f(&mut v);
        v
    };
    let (s, d) = ([a[0] + b[0], a[1] + b[1], a[2], a[3]], [a[0] - b[0], a[1] - b[1], a[2], a[3]]);
    eq("quaternion plus complex", q + z, s)?;
    eq("+= complex", asg(&|v| *v += z), s)?;
    eq("complex plus quaternion", z + q, s)?;
    eq("quaternion minus complex", q - z, d)?;
    eq("-= complex", asg(&|v| *v -= z), d)?;
    eq("complex minus quaternion", z - q, d.map(|x| -x))
}

fn main() {
    let mut p = Prop::new("C24", "quaternion and complex number do not commute (floats: no component is zero)");
    p.sub("field", 10000, field::<F>);
    p.sub("small field", 5000, field::<F7>);
    p.sub("small i64", 3000, small::<i64>);
    p.sub("small i32", 2000, small::<i32>);
    p.sub("small f64", 2000, small::<f64>);
    p.sub("small f32", 2000, small::<f32>);
    p.sub("f64", 10000, floats::<f64>);
    p.sub("f32", 10000, floats::<f32>);
    p.sub("any f64", 6000, any_floats::<f64>);
    p.sub("any f32", 6000, any_floats::<f32>);
    p.main();
}
