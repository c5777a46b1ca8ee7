//! C30: rotations are rigid, proper and agree with their parameters.
use vecmat::{
    complex::{Complex, Quaternion},
    transform::{Linear, Rotation2, Rotation3},
    Matrix, Transform, Vector,
};
use vh::{alg, elems::*, engine::*, ensure, gen, gen::Fl, tf::*};

/// Units of rounding allowed, relative to the length of the vector.
const K: f64 = 256.0;

fn len(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
fn cross(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn turn2(a: f64, v: [f64; 2]) -> [f64; 2] {
    let (s, c) = a.sin_cos();
    [c * v[0] - s * v[1], s * v[0] + c * v[1]]
}
/// Rodrigues' formula.
fn turn3(k: [f64; 3], a: f64, v: [f64; 3]) -> [f64; 3] {
    let (s, c) = a.sin_cos();
    let (x, d) = (cross(&k, &v), dot(&k, &v));
    std::array::from_fn(|i| v[i] * c + x[i] * s + k[i] * d * (1.0 - c))
}
fn near<const N: usize>(what: &str, got: [f64; N], want: [f64; N], tol: f64) -> Res {
    ensure!(got.iter().zip(&want).all(|(a, b)| (a - b).abs() <= tol), "{}: got {:?}, expected about {:?} (within {:e})", what, &got[..], &want[..], tol);
    Ok(())
}
fn vector<T: Fl, const N: usize>(c: &mut Cx) -> ([T; N], [f64; N]) {
    let v: [T; N] = alg::comps(c);
    (v, alg::f64s(v))
}
fn angle<T: Fl>(c: &mut Cx) -> (T, f64) {
    let mut a = gen::angle(&mut c.s);
    if c.s.chance(1, 8) {
        a *= 100.0;
    }
    if c.s.chance(1, 8) {
        a *= 1e-6;
    }
    let a = T::of(a);
    (a, a.f())
}
fn axis<T: Fl>(c: &mut Cx) -> ([T; 3], [f64; 3]) {
    let k: [T; 3] = gen::unit_vec::<3>(&mut c.s).map(T::of);
    let f = alg::f64s(k);
    // what `unit` means to the accuracy of the type
    let l = len(&f);
    (k, f.map(|x| x / l))
}
fn f<T: Fl, const N: usize>(v: Vector<T, N>) -> [f64; N] {
    alg::f64s(v.into_array())
}

fn planar<T: Fl>(c: &mut Cx) -> Res {
    let ((a, af), (b, bf)) = (angle::<T>(c), angle::<T>(c));
    let ((v, vf), (w, wf)) = (vector::<T, 2>(c), vector::<T, 2>(c));
    c.show(|| format!("{:?} and {:?} on {:?} and {:?}", a, b, v, w));
    c.nontrivial(af != 0.0 && len(&vf) > 0.0);
    c.label_if(af.abs() > 3.15, "beyond half a turn");
    let (r, q) = (Rotation2::new(a), Rotation2::new(b));
    let (vv, wv) = (Vector::from(v), Vector::from(w));
    let (l, m) = (len(&vf), len(&wf));
    // an angle that is reduced to one turn first is as good
    let both = 1.0 + af.abs() + bf.abs();
    let e = K * T::EPS * (1.0 + 0.05 * both);
    let at = |l: f64| e * l + 1e3 * T::min_positive_value().f();
    let (rv, rw) = (f(r.apply(vv)), f(r.apply(wv)));
    near("turned", rv, turn2(af, vf), at(l))?;
    near("length", [len(&rv)], [l], at(l))?;
    near("scalar product", [dot(&rv, &rw)], [dot(&vf, &wf)], e * l * m + 1e-30)?;
    near("area", [rv[0] * rw[1] - rv[1] * rw[0]], [vf[0] * wf[1] - vf[1] * wf[0]], e * l * m + 1e-30)?;
    near("chained", f(r.chain(q).apply(vv)), turn2(af, turn2(bf, vf)), at(l))?;
    near("sum of angles", f(Rotation2::new(a + b).apply(vv)), f(r.apply(q.apply(vv))), at(l * both))?;
    near("negative angle", f(Rotation2::new(-a).apply(r.apply(vv))), vf, at(l))?;
    near("inverse", f(r.inv().apply(vv)), turn2(-af, vf), at(l))?;
    near("matrix", f(r.to_linear().apply(vv)), rv, at(l))?;
    near("matrix of a chain", f(r.chain(q).to_linear().apply(vv)), f(r.to_linear().chain(q.to_linear()).apply(vv)), at(l))?;
    near("matrix of the inverse", f(r.inv().to_linear().apply(vv)), f(r.to_linear().inv().apply(vv)), at(l))?;
    // parameters
    let g = r.angle();
    near("direction of the reported angle", [g.f().cos(), g.f().sin()], [af.cos(), af.sin()], e)?;
    near("rebuilt", f(Rotation2::new(g).apply(vv)), rv, at(l))?;
    let z: [T; 2] = r.into_complex().into_array();
    near("components", alg::f64s(z), [af.cos(), af.sin()], e)?;
    let s: Complex<T> = r.into();
    ensure!(s == r.into_complex() && Rotation2::from(s) == r && Rotation2::from_complex(s) == r, "conversions of {:?}", r);
    let mt = r.to_linear().into_matrix().into_array_of_arrays();
    near("determinant of the matrix", [(mt[0][0] * mt[1][1] - mt[0][1] * mt[1][0]).f()], [1.0], e)
}
fn spatial<T: Fl>(c: &mut Cx) -> Res {
    let ((a, af), (b, bf)) = (angle::<T>(c), angle::<T>(c));
    let ((k, kf), (h, hf)) = (axis::<T>(c), axis::<T>(c));
    let ((v, vf), (w, wf)) = (vector::<T, 3>(c), vector::<T, 3>(c));
    c.show(|| format!("{:?} about {:?} and {:?} about {:?} on {:?} and {:?}", a, k, b, h, v, w));
    c.nontrivial(af != 0.0 && len(&cross(&kf, &vf)) > 0.0);
    c.label_if(af.abs() > 6.29, "beyond a turn");
    let (kv, vv, wv) = (Vector::from(k), Vector::from(v), Vector::from(w));
    let (r, q) = (Rotation3::new(kv, a), Rotation3::new(Vector::from(h), b));
    let (l, m) = (len(&vf), len(&wf));
    // an angle that is reduced to one turn first is as good
    let both = 1.0 + af.abs() + bf.abs();
    let e = K * T::EPS * (1.0 + 0.05 * both);
    let at = |l: f64| e * l + 1e3 * T::min_positive_value().f();
    let (rv, rw) = (f(r.apply(vv)), f(r.apply(wv)));
    near("turned", rv, turn3(kf, af, vf), at(l))?;
    near("length", [len(&rv)], [l], at(l))?;
    near("scalar product", [dot(&rv, &rw)], [dot(&vf, &wf)], e * l * m + 1e-30)?;
    let (x, y) = (cross(&rv, &rw), turn3(kf, af, cross(&vf, &wf)));
    near("vector product", x, y, e * l * m + 1e-30)?;
    near("axis stays", f(r.apply(kv)), kf, e)?;
    near("chained", f(r.chain(q).apply(vv)), turn3(kf, af, turn3(hf, bf, vf)), at(l))?;
    near("inverse", f(r.inv().apply(vv)), turn3(kf, -af, vf), at(l))?;
    near("matrix", f(r.to_linear().apply(vv)), rv, at(l))?;
    near("matrix of a chain", f(r.chain(q).to_linear().apply(vv)), f(r.to_linear().chain(q.to_linear()).apply(vv)), at(l))?;
    near("matrix of the inverse", f(r.inv().to_linear().apply(vv)), f(r.to_linear().inv().apply(vv)), at(l))?;
    // about one axis
    let s = Rotation3::new(kv, b);
    near("chained about one axis", f(r.chain(s).apply(vv)), turn3(kf, af, turn3(kf, bf, vf)), at(l))?;
    near("sum of angles", f(Rotation3::new(kv, a + b).apply(vv)), f(r.chain(s).apply(vv)), at(l * both))?;
    near("opposite axis and angle", f(Rotation3::new(-kv, -a).apply(vv)), rv, at(l))?;
    near("negative angle", f(Rotation3::new(kv, -a).apply(vv)), f(r.inv().apply(vv)), at(l))?;
    parameters(r, vf, vv, l)?;
    parameters(r.chain(q), vf, vv, l)?;
    parameters(r.inv(), vf, vv, l)?;
    let z: Quaternion<T> = r.into();
    ensure!(z == r.into_quaternion() && Rotation3::from(z) == r && Rotation3::from_quaternion(z) == r, "conversions of {:?}", r);
    near("norm of the quaternion", [len(&alg::f64s(z.into_array()))], [1.0], e)
}
/// Reported axis and angle describe the map; only the identity has no axis.
fn parameters<T: Fl>(r: Rotation3<T>, vf: [f64; 3], v: Vector<T, 3>, l: f64) -> Res {
    let q = alg::f64s(r.into_quaternion().into_array());
    let s = len(&q[1..]);
    let e = K * T::EPS;
    let at = e * l + 1e3 * T::min_positive_value().f();
    let rv = f(r.apply(v));
    let g = r.angle();
    // the angle alone fixes the trace
    near("cosine of the reported angle", [g.f().cos()], [q[0] * q[0] - s * s], e)?;
    if s < if T::EPS < 1e-10 { 1e-100 } else { 1e-15 } {
        return Ok(());
    }
    let k = r.axis();
    let kf = f(k);
    near("length of the reported axis", [len(&kf)], [1.0], e)?;
    near("reported axis stays", f(r.apply(k)), kf, e)?;
    near("turned by the reported angle about the reported axis", turn3(kf, g.f(), vf), rv, at)?;
    near("rebuilt", f(Rotation3::new(k, g).apply(v)), rv, at)
}
/// Rotations of any unit quaternion.
fn quaternion<T: Fl + Sc>(c: &mut Cx) -> Res {
    let (p, q): ([T; 4], [T; 4]) = (<T as Sc>::unit(c), <T as Sc>::unit(c));
    let (v, vf) = vector::<T, 3>(c);
    c.show(|| format!("{:?} and {:?} on {:?}", p, q, v));
    c.nontrivial(p[1..].iter().filter(|x| x.f() != 0.0).count() > 1);
    let (r, s) = (Rotation3::from_quaternion(Quaternion::from(p)), Rotation3::from_quaternion(Quaternion::from(q)));
    let (l, vv) = (len(&vf), Vector::from(v));
    let at = K * T::EPS * l + 1e3 * T::min_positive_value().f();
    let by = |q: [T; 4], v: [f64; 3]| -> [f64; 3] {
        let q = alg::f64s(q);
        let n = len(&q);
        let q = q.map(|x| x / n);
        let r = alg::qmul(alg::qmul(q, [0.0, v[0], v[1], v[2]]), alg::conj(q));
        [r[1], r[2], r[3]]
    };
    near("turned", f(r.apply(vv)), by(p, vf), at)?;
    near("chained", f(r.chain(s).apply(vv)), by(p, by(q, vf)), at)?;
    near("matrix", f(r.to_linear().apply(vv)), by(p, vf), at)?;
    near("matrix of the chain", f(r.chain(s).to_linear().apply(vv)), by(p, by(q, vf)), at)?;
    let neg = Rotation3::from_quaternion(-Quaternion::from(p));
    near("negated quaternion", f(neg.apply(vv)), by(p, vf), at)?;
    parameters(r, vf, vv, l)?;
    parameters(neg, vf, vv, l)
}
/// The matrix form over an exact field.
fn exact(c: &mut Cx) -> Res {
    let (p, q): ([F; 2], [F; 2]) = (F::unit(c), F::unit(c));
    let v: [F; 2] = gen::arr(&mut c.s);
    c.show(|| format!("{:?} and {:?} on {:?}", p, q, v));
    c.nontrivial(p[0].raw() != 0 && p[1].raw() != 0);
    let (r, s) = (Rotation2::from_complex(Complex::from(p)), Rotation2::from_complex(Complex::from(q)));
    let x = Vector::from(v);
    let want = Vector::from(alg::cmul(p, v));
    ensure!(r.apply(x) == want, "turned: {:?}, expected {:?}", r.apply(x), want);
    ensure!(r.to_linear().apply(x) == want, "matrix: {:?}, expected {:?}", r.to_linear().apply(x), want);
    let (a, b): (Linear<F, 2>, Linear<F, 2>) = (r.chain(s).to_linear(), r.to_linear().chain(s.to_linear()));
    ensure!(a == b, "matrix of the chain: {:?}, chain of matrices: {:?}", a, b);
    let (a, b) = (r.inv().to_linear(), r.to_linear().inv());
    ensure!(a == b, "matrix of the inverse: {:?}, inverse of the matrix: {:?}", a, b);
    let m = r.to_linear().into_matrix();
    ensure!(m.dot_t() == Matrix::from([[F::of(1), F::of(0)], [F::of(0), F::of(1)]]), "matrix times its transpose: {:?}", m);
    Ok(())
}
trait DotT {
    fn dot_t(self) -> Self;
}
impl DotT for Matrix<F, 2, 2> {
    fn dot_t(self) -> Self {
        let a = self.into_array_of_arrays();
        Matrix::from(std::array::from_fn::<[F; 2], 2, _>(|i| std::array::from_fn(|j| a[i][0] * a[j][0] + a[i][1] * a[j][1])))
    }
}
fn main() {
    let mut p = Prop::new("C30", "the angle is not zero and the vector is not on the axis (quaternions: more than one component besides the real one is not zero)");
    p.sub("planar f64", 12000, planar::<f64>);
    p.sub("planar f32", 8000, planar::<f32>);
    p.sub("spatial f64", 16000, spatial::<f64>);
    p.sub("spatial f32", 10000, spatial::<f32>);
    p.sub("quaternion f64", 10000, quaternion::<f64>);
    p.sub("quaternion f32", 6000, quaternion::<f32>);
    p.sub("planar matrix, field", 3000, exact);
    p.main();
}
