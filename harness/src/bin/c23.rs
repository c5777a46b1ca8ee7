//! C23: quaternion arithmetic is Hamilton's algebra in every operator form.
use num_traits::{Inv, One, Zero};
use std::ops::*;
use vecmat::{traits::*, Quaternion, Vector};
use vh::{alg, alg::Fd, elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl};

fn z<T>(a: [T; 4]) -> Quaternion<T> {
    Quaternion::from_array(a)
}
macro_rules! via {
    ($a:expr, $op:ident, $b:expr) => {{
        let mut x = $a;
        x.$op($b);
        x.into_array()
    }};
}
fn ring<T>(c: &mut Cx, a: [T; 4], b: [T; 4], d: [T; 4], k: T) -> Res
where
    T: Fd + AddAssign + SubAssign + MulAssign + DivAssign,
{
    let show = format!("{:?} {:?} {:?} scalar {:?}", a, b, d, k);
    c.show(|| show.clone());
    let (p, q) = (z(a), z(b));
    let want = alg::qmul(a, b);
    c.nontrivial(want != alg::qmul(b, a));
    ensure_eq!((p + q).into_array(), alg::add(a, b), "sum");
    ensure_eq!((p - q).into_array(), alg::sub(a, b), "difference");
    ensure_eq!((p * q).into_array(), want, "product");
    ensure_eq!((-p).into_array(), a.map(|x| -x), "negation");
    ensure_eq!(p.conj().into_array(), alg::conj(a), "conj");
    ensure_eq!(Conj::conj(p).into_array(), alg::conj(a), "Conj::conj");
    ensure_eq!(p.norm_sqr(), alg::nsq(a), "norm_sqr");
    ensure_eq!(Dot::dot(p, q), (0..4).fold(T::zero(), |s, i| s + a[i] * b[i]), "dot");
    let kk = [k, T::zero(), T::zero(), T::zero()];
    ensure_eq!((p + k).into_array(), alg::add(a, kk), "sum with a real");
    ensure_eq!((p - k).into_array(), alg::sub(a, kk), "difference with a real");
    ensure_eq!((p * k).into_array(), alg::scale(a, k), "product with a real");
    ensure_eq!(via!(p, add_assign, q), alg::add(a, b), "+=");
    ensure_eq!(via!(p, sub_assign, q), alg::sub(a, b), "-=");
    ensure_eq!(via!(p, mul_assign, q), want, "*=");
    ensure_eq!(via!(p, add_assign, k), alg::add(a, kk), "+= real");
    ensure_eq!(via!(p, sub_assign, k), alg::sub(a, kk), "-= real");
    ensure_eq!(via!(p, mul_assign, k), alg::scale(a, k), "*= real");
    let (o, n) = (T::one(), T::zero());
    ensure_eq!(Quaternion::<T>::zero().into_array(), [n, n, n, n], "zero");
    ensure_eq!(Quaternion::<T>::one().into_array(), [o, n, n, n], "one");
    ensure_eq!(Quaternion::<T>::i().into_array(), [n, o, n, n], "i");
    ensure_eq!(Quaternion::<T>::j().into_array(), [n, n, o, n], "j");
    ensure_eq!(Quaternion::<T>::k().into_array(), [n, n, n, o], "k");
    ensure_eq!(p.is_zero(), a.iter().all(|x| x.is_zero()), "is_zero");
    ensure_eq!(p.is_one(), a == [o, n, n, n], "is_one");
    ensure_eq!(p == q, a == b, "equality");
    ensure_eq!(p != q, a != b, "inequality");
    let list = [p, q, z(d)];
    let m = c.s.idx(4);
    ensure_eq!(list[..m].iter().copied().sum::<Quaternion<T>>().into_array(), [a, b, d][..m].iter().fold([n; 4], |s, x| alg::add(s, *x)), "sum of {}", m);
    ensure_eq!(list[..m].iter().copied().product::<Quaternion<T>>().into_array(), [a, b, d][..m].iter().fold([o, n, n, n], |s, x| alg::qmul(s, *x)), "product of {}", m);
    // one component differs
    let mut e = a;
    let i = c.s.idx(4);
    e[i] = e[i] + T::one();
    ensure!(z(e) != p, "equal though component {} differs", i);
    Ok(())
}
fn field<T>(c: &mut Cx) -> Res
where
    T: Fd + num_traits::Num + AddAssign + SubAssign + MulAssign + DivAssign,
{
    let (a, b, d): ([T; 4], [T; 4], [T; 4]) = (gen::arr(&mut c.s), gen::arr(&mut c.s), gen::arr(&mut c.s));
    let k = T::any(&mut c.s);
    ring(c, a, b, d, k)?;
    let (p, q, r) = (z(a), z(b), z(d));
    let o = Quaternion::<T>::one();
    if !alg::nsq(b).is_zero() {
        let inv = alg::inv(b);
        ensure_eq!(q.inv().into_array(), inv, "inverse");
        ensure_eq!(q * q.inv(), o, "number times its inverse");
        ensure_eq!(q.inv() * q, o, "inverse times number");
        let want = alg::qmul(a, inv);
        ensure_eq!((p / q).into_array(), want, "quotient");
        ensure_eq!(via!(p, div_assign, q), want, "/=");
    }
    if !k.is_zero() {
        let want = a.map(|x| x / k);
        ensure_eq!((p / k).into_array(), want, "quotient by a real");
        ensure_eq!(via!(p, div_assign, k), want, "/= real");
    }
    ensure_eq!((p * q) * r, p * (q * r), "associativity");
    ensure_eq!(p * (q + r), p * q + p * r, "left distributivity");
    ensure_eq!((q + r) * p, q * p + r * p, "right distributivity");
    ensure_eq!(p * o, p, "one on the right");
    ensure_eq!(o * p, p, "one on the left");
    ensure_eq!((p * q).conj(), q.conj() * p.conj(), "conjugate of the product");
    ensure_eq!((p * q).norm_sqr(), p.norm_sqr() * q.norm_sqr(), "multiplicativity of the squared norm");
    let (i, j, kk) = (Quaternion::<T>::i(), Quaternion::<T>::j(), Quaternion::<T>::k());
    ensure_eq!([i * j, j * kk, kk * i], [kk, i, j], "products of units");
    ensure_eq!([j * i, kk * j, i * kk], [-kk, -i, -j], "reversed products of units");
    ensure_eq!([i * i, j * j, kk * kk, i * j * kk], [-o, -o, -o, -o], "squares of units");
    Ok(())
}
fn small<T: Fd + AddAssign + SubAssign + MulAssign + DivAssign>(c: &mut Cx) -> Res {
    let (a, b, d): ([T; 4], [T; 4], [T; 4]) = (gen::small_arr(&mut c.s), gen::small_arr(&mut c.s), gen::small_arr(&mut c.s));
    let k = T::small(&mut c.s);
    ring(c, a, b, d, k)
}
fn floats<T: Fl>(c: &mut Cx) -> Res
where
    T: Add<Quaternion<T>, Output = Quaternion<T>>
        + Sub<Quaternion<T>, Output = Quaternion<T>>
        + Mul<Quaternion<T>, Output = Quaternion<T>>
        + Div<Quaternion<T>, Output = Quaternion<T>>,
{
    let (a, b): ([T; 4], [T; 4]) = (alg::comps(c), alg::invertible(c));
    let [k]: [T; 1] = alg::invertible(c);
    c.show(|| format!("{:?} {:?} scalar {:?}", a, b, k));
    c.nontrivial(a.iter().chain(&b).all(|x| x.f() != 0.0));
    let (p, q) = (z(a), z(b));
    let (x, y, kr) = (alg::f64s(a), alg::f64s(b), k.f());
    let kc = [kr, 0.0, 0.0, 0.0];
    let near = |what: &str, g: Quaternion<T>, want: [f64; 4], mag: [f64; 4]| alg::all_near(what, g.into_array(), want, mag, 32.0);
    let asg = |f: &dyn Fn(&mut Quaternion<T>)| {
        let mut v = p;
        f(&mut v);
        v
    };
    let sabs = |u: [f64; 4], v: [f64; 4]| alg::add(alg::abs(u), alg::abs(v));
    let (s, d, m) = (alg::add(x, y), alg::sub(x, y), alg::qmul(x, y));
    near("sum", p + q, s, sabs(x, y))?;
    near("+=", asg(&|v| *v += q), s, sabs(x, y))?;
    near("difference", p - q, d, sabs(x, y))?;
    near("-=", asg(&|v| *v -= q), d, sabs(x, y))?;
    near("product", p * q, m, alg::qmul_abs(x, y))?;
    near("*=", asg(&|v| *v *= q), m, alg::qmul_abs(x, y))?;
    near("sum with a real", p + k, alg::add(x, kc), sabs(x, kc))?;
    near("+= real", asg(&|v| *v += k), alg::add(x, kc), sabs(x, kc))?;
    near("real plus quaternion", k + p, alg::add(x, kc), sabs(x, kc))?;
    near("difference with a real", p - k, alg::sub(x, kc), sabs(x, kc))?;
    near("-= real", asg(&|v| *v -= k), alg::sub(x, kc), sabs(x, kc))?;
    near("real minus quaternion", k - p, alg::sub(kc, x), sabs(x, kc))?;
    let pk = alg::scale(x, kr);
    near("product with a real", p * k, pk, alg::abs(pk))?;
    near("*= real", asg(&|v| *v *= k), pk, alg::abs(pk))?;
    near("real times quaternion", k * p, pk, alg::abs(pk))?;
    let quo = x.map(|x| x / kr);
    near("quotient by a real", p / k, quo, alg::abs(quo))?;
    near("/= real", asg(&|v| *v /= k), quo, alg::abs(quo))?;
    let n = alg::nsq(y);
    let inv = alg::inv(y);
    near("inverse", q.inv(), inv, alg::abs(inv))?;
    near("Inv::inv", Inv::inv(q), inv, alg::abs(inv))?;
    let want = alg::qmul(x, inv);
    let mag = alg::qmul_abs(x, inv);
    near("quotient", p / q, want, mag)?;
    near("/=", asg(&|v| *v /= q), want, mag)?;
    let kq = alg::scale(inv, kr);
    near("real by quaternion", k / q, kq, alg::abs(kq))?;
    let o = [1.0, 0.0, 0.0, 0.0];
    near("number times its inverse", q * q.inv(), o, [2.0; 4])?;
    near("inverse times number", q.inv() * q, o, [2.0; 4])?;
    ensure!(vh::tol::nearf(q.norm_sqr(), n, n, 8.0), "norm_sqr is {:?}, expected about {:?}", q.norm_sqr(), n);
    let dot: f64 = (0..4).map(|i| x[i] * y[i]).sum();
    let dm: f64 = (0..4).map(|i| (x[i] * y[i]).abs()).sum();
    ensure!(vh::tol::nearf(Dot::dot(p, q), dot, dm, 10.0), "dot is {:?}, expected about {:?}", Dot::dot(p, q), dot);
    Ok(())
}
fn any_floats<T: Fl>(c: &mut Cx) -> Res
where
    T: Add<Quaternion<T>, Output = Quaternion<T>> + Sub<Quaternion<T>, Output = Quaternion<T>> + Mul<Quaternion<T>, Output = Quaternion<T>>,
{
    let (a, b): ([T; 4], [T; 4]) = (gen::arr(&mut c.s), gen::arr(&mut c.s));
    let k = T::any(&mut c.s);
    c.show(|| format!("{:?} {:?} scalar {:?}", a, b, k));
    c.nontrivial(a.iter().chain(&b).any(|x| !x.is_finite()));
    let (p, q) = (z(a), z(b));
    let eq = |what: &str, g: Quaternion<T>, w: [T; 4]| -> Res {
        let g = g.into_array();
        for i in 0..4 {
            ensure!(g[i] == w[i] || (g[i].is_nan() && w[i].is_nan()), "{}: {:?}, expected {:?}", what, g, w);
        }
        Ok(())
    };
    eq("sum", p + q, std::array::from_fn(|i| a[i] + b[i]))?;
    eq("difference", p - q, std::array::from_fn(|i| a[i] - b[i]))?;
    eq("negation", -p, a.map(|x| -x))?;
    eq("conjugate", p.conj(), alg::conj(a))?;
    eq("sum with a real", p + k, [a[0] + k, a[1], a[2], a[3]])?;
    eq("real plus quaternion", k + p, [a[0] + k, a[1], a[2], a[3]])?;
    eq("difference with a real", p - k, [a[0] - k, a[1], a[2], a[3]])?;
    eq("real minus quaternion", k - p, [k - a[0], -a[1], -a[2], -a[3]])?;
    eq("product with a real", p * k, a.map(|x| x * k))?;
    eq("real times quaternion", k * p, a.map(|x| x * k))?;
    let asg = |f: &dyn Fn(&mut Quaternion<T>)| {
        let mut v = p;
        f(&mut v);
        v
    };
    eq("+=", asg(&|v| *v += q), std::array::from_fn(|i| a[i] + b[i]))?;
    eq("-=", asg(&|v| *v -= q), std::array::from_fn(|i| a[i] - b[i]))?;
    eq("+= real", asg(&|v| *v += k), [a[0] + k, a[1], a[2], a[3]])?;
    eq("-= real", asg(&|v| *v -= k), [a[0] - k, a[1], a[2], a[3]])?;
    eq("*= real", asg(&|v| *v *= k), a.map(|x| x * k))?;
    vh::tol::close("quotient by a real", &(p / k).into_array(), &a.map(|x| x / k))?;
    vh::tol::close("/= real", &asg(&|v| *v /= k).into_array(), &a.map(|x| x / k))?;
    ensure_eq!(p == q, a == b, "equality");
    Ok(())
}
fn conversions<T: Elem>(c: &mut Cx) -> Res {
    let a: [T; 4] = gen::arr(&mut c.s);
    let u = T::any(&mut c.s);
    let i = c.s.idx(4);
    c.show(|| format!("{:?}, {:?} at {}", a, u, i));
    c.nontrivial((1..4).any(|k| !a[k].same(&a[0])));
    let [w, x, y, zz] = a;
    let v3 = Vector::from([x, y, zz]);
    let made = [
        ("new", Quaternion::new(w, x, y, zz)),
        ("from_array", Quaternion::from_array(a)),
        ("from_tuple", Quaternion::from_tuple((w, x, y, zz))),
        ("from_vector", Quaternion::from_vector(Vector::from(a))),
        ("from_scalar_and_vector3", Quaternion::from_scalar_and_vector3(w, v3)),
        ("From<[T; 4]>", Quaternion::from(a)),
        ("From<(T, T, T, T)>", Quaternion::from((w, x, y, zz))),
        ("From<Vector4>", Quaternion::from(Vector::from(a))),
        ("From<(T, Vector3)>", Quaternion::from((w, v3))),
    ];
    for (what, q) in made {
        let t = q.into_tuple();
        let v = q.into_vector();
        let s = q.into_scalar_and_vector3();
        let (ta, tt, tv, ts): ([T; 4], (T, T, T, T), Vector<T, 4>, (T, Vector<T, 3>)) = (q.into(), q.into(), q.into(), q.into());
        let xyz = q.xyz();
        let read = [
            ("w/x/y/z", [q.w(), q.x(), q.y(), q.z()]),
            ("w/xyz", [q.w(), xyz[0], xyz[1], xyz[2]]),
            ("references", [*q.w_ref(), *q.x_ref(), *q.y_ref(), *q.z_ref()]),
            ("into_array", q.into_array()),
            ("into_tuple", [t.0, t.1, t.2, t.3]),
            ("into_vector", v.into_array()),
            ("into_scalar_and_vector3", [s.0, s.1[0], s.1[1], s.1[2]]),
            ("Into<[T; 4]>", ta),
            ("Into<(T, T, T, T)>", [tt.0, tt.1, tt.2, tt.3]),
            ("Into<Vector4>", tv.into_array()),
            ("Into<(T, Vector3)>", [ts.0, ts.1[0], ts.1[1], ts.1[2]]),
        ];
        for (how, r) in read {
            ensure!(r.iter().zip(&a).all(|(p, q)| p.same(q)), "built by {}, read by {}: {:?}, expected {:?}", what, how, r, a);
        }
        let mut m = q;
        match i {
            0 => *m.w_mut() = u,
            1 => *m.x_mut() = u,
            2 => *m.y_mut() = u,
            _ => *m.z_mut() = u,
        }
        let mut want = a;
        want[i] = u;
        ensure!(m.into_array().iter().zip(&want).all(|(p, q)| p.same(q)), "written component {}: {:?}, expected {:?}", i, m.into_array(), want);
    }
    Ok(())
}
fn strings(c: &mut Cx) -> Res {
    let a: [String; 4] = std::array::from_fn(|_| c.s.bits().to_string());
    c.show(|| format!("{:?}", a));
    c.nontrivial(true);
    let mk = || Quaternion::from_array(a.clone());
    ensure_eq!(mk().into_array(), a, "into_array");
    let t = mk().into_tuple();
    ensure_eq!([t.0, t.1, t.2, t.3], a, "into_tuple");
    ensure_eq!(mk().into_vector().into_array(), a, "into_vector");
    let (w, v) = mk().into_scalar_and_vector3();
    ensure_eq!(w, a[0], "scalar part");
    ensure_eq!(v.into_array()[..], a[1..], "vector part");
    let m = mk();
    ensure_eq!([m.w_ref(), m.x_ref(), m.y_ref(), m.z_ref()], [&a[0], &a[1], &a[2], &a[3]], "references");
    let mut m = mk();
    m.y_mut().push('!');
    ensure_eq!(m.into_array(), [a[0].clone(), a[1].clone(), a[2].clone() + "!", a[3].clone()], "after y_mut");
    ensure_eq!(Quaternion::<String>::default().into_array(), [(); 4].map(|_| String::new()), "default");
    Ok(())
}

fn main() {
    let mut p = Prop::new("C23", "the operands do not commute (floats: no component is zero; conversions: the components are not all equal; any floats: one is not finite)");
    p.sub("field", 8000, field::<F>);
    p.sub("small field", 4000, field::<F7>);
    p.sub("small i64", 3000, small::<i64>);
    p.sub("small i32", 2000, small::<i32>);
    p.sub("small f64", 2000, small::<f64>);
    p.sub("small f32", 2000, small::<f32>);
    p.sub("f64", 8000, floats::<f64>);
    p.sub("f32", 8000, floats::<f32>);
    p.sub("any f64", 4000, any_floats::<f64>);
    p.sub("any f32", 4000, any_floats::<f32>);
    p.sub("conversions f64", 1500, conversions::<f64>);
    p.sub("conversions u8", 1500, conversions::<u8>);
    p.sub("conversions char", 1500, conversions::<char>);
    p.sub("conversions pair", 1500, conversions::<(u8, u32)>);
    p.sub("strings", 1000, strings);
    p.main();
}
