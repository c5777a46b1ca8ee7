//! C21: complex arithmetic is field arithmetic in every operator form.
use num_complex::Complex as NumComplex;
use num_traits::{Inv, One, Zero};
use std::ops::*;
use vecmat::{traits::*, Complex, Vector};
use vh::{alg, alg::Fd, elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl};

fn z<T>(a: [T; 2]) -> Complex<T> {
    Complex::from_array(a)
}
macro_rules! via {
    ($a:expr, $op:ident, $b:expr) => {{
        let mut x = $a;
        x.$op($b);
        x.into_array()
    }};
}
/// Ring operations over exact elements.
fn ring<T>(c: &mut Cx, a: [T; 2], b: [T; 2], d: [T; 2], k: T) -> Res
where
    T: Fd + AddAssign + SubAssign + MulAssign + DivAssign,
{
    let show = format!("{:?} {:?} {:?} scalar {:?}", a, b, d, k);
    c.show(|| show.clone());
    c.nontrivial(!a[1].is_zero() && !b[1].is_zero());
    let (p, q) = (z(a), z(b));
    ensure_eq!((p + q).into_array(), alg::add(a, b), "sum");
    ensure_eq!((p - q).into_array(), alg::sub(a, b), "difference");
    ensure_eq!((p * q).into_array(), alg::cmul(a, b), "product");
    ensure_eq!((-p).into_array(), [-a[0], -a[1]], "negation");
    ensure_eq!(p.conj().into_array(), [a[0], -a[1]], "conj");
    ensure_eq!(Conj::conj(p).into_array(), [a[0], -a[1]], "Conj::conj");
    ensure_eq!(p.norm_sqr(), a[0] * a[0] + a[1] * a[1], "norm_sqr");
    ensure_eq!((p * p.conj()).into_array(), [p.norm_sqr(), T::zero()], "number times its conjugate");
    ensure_eq!(Dot::dot(p, q), a[0] * b[0] + a[1] * b[1], "dot");
    ensure_eq!((p + k).into_array(), [a[0] + k, a[1]], "sum with a real");
    ensure_eq!((p - k).into_array(), [a[0] - k, a[1]], "difference with a real");
    ensure_eq!((p * k).into_array(), [a[0] * k, a[1] * k], "product with a real");
    ensure_eq!(via!(p, add_assign, q), alg::add(a, b), "+=");
    ensure_eq!(via!(p, sub_assign, q), alg::sub(a, b), "-=");
    ensure_eq!(via!(p, mul_assign, q), alg::cmul(a, b), "*=");
    ensure_eq!(via!(p, add_assign, k), [a[0] + k, a[1]], "+= real");
    ensure_eq!(via!(p, sub_assign, k), [a[0] - k, a[1]], "-= real");
    ensure_eq!(via!(p, mul_assign, k), [a[0] * k, a[1] * k], "*= real");
    let (o, i) = (T::one(), T::zero());
    ensure_eq!(Complex::<T>::zero().into_array(), [i, i], "zero");
    ensure_eq!(Complex::<T>::one().into_array(), [o, i], "one");
    ensure_eq!(Complex::<T>::i().into_array(), [i, o], "i");
    ensure_eq!(p.is_zero(), a[0].is_zero() && a[1].is_zero(), "is_zero");
    ensure_eq!(p.is_one(), a[0] == o && a[1].is_zero(), "is_one");
    ensure_eq!(p == q, a == b, "equality");
    ensure_eq!(p != q, a != b, "inequality");
    let list = [p, q, z(d)];
    let n = c.s.idx(4);
    ensure_eq!(list[..n].iter().copied().sum::<Complex<T>>().into_array(), [a, b, d][..n].iter().fold([i, i], |s, x| alg::add(s, *x)), "sum of {}", n);
    ensure_eq!(list[..n].iter().copied().product::<Complex<T>>().into_array(), [a, b, d][..n].iter().fold([o, i], |s, x| alg::cmul(s, *x)), "product of {}", n);
    Ok(())
}
fn field<T>(c: &mut Cx) -> Res
where
    T: Fd + num_traits::Num + AddAssign + SubAssign + MulAssign + DivAssign,
{
    let (a, b, d): ([T; 2], [T; 2], [T; 2]) = (gen::arr(&mut c.s), gen::arr(&mut c.s), gen::arr(&mut c.s));
    let k = T::any(&mut c.s);
    ring(c, a, b, d, k)?;
    let (p, q) = (z(a), z(b));
    if !alg::nsq(b).is_zero() {
        let inv = alg::inv(b);
        ensure_eq!(q.inv().into_array(), inv, "inverse");
        ensure_eq!((q * q.inv()).into_array(), [T::one(), T::zero()], "number times its inverse");
        let want = alg::cmul(a, inv);
        ensure_eq!((p / q).into_array(), want, "quotient");
        ensure_eq!(via!(p, div_assign, q), want, "/=");
    }
    if !k.is_zero() {
        let want = a.map(|x| x / k);
        ensure_eq!((p / k).into_array(), want, "quotient by a real");
        ensure_eq!(via!(p, div_assign, k), want, "/= real");
    }
    // laws
    let (r, o) = (z(d), Complex::<T>::one());
    ensure_eq!((p * q) * r, p * (q * r), "associativity");
    ensure_eq!(p * q, q * p, "commutativity");
    ensure_eq!(p * (q + r), p * q + p * r, "distributivity");
    ensure_eq!(p * o, p, "one");
    ensure_eq!((p * q).norm_sqr(), p.norm_sqr() * q.norm_sqr(), "multiplicativity of the squared norm");
    ensure_eq!(p.powu(3), p * p * p, "cube");
    Ok(())
}
fn small<T: Fd + AddAssign + SubAssign + MulAssign + DivAssign>(c: &mut Cx) -> Res {
    let (a, b, d): ([T; 2], [T; 2], [T; 2]) = (gen::small_arr(&mut c.s), gen::small_arr(&mut c.s), gen::small_arr(&mut c.s));
    let k = T::small(&mut c.s);
    ring(c, a, b, d, k)
}
/// The remainder, as num-complex defines it.
fn rem<T>(c: &mut Cx) -> Res
where
    T: Fd + num_traits::Num,
{
    let f = |c: &mut Cx| -> [T; 2] { std::array::from_fn(|_| if c.s.bool() { T::small(&mut c.s) } else { (0..c.s.below(6)).fold(T::small(&mut c.s), |a, _| a + a + T::small(&mut c.s)) }) };
    let (a, b) = (f(c), f(c));
    c.show(|| format!("{:?} % {:?}", a, b));
    if b.iter().all(|x| x.is_zero()) {
        return Ok(());
    }
    c.nontrivial(!b[1].is_zero());
    let want = NumComplex::new(a[0], a[1]) % NumComplex::new(b[0], b[1]);
    ensure_eq!((z(a) % z(b)).into_array(), [want.re, want.im], "remainder");
    Ok(())
}
fn floats<T: Fl>(c: &mut Cx) -> Res
where
    T: Add<Complex<T>, Output = Complex<T>>
        + Sub<Complex<T>, Output = Complex<T>>
        + Mul<Complex<T>, Output = Complex<T>>
        + Div<Complex<T>, Output = Complex<T>>,
{
    let (a, b): ([T; 2], [T; 2]) = (alg::comps(c), alg::invertible(c));
    let [k]: [T; 1] = alg::invertible(c);
    c.show(|| format!("{:?} {:?} scalar {:?}", a, b, k));
    c.nontrivial(a.iter().chain(&b).all(|x| x.f() != 0.0));
    let (p, q) = (z(a), z(b));
    let (x, y, kr) = (alg::f64s(a), alg::f64s(b), k.f());
    let kc = [kr, 0.0];
    let near = |what: &str, g: Complex<T>, want: [f64; 2], mag: [f64; 2]| alg::all_near(what, g.into_array(), want, mag, 24.0);
    let asg = |f: &dyn Fn(&mut Complex<T>)| {
        let mut v = p;
        f(&mut v);
        v
    };
    let mabs = |u: [f64; 2], v: [f64; 2]| [(u[0] * v[0]).abs() + (u[1] * v[1]).abs(), (u[0] * v[1]).abs() + (u[1] * v[0]).abs()];
    let sabs = |u: [f64; 2], v: [f64; 2]| [u[0].abs() + v[0].abs(), u[1].abs() + v[1].abs()];
    let (s, d, m) = (alg::add(x, y), alg::sub(x, y), alg::cmul(x, y));
    near("sum", p + q, s, sabs(x, y))?;
    near("+=", asg(&|v| *v += q), s, sabs(x, y))?;
    near("difference", p - q, d, sabs(x, y))?;
    near("-=", asg(&|v| *v -= q), d, sabs(x, y))?;
    near("product", p * q, m, mabs(x, y))?;
    near("*=", asg(&|v| *v *= q), m, mabs(x, y))?;
    // reals on either side
    near("sum with a real", p + k, alg::add(x, kc), sabs(x, kc))?;
    near("+= real", asg(&|v| *v += k), alg::add(x, kc), sabs(x, kc))?;
    near("real plus complex", k + p, alg::add(x, kc), sabs(x, kc))?;
    near("difference with a real", p - k, alg::sub(x, kc), sabs(x, kc))?;
    near("-= real", asg(&|v| *v -= k), alg::sub(x, kc), sabs(x, kc))?;
    near("real minus complex", k - p, alg::sub(kc, x), sabs(x, kc))?;
    near("product with a real", p * k, alg::scale(x, kr), abs2(alg::scale(x, kr)))?;
    near("*= real", asg(&|v| *v *= k), alg::scale(x, kr), abs2(alg::scale(x, kr)))?;
    near("real times complex", k * p, alg::scale(x, kr), abs2(alg::scale(x, kr)))?;
    let quo = x.map(|x| x / kr);
    near("quotient by a real", p / k, quo, abs2(quo))?;
    near("/= real", asg(&|v| *v /= k), quo, abs2(quo))?;
    // inverse and quotients
    let n = alg::nsq(y);
    let inv = alg::inv(y);
    near("inverse", q.inv(), inv, abs2(inv))?;
    near("Inv::inv", Inv::inv(q), inv, abs2(inv))?;
    let want = alg::cmul(x, inv);
    let mag = mabs(x, inv);
    near("quotient", p / q, want, mag)?;
    near("/=", asg(&|v| *v /= q), want, mag)?;
    near("real by complex", k / q, alg::scale(inv, kr), abs2(alg::scale(inv, kr)))?;
    ensure!(vh::tol::nearf(q.norm_sqr(), n, n, 8.0), "norm_sqr is {:?}, expected about {:?}", q.norm_sqr(), n);
    let dot = x[0] * y[0] + x[1] * y[1];
    ensure!(vh::tol::nearf(Dot::dot(p, q), dot, mabs(x, y)[0], 8.0), "dot is {:?}, expected about {:?}", Dot::dot(p, q), dot);
    Ok(())
}
fn abs2(a: [f64; 2]) -> [f64; 2] {
    alg::abs(a)
}
/// Sums and sign changes of any floats (infinities and NaN included) are the scalar ones.
fn any_floats<T: Fl>(c: &mut Cx) -> Res
where
    T: Add<Complex<T>, Output = Complex<T>> + Sub<Complex<T>, Output = Complex<T>> + Mul<Complex<T>, Output = Complex<T>>,
{
    let (a, b): ([T; 2], [T; 2]) = (gen::arr(&mut c.s), gen::arr(&mut c.s));
    let k = T::any(&mut c.s);
    c.show(|| format!("{:?} {:?} scalar {:?}", a, b, k));
    c.nontrivial(a.iter().chain(&b).any(|x| !x.is_finite()));
    let (p, q) = (z(a), z(b));
    let eq = |what: &str, g: Complex<T>, w: [T; 2]| -> Res {
        let g = g.into_array();
        for i in 0..2 {
            ensure!(g[i] == w[i] || (g[i].is_nan() && w[i].is_nan()), "{}: {:?}, expected {:?}", what, g, w);
        }
        Ok(())
    };
    eq("sum", p + q, [a[0] + b[0], a[1] + b[1]])?;
    eq("difference", p - q, [a[0] - b[0], a[1] - b[1]])?;
    eq("negation", -p, [-a[0], -a[1]])?;
    eq("conjugate", p.conj(), [a[0], -a[1]])?;
    eq("sum with a real", p + k, [a[0] + k, a[1]])?;
    eq("real plus complex", k + p, [a[0] + k, a[1]])?;
    eq("difference with a real", p - k, [a[0] - k, a[1]])?;
    eq("real minus complex", k - p, [k - a[0], -a[1]])?;
    eq("product with a real", p * k, a.map(|x| x * k))?;
    eq("real times complex", k * p, a.map(|x| x * k))?;
    let asg = |f: &dyn Fn(&mut Complex<T>)| {
        let mut v = p;
        f(&mut v);
        v
    };
    eq("+=", asg(&|v| *v += q), [a[0] + b[0], a[1] + b[1]])?;
    eq("-=", asg(&|v| *v -= q), [a[0] - b[0], a[1] - b[1]])?;
    eq("+= real", asg(&|v| *v += k), [a[0] + k, a[1]])?;
    eq("-= real", asg(&|v| *v -= k), [a[0] - k, a[1]])?;
    eq("*= real", asg(&|v| *v *= k), a.map(|x| x * k))?;
    vh::tol::close("quotient by a real", &(p / k).into_array(), &a.map(|x| x / k))?;
    vh::tol::close("/= real", &asg(&|v| *v /= k).into_array(), &a.map(|x| x / k))?;
    ensure_eq!(p == q, a == b, "equality");
    Ok(())
}
fn conversions<T: Elem>(c: &mut Cx) -> Res {
    let [x, y, u]: [T; 3] = gen::arr(&mut c.s);
    let i = c.s.idx(2);
    c.show(|| format!("{:?} {:?} {:?} at {}", x, y, u, i));
    c.nontrivial(!x.same(&y));
    let made = [
        ("new", Complex::new(x, y)),
        ("from_array", Complex::from_array([x, y])),
        ("from_tuple", Complex::from_tuple((x, y))),
        ("from_vector", Complex::from_vector(Vector::from([x, y]))),
        ("from_num", Complex::from_num(NumComplex::new(x, y))),
        ("From<[T; 2]>", Complex::from([x, y])),
        ("From<(T, T)>", Complex::from((x, y))),
        ("From<Vector2>", Complex::from(Vector::from([x, y]))),
        ("From<NumComplex>", Complex::from(NumComplex::new(x, y))),
    ];
    for (what, z) in made {
        let t = z.into_tuple();
        let v = z.into_vector();
        let n = z.into_num();
        let (ta, tt, tv, tn): ([T; 2], (T, T), Vector<T, 2>, NumComplex<T>) = (z.into(), z.into(), z.into(), z.into());
        let read = [
            ("re/im", [z.re(), z.im()]),
            ("re_ref/im_ref", [*z.re_ref(), *z.im_ref()]),
            ("into_array", z.into_array()),
            ("into_tuple", [t.0, t.1]),
            ("into_vector", [v[0], v[1]]),
            ("into_num", [n.re, n.im]),
            ("Into<[T; 2]>", ta),
            ("Into<(T, T)>", [tt.0, tt.1]),
            ("Into<Vector2>", [tv[0], tv[1]]),
            ("Into<NumComplex>", [tn.re, tn.im]),
        ];
        for (how, r) in read {
            ensure!(r[0].same(&x) && r[1].same(&y), "built by {}, read by {}: {:?}, expected {:?}", what, how, r, [x, y]);
        }
        let mut w = z;
        if i == 0 {
            *w.re_mut() = u;
        } else {
            *w.im_mut() = u;
        }
        let want = if i == 0 { [u, y] } else { [x, u] };
        ensure!(w.re().same(&want[0]) && w.im().same(&want[1]), "written component {}: {:?} {:?}, expected {:?}", i, w.re(), w.im(), want);
    }
    Ok(())
}
/// Elements that are not `Copy`.
fn strings(c: &mut Cx) -> Res {
    let (x, y) = (c.s.bits().to_string(), c.s.below(50).to_string());
    c.show(|| format!("{} {}", x, y));
    c.nontrivial(x != y);
    let mk = || Complex::new(x.clone(), y.clone());
    ensure_eq!(mk().into_array(), [x.clone(), y.clone()], "into_array");
    ensure_eq!(mk().into_tuple(), (x.clone(), y.clone()), "into_tuple");
    ensure_eq!(mk().into_num(), NumComplex { re: x.clone(), im: y.clone() }, "into_num");
    ensure_eq!(mk().into_vector().into_array(), [x.clone(), y.clone()], "into_vector");
    let m = mk();
    ensure_eq!((m.re_ref(), m.im_ref()), (&x, &y), "re_ref, im_ref");
    let mut m = mk();
    m.im_mut().push('!');
    ensure_eq!(m.into_tuple(), (x.clone(), y.clone() + "!"), "after im_mut");
    ensure_eq!(Complex::<String>::default().into_array(), [String::new(), String::new()], "default");
    Ok(())
}

fn main() {
    let mut p = Prop::new("C21", "no imaginary part is zero (conversions: the parts differ; any floats: one is not finite)");
    p.sub("field", 8000, field::<F>);
    p.sub("small field", 4000, field::<F7>);
    p.sub("small i64", 3000, small::<i64>);
    p.sub("small i32", 2000, small::<i32>);
    p.sub("small f64", 2000, small::<f64>);
    p.sub("small f32", 2000, small::<f32>);
    p.sub("remainder i64", 4000, rem::<i64>);
    p.sub("remainder f64", 4000, rem::<f64>);
    p.sub("remainder f32", 2000, rem::<f32>);
    p.sub("f64", 8000, floats::<f64>);
    p.sub("f32", 8000, floats::<f32>);
    p.sub("any f64", 4000, any_floats::<f64>);
    p.sub("any f32", 4000, any_floats::<f32>);
    p.sub("conversions f64", 1500, conversions::<f64>);
    p.sub("conversions u8", 1500, conversions::<u8>);
    p.sub("conversions char", 1500, conversions::<char>);
    p.sub("conversions pair", 1500, conversions::<(u8, u32)>);
    p.sub("strings", 1000, strings);
    p.main();
}
