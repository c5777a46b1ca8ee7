//! C22: complex functions match the standard complex functions.
use num_complex::Complex as Nc64;
use num_traits::{Num, One, Zero};
use std::ops::*;
use vecmat::Complex;
use vh::{alg::Fd, elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl};

type Z<T> = [T; 2];
fn vz<T>(a: Z<T>) -> Complex<T> {
    Complex::from_array(a)
}
fn nz<T: Copy>(a: Z<T>) -> Nc64<T> {
    Nc64::new(a[0], a[1])
}
/// Any argument: moderate, on the axes, around the branch points, special.
fn arg<T: Fl>(c: &mut Cx) -> Z<T> {
    let m = |c: &mut Cx| T::of(gen::moderate(&mut c.s));
    match c.s.below(8) {
        0 => [T::any(&mut c.s), T::any(&mut c.s)],
        5 if c.s.bool() => {
            let sp = [T::infinity(), T::neg_infinity(), T::nan(), T::of(0.0), T::of(-0.0), T::of(1.0), T::of(-2.5), T::max_value()];
            [*c.s.pick(&sp), *c.s.pick(&sp)]
        }
        1 => [m(c), *c.s.pick(&[T::of(0.0), T::of(-0.0)])],
        2 => [*c.s.pick(&[T::of(0.0), T::of(-0.0)]), m(c)],
        3 => {
            let p = *c.s.pick(&[T::of(1.0), T::of(-1.0), T::of(0.0), T::of(-0.0)]);
            let e = T::of(gen::unit_f64(&mut c.s) * 10f64.powi(-(c.s.below(16) as i32)));
            if c.s.bool() {
                [p + e, *c.s.pick(&[T::of(0.0), T::of(-0.0), e, -e])]
            } else {
                [*c.s.pick(&[T::of(0.0), T::of(-0.0), e, -e]), p + e]
            }
        }
        4 => {
            let r = 10f64.powi(c.s.zigzag(if T::EPS < 1e-10 { 100 } else { 12 }) as i32);
            let t = gen::angle(&mut c.s);
            [T::of(r * t.cos()), T::of(r * t.sin())]
        }
        _ => [m(c), m(c)],
    }
}
/// Equal, or both not a number, or within `k` roundings of the size of the reference.
fn near<T: Fl>(what: &str, got: Complex<T>, want: Nc64<T>, k: f64) -> Res {
    let g = got.into_array();
    let w = [want.re, want.im];
    let size = w.iter().filter(|x| x.is_finite()).fold(0.0, |m: f64, x| m.max(x.f().abs()));
    for i in 0..2 {
        let ok = if w[i].is_finite() {
            g[i] == w[i] || (g[i].f() - w[i].f()).abs() <= k * T::EPS * size + 1e3 * T::min_positive_value().f()
        } else {
            g[i] == w[i] || (g[i].is_nan() && w[i].is_nan())
        };
        ensure!(ok, "{}: got {:?}, num-complex gives {:?}", what, g, w);
    }
    Ok(())
}
fn functions<T: Fl>(c: &mut Cx) -> Res {
    let a = arg::<T>(c);
    let b = arg::<T>(c);
    let r = if c.s.bool() { T::of(gen::moderate(&mut c.s)) } else { T::any(&mut c.s) };
    c.show(|| format!("{:?}, other {:?}, real {:?}", a, b, r));
    c.nontrivial(a[0].is_finite() && a[1].is_finite() && a[1].f() != 0.0);
    c.label_if(a[1].f() == 0.0 && a[0].f() < 0.0, "negative real axis");
    c.label_if(!a[0].is_finite() || !a[1].is_finite(), "not finite");
    let (v, n) = (vz(a), nz(a));
    let k = 64.0;
    near("exp", v.exp(), n.exp(), k)?;
    near("ln", v.ln(), n.ln(), k)?;
    near("sqrt", v.sqrt(), n.sqrt(), k)?;
    near("cbrt", v.cbrt(), n.cbrt(), k)?;
    near("sin", v.sin(), n.sin(), k)?;
    near("cos", v.cos(), n.cos(), k)?;
    near("tan", v.tan(), n.tan(), k)?;
    near("asin", v.asin(), n.asin(), k)?;
    near("acos", v.acos(), n.acos(), k)?;
    near("atan", v.atan(), n.atan(), k)?;
    near("sinh", v.sinh(), n.sinh(), k)?;
    near("cosh", v.cosh(), n.cosh(), k)?;
    near("tanh", v.tanh(), n.tanh(), k)?;
    near("asinh", v.asinh(), n.asinh(), k)?;
    near("acosh", v.acosh(), n.acosh(), k)?;
    near("atanh", v.atanh(), n.atanh(), k)?;
    near("finv", v.finv(), n.finv(), k)?;
    near("fdiv", v.fdiv(vz(b)), n.fdiv(nz(b)), k)?;
    near("powf", v.powf(r), n.powf(r), k)?;
    near("log", v.log(r), n.log(r), k)?;
    near("expf", v.expf(r), n.expf(r), k)?;
    near("powc", v.powc(vz(b)), n.powc(nz(b)), k)
}
/// Integer powers of floats.
fn powers<T: Fl>(c: &mut Cx) -> Res {
    let a = match c.s.below(3) {
        0 => {
            let t = gen::angle(&mut c.s);
            [T::of(t.cos()), T::of(t.sin())]
        }
        1 => arg::<T>(c),
        _ => [T::of(gen::moderate(&mut c.s)), T::of(gen::moderate(&mut c.s))],
    };
    let e = match c.s.below(4) {
        0 => i32::any(&mut c.s),
        1 => c.s.zigzag(200) as i32,
        _ => c.s.zigzag(9) as i32,
    };
    c.show(|| format!("{:?} to the power {}", a, e));
    c.nontrivial(e.unsigned_abs() > 1 && a[1].f() != 0.0);
    let k = 32.0 + 8.0 * e.unsigned_abs() as f64;
    let check = |what: &str, g: Complex<T>, w: Nc64<T>| -> Res {
        if w.re.is_finite() && w.im.is_finite() {
            near(what, g, w, k)
        } else {
            ensure!(!g.re().is_finite() || !g.im().is_finite(), "{}: got {:?}, num-complex gives {:?}", what, g.into_array(), w);
            Ok(())
        }
    };
    check("powi", vz(a).powi(e), nz(a).powi(e))?;
    check("powu", vz(a).powu(e as u32), nz(a).powu(e as u32))
}
/// Integer powers over a field, against square-and-multiply on pairs.
fn exact_powers<T: Fd + Num>(c: &mut Cx) -> Res {
    let a: Z<T> = gen::arr(&mut c.s);
    let e = match c.s.below(3) {
        0 => u32::any(&mut c.s),
        1 => c.s.below(12) as u32,
        _ => c.s.below(1000) as u32,
    };
    c.show(|| format!("{:?} to the power {}", a, e));
    c.nontrivial(e > 1 && !a[1].is_zero());
    let (mut w, mut b, mut n) = ([T::one(), T::zero()], a, e);
    while n > 0 {
        if n & 1 == 1 {
            w = vh::alg::cmul(w, b);
        }
        b = vh::alg::cmul(b, b);
        n >>= 1;
    }
    ensure_eq!(vz(a).powu(e).into_array(), w, "powu {}", e);
    if let Ok(e) = i32::try_from(e) {
        ensure_eq!(vz(a).powi(e).into_array(), w, "powi {}", e);
        if !vh::alg::nsq(a).is_zero() {
            ensure_eq!(vz(a).powi(-e).into_array(), vh::alg::inv(w), "powi {}", -e);
        }
    }
    Ok(())
}
/// Independent formulas and identities for moderate arguments.
fn identities<T: Fl>(c: &mut Cx) -> Res {
    let g = |c: &mut Cx| gen::unit_f64(&mut c.s) * 3.0;
    let (x, y) = (g(c), g(c));
    let (x, y) = (T::of(x), T::of(y));
    c.show(|| format!("{:?} {:?}", x, y));
    let a = [x, y];
    let (xr, yr) = (x.f(), y.f());
    let r = (xr * xr + yr * yr).sqrt();
    if r < 0.05 {
        return Ok(());
    }
    c.nontrivial(yr < 0.0 || xr < 0.0);
    let tol = 3e3 * T::EPS;
    let eq = |what: &str, g: Complex<T>, w: [f64; 2]| -> Res {
        let s = 1.0 + w[0].abs().max(w[1].abs());
        ensure!((g.re().f() - w[0]).abs() <= tol * s && (g.im().f() - w[1]).abs() <= tol * s, "{} of {:?}: {:?}, expected about {:?}", what, a, g.into_array(), w);
        Ok(())
    };
    let t = yr.atan2(xr);
    let z = vz(a);
    eq("exp", z.exp(), [xr.exp() * yr.cos(), xr.exp() * yr.sin()])?;
    eq("ln", z.ln(), [r.ln(), t])?;
    eq("sqrt", z.sqrt(), [r.sqrt() * (t / 2.0).cos(), r.sqrt() * (t / 2.0).sin()])?;
    eq("cbrt", z.cbrt(), [r.cbrt() * (t / 3.0).cos(), r.cbrt() * (t / 3.0).sin()])?;
    eq("sin", z.sin(), [xr.sin() * yr.cosh(), xr.cos() * yr.sinh()])?;
    eq("cos", z.cos(), [xr.cos() * yr.cosh(), -xr.sin() * yr.sinh()])?;
    eq("sinh", z.sinh(), [xr.sinh() * yr.cos(), xr.cosh() * yr.sin()])?;
    eq("cosh", z.cosh(), [xr.cosh() * yr.cos(), xr.sinh() * yr.sin()])?;
    eq("powf", z.powf(T::of(1.5)), [r.powf(1.5) * (1.5 * t).cos(), r.powf(1.5) * (1.5 * t).sin()])?;
    eq("log", z.log(T::of(2.0)), [r.ln() / 2f64.ln(), t / 2f64.ln()])?;
    eq("expf", z.expf(T::of(2.0)), [2f64.powf(xr) * (yr * 2f64.ln()).cos(), 2f64.powf(xr) * (yr * 2f64.ln()).sin()])?;
    let (n, q) = (r * r, r);
    eq("finv", z.finv(), [xr / n, -yr / n])?;
    eq("fdiv", vz([T::one(), T::zero()]).fdiv(z), [xr / n, -yr / n])?;
    // inverse functions undo the functions (away from their singular points)
    let away = |p: f64, s: f64| ((xr - p).powi(2) + (yr - s).powi(2)).sqrt() > 0.1;
    let a2 = [xr, yr];
    if away(1.0, 0.0) && away(-1.0, 0.0) {
        eq("sin of asin", z.asin().sin(), a2)?;
        eq("cos of acos", z.acos().cos(), a2)?;
        eq("cosh of acosh", z.acosh().cosh(), a2)?;
        eq("tanh of atanh", z.atanh().tanh(), a2)?;
    }
    if away(0.0, 1.0) && away(0.0, -1.0) {
        eq("sinh of asinh", z.asinh().sinh(), a2)?;
        eq("tan of atan", z.atan().tan(), a2)?;
    }
    let _ = q;
    Ok(())
}
fn polar<T: Fl>(c: &mut Cx) -> Res {
    let e = if T::EPS < 1e-10 { 120 } else { 12 };
    let sc = if c.s.chance(1, 3) { 10f64.powi(c.s.zigzag(e) as i32) } else { 1.0 };
    let a: Z<T> = if c.s.chance(1, 8) {
        [T::any(&mut c.s), T::any(&mut c.s)]
    } else {
        [T::of(gen::moderate(&mut c.s) * sc), T::of(gen::moderate(&mut c.s) * sc)]
    };
    let (rr, th) = (T::of(gen::moderate(&mut c.s) * sc), T::of(gen::angle(&mut c.s)));
    c.show(|| format!("{:?}; polar {:?}, {:?}", a, rr, th));
    let z = vz(a);
    // a NaN part gives a NaN argument
    let want = a[1].f().atan2(a[0].f());
    let g = z.arg();
    ensure!((g.is_nan() && want.is_nan()) || (g.f() - want).abs() <= 8.0 * T::EPS * want.abs() + 1e3 * T::min_positive_value().f(), "arg is {:?}, expected about {:?}", g, want);
    ensure!(g.is_nan() || g.abs().f() <= std::f64::consts::PI * (1.0 + T::EPS), "arg {:?} out of range", g);
    let m = a[0].f().abs().max(a[1].f().abs());
    let (lo, hi) = if T::EPS < 1e-10 { (1e-140, 1e150) } else { (1e-15, 1e18) };
    let ordinary = !a[0].is_nan() && !a[1].is_nan() && (m == 0.0 || (m > lo && m < hi));
    c.nontrivial(ordinary && a[0].f() < 0.0);
    if ordinary {
        let n = a[0].f().hypot(a[1].f());
        let p = z.to_polar();
        ensure!((p.0.f() - n).abs() <= 8.0 * T::EPS * n, "polar radius is {:?}, expected about {:?}", p.0, n);
        ensure!((z.norm().f() - n).abs() <= 8.0 * T::EPS * n, "norm is {:?}, expected about {:?}", z.norm(), n);
        ensure!((p.1.f() - want).abs() <= 8.0 * T::EPS * want.abs() + 1e3 * T::min_positive_value().f(), "polar angle is {:?}, expected about {:?}", p.1, want);
        let w = Complex::from_polar(p.0, p.1);
        let d = (w.re().f() - a[0].f()).abs().max((w.im().f() - a[1].f()).abs());
        ensure!(d <= 24.0 * T::EPS * n, "from polar {:?}: {:?}, expected about {:?}", p, w.into_array(), a);
    }
    let (r, t) = (rr.f(), th.f());
    let w = Complex::from_polar(rr, th);
    ensure!(
        (w.re().f() - r * t.cos()).abs() <= 8.0 * T::EPS * r.abs() && (w.im().f() - r * t.sin()).abs() <= 8.0 * T::EPS * r.abs(),
        "from_polar({:?}, {:?}) is {:?}, expected about {:?}",
        rr,
        th,
        w.into_array(),
        [r * t.cos(), r * t.sin()]
    );
    Ok(())
}
fn parsing<T: Elem + Num + Neg<Output = T>>(c: &mut Cx) -> Res
where
    T::FromStrRadixErr: std::fmt::Debug,
{
    let radix = match c.s.below(3) {
        0 => 2 + c.s.below(35) as u32,
        1 => *c.s.pick(&[2, 8, 16, 18, 19, 36]),
        _ => 10,
    };
    let mut t = String::new();
    if c.s.chance(1, 6) {
        for _ in 0..c.s.below(8) {
            t.push(*c.s.pick(&['1', '0', '2', 'i', 'j', '+', '-', ' ', '.', 'e', 'a', 'f', '7', 'I', '_', 'é']));
        }
    } else {
        let number = |c: &mut Cx, t: &mut String| {
            for _ in 0..1 + c.s.below(4) {
                let d = c.s.below(radix.min(36) as u64) as u32;
                let d = std::char::from_digit(d, 36).unwrap();
                t.push(if c.s.chance(1, 4) { d.to_ascii_uppercase() } else { d });
            }
            if c.s.chance(1, 4) {
                t.push('.');
                for _ in 0..c.s.below(3) {
                    t.push(std::char::from_digit(c.s.below(radix.min(10) as u64) as u32, 10).unwrap());
                }
            }
            if radix == 10 && c.s.chance(1, 8) {
                t.push_str(c.s.pick(&["e2", "e-1", "e+3", "E2", "e", "e99", "inf", "NaN"]));
            }
        };
        let part = |c: &mut Cx, t: &mut String, imag: bool| {
            if imag && c.s.chance(1, 4) {
                t.push(*c.s.pick(&['i', 'j']));
            } else if imag && c.s.chance(1, 6) {
                t.push('i');
                number(c, t);
            } else {
                number(c, t);
                if imag {
                    if c.s.chance(1, 8) {
                        t.push(' ');
                    }
                    t.push(*c.s.pick(&['i', 'j']));
                }
            }
        };
        if c.s.chance(1, 8) {
            t.push(' ');
        }
        t.push_str(c.s.pick(&["", "", "-", "+", "--", "- "]));
        let order = c.s.below(4);
        part(c, &mut t, order == 0 || order == 2);
        if order > 1 {
            t.push_str(c.s.pick(&["+", "-", " + ", " - ", "+-", "-+", ""]));
            let imag = order == 3 || c.s.chance(1, 8);
            part(c, &mut t, imag);
        }
    }
    c.show(|| format!("{:?} in radix {}", t, radix));
    let want = guard(|| Nc64::<T>::from_str_radix(&t, radix).ok());
    let got = guard(|| Complex::<T>::from_str_radix(&t, radix).ok());
    let Ok(want) = want else { return Ok(()) };
    c.label_if(want.is_some(), "accepted");
    c.nontrivial(want.is_some_and(|w| !w.im.is_zero()));
    match (got, want) {
        (Ok(None), None) => Ok(()),
        (Ok(Some(g)), Some(w)) if g.re().same(&w.re) && g.im().same(&w.im) => Ok(()),
        (g, w) => Err(Fail::new(format!("{:?} in radix {}: got {:?}, num-complex gives {:?}", t, radix, g, w))),
    }
}

fn main() {
    let mut p = Prop::new("C22", "the argument is finite and off the real axis (powers: exponent above one in magnitude; polar: left half plane; parsing: an accepted number with an imaginary part)");
    p.sub("functions f64", 20000, functions::<f64>);
    p.sub("functions f32", 20000, functions::<f32>);
    p.sub("identities f64", 5000, identities::<f64>);
    p.sub("identities f32", 5000, identities::<f32>);
    p.sub("powers f64", 6000, powers::<f64>);
    p.sub("powers f32", 6000, powers::<f32>);
    p.sub("exact powers", 3000, exact_powers::<F>);
    p.sub("exact powers, small field", 2000, exact_powers::<F7>);
    p.sub("polar f64", 10000, polar::<f64>);
    p.sub("polar f32", 10000, polar::<f32>);
    p.sub("parsing i64", 5000, parsing::<i64>);
    p.sub("parsing i8", 3000, parsing::<i8>);
    p.sub("parsing f64", 5000, parsing::<f64>);
    p.sub("parsing f32", 3000, parsing::<f32>);
    p.main();
}
