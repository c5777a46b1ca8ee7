//! C12: float functions apply per element, with operands broadcast.
use vecmat::{Matrix, Vector};
use vh::{cont::*, elems::*, engine::*, ensure, gen, gen::Fl, tol::*};

fn check<V: Cont>(what: &str, got: V, want: Vec<V::E>, same: impl Fn(V::E, V::E) -> bool) -> Res {
    let g = got.flat();
    for i in 0..V::LEN {
        ensure!(same(g[i], want[i]), "{}: element {} is {:?}, expected {:?} (all: {:?})", what, i, g[i], want[i], g);
    }
    Ok(())
}
/// Bit for bit, any NaN being any NaN.
fn bits<T: Fl>(a: T, b: T) -> bool {
    a.same(&b)
}
/// The same, but zeros of either sign are the same (minimum and maximum may return either).
fn zero_eq<T: Fl>(a: T, b: T) -> bool {
    a == b || a.same(&b)
}
/// Up to a few units in the last place.
fn close<T: Fl>(a: T, b: T) -> bool {
    a == b || a.same(&b) || (a.f() - b.f()).abs() <= 8.0 * T::EPS * a.f().abs().max(b.f().abs())
}

const MODES: usize = 8;
fn floats<T: Fl>(s: &mut Src, n: usize, mode: usize) -> Vec<T> {
    (0..n)
        .map(|_| match mode {
            0 => T::any(s),
            1 => T::of(gen::moderate(s)),
            2 => T::of(gen::unit_f64(s)),
            3 => T::of(gen::away(s).abs()),
            4 => T::of(s.zigzag(20) as f64 / 2.0),
            // mostly subnormal, or close to overflow
            5 => T::min_positive_value() * T::of(s.zigzag(1 << 20) as f64 / (1u64 << s.below(40)) as f64),
            6 => T::max_value() / T::of((1u64 << s.below(40)) as f64) * T::of(gen::unit_f64(s)),
            _ => T::of(1.0 + 3.0 * gen::unit_f64(s).abs()),
        })
        .collect()
}

macro_rules! unary {
    ($V:ty, $T:ty, $a:expr; $($f:ident)*) => {$(
        check(stringify!($f), <$V>::make($a).$f(), $a.iter().map(|x| <$T as num_traits::Float>::$f(*x)).collect(), bits)?;
    )*};
}
macro_rules! all_unary {
    ($V:ty, $T:ty, $a:expr) => {{
        let a: &Vec<$T> = $a;
        unary!($V, $T, a; abs signum cbrt sqrt acos asin atan cosh sinh tan tanh log2 exp ln sin cos asinh acosh atanh floor ceil round trunc fract recip exp2 log10 exp_m1 ln_1p);
        let (s, k) = <$V>::make(a).sin_cos();
        check("sin_cos: sin", s, a.iter().map(|x| num_traits::Float::sin_cos(*x).0).collect(), bits)?;
        check("sin_cos: cos", k, a.iter().map(|x| num_traits::Float::sin_cos(*x).1).collect(), bits)?;
    }};
}
/// Two- and three-operand functions; `$b`, `$e` are operand expressions with their flat expansions.
macro_rules! binary {
    ($what:literal, $V:ty, $T:ty, $a:expr, $b:expr, $fb:expr) => {{
        let (a, fb): (&Vec<$T>, &Vec<$T>) = ($a, $fb);
        let f = |g: fn($T, $T) -> $T| a.iter().zip(fb).map(|(x, y)| g(*x, *y)).collect::<Vec<$T>>();
        #[allow(deprecated)]
        check(concat!("abs_sub, ", $what), <$V>::make(a).abs_sub($b), f(num_traits::Float::abs_sub), zero_eq)?;
        check(concat!("vmin, ", $what), <$V>::make(a).vmin($b), f(num_traits::Float::min), zero_eq)?;
        check(concat!("vmax, ", $what), <$V>::make(a).vmax($b), f(num_traits::Float::max), zero_eq)?;
        check(concat!("atan2, ", $what), <$V>::make(a).atan2($b), f(num_traits::Float::atan2), bits)?;
        check(concat!("hypot, ", $what), <$V>::make(a).hypot($b), f(num_traits::Float::hypot), bits)?;
        check(concat!("powf, ", $what), <$V>::make(a).powf($b), f(num_traits::Float::powf), bits)?;
        check(concat!("log, ", $what), <$V>::make(a).log($b), f(num_traits::Float::log), bits)?;
    }};
}
macro_rules! ternary {
    ($what:literal, $V:ty, $T:ty, $a:expr, $b:expr, $fb:expr, $d:expr, $fd:expr, $lo:expr, $flo:expr, $hi:expr, $fhi:expr) => {{
        let a: &Vec<$T> = $a;
        let want: Vec<$T> = a.iter().zip($fb.iter().zip($fd.iter())).map(|(x, (y, z))| num_traits::Float::mul_add(*x, *y, *z)).collect();
        check(concat!("mul_add, ", $what), <$V>::make(a).mul_add($b, $d), want, bits)?;
        // limits: lower ones are at most upper ones, and nothing is NaN
        let ok = a.iter().chain($flo.iter()).chain($fhi.iter()).all(|x| !x.is_nan()) && $flo.iter().zip($fhi.iter()).all(|(l, h)| l <= h);
        if ok {
            let want: Vec<$T> = a.iter().zip($flo.iter().zip($fhi.iter())).map(|(x, (l, h))| if *x < *l { *l } else if *x > *h { *h } else { *x }).collect();
            check(concat!("clamp, ", $what), <$V>::make(a).clamp($lo, $hi), want, zero_eq)?;
        }
    }};
}
fn vector<T: Fl, const N: usize>(c: &mut Cx) -> Res {
    type Vn<T, const N: usize> = Vector<T, N>;
    let (m1, m2, m3) = (c.s.idx(MODES), c.s.idx(MODES), c.s.idx(MODES));
    let a = floats::<T>(&mut c.s, N, m1);
    let (b, d) = (floats::<T>(&mut c.s, N, m2), floats::<T>(&mut c.s, N, m3));
    let (ks, ls) = (floats::<T>(&mut c.s, 1, m2)[0], floats::<T>(&mut c.s, 1, m3)[0]);
    c.show(|| format!("{:?}; {:?}; {:?}; {:?}; {:?}", a, b, d, ks, ls));
    c.nontrivial(a.windows(2).any(|w| !w[0].same(&w[1])) || N == 1);
    all_unary!(Vn<T, N>, T, &a);
    let (vb, vd, kb, kd) = (Vn::<T, N>::make(&b), Vn::<T, N>::make(&d), vec![ks; N], vec![ls; N]);
    binary!("vector operand", Vn<T, N>, T, &a, vb, &b);
    binary!("scalar operand", Vn<T, N>, T, &a, ks, &kb);
    let lo: Vec<T> = b.iter().zip(&d).map(|(x, y)| num_traits::Float::min(*x, *y)).collect();
    let hi: Vec<T> = b.iter().zip(&d).map(|(x, y)| num_traits::Float::max(*x, *y)).collect();
    let (vl, vh) = (Vn::<T, N>::make(&lo), Vn::<T, N>::make(&hi));
    let (sl, sh) = (num_traits::Float::min(ks, ls), num_traits::Float::max(ks, ls));
    let (fl, fh) = (vec![sl; N], vec![sh; N]);
    ternary!("vector and vector", Vn<T, N>, T, &a, vb, b, vd, d, vl, lo, vh, hi);
    ternary!("scalar and vector", Vn<T, N>, T, &a, ks, kb, vd, d, sl, fl, vh, hi);
    ternary!("vector and scalar", Vn<T, N>, T, &a, vb, b, ls, kd, vl, lo, sh, fh);
    ternary!("scalar and scalar", Vn<T, N>, T, &a, ks, kb, ls, kd, sl, fl, sh, fh);
    let e: Vec<i32> = (0..N).map(|_| powers(&mut c.s)).collect();
    let want = a.iter().zip(&e).map(|(x, y)| num_traits::Float::powi(*x, *y)).collect();
    check("powi, vector operand", Vn::<T, N>::make(&a).powi(Vn::<i32, N>::make(&e)), want, close)?;
    let k = powers(&mut c.s);
    check("powi, scalar operand", Vn::<T, N>::make(&a).powi(k), a.iter().map(|x| num_traits::Float::powi(*x, k)).collect(), close)
}
fn powers(s: &mut Src) -> i32 {
    match s.below(6) {
        0 => s.zigzag(1000) as i32,
        1 => gen::dict_int(s).clamp(-100_000, 100_000) as i32,
        _ => s.zigzag(6) as i32,
    }
}
fn matrix<T: Fl, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    type Mn<T, const M: usize, const N: usize> = Matrix<T, M, N>;
    let (m1, m2, m3) = (c.s.idx(MODES), c.s.idx(MODES), c.s.idx(MODES));
    let n = M * N;
    let a = floats::<T>(&mut c.s, n, m1);
    let (b, d) = (floats::<T>(&mut c.s, n, m2), floats::<T>(&mut c.s, n, m3));
    let (rb, rd) = (floats::<T>(&mut c.s, N, m2), floats::<T>(&mut c.s, N, m3));
    let (ks, ls) = (floats::<T>(&mut c.s, 1, m2)[0], floats::<T>(&mut c.s, 1, m3)[0]);
    c.show(|| format!("{:?}; {:?}; {:?}; rows {:?} {:?}; {:?} {:?}", a, b, d, rb, rd, ks, ls));
    c.nontrivial(a.windows(2).any(|w| !w[0].same(&w[1])) || n == 1);
    all_unary!(Mn<T, M, N>, T, &a);
    let rows = |r: &Vec<T>| (0..n).map(|i| r[i % N]).collect::<Vec<T>>();
    let (vb, vd, kb, kd) = (Mn::<T, M, N>::make(&b), Mn::<T, M, N>::make(&d), vec![ks; n], vec![ls; n]);
    let (wb, wd, fwb, fwd) = (Vector::<T, N>::make(&rb), Vector::<T, N>::make(&rd), rows(&rb), rows(&rd));
    binary!("matrix operand", Mn<T, M, N>, T, &a, vb, &b);
    binary!("row operand", Mn<T, M, N>, T, &a, wb, &fwb);
    binary!("scalar operand", Mn<T, M, N>, T, &a, ks, &kb);
    let lohi = |b: &[T], d: &[T]| -> (Vec<T>, Vec<T>) {
        (b.iter().zip(d).map(|(x, y)| num_traits::Float::min(*x, *y)).collect(), b.iter().zip(d).map(|(x, y)| num_traits::Float::max(*x, *y)).collect())
    };
    let (lo, hi) = lohi(&b, &d);
    let (rlo, rhi) = lohi(&rb, &rd);
    let (vl, vh) = (Mn::<T, M, N>::make(&lo), Mn::<T, M, N>::make(&hi));
    let (wl, wh, fwl, fwh) = (Vector::<T, N>::make(&rlo), Vector::<T, N>::make(&rhi), rows(&rlo), rows(&rhi));
    let (sl, sh) = (num_traits::Float::min(ks, ls), num_traits::Float::max(ks, ls));
    let (fl, fh) = (vec![sl; n], vec![sh; n]);
    ternary!("matrix and matrix", Mn<T, M, N>, T, &a, vb, b, vd, d, vl, lo, vh, hi);
    ternary!("matrix and row", Mn<T, M, N>, T, &a, vb, b, wd, fwd, vl, lo, wh, fwh);
    ternary!("matrix and scalar", Mn<T, M, N>, T, &a, vb, b, ls, kd, vl, lo, sh, fh);
    ternary!("row and matrix", Mn<T, M, N>, T, &a, wb, fwb, vd, d, wl, fwl, vh, hi);
    ternary!("row and row", Mn<T, M, N>, T, &a, wb, fwb, wd, fwd, wl, fwl, wh, fwh);
    ternary!("row and scalar", Mn<T, M, N>, T, &a, wb, fwb, ls, kd, wl, fwl, sh, fh);
    ternary!("scalar and matrix", Mn<T, M, N>, T, &a, ks, kb, vd, d, sl, fl, vh, hi);
    ternary!("scalar and row", Mn<T, M, N>, T, &a, ks, kb, wd, fwd, sl, fl, wh, fwh);
    ternary!("scalar and scalar", Mn<T, M, N>, T, &a, ks, kb, ls, kd, sl, fl, sh, fh);
    let e: Vec<i32> = (0..n).map(|_| powers(&mut c.s)).collect();
    let want = a.iter().zip(&e).map(|(x, y)| num_traits::Float::powi(*x, *y)).collect();
    check("powi, matrix operand", Mn::<T, M, N>::make(&a).powi(Mn::<i32, M, N>::make(&e)), want, close)?;
    let r: Vec<i32> = (0..N).map(|_| powers(&mut c.s)).collect();
    let want = a.iter().enumerate().map(|(i, x)| num_traits::Float::powi(*x, r[i % N])).collect();
    check("powi, row operand", Mn::<T, M, N>::make(&a).powi(Vector::<i32, N>::make(&r)), want, close)?;
    let k = powers(&mut c.s);
    check("powi, scalar operand", Mn::<T, M, N>::make(&a).powi(k), a.iter().map(|x| num_traits::Float::powi(*x, k)).collect(), close)
}
/// Independent sanity of the scalar functions themselves, so that both sides being wrong together
/// (through a shared trait method) would show.
fn scalars<T: Fl>(c: &mut Cx) -> Res {
    let x = gen::moderate(&mut c.s);
    let y = gen::away(&mut c.s).abs();
    c.show(|| format!("{:?} {:?}", x, y));
    c.nontrivial(x != 0.0);
    let v = Vector::<T, 2>::make(&[T::of(x), T::of(y)]);
    let (x, y) = (T::of(x).f(), T::of(y).f());
    let ok = |what: &str, g: Vector<T, 2>, w: [f64; 2]| -> Res {
        for i in 0..2 {
            ensure!(nearf(g[i], w[i], w[i].abs().max(1e-300), 16.0), "{}({:?}) = {:?}, expected about {:?}", what, v[i], g[i], w[i]);
        }
        Ok(())
    };
    ok("exp", v.exp(), [x.exp(), y.exp()])?;
    ok("abs", v.abs(), [x.abs(), y.abs()])?;
    ok("floor", v.floor(), [x.floor(), y.floor()])?;
    ok("ceil", v.ceil(), [x.ceil(), y.ceil()])?;
    ok("round", v.round(), [x.round(), y.round()])?;
    ok("trunc", v.trunc(), [x.trunc(), y.trunc()])?;
    ok("atan", v.atan(), [x.atan(), y.atan()])?;
    ok("cbrt", v.cbrt(), [x.cbrt(), y.cbrt()])?;
    ok("tanh", v.tanh(), [x.tanh(), y.tanh()])?;
    ok("cosh", v.cosh(), [x.cosh(), y.cosh()])?;
    ok("exp2", v.exp2(), [x.exp2(), y.exp2()])?;
    ok("recip", v.recip(), [1.0 / x, 1.0 / y])
}

fn main() {
    let mut p = Prop::new("C12", "the operand has two different elements (or a single one)");
    macro_rules! v { ($($n:literal)*) => {$(
        p.sub(concat!("f64[", $n, "]"), 600, vector::<f64, $n>);
        p.sub(concat!("f32[", $n, "]"), 600, vector::<f32, $n>);
    )*}}
    macro_rules! m { ($($t:ident $m:literal $n:literal;)*) => {$(
        p.sub(concat!(stringify!($t), "[", $m, "x", $n, "]"), 400, matrix::<$t, $m, $n>);
    )*}}
    v!(1 2 3 4 5 6 7 8 9 11 13 16 17);
    m!(f64 1 1; f64 2 2; f64 2 3; f32 3 2; f64 1 4; f64 4 1; f64 3 3; f32 3 3; f64 4 4; f32 2 4; f64 5 6;);
    p.sub("f64[32]", 20, vector::<f64, 32>);
    p.sub("f64[65]", 20, vector::<f64, 65>);
    p.sub("f64[300]", 6, vector::<f64, 300>);
    p.sub("f64[16x17]", 6, matrix::<f64, 16, 17>);
    p.sub("f64[1x9]", 100, matrix::<f64, 1, 9>);
    p.sub("f64[9x2]", 100, matrix::<f64, 9, 2>);
    p.sub("f64[300x2]", 4, matrix::<f64, 300, 2>);
    p.sub("f64[2x300]", 4, matrix::<f64, 2, 300>);
    p.sub("scalar functions f64", 2000, scalars::<f64>);
    p.sub("scalar functions f32", 2000, scalars::<f32>);
    macro_rules! dims { ([$($n:literal),*]) => {$(
        p.sub(concat!("every dimension f64[", $n, "]"), 6, vector::<f64, $n>);
        p.sub(concat!("every dimension f32[", $n, "]"), 6, vector::<f32, $n>);
    )*}}
    vh::every_dim!(dims!());
    macro_rules! shapes { ([$(($m:literal, $n:literal)),*]) => {$(
        p.sub(concat!("every shape f64[", $m, "x", $n, "]"), 6, matrix::<f64, $m, $n>);
    )*}}
    vh::every_shape!(shapes!());
    p.main();
}
