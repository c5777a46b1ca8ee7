//! C14: norms are the mathematical norms.
use num_traits::Float;
use vecmat::{traits::*, Complex, Matrix, Quaternion, Vector};
use vh::{add_mat, add_vec, cont::*, elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl, tol::*};

trait Norms: Cont {
    /// L1, L2, squared L2, L-infinity
    fn norms(self) -> [Self::E; 4]
    where
        Self::E: Fl + NormL1<Output = Self::E> + NormLInf<Output = Self::E>;
    fn l1(self) -> Self::E
    where
        Self::E: NormL1<Output = Self::E> + std::ops::Add<Output = Self::E>;
    fn linf(self) -> Self::E
    where
        Self::E: NormLInf<Output = Self::E> + PartialOrd;
}
macro_rules! norms {
    () => {
        fn norms(self) -> [T; 4]
        where
            T: Fl + NormL1<Output = T> + NormLInf<Output = T>,
        {
            [self.norm_l1(), self.norm_l2(), self.norm_l2_sqr(), self.norm_l_inf()]
        }
        fn l1(self) -> T
        where
            T: NormL1<Output = T> + std::ops::Add<Output = T>,
        {
            self.norm_l1()
        }
        fn linf(self) -> T
        where
            T: NormLInf<Output = T> + PartialOrd,
        {
            self.norm_l_inf()
        }
    };
}
impl<T: Elem, const N: usize> Norms for Vector<T, N> {
    norms!();
}
impl<T: Elem, const M: usize, const N: usize> Norms for Matrix<T, M, N> {
    norms!();
}
/// Finite floats of one common scale, some much smaller.
fn floats<T: Fl>(c: &mut Cx, n: usize) -> Vec<T> {
    let e = if T::EPS < 1e-10 { 120 } else { 15 };
    let sc = if c.s.bool() { 1.0 } else { 10f64.powi(c.s.zigzag(e) as i32) };
    let mut v: Vec<T> = (0..n).map(|_| T::of(gen::moderate(&mut c.s) * sc)).collect();
    if n > 0 && c.s.chance(1, 4) {
        // a single dominating component
        let i = c.s.idx(n);
        for (j, x) in v.iter_mut().enumerate() {
            *x = if j == i { T::of(gen::away(&mut c.s) * sc) } else { *x * T::of(1e-3) };
        }
    }
    // squares stay clear of underflow
    let low = if T::EPS < 1e-10 { 1e-140 } else { 1e-15 };
    for x in v.iter_mut() {
        if x.f().abs() < low {
            *x = T::of(0.0);
        }
    }
    c.show(|| format!("{:?}", v));
    c.nontrivial(v.iter().any(|x| x.f() < 0.0) && v.iter().filter(|x| x.f() != 0.0).count() >= n.min(2));
    v
}
/// Scaled reference norms: (L1, L2, L2 squared, L-infinity).
fn reference<T: Fl>(v: &[T]) -> [f64; 4] {
    let l1: f64 = v.iter().map(|x| x.f().abs()).sum();
    let s: f64 = v.iter().map(|x| x.f() * x.f()).sum();
    let m = v.iter().fold(0.0, |a: f64, x| a.max(x.f().abs()));
    [l1, s.sqrt(), s, m]
}
fn ok<T: Fl>(what: &str, got: T, want: f64, n: usize) -> Res {
    ensure!(got.f() >= 0.0 && nearf(got, want, want, 3.0 * n as f64 + 6.0), "{} is {:?}, expected about {:?}", what, got, want);
    Ok(())
}
fn float<V: Norms>(c: &mut Cx) -> Res
where
    V::E: Fl + NormL1<Output = V::E> + NormLInf<Output = V::E>,
{
    let v = floats::<V::E>(c, V::LEN);
    let w = reference(&v);
    let g = V::make(&v).norms();
    for (i, n) in ["norm_l1", "norm_l2", "norm_l2_sqr", "norm_l_inf"].iter().enumerate() {
        ok(n, g[i], w[i], V::LEN)?;
    }
    Ok(())
}
fn lengths<T: Fl, const N: usize>(c: &mut Cx) -> Res {
    let v = floats::<T>(c, N);
    let w = reference(&v);
    ok("length", Vector::<T, N>::make(&v).length(), w[1], N)?;
    ok("square_length", Vector::<T, N>::make(&v).square_length(), w[2], N)
}
fn numbers<T: Fl + NormL1<Output = T>>(c: &mut Cx) -> Res {
    let v = floats::<T>(c, 4);
    let (q, z) = (Quaternion::new(v[0], v[1], v[2], v[3]), Complex::new(v[0], v[1]));
    let w = reference(&v);
    ok("quaternion norm_l1", q.norm_l1(), w[0], 4)?;
    ok("quaternion norm_l2", q.norm_l2(), w[1], 4)?;
    ok("quaternion norm", q.norm(), w[1], 4)?;
    ok("quaternion norm_l2_sqr", q.norm_l2_sqr(), w[2], 4)?;
    ok("quaternion norm_sqr", q.norm_sqr(), w[2], 4)?;
    let w = reference(&v[..2]);
    ok("complex norm_l1", z.norm_l1(), w[0], 2)?;
    ok("complex norm_l2", z.norm_l2(), w[1], 2)?;
    ok("complex norm", z.norm(), w[1], 2)?;
    ok("complex norm_l2_sqr", z.norm_l2_sqr(), w[2], 2)?;
    ok("complex norm_sqr", z.norm_sqr(), w[2], 2)
}
fn exact_numbers(c: &mut Cx) -> Res {
    let v: [F; 4] = gen::small_arr(&mut c.s);
    let u: [F; 4] = std::array::from_fn(|_| F::any(&mut c.s));
    c.nontrivial(u.iter().filter(|x| x.raw() != 0).count() > 2);
    c.show(|| format!("{:?} {:?}", u, v));
    ensure_eq!(Quaternion::from_array(u).norm_sqr(), u[0] * u[0] + u[1] * u[1] + u[2] * u[2] + u[3] * u[3], "quaternion norm_sqr");
    ensure_eq!(Complex::new(u[0], u[1]).norm_sqr(), u[0] * u[0] + u[1] * u[1], "complex norm_sqr");
    ensure_eq!(Vector::from(u).square_length(), u[0] * u[0] + u[1] * u[1] + u[2] * u[2] + u[3] * u[3], "square_length");
    let w: [F; 7] = std::array::from_fn(|_| F::any(&mut c.s));
    ensure_eq!(Vector::from(w).square_length(), w.iter().rev().fold(F::of(0), |a, x| a + *x * *x), "square_length [7]");
    Ok(())
}
/// Integer vectors and matrices.
fn ints<V: Norms>(c: &mut Cx) -> Res
where
    V::E: NormL1<Output = V::E> + NormLInf<Output = V::E> + PartialOrd + std::ops::Add<Output = V::E> + TryInto<i128> + TryFrom<i128>,
    <V::E as TryInto<i128>>::Error: std::fmt::Debug,
{
    let mut v: Vec<V::E> = list(&mut c.s, V::LEN);
    // keep the sum of magnitudes representable
    let (mut sum, mut max) = (0i128, 0i128);
    for x in v.iter_mut() {
        let y: i128 = (*x).try_into().unwrap();
        if V::E::try_from(sum + y.abs()).is_err() {
            *x = V::E::try_from(0).ok().unwrap();
        } else {
            sum += y.abs();
            max = max.max(y.abs());
        }
    }
    c.show(|| format!("{:?}", v));
    c.nontrivial(sum > max);
    let l1: i128 = V::make(&v).l1().try_into().unwrap();
    ensure_eq!(l1, sum, "norm_l1 of {:?}", v);
    let m: i128 = V::make(&v).linf().try_into().unwrap();
    ensure_eq!(m, max, "norm_l_inf of {:?}", v);
    Ok(())
}
macro_rules! prim_int {
    ($p:ident: $($t:ident)*) => {$(
        $p.sub(concat!("primitive ", stringify!($t)), 500, |c| {
            let x = <$t as Elem>::any(&mut c.s);
            let y = <$t as Elem>::any(&mut c.s);
            c.show(|| format!("{} {}", x, y));
            c.nontrivial(x > 1);
            if let Some(a) = (x as i128).checked_abs().and_then(|a| <$t>::try_from(a).ok()) {
                ensure_eq!(x.norm_l1(), a, "norm_l1 of {}", x);
                ensure_eq!(x.norm_l2(), a, "norm_l2 of {}", x);
                ensure_eq!(x.norm_l_inf(), a, "norm_l_inf of {}", x);
            }
            if let Some(q) = x.checked_mul(x) {
                ensure_eq!(x.norm_l2_sqr(), q, "norm_l2_sqr of {}", x);
            }
            if let Some(d) = x.checked_mul(y) {
                ensure_eq!(x.dot(y), d, "dot of {} and {}", x, y);
            }
            Ok(())
        });
    )*};
}
fn prim_float<T>(c: &mut Cx) -> Res
where
    T: Fl + NormL1<Output = T> + NormL2<Output = T> + NormLInf<Output = T> + Dot<Output = T> + Conj + Epsilon,
{
    let mut x = T::any(&mut c.s);
    let e = T::epsilon();
    if c.s.chance(1, 3) {
        // around machine epsilon
        let up = e * T::of(1.0 + T::EPS);
        let down = e * T::of(1.0 - T::EPS / 2.0);
        x = *c.s.pick(&[e, -e, up, -up, down, -down, T::of(0.0), T::of(-0.0), e + e, -e - e, e / (e + T::of(2.0))]);
    }
    let y = T::any(&mut c.s);
    c.show(|| format!("{:?} {:?}", x, y));
    c.nontrivial(x.f() < 0.0);
    ensure!(x.norm_l1().same(&x.abs()), "norm_l1 of {:?} is {:?}", x, x.norm_l1());
    ensure!(x.norm_l2().same(&x.abs()), "norm_l2 of {:?} is {:?}", x, x.norm_l2());
    ensure!(x.norm_l_inf().same(&x.abs()), "norm_l_inf of {:?} is {:?}", x, x.norm_l_inf());
    ensure!(x.norm_l2_sqr().same(&(x * x)), "norm_l2_sqr of {:?} is {:?}", x, x.norm_l2_sqr());
    ensure!(x.dot(y).same(&(x * y)), "dot of {:?} and {:?} is {:?}", x, y, x.dot(y));
    ensure!(x.conj().same(&x), "conj of {:?} is {:?}", x, x.conj());
    let tiny = x.f().abs() <= T::EPS;
    c.label_if(tiny, "epsilon");
    ensure_eq!(x.is_epsilon(), tiny, "is_epsilon of {:?}", x);
    Ok(())
}

fn main() {
    let mut p = Prop::new("C14", "some component is negative and at least two are non-zero (primitive: negative or above one)");
    add_vec!(p, float, "norms", 500; [f32, f64] [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 33]);
    add_mat!(p, float, "norms", 300; [f32, f64] [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 6)]);
    add_vec!(p, ints, "norms", 300; [u8, i8, u16, i16, u32, i32, u64, i64] [1, 2, 3, 4, 7]);
    add_vec!(p, ints, "norms", 200; [i32] [5, 6, 8, 9, 11, 13, 16, 17, 33]);
    add_mat!(p, ints, "norms", 200; [i8, i32] [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4)]);
    macro_rules! l { ($($n:literal)*) => {$(
        p.sub(concat!("length f64[", $n, "]"), 400, lengths::<f64, $n>);
        p.sub(concat!("length f32[", $n, "]"), 400, lengths::<f32, $n>);
    )*}}
    l!(1 2 3 4 5 6 7 8 9 11 13 16 17 33);
    p.sub("numbers f64", 2000, numbers::<f64>);
    p.sub("numbers f32", 2000, numbers::<f32>);
    p.sub("exact", 2000, exact_numbers);
    prim_int!(p: u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
    p.sub("primitive f64", 3000, prim_float::<f64>);
    p.sub("primitive f32", 3000, prim_float::<f32>);
    add_vec!(p, ints, "norms", 20; [i64] [128, 257, 300]);
    add_mat!(p, ints, "norms", 20; [i64] [(16, 17), (300, 1), (1, 300)]);
    macro_rules! every { ([$($n:literal),*]) => {$(
        p.sub(concat!("length, every dimension ", $n), 16, lengths::<f64, $n>);
    )*}}
    vh::every_dim!(every!());
    p.sub("length f64[300]", 20, lengths::<f64, 300>);
    vh::every_dim!(add_vec!(p, ints, "norms, every dimension", 20; [i32]));
    vh::every_shape!(add_mat!(p, ints, "norms, every shape", 20; [i32]));
    vh::every_dim!(add_vec!(p, float, "norms, every dimension", 20; [f64, f32]));
    vh::every_shape!(add_mat!(p, float, "norms, every shape", 20; [f64]));
    p.main();
}
