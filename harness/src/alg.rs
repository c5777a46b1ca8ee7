//! Reference complex and quaternion algebra on plain arrays.
use crate::elems::Elem;
use crate::engine::*;
use crate::gen::{self, Fl};
use crate::tol::nearf;
use num_traits::Zero;
use std::ops::*;

/// What an exact field or a float offers.
pub trait Fd:
    Elem + Zero + num_traits::One + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Neg<Output = Self>
{
}
impl<T> Fd for T where
    T: Elem + Zero + num_traits::One + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Div<Output = T> + Neg<Output = T>
{
}

pub fn cmul<T: Fd>(a: [T; 2], b: [T; 2]) -> [T; 2] {
    [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
}
/// Hamilton's product, from the table of units.
pub fn qmul<T: Fd>(a: [T; 4], b: [T; 4]) -> [T; 4] {
    let mut r = [T::zero(); 4];
    for i in 0..4 {
        for j in 0..4 {
            let (k, neg) = TABLE[i][j];
            let t = a[i] * b[j];
            r[k] = if neg { r[k] - t } else { r[k] + t };
        }
    }
    r
}
/// Unit i times unit j is (minus) unit k.
pub const TABLE: [[(usize, bool); 4]; 4] = [
    [(0, false), (1, false), (2, false), (3, false)],
    [(1, false), (0, true), (3, false), (2, true)],
    [(2, false), (3, true), (0, true), (1, false)],
    [(3, false), (2, false), (1, true), (0, true)],
];
pub fn qmul_abs(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    let mut r = [0.0; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[TABLE[i][j].0] += (a[i] * b[j]).abs();
        }
    }
    r
}
pub fn add<T: Fd, const N: usize>(a: [T; N], b: [T; N]) -> [T; N] {
    std::array::from_fn(|i| a[i] + b[i])
}
pub fn sub<T: Fd, const N: usize>(a: [T; N], b: [T; N]) -> [T; N] {
    std::array::from_fn(|i| a[i] - b[i])
}
pub fn conj<T: Fd, const N: usize>(a: [T; N]) -> [T; N] {
    std::array::from_fn(|i| if i == 0 { a[i] } else { -a[i] })
}
pub fn nsq<T: Fd, const N: usize>(a: [T; N]) -> T {
    a.iter().fold(T::zero(), |s, x| s + *x * *x)
}
pub fn scale<T: Fd, const N: usize>(a: [T; N], k: T) -> [T; N] {
    a.map(|x| x * k)
}
/// Zero-extended to four components.
pub fn embed<T: Fd, const N: usize>(a: [T; N]) -> [T; 4] {
    std::array::from_fn(|i| if i < N { a[i] } else { T::zero() })
}
pub fn inv<T: Fd, const N: usize>(a: [T; N]) -> [T; N] {
    let n = nsq(a);
    conj(a).map(|x| x / n)
}

/// Moderate float components with a common scale, often with zeros.
pub fn comps<T: Fl, const N: usize>(c: &mut Cx) -> [T; N] {
    let e = if T::EPS < 1e-10 { 40 } else { 6 };
    let sc = if c.s.chance(1, 3) { 10f64.powi(c.s.zigzag(e) as i32) } else { 1.0 };
    std::array::from_fn(|_| T::of(gen::moderate(&mut c.s) * sc))
}
/// The same, with a squared norm that is safely invertible.
pub fn invertible<T: Fl, const N: usize>(c: &mut Cx) -> [T; N] {
    let mut a = comps::<T, N>(c);
    let m = a.iter().fold(0.0, |m: f64, x| m.max(x.f().abs()));
    let lim = if T::EPS < 1e-10 { 1e-60 } else { 1e-8 };
    if m < lim {
        let i = c.s.idx(N);
        a[i] = T::of(if m == 0.0 || c.s.bool() { 1.0 } else { -0.6 });
    }
    a
}
pub fn f64s<T: Fl, const N: usize>(a: [T; N]) -> [f64; N] {
    a.map(|x| x.f())
}
pub fn abs<const N: usize>(a: [f64; N]) -> [f64; N] {
    a.map(|x| x.abs())
}
/// Every component within `k` roundings of its magnitude.
pub fn all_near<T: Fl, const N: usize>(what: &str, got: [T; N], want: [f64; N], mag: [f64; N], k: f64) -> Res {
    for i in 0..N {
        if !nearf(got[i], want[i], mag[i], k) {
            return Err(Fail::new(format!("{}: got {:?}, expected about {:?}", what, &got[..], &want[..])));
        }
    }
    Ok(())
}
