//! Transformations a user of the library might define: `Chain` has to compose them like its own.
use crate::elems::*;
use crate::engine::*;
use crate::tf::*;
use std::ops::Neg;
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    traits::Normalize,
    transform::{Directional, Reorder},
    Transform,
};

/// A point of a line over the prime field.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Pf(pub F);
impl Pt for Pf {
    type S = F;
    const DIM: usize = 1;
    fn make(a: &[F]) -> Pf {
        Pf(a[0])
    }
    fn list(&self) -> Vec<F> {
        vec![self.0]
    }
}
/// `x -> c x`
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Times(pub F);
impl Transform<Pf> for Times {
    fn identity() -> Self {
        Times(F::of(1))
    }
    fn inv(self) -> Self {
        Times(F::of(1) / self.0)
    }
    fn apply(&self, x: Pf) -> Pf {
        Pf(self.0 * x.0)
    }
    fn deriv(&self, _: Pf, v: Pf) -> Pf {
        Pf(self.0 * v.0)
    }
    fn chain(self, o: Self) -> Self {
        Times(self.0 * o.0)
    }
}
impl Tf<Pf> for Times {
    fn gen(c: &mut Cx) -> Self {
        Times(F::nonzero(c))
    }
    fn model(&self, x: Pf) -> Option<Pf> {
        Some(Pf(x.0 * self.0))
    }
    fn back(&self, y: Pf) -> Option<Pf> {
        Some(Pf(y.0 / self.0))
    }
    fn slope(&self, _: Pf, v: Pf) -> Option<Pf> {
        Some(Pf(v.0 * self.0))
    }
}
const ORDER: i128 = BIGP as i128 - 1;
/// `e * invert(e) = 1` modulo the order of the group.
fn invert(e: u64) -> u64 {
    let (mut a, mut b, mut x, mut y) = (e as i128, ORDER, 1i128, 0i128);
    while b != 0 {
        let q = a / b;
        (a, b) = (b, a - q * b);
        (x, y) = (y, x - q * y);
    }
    assert_eq!(a, 1);
    x.rem_euclid(ORDER) as u64
}
/// `x -> x^e` with an exponent that can be inverted.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Power(pub u64);
impl Transform<Pf> for Power {
    fn identity() -> Self {
        Power(1)
    }
    fn inv(self) -> Self {
        Power(invert(self.0))
    }
    fn apply(&self, x: Pf) -> Pf {
        Pf(x.0.pow(self.0))
    }
    fn deriv(&self, x: Pf, v: Pf) -> Pf {
        Pf(F::of(self.0 as i64) * x.0.pow(self.0 - 1) * v.0)
    }
    fn chain(self, o: Self) -> Self {
        Power((self.0 as u128 * o.0 as u128 % ORDER as u128) as u64)
    }
}
impl Tf<Pf> for Power {
    fn gen(c: &mut Cx) -> Self {
        let e = *c.s.pick(&[1, 17, 19, 23, 29, 37, 43, 47, 17 * 17, 1009, 65537]);
        Power(if c.s.bool() { e } else { invert(e) })
    }
    fn model(&self, x: Pf) -> Option<Pf> {
        Some(Pf(x.0.pow(self.0)))
    }
    fn back(&self, y: Pf) -> Option<Pf> {
        Some(Pf(y.0.pow(invert(self.0))))
    }
    fn slope(&self, x: Pf, v: Pf) -> Option<Pf> {
        Some(Pf(v.0 * x.0.pow(self.0 - 1) * F::of(self.0 as i64)))
    }
}
/// `c x^e = (c^(1/e) x)^e`
impl Reorder<Power, Pf> for Times {
    fn reorder(self, o: Power) -> (Power, Times) {
        (o, Times(self.0.pow(invert(o.0))))
    }
}
/// `(c x)^e = c^e x^e`
impl Reorder<Times, Pf> for Power {
    fn reorder(self, o: Times) -> (Times, Power) {
        (Times(o.0.pow(self.0)), self)
    }
}

/// Complex points: conjugation, or nothing; quaternion points: the same conjugation of all complex parts by `j`.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Flip(pub bool);
/// Points that can be flipped.
pub trait Flips: Pt {
    fn flipped(self) -> Self;
}
impl<T: Sc + Neg<Output = T>> Flips for Complex<T> {
    fn flipped(self) -> Self {
        let (a, b) = (self.re(), self.im());
        Complex::new(a, -b)
    }
}
impl<T: Sc + Neg<Output = T>> Flips for Quaternion<T> {
    fn flipped(self) -> Self {
        let [a, b, c, d] = self.into_array();
        Quaternion::new(a, -b, c, -d)
    }
}
impl<V: Flips> Transform<V> for Flip {
    fn identity() -> Self {
        Flip(false)
    }
    fn inv(self) -> Self {
        self
    }
    fn apply(&self, x: V) -> V {
        if self.0 {
            x.flipped()
        } else {
            x
        }
    }
    fn deriv(&self, _: V, v: V) -> V {
        if self.0 {
            v.flipped()
        } else {
            v
        }
    }
    fn chain(self, o: Self) -> Self {
        Flip(self.0 != o.0)
    }
}
impl<V: Flips + Normalize> Directional<V> for Flip {
    fn apply_dir(&self, _: V, v: V) -> V {
        if self.0 {
            v.flipped()
        } else {
            v
        }
    }
    fn apply_normal(&self, _: V, v: V) -> V {
        if self.0 {
            v.flipped()
        } else {
            v
        }
    }
}
impl<V: Flips> Tf<V> for Flip {
    fn gen(c: &mut Cx) -> Self {
        Flip(c.s.chance(3, 4))
    }
    fn model(&self, x: V) -> Option<V> {
        Some(if self.0 { x.flipped() } else { x })
    }
    fn back(&self, y: V) -> Option<V> {
        Some(if self.0 { y.flipped() } else { y })
    }
    fn slope(&self, _: V, v: V) -> Option<V> {
        Some(if self.0 { v.flipped() } else { v })
    }
}
fn moved<T: Sc + Neg<Output = T>>(m: Moebius<Complex<T>>, f: Flip) -> Moebius<Complex<T>> {
    let (a, b, c, d) = m.into_tuple();
    let g = |z: Complex<T>| if f.0 { Complex::new(z.re(), -z.im()) } else { z };
    Moebius::new(g(a), g(b), g(c), g(d))
}
impl<T: Sc + Neg<Output = T>, V: Flips> Reorder<Moebius<Complex<T>>, V> for Flip
where
    Moebius<Complex<T>>: Transform<V>,
{
    fn reorder(self, o: Moebius<Complex<T>>) -> (Moebius<Complex<T>>, Flip) {
        (moved(o, self), self)
    }
}
impl<T: Sc + Neg<Output = T>, V: Flips> Reorder<Flip, V> for Moebius<Complex<T>>
where
    Moebius<Complex<T>>: Transform<V>,
{
    fn reorder(self, o: Flip) -> (Flip, Moebius<Complex<T>>) {
        (o, moved(self, o))
    }
}
