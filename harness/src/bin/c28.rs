//! C28: reordering and chaining preserve the composite transformation.
use num_traits::Zero;
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    transform::{Affine, Chain, Linear, Reorder, Rotation2, Rotation3, Scale, Shift},
    Matrix, Transform, Vector,
};
use vh::{custom::*, elems::*, engine::*, ensure, tf::*};

/// Nothing is said about poles.
macro_rules! some {
    ($e:expr) => {
        match $e {
            Some(x) => x,
            None => return Ok(()),
        }
    };
}
/// `a(b(x)) = b'(a'(x))`, with all four maps evaluated by definition.
fn reorder<A, B, V: Pt>(c: &mut Cx) -> Res
where
    A: Tf<V> + Reorder<B, V> + PartialEq,
    B: Tf<V> + Reorder<A, V> + PartialEq,
{
    let (a, b) = (A::gen(c), B::gen(c));
    let x = V::gen(c);
    c.show(|| format!("{:?} after {:?} at {:?}", a, b, x));
    c.nontrivial(x.list().iter().any(|t| !t.is_zero()));
    let inner = some!(b.model(x));
    let want = some!(a.model(inner));
    let (b2, a2) = a.reorder(b);
    let mid = some!(a2.model(x));
    let m = 100.0 * (inner.size() + mid.size() + want.size() + 1.0);
    same("reordered pair", some!(b2.model(mid)), want, m)?;
    same("reordered pair, applied by the library", b2.apply(a2.apply(x)), want, m)?;
    // there and back again
    let (a3, b3) = b2.reorder(a2);
    same("reordered twice", some!(a3.model(some!(b3.model(x)))), want, m * 10.0)
}
/// A chained transformation against its parts.
fn chained<A, B, V: Pt>(c: &mut Cx) -> Res
where
    A: Tf<V> + Reorder<B, V> + PartialEq,
    B: Tf<V> + Reorder<A, V> + PartialEq,
{
    let (a, b, p, q) = (A::gen(c), B::gen(c), A::gen(c), B::gen(c));
    let x = V::gen(c);
    c.show(|| format!("{:?} after {:?}; {:?} after {:?}; at {:?}", a, b, p, q, x));
    c.nontrivial(x.list().iter().any(|t| !t.is_zero()) && a != p && b != q);
    let t = Chain::<A, B, V>::new(a, b);
    for (what, t) in [("new", t), ("From", Chain::from((a, b)))] {
        ensure!(*t.outer() == a && *t.inner() == b, "{}: parts are {:?} and {:?}", what, t.outer(), t.inner());
        let (f, g) = t.split();
        ensure!(f == a && g == b, "{}: split into {:?} and {:?}", what, f, g);
        let (f, g): (A, B) = t.into();
        ensure!(f == a && g == b, "{}: turned into {:?} and {:?}", what, f, g);
    }
    let mut u = t;
    *u.outer_mut() = p;
    ensure!(*u.outer() == p && *u.inner() == b, "after writing the outer part: {:?}", u);
    let mut u = t;
    *u.inner_mut() = q;
    ensure!(*u.outer() == a && *u.inner() == q, "after writing the inner part: {:?}", u);
    // inner first
    let inner = some!(b.model(x));
    let y = some!(a.model(inner));
    let mut m = 10.0 * (1.0 + x.size() + inner.size() + y.size());
    same("apply", t.apply(x), y, m)?;
    // t2 after t
    let t2 = Chain::<A, B, V>::new(p, q);
    let mid = some!(q.model(y));
    let z = some!(p.model(mid));
    m += 10.0 * (mid.size() + z.size());
    same("chain", t2.chain(t).apply(x), z, m * 10.0)?;
    // the parts of the chain do the same by definition
    same("parts of the chain", some!(t2.chain(t).model(x)), z, m * 10.0)?;
    // inverse: inner inverse after outer inverse
    let i = some!(a.back(x));
    let w = some!(b.back(i));
    m += 10.0 * (i.size() + w.size());
    same("inverse", t.inv().apply(x), w, m * 10.0)?;
    same("parts of the inverse", some!(t.inv().model(x)), w, m * 10.0)?;
    let id = <Chain<A, B, V> as Transform<V>>::identity();
    same("identity", id.apply(x), x, 0.0)?;
    same("outer part of the identity", id.outer().apply(x), x, 0.0)?;
    same("inner part of the identity", id.inner().apply(x), x, 0.0)
}
/// Scalings and linear maps move past shifts even if they have no inverse.
fn singular<T: Sc, const N: usize>(c: &mut Cx) -> Res {
    let zero = c.s.chance(1, 3);
    let s = Scale::from_mag(if zero { T::zero() } else { T::coef(c) });
    let mut m: [[T; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| T::coef(c)));
    if N > 1 && c.s.bool() {
        m[0] = m[N - 1];
    }
    let l = Linear::from_matrix(Matrix::from_array_of_arrays(m));
    let (h, x) = (Shift::from_vector(Vector::<T, N>::gen(c)), Vector::<T, N>::gen(c));
    c.show(|| format!("{:?}, {:?}, {:?} at {:?}", s, l, h, x));
    c.nontrivial(true);
    let y = h.model(x).unwrap();
    let (h2, s2) = s.reorder(h);
    let want = s.model(y).unwrap();
    let mag = 100.0 * (y.size() + want.size() + 1.0);
    same("scale and shift", h2.model(s2.model(x).unwrap()).unwrap(), want, mag)?;
    let (h2, l2) = l.reorder(h);
    let want = l.model(y).unwrap();
    same("linear and shift", h2.model(l2.model(x).unwrap()).unwrap(), want, mag + 100.0 * want.size())
}
fn affine<T: Sc + PartialEq, const N: usize>(c: &mut Cx) -> Res {
    let (h, l) = (<Shift<T, N> as Tf<Vector<T, N>>>::gen(c), <Linear<T, N> as Tf<Vector<T, N>>>::gen(c));
    c.show(|| format!("{:?} after {:?}", h, l));
    c.nontrivial(true);
    let t: Affine<T, N> = Affine::new(h, l);
    ensure!(t.linear() == l, "linear part: {:?}, expected {:?}", t.linear(), l);
    ensure!(t.shift() == h, "shift: {:?}, expected {:?}", t.shift(), h);
    // parameters come back out of every wrapper
    let v = h.into_vector();
    ensure!(Shift::from(v) == h && Vector::<T, N>::from(h) == v, "shift of {:?}", v);
    let m = l.into_matrix();
    ensure!(Linear::from(m) == l && Matrix::<T, N, N>::from(l) == m, "linear map of {:?}", m);
    Ok(())
}
fn pair<A, B, V: Pt>(p: &mut Prop, name: &str, cases: u64)
where
    A: Tf<V> + Reorder<B, V> + PartialEq,
    B: Tf<V> + Reorder<A, V> + PartialEq,
{
    p.sub(format!("reorder {}", name), cases, reorder::<A, B, V>);
    p.sub(format!("reorder {} swapped", name), cases, reorder::<B, A, V>);
    p.sub(format!("chain {}", name), cases, chained::<A, B, V>);
    p.sub(format!("chain {} swapped", name), cases, chained::<B, A, V>);
}
macro_rules! all {
    ($p:ident; $($t:ty, $k:literal;)*) => {$(
        let s = stringify!($t);
        pair::<Shift<$t, 1>, Scale<$t>, Vector<$t, 1>>(&mut $p, &format!("shift scale 1 {}", s), $k / 3);
        pair::<Shift<$t, 3>, Scale<$t>, Vector<$t, 3>>(&mut $p, &format!("shift scale 3 {}", s), $k);
        pair::<Shift<$t, 6>, Scale<$t>, Vector<$t, 6>>(&mut $p, &format!("shift scale 6 {}", s), $k / 3);
        pair::<Shift<$t, 1>, Linear<$t, 1>, Vector<$t, 1>>(&mut $p, &format!("shift linear 1 {}", s), $k / 3);
        pair::<Shift<$t, 2>, Linear<$t, 2>, Vector<$t, 2>>(&mut $p, &format!("shift linear 2 {}", s), $k);
        pair::<Shift<$t, 3>, Linear<$t, 3>, Vector<$t, 3>>(&mut $p, &format!("shift linear 3 {}", s), $k);
        pair::<Shift<$t, 4>, Linear<$t, 4>, Vector<$t, 4>>(&mut $p, &format!("shift linear 4 {}", s), $k / 3);
        pair::<Shift<$t, 2>, Rotation2<$t>, Vector<$t, 2>>(&mut $p, &format!("shift rotation 2 {}", s), $k);
        pair::<Shift<$t, 3>, Rotation3<$t>, Vector<$t, 3>>(&mut $p, &format!("shift rotation 3 {}", s), $k);
        pair::<Shift<$t, 2>, Scale<$t>, Vector<$t, 2>>(&mut $p, &format!("shift scale 2 {}", s), $k / 6);
        pair::<Shift<$t, 4>, Scale<$t>, Vector<$t, 4>>(&mut $p, &format!("shift scale 4 {}", s), $k / 6);
        pair::<Shift<$t, 9>, Scale<$t>, Vector<$t, 9>>(&mut $p, &format!("shift scale 9 {}", s), $k / 6);
        pair::<Shift<$t, 17>, Scale<$t>, Vector<$t, 17>>(&mut $p, &format!("shift scale 17 {}", s), $k / 9);
        pair::<Shift<$t, 5>, Linear<$t, 5>, Vector<$t, 5>>(&mut $p, &format!("shift linear 5 {}", s), $k / 6);
        pair::<Shift<$t, 6>, Linear<$t, 6>, Vector<$t, 6>>(&mut $p, &format!("shift linear 6 {}", s), $k / 9);
        $p.sub(format!("affine 4 {}", s), $k / 6, affine::<$t, 4>);
        $p.sub(format!("affine 8 {}", s), $k / 9, affine::<$t, 8>);
        $p.sub(format!("singular 1 {}", s), $k / 3, singular::<$t, 1>);
        $p.sub(format!("singular 3 {}", s), $k / 2, singular::<$t, 3>);
        $p.sub(format!("affine 2 {}", s), $k / 2, affine::<$t, 2>);
        $p.sub(format!("affine 3 {}", s), $k / 2, affine::<$t, 3>);
        $p.sub(format!("affine 5 {}", s), $k / 4, affine::<$t, 5>);
    )*};
}
fn main() {
    let mut p = Prop::new("C28", "the point is not the origin (chains: the two pairs differ in both parts)");
    all!(p; F, 900; f64, 900; f32, 600;);
    pair::<Times, Power, Pf>(&mut p, "user-defined times power", 600);
    pair::<Moebius<Complex<F>>, Flip, Complex<F>>(&mut p, "moebius and user-defined flip at complex points F", 600);
    pair::<Moebius<Complex<F>>, Flip, Quaternion<F>>(&mut p, "moebius and user-defined flip at quaternion points F", 600);
    pair::<Moebius<Complex<f64>>, Flip, Complex<f64>>(&mut p, "moebius and user-defined flip at complex points f64", 600);
    p.main();
}
