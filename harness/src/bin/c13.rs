//! C13: sums, products, extremes and zero tests cover every element.
use num_traits::{One, Zero};
use std::iter::{Product, Sum};
use std::ops::*;
use vecmat::{Complex, Matrix, Quaternion, Vector};
use vh::{every_dim, every_shape, add_mat, add_vec, cont::*, elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl, tol::near};

trait Reduce: Cont {
    fn sum_(self) -> Self::E
    where
        Self::E: Add<Output = Self::E>;
    fn max_(self) -> Self::E
    where
        Self::E: PartialOrd;
    fn min_(self) -> Self::E
    where
        Self::E: PartialOrd;
}
macro_rules! red {
    () => {
        fn sum_(self) -> T
        where
            T: Add<Output = T>,
        {
            self.sum()
        }
        fn max_(self) -> T
        where
            T: PartialOrd,
        {
            self.max()
        }
        fn min_(self) -> T
        where
            T: PartialOrd,
        {
            self.min()
        }
    };
}
impl<T: Elem, const N: usize> Reduce for Vector<T, N> {
    red!();
}
impl<T: Elem, const M: usize, const N: usize> Reduce for Matrix<T, M, N> {
    red!();
}
fn mixed<T: Elem>(c: &mut Cx, v: &[T]) {
    c.show(|| format!("{:?}", v));
    c.nontrivial(v.len() == 1 || v.windows(2).any(|w| !w[0].same(&w[1])));
}

/// Sums of exact elements, compared with an independent total.
fn sum_int<V: Reduce>(c: &mut Cx) -> Res
where
    V::E: Add<Output = V::E> + TryInto<i128> + TryFrom<i128> + Copy,
    <V::E as TryInto<i128>>::Error: std::fmt::Debug,
{
    let mut v: Vec<V::E> = list(&mut c.s, V::LEN);
    // keep every partial sum representable, whatever the order of additions
    let (mut hi, mut lo) = (0i128, 0i128);
    for x in v.iter_mut() {
        let y: i128 = (*x).try_into().unwrap();
        let (h, l) = (hi + y.max(0), lo + y.min(0));
        if V::E::try_from(h).is_err() || V::E::try_from(l).is_err() {
            *x = V::E::try_from(0).ok().unwrap();
        } else {
            hi = h;
            lo = l;
        }
    }
    mixed(c, &v);
    let want = V::E::try_from(hi + lo).ok().unwrap();
    ensure_eq!(V::make(&v).sum_(), want, "sum");
    Ok(())
}
fn sum_ring<V: Reduce>(c: &mut Cx) -> Res
where
    V::E: Add<Output = V::E> + Zero,
{
    let v: Vec<V::E> = (0..V::LEN).map(|_| V::E::any(&mut c.s)).collect();
    mixed(c, &v);
    let want = v.iter().rev().fold(V::E::zero(), |a, x| *x + a);
    ensure_eq!(V::make(&v).sum_(), want, "sum");
    Ok(())
}
fn sum_float<V: Reduce>(c: &mut Cx) -> Res
where
    V::E: Fl,
{
    let mut v: Vec<V::E> = Vec::new();
    for _ in 0..V::LEN {
        let f = if c.s.chance(1, 6) { 1e6 } else { 1.0 };
        v.push(V::E::of(gen::moderate(&mut c.s) * f));
    }
    mixed(c, &v);
    let want: f64 = v.iter().map(|x| x.f()).sum();
    let mag: f64 = v.iter().map(|x| x.f().abs()).sum();
    let got = V::make(&v).sum_();
    ensure!(near(got, V::E::of(want), mag, 2.0 * V::LEN as f64 + 4.0), "sum: {:?}, expected about {:?}", got, want);
    Ok(())
}
fn extremes<V: Reduce>(c: &mut Cx) -> Res
where
    V::E: PartialOrd,
{
    let mut v: Vec<V::E> = list(&mut c.s, V::LEN);
    // only totally ordered inputs
    for i in 0..v.len() {
        if v[i].partial_cmp(&v[i]).is_none() || v[..i].iter().any(|y| y.partial_cmp(&v[i]).is_none()) {
            v[i] = if i > 0 { v[0] } else { V::E::tag(1) };
        }
    }
    mixed(c, &v);
    let (hi, lo) = (V::make(&v).max_(), V::make(&v).min_());
    ensure!(v.iter().any(|x| *x == hi) && v.iter().all(|x| *x <= hi), "max of {:?} is {:?}", v, hi);
    ensure!(v.iter().any(|x| *x == lo) && v.iter().all(|x| *x >= lo), "min of {:?} is {:?}", v, lo);
    Ok(())
}
fn zeros<V: Cont + Zero>(c: &mut Cx) -> Res
where
    V::E: Zero,
{
    ensure!(V::zero().flat().iter().all(|x| x.is_zero()), "zero has a non-zero element");
    ensure!(V::zero().is_zero(), "zero is not zero");
    let mut v: Vec<V::E> = vec![V::E::zero(); V::LEN];
    let k = if V::LEN == 0 { 0 } else { c.s.below(4).min(V::LEN as u64) };
    for _ in 0..k {
        let i = c.s.idx(V::LEN);
        v[i] = V::E::any(&mut c.s);
    }
    if c.s.chance(1, 4) {
        v = list(&mut c.s, V::LEN);
    }
    c.show(|| format!("{:?}", v));
    c.nontrivial(v.iter().any(|x| !x.is_zero()));
    c.label_if(v.iter().filter(|x| !x.is_zero()).count() == 1, "a single non-zero element");
    ensure_eq!(V::make(&v).is_zero(), v.iter().all(|x| x.is_zero()), "is_zero of {:?}", v);
    Ok(())
}
/// Zero tests of numbers with components.
fn zero_number<T: Elem + Zero>(c: &mut Cx) -> Res {
    let mut v = [T::zero(); 4];
    for _ in 0..c.s.below(3) {
        v[c.s.idx(4)] = T::any(&mut c.s);
    }
    c.show(|| format!("{:?}", v));
    c.nontrivial(v.iter().any(|x| !x.is_zero()));
    let z = |x: &[T]| x.iter().all(|x| x.is_zero());
    ensure_eq!(Quaternion::from_array(v).is_zero(), z(&v), "is_zero of quaternion {:?}", v);
    ensure_eq!(Complex::new(v[0], v[1]).is_zero(), z(&v[..2]), "is_zero of complex {:?}", &v[..2]);
    ensure!(z(&Quaternion::<T>::zero().into_array()) && Quaternion::<T>::zero().is_zero(), "zero quaternion");
    ensure!(z(&Complex::<T>::zero().into_array()) && Complex::<T>::zero().is_zero(), "zero complex");
    Ok(())
}
const LENS: [usize; 11] = [0, 1, 2, 3, 4, 5, 8, 9, 13, 17, 33];
fn same_float_ok<E: Elem>(a: E, b: E) -> bool {
    // zeros of either sign are the same
    a == b || a.same(&b)
}
/// Sum and product of an iterator of containers.
fn iterate<V>(c: &mut Cx) -> Res
where
    V: Cont + Add<Output = V> + Mul<Output = V> + Sum + Product,
    V::E: Add<Output = V::E> + Mul<Output = V::E> + Zero + One,
{
    let k = *c.s.pick(&LENS);
    let items: Vec<Vec<V::E>> = (0..k).map(|_| list_small(&mut c.s, V::LEN)).collect();
    let hint = c.s.below(4);
    c.show(|| format!("{:?}", items));
    c.nontrivial(k >= 2);
    c.label_if(k == 0, "empty iterator");
    let col = |i: usize| items.iter().map(move |v| v[i]);
    // i8 and the like overflow quickly: the scalar fold decides
    let want: Option<Vec<V::E>> = guard(|| (0..V::LEN).map(|i| col(i).fold(V::E::zero(), |a, x| a + x)).collect()).ok();
    let got = guard(|| rough(items.iter().map(|v| V::make(v)), hint).sum::<V>().flat());
    match (&got, &want) {
        (Ok(g), Some(w)) => ensure!(g.iter().zip(w).all(|(a, b)| same_float_ok(*a, *b)), "sum: {:?}, expected {:?}", g, w),
        (Err(_), None) => {}
        _ => return Err(Fail::new(format!("sum: {:?}, expected {:?}", got, want))),
    }
    let want: Option<Vec<V::E>> = guard(|| (0..V::LEN).map(|i| col(i).fold(V::E::one(), |a, x| a * x)).collect()).ok();
    let got = guard(|| rough(items.iter().map(|v| V::make(v)), hint).product::<V>().flat());
    match (&got, &want) {
        (Ok(g), Some(w)) => ensure!(g.iter().zip(w).all(|(a, b)| same_float_ok(*a, *b)), "product: {:?}, expected {:?}", g, w),
        (Err(_), None) => {}
        _ => return Err(Fail::new(format!("product: {:?}, expected {:?}", got, want))),
    }
    Ok(())
}
/// The same items with a correct but less exact size: unknown, a lower bound, or exact.
fn rough<I: ExactSizeIterator>(it: I, how: u64) -> impl Iterator<Item = I::Item> {
    struct Rough<I>(I, u64);
    impl<I: ExactSizeIterator> Iterator for Rough<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.0.len();
            match self.1 {
                0 => (0, None),
                1 => (n / 2, None),
                2 => (n.saturating_sub(1), Some(n + 1)),
                _ => (n, Some(n)),
            }
        }
    }
    Rough(it, how)
}
/// Lengths past any small counter; most items are one.
fn long<V>(c: &mut Cx) -> Res
where
    V: Cont + Add<Output = V> + Mul<Output = V> + Sum + Product,
    V::E: Add<Output = V::E> + Mul<Output = V::E> + Zero + One,
{
    let k = *c.s.pick(&[64, 100, 128, 255, 256, 257, 300, 513, 1000]);
    let hint = c.s.below(4);
    let mut items = vec![vec![V::E::one(); V::LEN]; k];
    let n = c.s.below(12);
    let mut at = Vec::new();
    for _ in 0..n {
        // often near the end
        let i = if c.s.bool() { k - 1 - c.s.idx(8) } else { c.s.idx(k) };
        items[i] = list_small(&mut c.s, V::LEN);
        at.push((i, items[i].clone()));
    }
    c.show(|| format!("{} items, ones but for {:?}; size hint {}", k, at, hint));
    c.nontrivial(true);
    let col = |i: usize| items.iter().map(move |v| v[i]);
    let sum: Vec<V::E> = (0..V::LEN).map(|i| col(i).fold(V::E::zero(), |a, x| a + x)).collect();
    let product: Vec<V::E> = (0..V::LEN).map(|i| col(i).fold(V::E::one(), |a, x| a * x)).collect();
    let make = || rough(items.iter().map(|v| V::make(v)), hint);
    ensure_eq!(make().sum::<V>().flat(), sum, "sum");
    ensure_eq!(make().product::<V>().flat(), product, "product");
    Ok(())
}
fn long_numbers(c: &mut Cx) -> Res {
    let k = *c.s.pick(&[64usize, 100, 128, 255, 256, 257, 300, 513, 1000]);
    let hint = c.s.below(4);
    // powers of the units are easy to predict
    let units: Vec<usize> = (0..k).map(|_| c.s.idx(4)).collect();
    c.show(|| format!("{:?}; size hint {}", units, hint));
    c.nontrivial(true);
    let z = || rough(units.iter().map(|u| [Complex::new(1i64, 0), Complex::new(0, 1), Complex::new(-1, 0), Complex::new(0, -1)][*u]), hint);
    let q = || rough(units.iter().map(|u| Quaternion::<i64>::from_array(std::array::from_fn(|i| (i == *u) as i64))), hint);
    let n = |u: usize| units.iter().filter(|x| **x == u).count() as i64;
    ensure_eq!(z().sum::<Complex<i64>>().into_array(), [n(0) - n(2), n(1) - n(3)], "sum of complex numbers");
    ensure_eq!(q().sum::<Quaternion<i64>>().into_array(), [n(0), n(1), n(2), n(3)], "sum of quaternions");
    let e = units.iter().sum::<usize>() % 4;
    ensure_eq!(z().product::<Complex<i64>>().into_array(), [[1, 0], [0, 1], [-1, 0], [0, -1]][e], "product of complex numbers");
    // the quaternion group: sign and unit
    let (mut s, mut u) = (1i64, 0usize);
    for v in &units {
        let (t, w) = match (u, *v) {
            (0, x) | (x, 0) => (1, x),
            (x, y) if x == y => (-1, 0),
            (x, y) => (if (x % 3) + 1 == y { 1 } else { -1 }, 6 - x - y),
        };
        s *= t;
        u = w;
    }
    let want: [i64; 4] = std::array::from_fn(|i| if i == u { s } else { 0 });
    ensure_eq!(q().product::<Quaternion<i64>>().into_array(), want, "product of quaternions");
    Ok(())
}
fn iterate_numbers<T>(c: &mut Cx) -> Res
where
    T: Elem + Zero + One + Sub<Output = T> + Neg<Output = T>,
{
    let k = *c.s.pick(&LENS[..7]);
    let items: Vec<[T; 4]> = (0..k).map(|_| gen::small_arr(&mut c.s)).collect();
    c.show(|| format!("{:?}", items));
    c.nontrivial(k >= 2);
    let ok = |what: &str, g: &[T], w: &[T]| -> Res {
        ensure!(g.iter().zip(w).all(|(a, b)| same_float_ok(*a, *b)), "{}: {:?}, expected {:?}", what, g, w);
        Ok(())
    };
    let q = || items.iter().map(|v| Quaternion::from_array(*v));
    let z = || items.iter().map(|v| Complex::new(v[0], v[1]));
    let mut sum = [T::zero(); 4];
    for v in &items {
        for i in 0..4 {
            sum[i] = sum[i] + v[i];
        }
    }
    ok("sum of quaternions", &q().sum::<Quaternion<T>>().into_array(), &sum)?;
    ok("sum of complex numbers", &z().sum::<Complex<T>>().into_array(), &sum[..2])?;
    // products by the definition of the algebra
    let (o, n) = (T::one(), T::zero());
    let mut a = [o, n, n, n];
    let mut b = [o, n];
    for v in &items {
        a = [
            a[0] * v[0] - a[1] * v[1] - a[2] * v[2] - a[3] * v[3],
            a[0] * v[1] + a[1] * v[0] + a[2] * v[3] - a[3] * v[2],
            a[0] * v[2] - a[1] * v[3] + a[2] * v[0] + a[3] * v[1],
            a[0] * v[3] + a[1] * v[2] - a[2] * v[1] + a[3] * v[0],
        ];
        b = [b[0] * v[0] - b[1] * v[1], b[0] * v[1] + b[1] * v[0]];
    }
    ok("product of quaternions", &q().product::<Quaternion<T>>().into_array(), &a)?;
    ok("product of complex numbers", &z().product::<Complex<T>>().into_array(), &b)
}

fn main() {
    let mut p = Prop::new("C13", "two elements differ, at least one is non-zero, or two items are folded");
    add_vec!(p, sum_int, "sum", 300; [u8, i8, i16, i32, u32, i64, u64] [1, 2, 3, 4]);
    add_vec!(p, sum_int, "sum", 200; [i32] [5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 64]);
    add_vec!(p, sum_ring, "sum", 200; [F, Nc] [1, 2, 3, 4, 8]);
    add_vec!(p, sum_float, "sum", 300; [f32, f64] [1, 2, 3, 4, 8, 16]);
    add_mat!(p, sum_int, "sum", 200; [u8, i32, i64] [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 6), (8, 8)]);
    add_mat!(p, sum_float, "sum", 200; [f32, f64] [(2, 3), (3, 3), (4, 2)]);
    add_vec!(p, extremes, "extremes", 300; [u8, i8, i32, u64, f32, f64, char] [1, 2, 3, 4]);
    add_vec!(p, extremes, "extremes", 200; [i32, f64] [5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 32, 33, 64]);
    add_mat!(p, extremes, "extremes", 200; [i32, f64] [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 6), (8, 8)]);
    add_vec!(p, zeros, "zero", 200; [u8, i32, f32, f64, F, Sym] [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33]);
    add_mat!(p, zeros, "zero", 200; [u8, f64, Sym] [(0, 2), (2, 0), (1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 6)]);
    p.sub("zero numbers i32", 800, zero_number::<i32>);
    p.sub("zero numbers f32", 800, zero_number::<f32>);
    p.sub("zero numbers f64", 800, zero_number::<f64>);
    p.sub("zero numbers i8", 800, zero_number::<i8>);
    p.sub("zero numbers u8", 800, zero_number::<u8>);
    p.sub("zero numbers i16", 800, zero_number::<i16>);
    p.sub("zero numbers u16", 800, zero_number::<u16>);
    p.sub("zero numbers u32", 800, zero_number::<u32>);
    p.sub("zero numbers i64", 800, zero_number::<i64>);
    p.sub("zero numbers u64", 800, zero_number::<u64>);
    p.sub("zero numbers i128", 800, zero_number::<i128>);
    p.sub("zero numbers symbolic", 800, zero_number::<Sym>);
    add_vec!(p, iterate, "iterators", 250; [i8, i32, u64, f32, f64, F, Nc, Cat] [1, 2, 3, 4]);
    add_vec!(p, iterate, "iterators", 150; [i32, Nc, Cat] [0, 5, 8]);
    add_mat!(p, iterate, "iterators", 150; [i8, i32, f64, Nc, Cat] [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4)]);
    add_mat!(p, iterate, "iterators", 100; [i32] [(0, 2), (2, 0), (1, 4), (4, 1), (5, 6)]);
    p.sub("iterators of numbers i64", 1500, iterate_numbers::<i64>);
    p.sub("iterators of numbers f64", 1500, iterate_numbers::<f64>);
    p.sub("iterators of numbers Gf", 1500, iterate_numbers::<F>);
    add_vec!(p, sum_int, "sum", 20; [i64] [128, 256, 257, 300]);
    add_mat!(p, sum_int, "sum", 20; [i64] [(16, 17), (300, 1), (1, 300)]);
    add_vec!(p, extremes, "extremes", 40; [i32] [128, 256, 257, 300]);
    add_mat!(p, extremes, "extremes", 40; [i32] [(16, 17), (300, 1), (1, 300)]);
    add_vec!(p, zeros, "zero", 40; [i32] [64, 128, 257, 300]);
    add_mat!(p, zeros, "zero", 40; [i32] [(16, 17), (300, 1), (1, 300)]);
    every_dim!(add_vec!(p, zeros, "zero, every dimension", 20; [i16]));
    every_shape!(add_mat!(p, zeros, "zero, every shape", 20; [i16]));
    every_shape!(add_mat!(p, extremes, "extremes, every shape", 20; [i32]));
    every_shape!(add_mat!(p, sum_int, "sum, every shape", 20; [i64]));
    add_vec!(p, long, "long iterators", 60; [F, Nc] [1, 2]);
    add_mat!(p, long, "long iterators", 60; [F, Nc] [(1, 1), (2, 1)]);
    p.sub("long iterators of numbers", 200, long_numbers);
    p.main();
}
