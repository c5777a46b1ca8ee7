//! C06: no undefined behaviour.  Meant to run under Miri, which is the oracle; the conditions checked
//! here only make sure that every value handed out by the library is really read and written.
use std::mem::MaybeUninit;
use vecmat::{
    complex::{Complex, Quaternion},
    vector::GroupIter,
    Matrix, Vector,
};
use vh::{elems::*, engine::*, ensure, ensure_eq, machine::*};
#[path = "../sweep.rs"]
mod sweep;

fn permutation(s: &mut Src, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        p.swap(i, s.idx(i + 1));
    }
    p
}

/// Accessors, pointers and references of vectors.
fn vector_access<T: Elem, const N: usize>(c: &mut Cx) -> Res {
    (0..14).try_for_each(|op| vector_op::<T, N>(c, op))
}
fn vector_op<T: Elem, const N: usize>(c: &mut Cx, op: u64) -> Res {
    let order = permutation(&mut c.s, N);
    c.show(|| format!("op {} order {:?}", op, order));
    c.nontrivial(N > 1);
    let mut v: Vector<T, N> = Vector::from(std::array::from_fn(T::tag));
    let want: Vec<T> = (0..N).map(|i| T::tag(i + 100)).collect();
    let mut written = true;
    match op {
        0 => {
            written = false;
            for &i in &order {
                ensure!(unsafe { v.get_unchecked(i) }.same(&T::tag(i)), "get_unchecked({})", i);
            }
            let rs: Vec<&T> = order.iter().map(|&i| unsafe { v.get_unchecked(i) }).collect();
            for (r, &i) in rs.iter().zip(&order) {
                ensure!(r.same(&v[i]), "get_unchecked({})", i);
            }
        }
        1 => {
            for &i in &order {
                *unsafe { v.get_unchecked_mut(i) } = want[i];
            }
        }
        2 => {
            written = false;
            let p = v.as_ptr();
            for &i in &order {
                ensure!(unsafe { p.add(i).read() }.same(&T::tag(i)), "as_ptr + {}", i);
            }
            let sl = unsafe { std::slice::from_raw_parts(p, N) };
            ensure!(sl.iter().zip(v.iter()).all(|(a, b)| a.same(b)), "slice of as_ptr");
        }
        3 => {
            let p = v.as_mut_ptr();
            for &i in &order {
                unsafe { p.add(i).write(want[i]) };
            }
            for &i in &order {
                ensure!(unsafe { p.add(i).read() }.same(&want[i]), "as_mut_ptr + {}", i);
            }
        }
        4 => {
            let sl = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr(), N) };
            sl.copy_from_slice(&want);
        }
        5 => {
            // all references alive at once
            let mut rs: Vec<Option<&mut T>> = v.iter_mut().map(Some).collect();
            for &i in &order {
                **rs[i].as_mut().unwrap() = want[i];
            }
            for r in rs.into_iter().flatten().rev() {
                let x = *r;
                *r = x;
            }
        }
        6 => {
            let rs: Vec<&mut T> = (&mut v).into_iter().rev().collect();
            for (r, i) in rs.into_iter().zip((0..N).rev()) {
                *r = want[i];
            }
        }
        7 => {
            let a: &mut [T; N] = v.as_mut_array();
            for &i in &order {
                a[i] = want[i];
            }
        }
        8 => {
            let a: &mut [T; N] = (&mut v).into();
            for &i in &order {
                a[i] = want[i];
            }
        }
        9 => {
            let a: &mut [T; N] = v.as_mut();
            a.copy_from_slice(&want);
        }
        10 => {
            let mut u = Vector::<T, N>::uninit();
            for &i in &order {
                u[i] = MaybeUninit::new(want[i]);
            }
            v = unsafe { u.assume_init() };
        }
        11 => {
            let mut u = Vector::<T, N>::uninit();
            let p = u.as_mut_ptr();
            for &i in &order {
                unsafe { p.add(i).write(MaybeUninit::new(want[i])) };
            }
            v = unsafe { u.assume_init() };
        }
        12 => {
            written = false;
            let (a, b): (&[T; N], &[T; N]) = ((&v).into(), v.as_ref());
            let d = v.as_array();
            for &i in &order {
                ensure!(a[i].same(&b[i]) && b[i].same(&d[i]) && d[i].same(&v[i]), "element {}", i);
            }
            let k = *c.s.pick(&[N, N + 1, usize::MAX, usize::MAX / 2, order.len() + 64]);
            if c.s.bool() {
                ensure!(guard(|| v[k]).is_err(), "index {} of {} accepted", k, N);
            } else {
                ensure!(guard(|| { let mut w = v; w[k] = T::tag(0); }).is_err(), "index {} of {} accepted", k, N);
            }
        }
        _ => {
            for &i in &order {
                v[i] = want[i];
            }
        }
    }
    let w = if written { want } else { (0..N).map(T::tag).collect() };
    let copy = v;
    for i in 0..N {
        ensure!(v[i].same(&w[i]) && copy.as_array()[i].same(&w[i]), "op {}: element {} is {:?}", op, i, v[i]);
    }
    ensure!(v.into_array().iter().zip(&w).all(|(a, b)| a.same(b)), "op {}: array", op);
    Ok(())
}

/// Accessors, pointers and references of matrices.
fn matrix_access<T: Elem, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    (0..19).try_for_each(|op| matrix_op::<T, M, N>(c, op))
}
fn matrix_op<T: Elem, const M: usize, const N: usize>(c: &mut Cx, op: u64) -> Res {
    let order = permutation(&mut c.s, M * N);
    c.show(|| format!("op {} order {:?}", op, order));
    c.nontrivial(M * N > 1);
    let mut m: Matrix<T, M, N> = Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| T::tag(i * N + j))));
    let want: Vec<T> = (0..M * N).map(|i| T::tag(i + 100)).collect();
    let mut written = true;
    match op {
        0 => {
            written = false;
            let rs: Vec<&T> = order.iter().map(|&k| unsafe { m.get_unchecked(k / N, k % N) }).collect();
            for (r, &k) in rs.iter().zip(&order) {
                ensure!(r.same(&T::tag(k)) && r.same(&m[(k / N, k % N)]), "get_unchecked {}", k);
            }
        }
        1 => {
            for &k in &order {
                *unsafe { m.get_unchecked_mut(k / N, k % N) } = want[k];
            }
        }
        2 => {
            written = false;
            let p = m.as_ptr();
            for &k in &order {
                ensure!(unsafe { p.add(k).read() }.same(&T::tag(k)), "as_ptr + {}", k);
            }
        }
        3 => {
            let p = m.as_mut_ptr();
            for &k in &order {
                unsafe { p.add(k).write(want[k]) };
            }
            for &k in &order {
                ensure!(unsafe { p.add(k).read() }.same(&want[k]), "as_mut_ptr + {}", k);
            }
        }
        4 => {
            let a = m.as_mut_array_of_arrays();
            for &k in &order {
                a[k / N][k % N] = want[k];
            }
        }
        5 => {
            let a = m.as_mut_array_of_vectors();
            for &k in &order {
                a[k / N][k % N] = want[k];
            }
        }
        6 => {
            let a = m.as_mut_vector_of_vectors();
            for &k in &order {
                a[k / N][k % N] = want[k];
            }
        }
        7 => {
            let mut rs: Vec<&mut T> = m.iter_mut().collect();
            ensure_eq!(rs.len(), M * N, "references");
            for &k in &order {
                *rs[k] = want[k];
            }
            for r in rs.into_iter().rev() {
                let x = *r;
                *r = x;
            }
        }
        8 => {
            for (r, w) in (&mut m).into_iter().zip(&want) {
                *r = *w;
            }
        }
        9 => {
            for &k in &order {
                m.row_mut(k / N)[k % N] = want[k];
            }
        }
        10 => {
            let mut rows: Vec<&mut Vector<T, N>> = m.as_mut_array_of_vectors().iter_mut().collect();
            for &k in &order {
                rows[k / N][k % N] = want[k];
            }
        }
        11 => {
            let mut u = Matrix::<T, M, N>::uninit();
            for &k in &order {
                u[(k / N, k % N)] = MaybeUninit::new(want[k]);
            }
            m = unsafe { u.assume_init() };
        }
        12 => {
            let mut u = Matrix::<T, M, N>::uninit();
            let p = u.as_mut_ptr();
            for &k in &order {
                unsafe { p.add(k).write(MaybeUninit::new(want[k])) };
            }
            m = unsafe { u.assume_init() };
        }
        13 => {
            written = false;
            let a: &Vector<Vector<T, N>, M> = m.as_ref();
            let b: &Vector<Vector<T, N>, M> = (&m).into();
            let d: &[Vector<T, N>; M] = a.into();
            let e: &[[T; N]; M] = (&m).into();
            let (f, g, h) = (m.as_vector_of_vectors(), m.as_array_of_vectors(), m.as_array_of_arrays());
            for &k in &order {
                let (i, j) = (k / N, k % N);
                for x in [a[i][j], b[i][j], d[i][j], e[i][j], f[i][j], g[i][j], h[i][j], m.row_ref(i)[j], m.row(i)[j], m.col(j)[i]] {
                    ensure!(x.same(&T::tag(k)), "element {} is {:?}", k, x);
                }
            }
            let k = *c.s.pick(&[0, 1, 9, 64]);
            let accepted = match c.s.below(10) {
                0 => guard(|| m[(M + k, 0)]).is_ok(),
                1 => guard(|| m[(usize::MAX - k, 0)]).is_ok(),
                2 => guard(|| m[(0, N + k)]).is_ok(),
                3 => guard(|| m[(0, usize::MAX - k)]).is_ok(),
                4 => guard(|| m.row(M + k)).is_ok(),
                5 => guard(|| *m.row_ref(M + k)).is_ok(),
                6 => guard(|| { let mut n = m; n[(M - M.min(1), N + k)] = T::tag(0); }).is_ok(),
                7 => guard(|| { let mut n = m; n[(M + k, 0)] = T::tag(0); }).is_ok(),
                8 => guard(|| { let mut n = m; *n.row_mut(M + k) = Vector::from([T::tag(0); N]); }).is_ok(),
                _ => M > 0 && guard(|| m.col(N + k)).is_ok(),
            };
            ensure!(!accepted, "index out of range accepted");
        }
        14 => {
            let a: &mut Vector<Vector<T, N>, M> = m.as_mut();
            for &k in &order {
                a[k / N][k % N] = want[k];
            }
        }
        15 => {
            let a: &mut [[T; N]; M] = (&mut m).into();
            for &k in &order {
                a[k / N][k % N] = want[k];
            }
            let a: &mut [Vector<T, N>; M] = m.as_mut_vector_of_vectors().into();
            for &k in &order {
                a[k / N][k % N] = want[k];
            }
            let a: &mut Vector<Vector<T, N>, M> = (&mut m).into();
            for &k in &order {
                a[k / N][k % N] = want[k];
            }
        }
        16 => {
            written = false;
            let t = m.transpose();
            for &k in &order {
                ensure!(t[(k % N, k / N)].same(&T::tag(k)), "transposed element {}", k);
            }
            m = t.transpose();
        }
        17 => {
            written = false;
            let (a, b) = m.map(|x| (x, x)).unzip();
            ensure!(a.iter().zip(b.iter()).all(|(x, y)| x.same(y)), "unzip");
            m = a.zip(b).map(|(_, y)| y);
        }
        _ => {
            for &k in &order {
                m[(k / N, k % N)] = want[k];
            }
        }
    }
    let w = if written { want } else { (0..M * N).map(T::tag).collect() };
    for k in 0..M * N {
        ensure!(m[(k / N, k % N)].same(&w[k]), "op {}: element {} is {:?}", op, k, m[(k / N, k % N)]);
    }
    ensure!(m.iter().zip(&w).all(|(a, b)| a.same(b)) && m.into_iter().zip(&w).all(|(a, b)| a.same(b)), "op {}: iteration", op);
    ensure!(m.into_array_of_arrays().iter().flatten().zip(&w).all(|(a, b)| a.same(b)), "op {}: arrays", op);
    Ok(())
}

/// Named components.
fn letters<T: Elem>(c: &mut Cx) -> Res {
    let k = c.s.idx(50);
    c.show(|| format!("from {}", k));
    c.nontrivial(true);
    let t = |i: usize| T::tag(k + i);
    macro_rules! go {
        ($n:literal; $($i:literal $g:ident $r:ident $m:ident)*) => {{
            let mut v = Vector::<T, $n>::from(std::array::from_fn(t));
            $(ensure!(v.$g().same(&t($i)) && v.$r().same(&t($i)), "component {}", $i);)*
            $(*v.$m() = t($i + 60);)*
            $({
                let p: *mut T = v.$m();
                let x = unsafe { p.read() };
                unsafe { p.write(x) };
            })*
            $(ensure!(v.$g().same(&t($i + 60)) && v[$i].same(&t($i + 60)), "component {}", $i);)*
        }};
    }
    go!(2; 0 x x_ref x_mut 1 y y_ref y_mut);
    go!(3; 0 x x_ref x_mut 1 y y_ref y_mut 2 z z_ref z_mut);
    go!(4; 0 x x_ref x_mut 1 y y_ref y_mut 2 z z_ref z_mut 3 w w_ref w_mut);
    Ok(())
}

/// An iterator that lies about its length, resumes after its end, and may panic.
struct Liar<T> {
    made: i64,
    plan: Vec<u64>,
    at: usize,
    hint: (usize, Option<usize>),
    p: std::marker::PhantomData<T>,
}
impl<T: Own> Iterator for Liar<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let k = self.plan.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        match k {
            0 => None,
            1 => std::panic::panic_any(INJECTED),
            _ => {
                self.made += 1;
                Some(T::make(self.made))
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
impl<T: Own> ExactSizeIterator for Liar<T> {
    fn len(&self) -> usize {
        self.hint.0
    }
}
fn liars<T: Own, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    track::reset();
    let n = c.s.idx(2 * M * N + 4);
    let plan: Vec<u64> = (0..n).map(|_| { let k = c.s.below(24); if k == 0 { 2 } else if k == 23 { 0 } else if k == 22 { 1 } else { k } }).collect();
    let lo = *c.s.pick(&[0, N, M * N, N + 1, M * N + 1, 1, usize::MAX, usize::MAX / 2]);
    let hi = *c.s.pick(&[None, Some(0), Some(N), Some(M * N), Some(1), Some(usize::MAX)]);
    let op = c.s.below(7);
    c.show(|| format!("op {} plan {:?} hint {:?}", op, plan, (lo, hi)));
    c.nontrivial(n > 0);
    let mut it = Liar::<T> { made: 0, plan, at: 0, hint: (lo, hi), p: std::marker::PhantomData };
    // 1, 2, .. in order, all alive and readable
    let seq = |v: Vec<i64>, from: i64| v.iter().enumerate().all(|(i, x)| *x == T::obs(from + i as i64));
    let r = guard(|| -> Res {
        match op {
            0 | 1 => {
                if let Some(v) = Vector::<T, N>::try_from_iter(&mut it) {
                    ensure!(seq(v.iter().map(|x| x.val()).collect(), 1), "wrong elements {:?}", v);
                }
                if op == 1 {
                    let k = it.made;
                    if let Some(v) = Vector::<T, N>::try_from_iter(&mut it) {
                        ensure!(seq(v.iter().map(|x| x.val()).collect(), k + 1), "wrong elements {:?}", v);
                    }
                }
            }
            2 => {
                if let Some(m) = Matrix::<T, M, N>::try_from_iter(&mut it) {
                    ensure!(m.iter().count() == M * N && m.iter().all(|x| x.val() >= 0), "wrong elements");
                }
            }
            3 => {
                let h = (lo, hi);
                let _ = h;
                if let Some(m) = Matrix::<T, M, N>::try_from_iter_of_vectors(std::iter::from_fn(|| Vector::try_from_iter(&mut it))) {
                    ensure!(m.iter().all(|x| x.val() >= 0), "wrong elements");
                }
            }
            4 => {
                let mut g = GroupIter::<_, N>::new(&mut it);
                for _ in 0..3 {
                    if N > 0 {
                        if let Some(v) = g.next() {
                            ensure!(v.iter().all(|x| x.val() >= 0), "wrong elements");
                        }
                    }
                }
            }
            5 => {
                let l: Vec<Vector<T, N>> = GroupIter::<_, N>::new(&mut it).take(3).collect();
                ensure!(l.iter().flat_map(|v| v.iter()).all(|x| x.val() >= 0), "wrong elements");
            }
            _ => {
                let v = Vector::<T, N>::init(|| it.next().unwrap_or_else(|| std::panic::panic_any(INJECTED)));
                ensure!(seq(v.iter().map(|x| x.val()).collect(), 1), "wrong elements {:?}", v);
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r?,
        Err(m) => {
            ensure!(m.contains(INJECTED), "unexpected panic {}", m);
            c.label("panic fired");
        }
    }
    ensure!(track::errs().is_empty(), "{:?}", track::errs());
    ensure!(T::live() >= 0, "more drops than creations");
    Ok(())
}

/// Everything that moves elements, one call after the other, at one shape: the shapes that matter are
/// those beyond the sizes of the histories.
fn moves<A: Own, B: Own, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    track::reset();
    let k = c.s.below(1000) as i64;
    let (at, atm) = (c.s.idx(N + 1), c.s.idx(M * N + 1));
    c.show(|| format!("from {} stop at {} and {}", k, at, atm));
    c.nontrivial(M * N > 1);
    let vec = |k: i64| {
        let mut i = k;
        Vector::<A, N>::init(|| { i += 1; A::make(i) })
    };
    let mat = |k: i64| {
        let mut i = k;
        Matrix::<A, M, N>::init(|| { i += 1; A::make(i) })
    };
    fn seen<T: Own>(i: impl Iterator<Item = T>, n: usize, f: impl Fn(usize) -> i64) -> Res {
        let mut l = 0;
        for (j, x) in i.enumerate() {
            ensure!(j < n && x.val() == T::obs(f(j)), "element {} of {} is {}", j, n, x.val());
            l += 1;
        }
        ensure!(l == n, "{} elements, expected {}", l, n);
        Ok(())
    }
    let id = |j: usize| k + 1 + j as i64;
    let turned = |j: usize| id((j % M.max(1)) * N + j / M.max(1));
    fn to<A: Own, B: Own>(x: &A) -> B {
        B::make(x.val())
    }
    // vectors
    seen(vec(k).into_iter(), N, id)?;
    seen(vec(k).into_array().into_iter(), N, id)?;
    seen(Vector::from(vec(k).into_array()).into_iter(), N, id)?;
    let b: Vector<B, N> = vec(k).map(|x| to(&x));
    seen(b.into_iter(), N, |j| A::obs(id(j)))?;
    drop(vec(k));
    let mut it = vec(k).into_iter();
    for _ in 0..at {
        drop(it.next());
    }
    drop(it);
    let mut it = vec(k).into_iter();
    for _ in 0..at {
        drop(it.next_back());
    }
    drop(it);
    let z = vec(k).zip(vec(k).map(|x| to::<A, B>(&x)));
    let (a, b) = z.unzip();
    seen(a.into_iter(), N, id)?;
    seen(b.into_iter(), N, |j| A::obs(id(j)))?;
    let z: Vector<(B, A), N> = vec(k).map(|x| (to(&x), x));
    let (b, a) = z.unzip();
    seen(a.into_iter(), N, id)?;
    seen(b.into_iter(), N, |j| A::obs(id(j)))?;
    let mut sum = 0;
    vec(k).enumerate().for_each(|(i, x)| sum += i as i64 * x.val());
    ensure!(sum == (0..N).map(|j| j as i64 * A::obs(id(j))).sum::<i64>(), "enumerated");
    ensure!(vec(k).fold(0, |s, x| s + x.val()) == (0..N).map(|j| A::obs(id(j))).sum::<i64>(), "folded");
    let mut v = vec(k);
    v.as_mut_array().reverse();
    seen(v.into_iter(), N, |j| id(N - 1 - j))?;
    ensure!(Vector::<A, N>::try_from_iter((0..at).map(|j| A::make(id(j)))).is_some() == (at >= N), "{} of {}", at, N);
    if let Some(v) = Vector::<A, N>::try_from_iter(vec(k).into_iter().chain(vec(0))) {
        seen(v.into_iter(), N, id)?;
    }
    let r = guard(|| {
        let mut i = 0;
        vec(k).map(|x| { i += 1; if i > at { std::panic::panic_any(INJECTED) } to::<A, B>(&x) })
    });
    ensure!(r.is_ok() == (at >= N), "panic in map lost");
    drop(r);
    // matrices
    seen(mat(k).into_iter(), M * N, id)?;
    seen(mat(k).into_array_of_arrays().into_iter().flatten(), M * N, id)?;
    seen(mat(k).into_array_of_vectors().into_iter().flat_map(|v| v.into_iter()), M * N, id)?;
    seen(Matrix::from_array_of_arrays(mat(k).into_array_of_arrays()).into_iter(), M * N, id)?;
    seen(mat(k).transpose().into_iter(), M * N, turned)?;
    seen(mat(k).transpose().transpose().into_iter(), M * N, id)?;
    drop(mat(k).transpose());
    let b: Matrix<B, M, N> = mat(k).map(|x| to(&x));
    seen(b.transpose().into_iter(), M * N, |j| A::obs(turned(j)))?;
    let mut it = mat(k).into_iter();
    for _ in 0..atm {
        drop(it.next());
    }
    drop(it);
    let (a, b) = mat(k).zip(mat(k).map(|x| to::<A, B>(&x))).unzip();
    seen(a.into_iter(), M * N, id)?;
    seen(b.into_iter(), M * N, |j| A::obs(id(j)))?;
    let z: Matrix<(B, A), M, N> = mat(k).map(|x| (to(&x), x));
    let (b, a) = z.unzip();
    seen(a.into_iter(), M * N, id)?;
    seen(b.into_iter(), M * N, |j| A::obs(id(j)))?;
    ensure!(Matrix::<A, M, N>::try_from_iter((0..atm).map(|j| A::make(id(j)))).is_some() == (atm >= M * N), "{} of {}", atm, M * N);
    if let Some(m) = Matrix::<A, M, N>::try_from_iter(mat(k).into_iter().chain(mat(0))) {
        seen(m.into_iter(), M * N, id)?;
    }
    let mut i = 0;
    let r = guard(|| mat(k).map(|x| { i += 1; if i > atm { std::panic::panic_any(INJECTED) } to::<A, B>(&x) }));
    ensure!(r.is_ok() == (atm >= M * N), "panic in map lost");
    drop(r);
    ensure!(track::errs().is_empty(), "{:?}", track::errs());
    Ok(())
}

fn algebra<T: Elem>(c: &mut Cx) -> Res {
    let k = c.s.idx(50);
    c.show(|| format!("from {}", k));
    c.nontrivial(true);
    let t = |i: usize| T::tag(k + i);
    let z: Complex<T> = Complex::from_array([t(0), t(1)]);
    ensure!(z.re().same(&t(0)) && z.im().same(&t(1)), "complex parts");
    let a: [T; 2] = z.into_array();
    ensure!(a[0].same(&t(0)) && a[1].same(&t(1)), "complex array");
    let q: Quaternion<T> = Quaternion::from_array([t(0), t(1), t(2), t(3)]);
    ensure!(q.w().same(&t(0)) && q.x().same(&t(1)) && q.y().same(&t(2)) && q.z().same(&t(3)), "quaternion parts");
    let a: [T; 4] = q.into_array();
    ensure!((0..4).all(|i| a[i].same(&t(i))), "quaternion array");
    Ok(())
}

macro_rules! v {
    ($p:ident; [$($t:ty),*] $n:tt) => {$( v!(@ $p; $t, $n); )*};
    (@ $p:ident; $t:ty, [$($n:literal),*]) => {$(
        $p.sub(format!("vector access {}[{}]", <$t as Elem>::NAME, $n), if $n < 10 { 2 } else { 1 }, vector_access::<$t, $n>);
    )*};
}
macro_rules! m {
    ($p:ident; [$($t:ty),*] $n:tt) => {$( m!(@ $p; $t, $n); )*};
    (@ $p:ident; $t:ty, [$($m:literal x $n:literal),*]) => {$(
        $p.sub(format!("matrix access {}[{}x{}]", <$t as Elem>::NAME, $m, $n), if $m * $n < 10 { 2 } else { 1 }, matrix_access::<$t, $m, $n>);
    )*};
}
macro_rules! o {
    ($p:ident; [$($t:ty),*] $n:tt) => {$( o!(@ $p; $t, $n); )*};
    (@ $p:ident; $t:ty, [$($m:literal x $n:literal),*]) => {$(
        $p.sub(format!("history {} {}x{}", <$t as Own>::NAME, $m, $n), if $m * $n < 10 { 6 } else { 3 }, history::<$t, $m, $n>);
        $p.sub(format!("panicking {} {}x{}", <$t as Own>::NAME, $m, $n), if $m * $n < 10 { 8 } else { 4 }, panicking::<$t, $m, $n>);
        $p.sub(format!("liar {} {}x{}", <$t as Own>::NAME, $m, $n), if $m * $n < 10 { 10 } else { 4 }, liars::<$t, $m, $n>);
    )*};
}
macro_rules! a {
    ($p:ident; $($m:literal x $n:literal),*) => {$(
        $p.sub(format!("arithmetic {}x{}", $m, $n), 1, |c: &mut Cx| (0..ARITH_OPS).try_for_each(|op| arith_op::<$m, $n>(c, op, false)));
        $p.sub(format!("panicking arithmetic {}x{}", $m, $n), 3, |c: &mut Cx| (0..ARITH_OPS).try_for_each(|op| arith_op::<$m, $n>(c, op, true)));
    )*};
}

fn main() {
    let mut p = Prop::new("C06", "a case that touches more than one element or makes at least one call that moves elements");
    v!(p; [u8, Al32, char] [0, 1, 2, 3, 4, 7]);
    v!(p; [(), [u8; 3], f64, bool] [1, 3, 8]);
    v!(p; [u8, u32] [9, 16, 17, 33]);
    v!(p; [Al32, f64] [12, 40]);
    m!(p; [Big] [2 x 3, 3 x 1]);
    m!(p; [u8, Al32] [1 x 1, 2 x 2, 2 x 3, 3 x 2, 4 x 4, 1 x 5, 6 x 1, 0 x 2, 3 x 0]);
    m!(p; [(), char, f64] [2 x 3, 3 x 3]);
    m!(p; [u32] [9 x 5, 2 x 17, 17 x 2]);
    m!(p; [u8, Al32] [1 x 12, 12 x 1, 7 x 7]);
    o!(p; [Tr, Wide, Zs] [1 x 1, 2 x 3, 3 x 2]);
    o!(p; [Bulk] [2 x 3]);
    o!(p; [Heap] [1 x 1, 2 x 2, 2 x 3, 3 x 2, 4 x 4, 1 x 5, 5 x 1, 0 x 2, 2 x 0, 3 x 8]);
    a!(p; 1 x 1, 2 x 3, 3 x 4, 2 x 9);
    macro_rules! pairs_of { ($($a:ty, $b:ty, $m:literal x $n:literal);*) => {$(
        let what = format!("of {} and {} {}x{}", <$a as Own>::NAME, <$b as Own>::NAME, $m, $n);
        p.sub(format!("pairs {}", what), 14, |c: &mut Cx| pairs::<$a, $b, $m, $n>(c, false));
        p.sub(format!("panicking pairs {}", what), 10, |c: &mut Cx| pairs::<$a, $b, $m, $n>(c, true));
    )*}}
    pairs_of!(Tr, (), 2 x 3; Zs, Wide, 2 x 3; Heap, u8, 1 x 5; [u64; 5], Tr, 2 x 2; (), Heap, 1 x 9);
    macro_rules! moved { ($($a:ty, $b:ty, $m:literal x $n:literal);*) => {$(
        p.sub(format!("moves of {} and {} {}x{}", <$a as Own>::NAME, <$b as Own>::NAME, $m, $n), 1, moves::<$a, $b, $m, $n>);
    )*}}
    moved!(
        Heap, (), 7 x 7; Heap, u8, 12 x 12; Heap, u32, 2 x 33; Heap, Heap, 20 x 1; Heap, (), 1 x 20; u8, (), 1 x 33; i64, (), 4 x 20; (), Heap, 5 x 40;
        Wide, Heap, 3 x 17; Bulk, (), 5 x 5; Bulk, Heap, 9 x 2; Zs, Heap, 3 x 25; Tr, [u64; 5], 6 x 9; [u64; 5], u8, 11 x 3; Heap, Zs, 1 x 65; Heap, u8, 10 x 18; u8, Heap, 17 x 9
    );
    p.sub("tuples", 4, tuples);
    p.sub("letters u8", 4, letters::<u8>);
    p.sub("letters align32", 4, letters::<Al32>);
    p.sub("letters ()", 2, letters::<()>);
    p.sub("letters char", 2, letters::<char>);
    p.sub("algebra u8", 2, algebra::<u8>);
    p.sub("algebra align32", 2, algebra::<Al32>);
    for (name, _, f) in sweep::jobs() {
        // the float types are alike to the interpreter
        if name.starts_with("shape ") && !["shape 2x7", "shape 6x2", "shape 5x5", "shape 1x33", "shape 0x2"].contains(&name.as_str()) {
            continue;
        }
        if name.ends_with("f32") && !name.starts_with("algebra") {
            continue;
        }
        p.sub(format!("calls: {}", name), 1, move |c: &mut Cx| {
            let mut o = sweep::Out::default();
            f(c, &mut o);
            Ok(())
        });
    }
    p.main();
}
