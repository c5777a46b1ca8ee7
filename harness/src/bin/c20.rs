//! C20: cofactor, adjugate and inverse satisfy their defining equations.
use num_traits::{Inv, Num, One, Zero};
use std::ops::*;
use vecmat::{traits::Dot, Complex, Matrix, Vector};
use vh::{det::*, elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl, gen::Ring, tol::*};

trait Dt: Elem + Num + Neg<Output = Self> {}
impl<T: Elem + Num + Neg<Output = T>> Dt for T {}

fn mm<T, const N: usize>(a: [[T; N]; N]) -> Matrix<T, N, N> {
    Matrix::from_array_of_arrays(a)
}
fn off_diagonal<T: Zero, const N: usize>(a: &[[T; N]; N]) -> bool {
    N < 2 || (0..N).any(|i| (0..N).any(|j| i != j && !a[i][j].is_zero()))
}
fn defining<T: Dt, const N: usize>(c: &mut Cx, a: [[T; N]; N]) -> Result<T, Fail> {
    let v = rows(&a);
    let m = mm(a);
    let d = leibniz(&v);
    c.label_if(d.is_zero(), "singular");
    let adj = m.adj();
    for i in 0..N {
        for j in 0..N {
            let t = leibniz(&minor(&v, i, j));
            let want = if (i + j) % 2 == 1 { -t } else { t };
            ensure_eq!(m.cofactor(i, j), want, "cofactor ({}, {})", i, j);
            ensure_eq!(adj[(j, i)], want, "element ({}, {}) of the adjugate", j, i);
        }
    }
    let scaled = Matrix::diagonal(Vector::fill(d));
    ensure_eq!(m.dot(adj), scaled, "matrix times adjugate");
    ensure_eq!(adj.dot(m), scaled, "adjugate times matrix");
    Ok(d)
}
fn inverse<T: Dt, const N: usize>(a: [[T; N]; N]) -> Res {
    let m = mm(a);
    let (x, y) = (Matrix::inv(&m), Inv::inv(m));
    ensure_eq!(x, y, "inverse by the method and by the trait");
    ensure_eq!(m.dot(x), Matrix::one(), "matrix times inverse {:?}", x);
    ensure_eq!(x.dot(m), Matrix::one(), "inverse times matrix {:?}", x);
    Ok(())
}
fn field<T: Dt + Ring, const N: usize>(c: &mut Cx) -> Res {
    let a = gen::structured::<T, N, N>(&mut c.s);
    c.show(|| format!("{:?}", a));
    c.nontrivial(off_diagonal(&a));
    let d = defining(c, a)?;
    if !d.is_zero() {
        inverse(a)?;
    }
    Ok(())
}
fn integer<T: Dt + Ring, const N: usize>(c: &mut Cx) -> Res {
    let a = gen::structured::<T, N, N>(&mut c.s);
    c.show(|| format!("{:?}", a));
    c.nontrivial(off_diagonal(&a));
    defining(c, a).map(|_| ())
}
/// Integer matrices of determinant one or minus one: products of elementary matrices.
fn unimodular<const N: usize>(c: &mut Cx) -> Res {
    let mut a: [[i64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| (i == j) as i64));
    for _ in 0..c.s.below(3 * N as u64 + 1) {
        let (p, q) = (c.s.idx(N), c.s.idx(N));
        match c.s.below(4) {
            0 => a.swap(p, q),
            1 => a[p] = a[p].map(|x| -x),
            _ => {
                if p != q {
                    let k = c.s.zigzag(2);
                    for j in 0..N {
                        let v = a[p][j] + k * a[q][j];
                        if v.abs() < 64 {
                            a[p][j] = v;
                        } else {
                            // undo: keep the row as it was so far consistent
                            for l in 0..j {
                                a[p][l] -= k * a[q][l];
                            }
                            break;
                        }
                    }
                }
            }
        }
    }
    c.show(|| format!("{:?}", a));
    c.nontrivial(off_diagonal(&a));
    let d = leibniz(&rows(&a));
    ensure!(d == 1 || d == -1, "generator: determinant {}", d);
    defining(c, a)?;
    inverse(a)
}
fn complex<const N: usize>(c: &mut Cx) -> Res {
    type C = Complex<F7>;
    let (re, im) = (gen::structured::<F7, N, N>(&mut c.s), gen::structured::<F7, N, N>(&mut c.s));
    let a: [[C; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| C::new(re[i][j], im[i][j])));
    c.show(|| format!("{:?}", a));
    c.nontrivial(off_diagonal(&a));
    let m = mm(a);
    let (adj, d) = (m.adj(), gauss(&rows(&a)));
    c.label_if(d.is_zero(), "singular");
    let scaled = Matrix::diagonal(Vector::fill(d));
    ensure_eq!(m.dot(adj), scaled, "matrix times adjugate");
    ensure_eq!(adj.dot(m), scaled, "adjugate times matrix");
    for i in 0..N {
        for j in 0..N {
            let t = gauss(&minor(&rows(&a), i, j));
            ensure_eq!(m.cofactor(i, j), if (i + j) % 2 == 1 { -t } else { t }, "cofactor ({}, {})", i, j);
        }
    }
    if !d.is_zero() {
        let x = Matrix::inv(&m);
        ensure_eq!(x, Inv::inv(m), "inverse by the method and by the trait");
        ensure_eq!(m.dot(x), Matrix::one(), "matrix times inverse");
        ensure_eq!(x.dot(m), Matrix::one(), "inverse times matrix");
    }
    Ok(())
}
fn floats<T: Fl + Inv<Output = T>, const N: usize>(c: &mut Cx) -> Res {
    let e = if T::EPS < 1e-10 { 20 } else { 2 };
    let sc = if c.s.bool() { 1.0 } else { 10f64.powi(c.s.zigzag(e) as i32) };
    let mut a: [[T; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| T::of(gen::moderate(&mut c.s) * sc)));
    if c.s.chance(1, 4) {
        a = gen::structured::<f64, N, N>(&mut c.s).map(|r| r.map(|x| T::of(x * sc)));
    } else if c.s.bool() {
        // strengthen the diagonal (or a permuted one)
        let o = c.s.idx(N);
        for i in 0..N {
            a[i][(i + o) % N] = a[i][(i + o) % N] + T::of(if c.s.bool() { 3.0 } else { -3.0 } * sc);
        }
    }
    c.show(|| format!("{:?}", a));
    let b: Vec<Vec<f64>> = a.iter().map(|r| r.iter().map(|x| x.f()).collect()).collect();
    let k = 2.0 * (N * N) as f64 + 2.0 * N as f64 + 16.0;
    let (d, pd) = (leibniz(&b), permanent_abs(&b));
    let m = mm(a);
    let (adj, inv, inv2) = (m.adj(), Matrix::inv(&m), Inv::inv(m));
    let conditioned = d.abs() > 1e-3 * pd && d.abs() > 1e-4 * sc.powi(N as i32);
    c.nontrivial(off_diagonal(&a) && conditioned);
    for i in 0..N {
        for j in 0..N {
            let mi = minor(&b, i, j);
            let sg = if (i + j) % 2 == 1 { -1.0 } else { 1.0 };
            let (want, mag) = (sg * leibniz(&mi), permanent_abs(&mi));
            let (g, h) = (m.cofactor(i, j), adj[(j, i)]);
            ensure!(nearf(g, want, mag, k), "cofactor ({}, {}) is {:?}, expected about {:?}", i, j, g, want);
            ensure!(nearf(h, want, mag, k), "element ({}, {}) of the adjugate is {:?}, expected about {:?}", j, i, h, want);
            if conditioned {
                let (x, y) = (inv[(j, i)], inv2[(j, i)]);
                let (want, mag) = (want / d, mag / d.abs() * (1.0 + pd / d.abs()));
                ensure!(nearf(x, want, mag, 2.0 * k), "element ({}, {}) of the inverse is {:?}, expected about {:?}", j, i, x, want);
                ensure!(nearf(y, want, mag, 2.0 * k), "element ({}, {}) of the trait's inverse is {:?}, expected about {:?}", j, i, y, want);
            }
        }
    }
    Ok(())
}
fn range<const N: usize>(c: &mut Cx) -> Res {
    let a = gen::structured::<F, N, N>(&mut c.s);
    let mut ix = |c: &mut Cx| -> usize {
        match c.s.below(5) {
            0 => N,
            1 => N + 1,
            2 => N + c.s.idx(70),
            3 => *c.s.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32, 64, 128, 255, 256]),
            _ => c.s.idx(N + 1),
        }
    };
    let (i, j) = (ix(c), ix(c));
    c.show(|| format!("cofactor ({}, {}) of {:?}", i, j, a));
    let out = i >= N || j >= N;
    c.nontrivial(out);
    let g = guard(|| mm(a).cofactor(i, j));
    ensure!(g.is_err() == out, "cofactor ({}, {}) of a {}x{} matrix: {:?}", i, j, N, N, g);
    Ok(())
}

/// One cofactor of a matrix too large for the adjugate.
fn single<const N: usize>(c: &mut Cx) -> Res {
    let a: [[F; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| F::of(c.s.below(1 << 40) as i64 + 1)));
    let pick = |c: &mut Cx| if c.s.bool() { N - 1 } else { c.s.idx(N) };
    let (i, j) = (pick(c), pick(c));
    c.show(|| format!("cofactor ({}, {}) of {:?}", i, j, a));
    c.nontrivial(true);
    let t = gauss(&minor(&rows(&a), i, j));
    ensure_eq!(mm(a).cofactor(i, j), if (i + j) % 2 == 1 { -t } else { t }, "cofactor ({}, {})", i, j);
    Ok(())
}

fn main() {
    let mut p = Prop::new("C20", "some element off the diagonal is not zero (or the size is one); floats also well conditioned; an index out of range");
    macro_rules! n { ($($n:literal: $a:literal $b:literal;)*) => {$(
        p.sub(concat!("field ", $n), $a, field::<F, $n>);
        p.sub(concat!("small i64 ", $n), $a, integer::<i64, $n>);
        p.sub(concat!("small f64 ", $n), $a, integer::<f64, $n>);
        p.sub(concat!("unimodular ", $n), $a, unimodular::<$n>);
        p.sub(concat!("complex ", $n), $b, complex::<$n>);
        p.sub(concat!("f64 ", $n), $a, floats::<f64, $n>);
        p.sub(concat!("f32 ", $n), $a, floats::<f32, $n>);
        p.sub(concat!("out of range ", $n), 200, range::<$n>);
    )*}}
    n!(1: 300 200; 2: 1500 1000; 3: 1200 600; 4: 500 200; 5: 50 20;);
    p.sub("field 6", 4, field::<F, 6>);
    p.sub("single 6", 60, single::<6>);
    p.sub("single 7", 20, single::<7>);
    p.sub("single 8", 10, single::<8>);
    p.sub("single 9", 6, single::<9>);
    p.sub("single 10", 3, single::<10>);
    p.sub("small i16 3", 300, integer::<i16, 3>);
    p.main();
}
