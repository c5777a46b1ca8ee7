//! C19: the determinant is the determinant.
use num_traits::{Num, One, Zero};
use std::ops::*;
use vecmat::{traits::Dot, Complex, Matrix};
use vh::{det::*, elems::*, engine::*, ensure, ensure_eq, gen, gen::Fl, gen::Ring, tol::*};

trait Dt: Ring + Num + Neg<Output = Self> {}
impl<T: Ring + Num> Dt for T {}

fn off_diagonal<T: Zero, const N: usize>(a: &[[T; N]; N]) -> bool {
    N < 2 || (0..N).any(|i| (0..N).any(|j| i != j && !a[i][j].is_zero()))
}
fn exact<T: Dt, const N: usize>(c: &mut Cx) -> Res {
    let a = gen::structured::<T, N, N>(&mut c.s);
    c.show(|| format!("{:?}", a));
    c.nontrivial(off_diagonal(&a));
    let want = leibniz(&rows(&a));
    c.label_if(want.is_zero(), "singular");
    ensure_eq!(Matrix::from_array_of_arrays(a).det(), want, "determinant");
    Ok(())
}
/// Sizes too large for a sum over permutations: against elimination.
fn large<const N: usize>(c: &mut Cx) -> Res {
    let a = gen::structured::<F, N, N>(&mut c.s);
    c.show(|| format!("{:?}", a));
    c.nontrivial(off_diagonal(&a));
    let want = gauss(&rows(&a));
    c.label_if(want.is_zero(), "singular");
    ensure_eq!(Matrix::from_array_of_arrays(a).det(), want, "determinant");
    Ok(())
}
/// Every element of these matters: dense, over the prime field.
fn huge<const N: usize>(c: &mut Cx) -> Res {
    let a: [[F; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| F::of(c.s.below(1 << 40) as i64 + 1)));
    c.show(|| format!("{:?}", a));
    c.nontrivial(off_diagonal(&a));
    ensure_eq!(Matrix::from_array_of_arrays(a).det(), gauss(&rows(&a)), "determinant");
    Ok(())
}
fn integer<const N: usize>(c: &mut Cx) -> Res {
    let m = [1u64 << 40, 1 << 40, 1 << 40, 1 << 24, 1 << 18, 1 << 14, 1 << 10][N.min(6)];
    let a: [[i128; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| if c.s.chance(1, 4) { c.s.zigzag(2) } else { c.s.zigzag(m) } as i128));
    c.show(|| format!("{:?}", a));
    c.nontrivial(off_diagonal(&a));
    ensure_eq!(Matrix::from_array_of_arrays(a).det(), leibniz(&rows(&a)), "determinant");
    Ok(())
}
fn complex<const N: usize>(c: &mut Cx) -> Res {
    type C = Complex<F7>;
    let (re, im) = (gen::structured::<F7, N, N>(&mut c.s), gen::structured::<F7, N, N>(&mut c.s));
    let a: [[C; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| C::new(re[i][j], im[i][j])));
    c.show(|| format!("{:?}", a));
    c.nontrivial(off_diagonal(&a));
    // real and imaginary part by an independent complex multiplication
    let (mut wr, mut wi) = (F7::of(0), F7::of(0));
    for (p, odd) in permutations(N) {
        let (mut r, mut i) = (F7::of(if odd { -1 } else { 1 }), F7::of(0));
        for (k, &l) in p.iter().enumerate() {
            let (x, y) = (re[k][l], im[k][l]);
            (r, i) = (r * x - i * y, r * y + i * x);
        }
        wr += r;
        wi += i;
    }
    ensure_eq!(Matrix::from_array_of_arrays(a).det(), C::new(wr, wi), "determinant");
    Ok(())
}
fn floats<T: Fl, const N: usize>(c: &mut Cx) -> Res {
    let e = if T::EPS < 1e-10 { 20 } else { 2 };
    let sc = if c.s.bool() { 1.0 } else { 10f64.powi(c.s.zigzag(e) as i32) };
    let mut a: [[T; N]; N] = std::array::from_fn(|_| std::array::from_fn(|_| T::of(gen::moderate(&mut c.s) * sc)));
    if N > 1 && c.s.chance(1, 4) {
        // nearly dependent rows
        let (p, q) = (c.s.idx(N), c.s.idx(N));
        let r = a[q];
        a[p] = r.map(|x| x + T::of(gen::unit_f64(&mut c.s) * 1e-5) * x);
    }
    c.show(|| format!("{:?}", a));
    c.nontrivial(off_diagonal(&a));
    let b: Vec<Vec<f64>> = a.iter().map(|r| r.iter().map(|x| x.f()).collect()).collect();
    let k = 2.0 * (N * N) as f64 + 2.0 * N as f64 + 8.0;
    let (g, want) = (Matrix::from_array_of_arrays(a).det(), leibniz(&b));
    ensure!(nearf(g, want, permanent_abs(&b), k), "determinant is {:?}, expected about {:?}", g, want);
    Ok(())
}
fn laws<T: Dt, const N: usize>(c: &mut Cx) -> Res {
    let a = gen::structured::<T, N, N>(&mut c.s);
    let b = gen::structured::<T, N, N>(&mut c.s);
    let row: [T; N] = std::array::from_fn(|_| T::gen(&mut c.s));
    let k = T::gen(&mut c.s);
    let (p, q) = (c.s.idx(N.max(1)), c.s.idx(N.max(1)));
    c.show(|| format!("{:?} {:?} row {:?} factor {:?} at {} and {}", a, b, &row[..], k, p, q));
    c.nontrivial(off_diagonal(&a));
    let m = Matrix::from_array_of_arrays;
    let d = m(a).det();
    ensure_eq!(Matrix::<T, N, N>::one().det(), T::one(), "determinant of the identity");
    ensure_eq!(m(a).transpose().det(), d, "determinant of the transpose");
    ensure_eq!(m(a).dot(m(b)).det(), d * m(b).det(), "determinant of the product");
    if N == 0 {
        return Ok(());
    }
    if p != q {
        let mut s = a;
        s.swap(p, q);
        ensure_eq!(m(s).det(), -d, "after exchanging rows {} and {}", p, q);
        let mut s = a;
        s.iter_mut().for_each(|r| r.swap(p, q));
        ensure_eq!(m(s).det(), -d, "after exchanging columns {} and {}", p, q);
        let mut s = a;
        s[p] = a[q];
        ensure_eq!(m(s).det(), T::zero(), "with equal rows {} and {}", p, q);
        let mut s = a;
        s.iter_mut().for_each(|r| r[p] = r[q]);
        ensure_eq!(m(s).det(), T::zero(), "with equal columns {} and {}", p, q);
        let mut s = a;
        for j in 0..N {
            s[p][j] = a[p][j] + k * a[q][j];
        }
        ensure_eq!(m(s).det(), d, "after adding a multiple of row {} to row {}", q, p);
    }
    // linear in row p
    let (mut s, mut t) = (a, a);
    s[p] = row;
    for j in 0..N {
        t[p][j] = k * a[p][j] + row[j];
    }
    ensure_eq!(m(t).det(), k * d + m(s).det(), "linearity in row {}", p);
    // triangular
    let mut u = a;
    let lower = p % 2 == 0;
    let mut want = T::one();
    for i in 0..N {
        want = want * a[i][i];
        for j in 0..N {
            if (lower && i < j) || (!lower && i > j) {
                u[i][j] = T::zero();
            }
        }
    }
    ensure_eq!(m(u).det(), want, "triangular determinant");
    Ok(())
}

fn main() {
    let mut p = Prop::new("C19", "some element off the diagonal is not zero (or the size is below two)");
    macro_rules! n { ($($n:literal: $a:literal $b:literal;)*) => {$(
        p.sub(concat!("field ", $n), $a, exact::<F, $n>);
        p.sub(concat!("small i64 ", $n), $a, exact::<i64, $n>);
        p.sub(concat!("small f64 ", $n), $a, exact::<f64, $n>);
        p.sub(concat!("small f32 ", $n), $a, exact::<f32, $n>);
        p.sub(concat!("i128 ", $n), $a, integer::<$n>);
        p.sub(concat!("complex ", $n), $b, complex::<$n>);
        p.sub(concat!("f64 ", $n), $a, floats::<f64, $n>);
        p.sub(concat!("f32 ", $n), $a, floats::<f32, $n>);
        p.sub(concat!("laws field ", $n), $b, laws::<F, $n>);
    )*}}
    n!(0: 2 2; 1: 200 200; 2: 1500 1000; 3: 1500 1000; 4: 1000 600; 5: 400 150; 6: 80 20;);
    p.sub("small i8 2", 300, |c| { let a = [[0; 2]; 2].map(|r: [i8; 2]| r.map(|_| c.s.zigzag(7) as i8)); c.nontrivial(a[0][1] != 0 && a[1][0] != 0); c.show(|| format!("{:?}", a)); ensure_eq!(Matrix::from(a).det(), a[0][0] * a[1][1] - a[0][1] * a[1][0], "determinant"); Ok(()) });
    p.sub("small i16 3", 300, exact::<i16, 3>);
    p.sub("small i32 4", 300, exact::<i32, 4>);
    p.sub("large 5", 300, large::<5>);
    p.sub("large 6", 80, large::<6>);
    p.sub("large 7", 24, large::<7>);
    p.sub("large 8", 4, large::<8>);
    p.sub("huge 8", 6, huge::<8>);
    p.sub("huge 9", 3, huge::<9>);
    p.sub("huge 10", 1, huge::<10>);
    p.main();
}
