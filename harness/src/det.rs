//! Reference determinants.
use num_traits::{One, Zero};
use std::ops::*;

/// All permutations of `0..n` with their parity (true = odd).
pub fn permutations(n: usize) -> Vec<(Vec<usize>, bool)> {
    fn go(p: &mut Vec<usize>, left: &mut Vec<usize>, odd: bool, out: &mut Vec<(Vec<usize>, bool)>) {
        if left.is_empty() {
            out.push((p.clone(), odd));
            return;
        }
        for i in 0..left.len() {
            let x = left.remove(i);
            p.push(x);
            go(p, left, odd ^ (i % 2 == 1), out);
            p.pop();
            left.insert(i, x);
        }
    }
    let mut out = Vec::new();
    go(&mut Vec::new(), &mut (0..n).collect(), false, &mut out);
    out
}
/// Signed sum over permutations.
pub fn leibniz<T>(a: &[Vec<T>]) -> T
where
    T: Copy + Zero + One + Add<Output = T> + Mul<Output = T> + Neg<Output = T>,
{
    let mut s = T::zero();
    for (p, odd) in permutations(a.len()) {
        let t = p.iter().enumerate().fold(T::one(), |x, (i, &j)| x * a[i][j]);
        s = s + if odd { -t } else { t };
    }
    s
}
/// The same with absolute values and no signs.
pub fn permanent_abs(a: &[Vec<f64>]) -> f64 {
    permutations(a.len()).iter().map(|(p, _)| p.iter().enumerate().map(|(i, &j)| a[i][j].abs()).product::<f64>()).sum()
}
/// Without row `i` and column `j`.
pub fn minor<T: Copy>(a: &[Vec<T>], i: usize, j: usize) -> Vec<Vec<T>> {
    let mut r = Vec::new();
    for (k, row) in a.iter().enumerate() {
        if k != i {
            r.push(row.iter().enumerate().filter(|(l, _)| *l != j).map(|(_, x)| *x).collect());
        }
    }
    r
}
pub fn rows<T: Copy, const M: usize, const N: usize>(a: &[[T; N]; M]) -> Vec<Vec<T>> {
    a.iter().map(|r| r.to_vec()).collect()
}
/// Gaussian elimination over a field.
pub fn gauss<T>(a: &[Vec<T>]) -> T
where
    T: Copy + Zero + One + Sub<Output = T> + Mul<Output = T> + Div<Output = T> + Neg<Output = T>,
{
    let n = a.len();
    let mut a = a.to_vec();
    let mut d = T::one();
    for k in 0..n {
        let Some(p) = (k..n).find(|&i| !a[i][k].is_zero()) else { return T::zero() };
        if p != k {
            a.swap(p, k);
            d = -d;
        }
        d = d * a[k][k];
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n {
                a[i][j] = a[i][j] - f * a[k][j];
            }
        }
    }
    d
}
