//! Generators shared by the properties.
use crate::elems::{Elem, Gf, Nc};
use crate::engine::Src;
use num_traits::{Float, FloatConst, NumAssign, One, Zero};
use std::sync::OnceLock;

/// Numeric literals found in the library's sources (given by the driver), plus a few classics.
fn dict() -> &'static Vec<f64> {
    static D: OnceLock<Vec<f64>> = OnceLock::new();
    D.get_or_init(|| {
        let mut v: Vec<f64> = vec![2.0, 3.0, 4.0, 8.0, 10.0, 16.0, 64.0, 100.0, 127.0, 128.0, 255.0, 256.0, 1000.0, 1e-3, 1e-6, 1e-9, 0.25, 0.75];
        if let Ok(s) = std::env::var("VH_DICT") {
            for x in s.split(',') {
                if let Ok(x) = x.parse::<f64>() {
                    if x.is_finite() && !v.contains(&x) {
                        v.push(x);
                    }
                }
            }
        }
        v
    })
}
pub fn dict_float(s: &mut Src) -> f64 {
    let d = dict();
    let v = d[s.idx(d.len())];
    let v = match s.below(8) {
        0..=2 => v,
        3 => v * (1.0 + 1e-12),
        4 => v * (1.0 - 1e-12),
        5 => v * (1.0 + 0.05 * unit_f64(s)),
        6 => 1.0 / v,
        _ => v + unit_f64(s) * 1e-4,
    };
    if s.bool() {
        -v
    } else {
        v
    }
}
pub fn dict_int(s: &mut Src) -> i64 {
    let d = dict();
    let v = d[s.idx(d.len())];
    let v = v as i64 + *s.pick(&[0, 0, 1, -1]);
    if s.bool() {
        -v
    } else {
        v
    }
}
/// Uniform in [-1, 1).
pub fn unit_f64(s: &mut Src) -> f64 {
    let b = s.bits() >> 11;
    // sign in the lowest bit so that small choices are small numbers
    let m = (b >> 1) as f64 / (1u64 << 52) as f64;
    if b & 1 == 1 {
        -m
    } else {
        m
    }
}

/// Float type under test.
pub trait Fl:
    Elem + Float + FloatConst + NumAssign + std::fmt::Display + std::iter::Sum + approx::AbsDiffEq<Epsilon = Self>
{
    const EPS: f64;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}

/// Finite number of moderate size (at most about 16 in magnitude), often a special one.
pub fn moderate(s: &mut Src) -> f64 {
    match s.below(12) {
        0 => 0.0,
        1 => s.zigzag(4) as f64,
        2 => s.zigzag(16) as f64 / 8.0,
        3 => *s.pick(&[-0.0, 1.0, -1.0, 0.5, -0.5, 1e-9, -1e-9, 1e-4, -1e-4, 2.0, -2.0]),
        4 => {
            let v = dict_float(s);
            if v.abs() <= 16.0 {
                v
            } else {
                1.0 / v
            }
        }
        5 => unit_f64(s) * 1e-3,
        6..=8 => unit_f64(s),
        _ => unit_f64(s) * 4.0,
    }
}
/// Moderate number that is not close to zero.
pub fn away(s: &mut Src) -> f64 {
    let v = moderate(s);
    if v.abs() < 1e-3 {
        if v < 0.0 {
            -0.7
        } else {
            1.0
        }
    } else {
        v
    }
}
/// Angle: multiples of pi/12 and offsets of them, several turns, or anything moderate.
pub fn angle(s: &mut Src) -> f64 {
    let pi = std::f64::consts::PI;
    match s.below(6) {
        0 => s.zigzag(24) as f64 * pi / 12.0,
        1 => s.zigzag(4) as f64 * pi / 2.0,
        2 => s.zigzag(8) as f64 * pi / 4.0 + unit_f64(s) * 1e-3,
        3 => dict_float(s).clamp(-50.0, 50.0),
        4 => unit_f64(s) * pi,
        _ => unit_f64(s) * 12.0,
    }
}
/// Unit vector: axes, near-axes, the equator planes, literal-valued components, or anything.
pub fn unit_vec<const N: usize>(s: &mut Src) -> [f64; N] {
    loop {
        let mut v: [f64; N] = [0.0; N];
        match s.below(7) {
            0 => {
                v[s.idx(N)] = if s.bool() { -1.0 } else { 1.0 };
                return v;
            }
            1 => {
                // near an axis
                let e = *s.pick(&[1e-1, 1e-2, 1e-3, 1e-5, 1e-7, 1e-10, 1e-14]);
                for x in v.iter_mut() {
                    *x = unit_f64(s) * e;
                }
                v[s.idx(N)] = if s.bool() { -1.0 } else { 1.0 };
            }
            2 => {
                // near a coordinate plane
                for x in v.iter_mut() {
                    *x = unit_f64(s);
                }
                v[s.idx(N)] = *s.pick(&[0.0, -0.0, 1e-3, -1e-3, 1e-6, -1e-6, 1e-9, -1e-9, 1e-12, -1e-12, 1e-17]);
            }
            3 => {
                // one component at or near a literal of the sources
                let d = dict_float(s);
                if d.abs() < 1.0 {
                    let k = s.idx(N);
                    let mut q = 0.0;
                    for (i, x) in v.iter_mut().enumerate() {
                        if i != k {
                            *x = unit_f64(s);
                            q += *x * *x;
                        }
                    }
                    if q > 1e-6 {
                        let f = ((1.0 - d * d) / q).sqrt();
                        for (i, x) in v.iter_mut().enumerate() {
                            *x = if i == k { d } else { *x * f };
                        }
                    } else {
                        continue;
                    }
                }
            }
            4 => {
                for x in v.iter_mut() {
                    *x = s.zigzag(3) as f64;
                }
            }
            _ => {
                for x in v.iter_mut() {
                    *x = unit_f64(s);
                }
            }
        }
        let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        if l > 1e-3 {
            for x in v.iter_mut() {
                *x /= l;
            }
            return v;
        }
        // shrinking towards all-zero choices must terminate
        if s.rec.len() > 400 {
            let mut v = [0.0; N];
            v[0] = 1.0;
            return v;
        }
    }
}

pub fn arr<T: Elem, const N: usize>(s: &mut Src) -> [T; N] {
    // Mostly independent; sometimes all equal or all but one equal.
    match s.below(6) {
        0 => {
            let a = T::any(s);
            [a; N]
        }
        1 if N > 0 => {
            let a = T::any(s);
            let mut r = [a; N];
            r[s.idx(N)] = T::any(s);
            r
        }
        _ => std::array::from_fn(|_| T::any(s)),
    }
}
pub fn arr2<T: Elem, const M: usize, const N: usize>(s: &mut Src) -> [[T; N]; M] {
    match s.below(6) {
        0 if M * N > 0 => {
            let a = T::any(s);
            let mut r = [[a; N]; M];
            r[s.idx(M)][s.idx(N)] = T::any(s);
            r
        }
        1 => {
            let a = arr::<T, N>(s);
            [a; M]
        }
        _ => std::array::from_fn(|_| std::array::from_fn(|_| T::any(s))),
    }
}
pub fn small_arr<T: Elem, const N: usize>(s: &mut Src) -> [T; N] {
    std::array::from_fn(|_| T::small(s))
}
/// Exact ring element generation for structured matrices.
pub trait Ring: Elem + Zero + One + std::ops::Neg<Output = Self> + std::ops::Sub<Output = Self> {
    fn gen(s: &mut Src) -> Self;
}
impl<const P: u64> Ring for Gf<P> {
    fn gen(s: &mut Src) -> Self {
        Gf::any(s)
    }
}
impl Ring for Nc {
    fn gen(s: &mut Src) -> Self {
        Nc::small(s)
    }
}
macro_rules! ring_small {
    ($($t:ident)*) => {$( impl Ring for $t { fn gen(s: &mut Src) -> Self { s.zigzag(3) as $t } } )*};
}
ring_small!(i8 i16 i32 i64 i128 f32 f64);

/// Matrix with structure: dense, sparse, triangular, permutation-like, elementary, rank-deficient, symmetric,
/// antisymmetric, circulant, block diagonal, of rows that permute and reflect one row.
pub fn structured<T: Ring, const M: usize, const N: usize>(s: &mut Src) -> [[T; N]; M] {
    let z = T::zero();
    let mut a = [[z; N]; M];
    if M * N == 0 {
        return a;
    }
    let kind = s.below(15);
    match kind {
        0 => {
            // identity plus a few elements
            for i in 0..M.min(N) {
                a[i][i] = T::one();
            }
            for _ in 0..s.below(4) {
                let (i, j) = (s.idx(M), s.idx(N));
                a[i][j] = T::gen(s);
            }
        }
        1 => {
            // sparse
            for _ in 0..s.below((M * N) as u64 + 1) {
                let (i, j) = (s.idx(M), s.idx(N));
                a[i][j] = T::gen(s);
            }
        }
        2 | 3 => {
            for i in 0..M {
                for j in 0..N {
                    if (kind == 2 && i <= j) || (kind == 3 && i >= j) {
                        a[i][j] = T::gen(s);
                    }
                }
            }
        }
        4 => {
            // scaled permutation
            let mut cols: Vec<usize> = (0..N).collect();
            for i in 0..M.min(N) {
                let k = i + s.idx(N - i);
                cols.swap(i, k);
                a[i][cols[i]] = T::gen(s);
            }
        }
        5 => {
            // rank-deficient: some row is a copy, negation, sum of others or zero
            for i in 0..M {
                for j in 0..N {
                    a[i][j] = T::gen(s);
                }
            }
            let (p, q, r) = (s.idx(M), s.idx(M), s.idx(M));
            match s.below(4) {
                0 => a[p] = a[q],
                1 => {
                    for j in 0..N {
                        a[p][j] = a[q][j] - a[r][j];
                    }
                }
                2 => a[p] = [z; N],
                _ => {
                    for j in 0..N {
                        a[p][j] = -a[q][j];
                    }
                }
            }
        }
        6 => {
            // one zero column or a repeated column
            for i in 0..M {
                for j in 0..N {
                    a[i][j] = T::gen(s);
                }
            }
            let (p, q) = (s.idx(N), s.idx(N));
            let zero = s.bool();
            for row in a.iter_mut() {
                row[p] = if zero { z } else { row[q] };
            }
        }
        7 | 8 => {
            // symmetric or antisymmetric, perhaps with a constant on the diagonal
            let (d, own) = (T::gen(s), s.bool());
            for i in 0..M {
                for j in 0..N {
                    a[i][j] = if i == j {
                        if own || kind == 8 {
                            d
                        } else {
                            T::gen(s)
                        }
                    } else if i < j || j >= M || i >= N {
                        T::gen(s)
                    } else if kind == 7 {
                        a[j][i]
                    } else {
                        -a[j][i]
                    };
                }
            }
        }
        9 => {
            // circulant, either way
            let (r, back): ([T; N], bool) = (std::array::from_fn(|_| T::gen(s)), s.bool());
            for i in 0..M {
                for j in 0..N {
                    a[i][j] = r[if back { i + j } else { i * (N - 1) + j } % N];
                }
            }
        }
        10 => {
            // permutations and reflections of one row
            let mut r: [T; N] = std::array::from_fn(|_| T::gen(s));
            for row in a.iter_mut() {
                *row = r;
                let (i, j) = (s.idx(N), s.idx(N));
                r.swap(i, j);
                let k = s.idx(N);
                r[k] = -r[k];
            }
        }
        11 => {
            // two diagonal blocks
            let k = s.idx(M.min(N) + 1);
            for i in 0..M {
                for j in 0..N {
                    if (i < k) == (j < k) {
                        a[i][j] = T::gen(s);
                    }
                }
            }
        }
        _ => {
            for i in 0..M {
                for j in 0..N {
                    a[i][j] = T::gen(s);
                }
            }
        }
    }
    a
}
