//! Vectors and matrices seen as flat (row-major) lists, with element-wise oracles.
use crate::elems::Elem;
use crate::engine::*;
use crate::{ensure, gen};
use std::ops::*;
use vecmat::{Matrix, Vector};

pub trait Cont: Copy + Send + Sync + 'static {
    type E: Elem;
    const LEN: usize;
    fn name() -> String;
    fn make(a: &[Self::E]) -> Self;
    fn flat(&self) -> Vec<Self::E>;
}
impl<T: Elem, const N: usize> Cont for Vector<T, N> {
    type E = T;
    const LEN: usize = N;
    fn name() -> String {
        format!("{}[{}]", T::NAME, N)
    }
    fn make(a: &[T]) -> Self {
        assert_eq!(a.len(), N);
        Vector::from_array(std::array::from_fn(|i| a[i]))
    }
    fn flat(&self) -> Vec<T> {
        self.as_array().to_vec()
    }
}
impl<T: Elem, const M: usize, const N: usize> Cont for Matrix<T, M, N> {
    type E = T;
    const LEN: usize = M * N;
    fn name() -> String {
        format!("{}[{}x{}]", T::NAME, M, N)
    }
    fn make(a: &[T]) -> Self {
        assert_eq!(a.len(), M * N);
        Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| a[i * N + j])))
    }
    fn flat(&self) -> Vec<T> {
        let mut v = Vec::new();
        for r in self.as_array_of_arrays() {
            v.extend_from_slice(r);
        }
        v
    }
}

/// List of `n` elements: independent, all equal, all but one equal, or small but for one.
pub fn list<T: Elem>(s: &mut Src, n: usize) -> Vec<T> {
    match s.below(8) {
        0 => vec![T::any(s); n],
        1 if n > 0 => {
            let mut r = vec![T::any(s); n];
            r[s.idx(n)] = T::any(s);
            r
        }
        2 => (0..n).map(|_| T::small(s)).collect(),
        3 | 4 if n > 0 => {
            let mut r: Vec<T> = (0..n).map(|_| T::small(s)).collect();
            r[s.idx(n)] = T::any(s);
            r
        }
        _ => (0..n).map(|_| T::any(s)).collect(),
    }
}
pub fn list_small<T: Elem>(s: &mut Src, n: usize) -> Vec<T> {
    (0..n).map(|_| T::small(s)).collect()
}

/// The element-wise expectation: `None` if the scalar operator panics on some element.
pub fn expect<T: Copy, U: Copy, R>(a: &[T], b: &[U], f: impl Fn(T, U) -> R) -> Option<Vec<R>> {
    let mut v = Vec::new();
    for (x, y) in a.iter().zip(b) {
        v.push(guard(|| f(*x, *y)).ok()?);
    }
    Some(v)
}
pub fn compare<V: Cont>(what: &str, want: Option<Vec<V::E>>, got: impl FnOnce() -> V) -> Res {
    match (guard(got), want) {
        (Err(_), None) => Ok(()),
        (Ok(g), Some(w)) => {
            let g = g.flat();
            for i in 0..V::LEN {
                ensure!(g[i].same(&w[i]), "{}: element {} is {:?}, expected {:?} (all: {:?})", what, i, g[i], w[i], g);
            }
            Ok(())
        }
        (Ok(g), None) => Err(Fail::new(format!("{}: the scalar operator panics, the result is {:?}", what, g.flat()))),
        (Err(m), Some(w)) => Err(Fail::new(format!("{}: panicked ({}), expected {:?}", what, m, w))),
    }
}
/// Two operands and a scalar.
pub fn operands<V: Cont>(c: &mut Cx) -> (Vec<V::E>, Vec<V::E>, V::E) {
    let n = V::LEN;
    let s = &mut c.s;
    let mut a: Vec<V::E> = list(s, n);
    let b: Vec<V::E> = list(s, n);
    let k = if s.bool() { V::E::any(s) } else { V::E::small(s) };
    if n > 0 && s.chance(1, 4) {
        // some pairs equal
        for i in 0..n {
            if s.bool() {
                a[i] = b[i];
            }
        }
    }
    c.show(|| format!("{:?} op {:?}, scalar {:?}", a, b, k));
    c.nontrivial(a.iter().zip(&b).any(|(x, y)| !x.same(y)));
    (a, b, k)
}

#[macro_export]
macro_rules! elementwise {
    ($c:expr, $V:ty, $a:expr, $b:expr, $k:expr; $($op:ident $opa:ident),*; $($sop:ident $sopa:ident),*) => {{
        let (a, b, k) = (&$a, &$b, $k);
        let ks = vec![k; a.len()];
        let mk = |x: &Vec<_>| <$V>::make(x);
        $(
            let want = $crate::cont::expect(a, b, |x, y| x.$op(y));
            $c.label_if(want.is_none(), "scalar operator panics");
            $crate::cont::compare(stringify!($op), want, || mk(a).$op(mk(b)))?;
            let want = $crate::cont::expect(a, b, |mut x, y| { x.$opa(y); x });
            $crate::cont::compare(stringify!($opa), want, || { let mut v = mk(a); v.$opa(mk(b)); v })?;
        )*
        $(
            let want = $crate::cont::expect(a, &ks, |x, y| x.$sop(y));
            $crate::cont::compare(concat!(stringify!($sop), " by scalar"), want, || mk(a).$sop(k))?;
            let want = $crate::cont::expect(a, &ks, |mut x, y| { x.$sopa(y); x });
            $crate::cont::compare(concat!(stringify!($sopa), " by scalar"), want, || { let mut v = mk(a); v.$sopa(k); v })?;
        )*
        let _ = (k, &ks);
    }};
}
#[macro_export]
macro_rules! add_vec {
    ($p:ident, $f:ident, $what:literal, $cases:expr; [$($t:ty),*] $dims:tt) => {$( $crate::add_vec!(@ $p, $f, $what, $cases; $t, $dims); )*};
    (@ $p:ident, $f:ident, $what:literal, $cases:expr; $t:ty, [$($n:literal),*]) => {$(
        $p.sub(format!("{} {}", $what, <vecmat::Vector<$t, $n> as $crate::cont::Cont>::name()), $cases, $f::<vecmat::Vector<$t, $n>>);
    )*};
}
#[macro_export]
macro_rules! add_mat {
    ($p:ident, $f:ident, $what:literal, $cases:expr; [$($t:ty),*] $dims:tt) => {$( $crate::add_mat!(@ $p, $f, $what, $cases; $t, $dims); )*};
    (@ $p:ident, $f:ident, $what:literal, $cases:expr; $t:ty, [$(($m:literal, $n:literal)),*]) => {$(
        $p.sub(format!("{} {}", $what, <vecmat::Matrix<$t, $m, $n> as $crate::cont::Cont>::name()), $cases, $f::<vecmat::Matrix<$t, $m, $n>>);
    )*};
}

/// Calls the registering macro with every dimension from 1 to 20 and a spread of larger ones.
#[macro_export]
macro_rules! every_dim {
    ($cb:ident!($($pre:tt)*)) => {
        $cb!($($pre)* [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 25, 27, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
    };
}
/// Calls the registering macro with every non-empty shape up to 9x9 and a spread of larger, tall and wide ones.
#[macro_export]
macro_rules! every_shape {
    ($cb:ident!($($pre:tt)*)) => {
        $cb!($($pre)* [(1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7), (1, 8), (1, 9), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 7), (2, 8), (2, 9), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (3, 6), (3, 7), (3, 8), (3, 9), (4, 1), (4, 2), (4, 3), (4, 4), (4, 5), (4, 6), (4, 7), (4, 8), (4, 9), (5, 1), (5, 2), (5, 3), (5, 4), (5, 5), (5, 6), (5, 7), (5, 8), (5, 9), (6, 1), (6, 2), (6, 3), (6, 4), (6, 5), (6, 6), (6, 7), (6, 8), (6, 9), (7, 1), (7, 2), (7, 3), (7, 4), (7, 5), (7, 6), (7, 7), (7, 8), (7, 9), (8, 1), (8, 2), (8, 3), (8, 4), (8, 5), (8, 6), (8, 7), (8, 8), (8, 9), (9, 1), (9, 2), (9, 3), (9, 4), (9, 5), (9, 6), (9, 7), (9, 8), (9, 9), (10, 10), (11, 11), (12, 12), (16, 16), (16, 17), (17, 16), (17, 17), (20, 20), (10, 18), (18, 10), (13, 6), (6, 13), (9, 10), (10, 9), (1, 300), (300, 1), (2, 65), (65, 2), (2, 300), (300, 3), (33, 3), (3, 33), (4, 20), (20, 4), (1, 10), (10, 1), (1, 11), (11, 1), (1, 12), (12, 1), (1, 13), (13, 1), (1, 15), (15, 1), (1, 16), (16, 1), (1, 17), (17, 1), (1, 19), (19, 1), (1, 31), (31, 1), (1, 32), (32, 1), (1, 33), (33, 1), (2, 10), (10, 2), (3, 10), (10, 3), (2, 11), (11, 2), (3, 11), (11, 3), (2, 16), (16, 2), (3, 16), (16, 3), (2, 17), (17, 2), (3, 17), (17, 3), (12, 4), (4, 12), (5, 11), (11, 5)]);
    };
}

/// Uninterpreted element: every operator gives a distinct value, so operator, operands and their
/// order are all observable.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sym(pub u64);
impl Elem for Sym {
    const NAME: &'static str = "symbolic";
    fn any(s: &mut Src) -> Self {
        Sym(s.bits())
    }
    fn small(s: &mut Src) -> Self {
        Sym(s.below(9))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn tag(i: usize) -> Self {
        Sym(i as u64)
    }
}
macro_rules! sym {
    ($($Op:ident $op:ident $OpA:ident $opa:ident $n:literal;)*) => {$(
        impl $Op for Sym { type Output = Sym; fn $op(self, o: Sym) -> Sym { Sym(mix(mix(self.0, $n), o.0)) } }
        impl $OpA for Sym { fn $opa(&mut self, o: Sym) { *self = Sym(mix(mix(self.0, $n), o.0)) } }
    )*};
}
sym! {
    Add add AddAssign add_assign 1; Sub sub SubAssign sub_assign 2; Mul mul MulAssign mul_assign 3;
    Div div DivAssign div_assign 4; Rem rem RemAssign rem_assign 5;
    BitAnd bitand BitAndAssign bitand_assign 7; BitOr bitor BitOrAssign bitor_assign 8; BitXor bitxor BitXorAssign bitxor_assign 9;
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(mix(self.0, 6))
    }
}
impl Not for Sym {
    type Output = Sym;
    fn not(self) -> Sym {
        Sym(mix(self.0, 10))
    }
}
impl num_traits::Zero for Sym {
    fn zero() -> Self {
        Sym(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl num_traits::One for Sym {
    fn one() -> Self {
        Sym(1)
    }
}

/// Partially ordered element (pairs ordered component-wise) whose equality ignores `note`.
#[derive(Clone, Copy, Debug)]
pub struct Po {
    pub a: i8,
    pub b: i8,
    pub note: u8,
}
impl PartialEq for Po {
    fn eq(&self, o: &Self) -> bool {
        self.a == o.a && self.b == o.b
    }
}
impl PartialOrd for Po {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        match (self.a.cmp(&o.a), self.b.cmp(&o.b)) {
            (x, y) if x == y => Some(x),
            (Equal, y) => Some(y),
            (x, Equal) => Some(x),
            _ => None,
        }
    }
}
impl Elem for Po {
    const NAME: &'static str = "partial-order";
    fn any(s: &mut Src) -> Self {
        Po { a: s.zigzag(1) as i8, b: s.zigzag(1) as i8, note: s.below(3) as u8 }
    }
    fn small(s: &mut Src) -> Self {
        Self::any(s)
    }
    fn same(&self, o: &Self) -> bool {
        self == o && self.note == o.note
    }
    fn tag(i: usize) -> Self {
        Po { a: i as i8, b: 0, note: 0 }
    }
}
/// Element that is not equal even to itself when its flag is set, and compares as the opposite
/// operators would not predict: every comparison method must be the element's own one.
#[derive(Clone, Copy, Debug)]
pub struct Odd(pub u8);
impl PartialEq for Odd {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0 && self.0 % 4 != 3
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        if self.0 % 4 == 3 || o.0 % 4 == 3 {
            None
        } else {
            self.0.partial_cmp(&o.0)
        }
    }
}
impl Elem for Odd {
    const NAME: &'static str = "nan-like";
    fn any(s: &mut Src) -> Self {
        Odd(s.below(8) as u8)
    }
    fn small(s: &mut Src) -> Self {
        Self::any(s)
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn tag(i: usize) -> Self {
        Odd(i as u8)
    }
}
