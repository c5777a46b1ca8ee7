//! C08: vector arithmetic is exactly element-wise scalar arithmetic.
use std::ops::*;
use vecmat::Vector;
use vh::{every_dim, cont::Sym, elems::*, engine::*, ensure, gen};

/// The element-wise expectation: `None` if the scalar operator panics on some component.
fn expect<T: Copy, R, const N: usize>(a: &[T; N], b: &[T; N], f: impl Fn(T, T) -> R) -> Option<Vec<R>> {
    let mut v = Vec::new();
    for i in 0..N {
        v.push(guard(|| f(a[i], b[i])).ok()?);
    }
    Some(v)
}
fn compare<T: Elem, const N: usize>(what: &str, want: Option<Vec<T>>, got: impl FnOnce() -> Vector<T, N>) -> Res {
    match (guard(got), want) {
        (Err(_), None) => Ok(()),
        (Ok(g), Some(w)) => {
            for i in 0..N {
                ensure!(g[i].same(&w[i]), "{}: component {} is {:?}, expected {:?}", what, i, g[i], w[i]);
            }
            Ok(())
        }
        (Ok(g), None) => Err(Fail::new(format!("{}: scalar operator panics, vector gives {:?}", what, g.as_array()))),
        (Err(m), Some(w)) => Err(Fail::new(format!("{}: panicked ({}), expected {:?}", what, m, w))),
    }
}
fn gen_pair<T: Elem, const N: usize>(c: &mut Cx) -> ([T; N], [T; N], T) {
    let (a, b, k): ([T; N], [T; N], T) = match c.s.below(4) {
        0 => (gen::arr(&mut c.s), gen::arr(&mut c.s), T::any(&mut c.s)),
        1 => (gen::arr(&mut c.s), gen::small_arr(&mut c.s), T::small(&mut c.s)),
        2 => (gen::small_arr(&mut c.s), gen::small_arr(&mut c.s), T::any(&mut c.s)),
        // one extreme component among small ones
        _ => {
            let (mut a, mut b) = (gen::small_arr(&mut c.s), gen::small_arr(&mut c.s));
            if N > 0 {
                let i = c.s.idx(N);
                a[i] = T::any(&mut c.s);
                b[i] = T::any(&mut c.s);
            }
            (a, b, T::small(&mut c.s))
        }
    };
    c.show(|| format!("{:?} op {:?}, scalar {:?}", &a[..], &b[..], k));
    c.nontrivial(N > 0 && a.iter().zip(&b).any(|(x, y)| !x.same(y)));
    (a, b, k)
}
macro_rules! two {
    ($c:expr, $a:expr, $b:expr, $k:expr, $N:ident: $($op:ident $opa:ident),*; $($sop:ident $sopa:ident),*) => {{
        let (a, b, k) = (&$a, &$b, $k);
        $(
            let want = expect(a, b, |x, y| x.$op(y));
            $c.label_if(want.is_none(), "scalar operator panics");
            compare(stringify!($op), want, || Vector::from(*a).$op(Vector::from(*b)))?;
            let want = expect(a, b, |mut x, y| { x.$opa(y); x });
            compare(stringify!($opa), want, || { let mut v = Vector::from(*a); v.$opa(Vector::from(*b)); v })?;
        )*
        $(
            let want = expect(a, &[k; $N], |x, y| x.$sop(y));
            compare(concat!(stringify!($sop), " by scalar"), want, || Vector::from(*a).$sop(k))?;
            let want = expect(a, &[k; $N], |mut x, y| { x.$sopa(y); x });
            compare(concat!(stringify!($sopa), " by scalar"), want, || { let mut v = Vector::from(*a); v.$sopa(k); v })?;
        )*
    }};
}
fn full<T, const N: usize>(c: &mut Cx) -> Res
where
    T: Elem + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Div<Output = T> + Rem<Output = T>,
    T: AddAssign + SubAssign + MulAssign + DivAssign + RemAssign,
{
    let (a, b, k) = gen_pair::<T, N>(c);
    two!(c, a, b, k, N: add add_assign, sub sub_assign, mul mul_assign, div div_assign, rem rem_assign; mul mul_assign, div div_assign, rem rem_assign);
    // chained use keeps the association of the written expression
    let want = expect(&a, &b, |x, y| (x * y) - (y + x)).filter(|_| true);
    compare("a*b-(b+a)", want, || {
        let (v, w) = (Vector::from(a), Vector::from(b));
        (v * w) - (w + v)
    })
}
/// Elements with non-commutative multiplication: operand order is observable.
fn ring<const N: usize>(c: &mut Cx) -> Res {
    let (a, b, k) = gen_pair::<Nc, N>(c);
    two!(c, a, b, k, N: add add_assign, sub sub_assign, mul mul_assign; mul mul_assign);
    compare("neg", expect(&a, &a, |x, _| -x), || -Vector::from(a))
}
fn neg<T: Elem + Neg<Output = T>, const N: usize>(c: &mut Cx) -> Res {
    let (a, _, _) = gen_pair::<T, N>(c);
    let want = expect(&a, &a, |x, _| -x);
    c.label_if(want.is_none(), "scalar operator panics");
    compare("neg", want, || -Vector::from(a))
}
fn reverse<T, const N: usize>(c: &mut Cx) -> Res
where
    T: Elem + Mul<Output = T> + Mul<Vector<T, N>, Output = Vector<T, N>>,
{
    let (a, _, k) = gen_pair::<T, N>(c);
    compare("scalar times vector", expect(&a, &[k; N], |x, k| k * x), || k * Vector::from(a))
}

macro_rules! add {
    ($p:ident, $f:ident, $what:literal, $cases:literal: [$($t:ty),*] $dims:tt) => {$( add!(@ $p, $f, $what, $cases, $t, $dims); )*};
    (@ $p:ident, $f:ident, $what:literal, $cases:literal, $t:ty, [$($n:literal),*]) => {$(
        $p.sub(format!("{} {}[{}]", $what, <$t as Elem>::NAME, $n), $cases, $f::<$t, $n>);
    )*};
}
fn main() {
    let mut p = Prop::new("C08", "the dimension is positive and some pair of corresponding components differs");
    add!(p, full, "operators", 500: [u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, F] [1, 2, 3, 4]);
    add!(p, full, "operators", 800: [f32, f64, Sym] [1, 2, 3, 4]);
    add!(p, full, "operators", 250: [i32, f64, Sym] [0, 5, 6, 7, 8, 9, 12, 16, 17]);
    add!(p, full, "operators", 120: [Sym] [10, 11, 13, 14, 15, 24, 31, 32, 33, 64]);
    add!(p, full, "operators", 250: [u8, f32] [8, 16, 33]);
    add!(p, neg, "negation", 300: [i8, i16, i32, i64, i128, isize, f32, f64, F, Sym] [1, 2, 3, 4]);
    add!(p, neg, "negation", 150: [i32, f64, Sym] [0, 5, 8, 16]);
    add!(p, neg, "negation", 100: [Sym] [6, 7, 9, 10, 11, 12, 13, 14, 15, 17, 32, 33, 64]);
    add!(p, reverse, "scalar first", 300: [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64] [1, 2, 3, 4, 8]);
    add!(p, reverse, "scalar first", 100: [i32, f64] [5, 6, 7, 9, 10, 11, 12, 13, 15, 16, 17, 32, 33]);
    add!(p, full, "operators", 12: [Sym, i32] [128, 256, 257, 300]);
    add!(p, neg, "negation", 12: [Sym] [128, 257, 300]);
    add!(p, reverse, "scalar first", 12: [i32, f64] [128, 257, 300]);
    every_dim!(add!(p, full, "operators, every dimension", 20: [Sym]));
    every_dim!(add!(p, full, "operators, every dimension", 12: [i16]));
    every_dim!(add!(p, neg, "negation, every dimension", 20: [Sym]));
    every_dim!(add!(p, reverse, "scalar first, every dimension", 20: [f32]));
    every_dim!(add!(p, reverse, "scalar first, every dimension", 12: [u16]));
    p.sub("ring [1]", 200, ring::<1>);
    p.sub("ring [2]", 200, ring::<2>);
    p.sub("ring [3]", 200, ring::<3>);
    p.sub("ring [4]", 200, ring::<4>);
    p.sub("ring [7]", 200, ring::<7>);
    p.main();
}
