//! C11: comparisons and boolean reductions are element-wise and total.
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    transform::{Chain, Linear, Rotation2, Rotation3, Scale, Shift},
    Matrix, Vector,
};
use vh::{add_mat, add_vec, cont::*, elems::*, engine::*, ensure, ensure_eq};

trait Cmp: Cont + PartialEq {
    /// veq, vne, vlt, vle, vgt, vge
    fn all_cmp(a: Self, b: Self) -> [Vec<bool>; 6];
}
impl<T: Elem + PartialOrd, const N: usize> Cmp for Vector<T, N> {
    fn all_cmp(a: Self, b: Self) -> [Vec<bool>; 6] {
        [a.veq(b).flat(), a.vne(b).flat(), a.vlt(b).flat(), a.vle(b).flat(), a.vgt(b).flat(), a.vge(b).flat()]
    }
}
impl<T: Elem + PartialOrd, const M: usize, const N: usize> Cmp for Matrix<T, M, N> {
    fn all_cmp(a: Self, b: Self) -> [Vec<bool>; 6] {
        [a.veq(b).flat(), a.vne(b).flat(), a.vlt(b).flat(), a.vle(b).flat(), a.vgt(b).flat(), a.vge(b).flat()]
    }
}
fn pair<T: Elem>(c: &mut Cx, n: usize) -> (Vec<T>, Vec<T>) {
    let mut a: Vec<T> = list(&mut c.s, n);
    if n > 1 && c.s.below(4) == 0 {
        // elements taken from two values only
        let two = [a[0], a[1]];
        a = (0..n).map(|_| two[c.s.idx(2)]).collect();
    }
    let mut b: Vec<T> = a.clone();
    match c.s.below(8) {
        0 => {}
        // the same elements at other places
        5 if n > 1 => {
            for _ in 0..1 + c.s.idx(2) {
                let (i, j) = (c.s.idx(n), c.s.idx(n));
                b.swap(i, j);
            }
        }
        6 if n > 1 => b.rotate_left(1 + c.s.idx(n - 1)),
        7 if n > 1 => b.reverse(),
        // one element changed
        1 | 2 if n > 0 => b[c.s.idx(n)] = T::any(&mut c.s),
        // all but one changed
        3 if n > 0 => {
            let k = c.s.idx(n);
            for (i, x) in b.iter_mut().enumerate() {
                if i != k {
                    *x = T::any(&mut c.s);
                }
            }
        }
        _ => b = list(&mut c.s, n),
    }
    if c.s.bool() {
        return (b, a);
    }
    (a, b)
}
fn compare_all<V: Cmp>(c: &mut Cx) -> Res
where
    V::E: PartialOrd,
{
    let (a, b) = pair::<V::E>(c, V::LEN);
    c.show(|| format!("{:?} vs {:?}", a, b));
    let k = a.iter().zip(&b).filter(|(x, y)| x == y).count();
    c.nontrivial(k > 0 && k < V::LEN || V::LEN == 1);
    c.label_if(V::LEN > 0 && k == V::LEN, "all equal");
    c.label_if(V::LEN > 0 && k + 1 == V::LEN, "all but one equal");
    let f = |g: fn(&V::E, &V::E) -> bool| a.iter().zip(&b).map(|(x, y)| g(x, y)).collect::<Vec<bool>>();
    let want = [f(|x, y| x == y), f(|x, y| x != y), f(|x, y| x < y), f(|x, y| x <= y), f(|x, y| x > y), f(|x, y| x >= y)];
    let got = V::all_cmp(V::make(&a), V::make(&b));
    for (i, n) in ["veq", "vne", "vlt", "vle", "vgt", "vge"].iter().enumerate() {
        ensure_eq!(got[i], want[i], "{}", n);
    }
    equality("whole value", V::make(&a), V::make(&b), &a, &b)
}
fn equality<X: PartialEq, T: PartialEq + std::fmt::Debug>(what: &str, x: X, y: X, a: &[T], b: &[T]) -> Res {
    let eq = a.iter().zip(b).all(|(x, y)| x == y);
    ensure!((x == y) == eq, "{}: == gives {} for {:?} and {:?}", what, !eq, a, b);
    ensure!((x != y) != eq, "{}: != gives {} for {:?} and {:?}", what, eq, a, b);
    #[allow(clippy::eq_op)]
    for (v, l) in [(&x, a), (&y, b)] {
        // also with the very same object on both sides
        ensure!((v == v) == l.iter().all(|t| t == t), "{}: == is wrong for {:?} and itself", what, l);
        ensure!((v != v) != l.iter().all(|t| t == t), "{}: != is wrong for {:?} and itself", what, l);
    }
    ensure!((y == x) == b.iter().zip(a).all(|(x, y)| x == y), "{}: == is wrong for {:?} and {:?}", what, b, a);
    Ok(())
}
fn reduce_list(c: &mut Cx, n: usize) -> Vec<bool> {
    let mut v = match c.s.below(4) {
        0 => vec![false; n],
        1 => vec![true; n],
        _ => (0..n).map(|_| c.s.bool()).collect(),
    };
    if n > 0 && c.s.bool() {
        let i = c.s.idx(n);
        v[i] = !v[i];
    }
    c.show(|| format!("{:?}", v));
    let t = v.iter().filter(|x| **x).count();
    c.nontrivial(n == 1 || t > 0 && t < n);
    c.label_if(n > 1 && t == 1, "a single true");
    c.label_if(n > 1 && t == n - 1, "a single false");
    v
}
trait Reduce: Cont<E = bool> {
    fn any_(self) -> bool;
    fn all_(self) -> bool;
}
impl<const N: usize> Reduce for Vector<bool, N> {
    fn any_(self) -> bool {
        self.any()
    }
    fn all_(self) -> bool {
        self.all()
    }
}
impl<const M: usize, const N: usize> Reduce for Matrix<bool, M, N> {
    fn any_(self) -> bool {
        self.any()
    }
    fn all_(self) -> bool {
        self.all()
    }
}
fn reduce<V: Reduce>(c: &mut Cx) -> Res {
    let v = reduce_list(c, V::LEN);
    ensure_eq!(V::make(&v).any_(), v.iter().any(|x| *x), "any");
    ensure_eq!(V::make(&v).all_(), v.iter().all(|x| *x), "all");
    Ok(())
}
fn composite<T: Elem>(c: &mut Cx) -> Res {
    macro_rules! check {
        ($n:literal, $what:literal, |$v:ident| $e:expr) => {{
            let (a, b) = pair::<T>(c, $n);
            let f = |$v: &[T]| $e;
            equality($what, f(&a), f(&b), &a, &b)?;
            let k = a.iter().zip(&b).filter(|(x, y)| x == y).count();
            c.nontrivial(k > 0 && k < $n);
            c.show(|| format!("{}: {:?} vs {:?}", $what, a, b));
        }};
    }
    match c.s.below(10) {
        0 => check!(2, "complex", |v| Complex::new(v[0], v[1])),
        1 => check!(4, "quaternion", |v| Quaternion::new(v[0], v[1], v[2], v[3])),
        2 => check!(4, "moebius", |v| Moebius::new(v[0], v[1], v[2], v[3])),
        3 => check!(8, "moebius of complex", |v| Moebius::new(Complex::new(v[0], v[1]), Complex::new(v[2], v[3]), Complex::new(v[4], v[5]), Complex::new(v[6], v[7]))),
        4 => check!(3, "shift", |v| Shift::<T, 3>::from(Vector::make(v))),
        5 => check!(1, "scale", |v| Scale::from(v[0])),
        6 => check!(9, "linear", |v| Linear::<T, 3>::from(Matrix::make(v))),
        7 => check!(2, "rotation2", |v| Rotation2::from(Complex::new(v[0], v[1]))),
        8 => check!(4, "rotation3", |v| Rotation3::from(Quaternion::new(v[0], v[1], v[2], v[3]))),
        _ => check!(6, "chain", |v| Chain::<_, _, Vector<T, 2>>::new(Shift::<T, 2>::from(Vector::make(&v[..2])), Linear::<T, 2>::from(Matrix::make(&v[2..])))),
    }
    Ok(())
}

fn main() {
    let mut p = Prop::new("C11", "at least one pair of corresponding elements is equal and one is not (or there is a single one); booleans are mixed");
    add_vec!(p, compare_all, "comparisons", 500; [u8, i8, i32, u64, i64, i128, f32, f64, bool, char, Po, Odd] [1, 2, 3, 4]);
    add_vec!(p, compare_all, "comparisons", 300; [f64, Odd] [0, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 32, 33, 64]);
    add_mat!(p, compare_all, "comparisons", 400; [i32, f32, f64, Po, Odd] [(1, 1), (2, 2), (2, 3), (3, 2), (4, 4)]);
    add_mat!(p, compare_all, "comparisons", 300; [f64, Odd] [(0, 2), (2, 0), (3, 3), (3, 4), (1, 4), (4, 1), (5, 6), (8, 8), (5, 5), (7, 3), (6, 6), (7, 7), (9, 2)]);
    add_vec!(p, reduce, "reductions", 300; [bool] [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 32, 33, 64, 65]);
    add_mat!(p, reduce, "reductions", 300; [bool] [(0, 0), (0, 3), (3, 0), (1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 7), (8, 8), (9, 8)]);
    p.sub("composite i32", 6000, composite::<i32>);
    p.sub("composite f64", 6000, composite::<f64>);
    p.sub("composite f32", 6000, composite::<f32>);
    p.sub("composite nan-like", 6000, composite::<Odd>);
    p.sub("composite symbolic", 6000, composite::<Sym>);
    add_vec!(p, compare_all, "comparisons", 12; [f64] [128, 257, 300]);
    add_mat!(p, compare_all, "comparisons", 12; [f64] [(16, 17), (300, 1), (1, 300)]);
    add_vec!(p, reduce, "reductions", 40; [bool] [128, 256, 257, 300]);
    add_mat!(p, reduce, "reductions", 40; [bool] [(16, 17), (300, 1), (1, 300)]);
    vh::every_dim!(add_vec!(p, compare_all, "comparisons, every dimension", 16; [i32, Odd]));
    vh::every_shape!(add_mat!(p, compare_all, "comparisons, every shape", 16; [f64]));
    vh::every_dim!(add_vec!(p, reduce, "reductions, every dimension", 40; [bool]));
    vh::every_shape!(add_mat!(p, reduce, "reductions, every shape", 40; [bool]));
    p.main();
}
