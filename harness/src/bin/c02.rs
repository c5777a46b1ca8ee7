//! C02: matrix storage is row-major and every view of it agrees.
use std::convert::TryFrom;
use vecmat::{Matrix, Vector};
use vh::{elems::*, engine::*, ensure, gen, iters::history};

type Rows<T, const M: usize, const N: usize> = [[T; N]; M];
fn same2<T: Elem, const M: usize, const N: usize>(a: &Rows<T, M, N>, b: &Rows<T, M, N>) -> bool {
    a.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| x.same(y))
}
fn samef<T: Elem>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
}
/// Read every element by index pair.
fn rd<T: Elem, const M: usize, const N: usize>(m: &Matrix<T, M, N>) -> Rows<T, M, N> {
    std::array::from_fn(|i| std::array::from_fn(|j| m[(i, j)]))
}
macro_rules! chk {
    ($got:expr, $want:expr, $what:expr) => {{
        let g = $got;
        ensure!(same2(&g, &$want), "{}: got {:?}, expected {:?}", $what, g, $want)
    }};
}
macro_rules! chkf {
    ($got:expr, $want:expr, $what:expr) => {{
        let g: Vec<T> = $got;
        ensure!(samef(&g, &$want[..]), "{}: got {:?}, expected {:?}", $what, g, &$want[..])
    }};
}

fn read<T: Elem, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let a: Rows<T, M, N> = gen::arr2(&mut c.s);
    c.show(|| format!("{:?}", a));
    let flat: Vec<T> = a.iter().flatten().copied().collect();
    c.nontrivial(flat.len() >= 2 && flat.windows(2).any(|w| !w[0].same(&w[1])));
    let aov: [Vector<T, N>; M] = std::array::from_fn(|i| Vector::from(a[i]));
    let vov: Vector<Vector<T, N>, M> = Vector::from(aov);
    let mut m = Matrix::from_array_of_arrays(a);
    let mut k = 0;
    let init = Matrix::<T, M, N>::init(|| {
        k += 1;
        flat[k - 1]
    });
    ensure!(k == M * N, "init called its closure {} times", k);
    let none = |w: &str| Fail::new(format!("{} of a source of the right size failed", w));
    let built: [(&str, Matrix<T, M, N>); 15] = [
        ("From<[[T;N];M]>", Matrix::from(a)),
        ("From<&[[T;N];M]>", Matrix::from(&a)),
        ("from_array_of_vectors", Matrix::from_array_of_vectors(aov)),
        ("From<[Vector;M]>", Matrix::from(aov)),
        ("From<&[Vector;M]>", Matrix::from(&aov)),
        ("from_vector_of_vectors", Matrix::from_vector_of_vectors(vov)),
        ("From<Vector<Vector>>", Matrix::from(vov)),
        ("From<&Vector<Vector>>", Matrix::from(&vov)),
        ("try_from(flat slice)", Matrix::try_from(&flat[..]).map_err(|_| none("try_from(flat)"))?),
        ("try_from(slice of rows)", Matrix::try_from(&aov[..]).map_err(|_| none("try_from(rows)"))?),
        ("try_from_iter", Matrix::try_from_iter(flat.iter().copied()).ok_or_else(|| none("try_from_iter"))?),
        ("try_from_iter_of_vectors", Matrix::try_from_iter_of_vectors(aov.iter().copied()).ok_or_else(|| none("try_from_iter_of_vectors"))?),
        ("init", init),
        ("copy", m),
        ("clone", #[allow(clippy::clone_on_copy)] m.clone()),
    ];
    for (n, b) in built.iter() {
        chk!(rd(b), a, n);
    }
    // reads
    chk!(rd(&m), a, "index");
    chk!(m.into_array_of_arrays(), a, "into_array_of_arrays");
    chk!(*m.as_array_of_arrays(), a, "as_array_of_arrays");
    chk!(*m.as_mut_array_of_arrays(), a, "as_mut_array_of_arrays");
    chk!(<Rows<T, M, N>>::from(m), a, "Into<[[T;N];M]>");
    chk!(*<&Rows<T, M, N>>::from(&m), a, "Into<&[[T;N];M]>");
    chk!(*<&mut Rows<T, M, N>>::from(&mut m), a, "Into<&mut [[T;N];M]>");
    let rows = |v: &[Vector<T, N>]| -> Rows<T, M, N> { std::array::from_fn(|i| v[i].into_array()) };
    chk!(rows(&m.into_array_of_vectors()), a, "into_array_of_vectors");
    chk!(rows(&<[Vector<T, N>; M]>::from(m)), a, "Into<[Vector;M]>");
    chk!(rows(m.as_array_of_vectors()), a, "as_array_of_vectors");
    chk!(rows(m.as_mut_array_of_vectors()), a, "as_mut_array_of_vectors");
    chk!(rows(m.into_vector_of_vectors().as_array()), a, "into_vector_of_vectors");
    chk!(rows(<Vector<Vector<T, N>, M>>::from(m).as_array()), a, "Into<Vector<Vector>>");
    chk!(rows(m.as_vector_of_vectors().as_array()), a, "as_vector_of_vectors");
    chk!(rows(m.as_mut_vector_of_vectors().as_array()), a, "as_mut_vector_of_vectors");
    chk!(rows(<&Vector<Vector<T, N>, M>>::from(&m).as_array()), a, "Into<&Vector<Vector>>");
    chk!(rows(<&mut Vector<Vector<T, N>, M>>::from(&mut m).as_array()), a, "Into<&mut Vector<Vector>>");
    chk!(rows(AsRef::<Vector<Vector<T, N>, M>>::as_ref(&m).as_array()), a, "as_ref");
    chk!(rows(AsMut::<Vector<Vector<T, N>, M>>::as_mut(&mut m).as_array()), a, "as_mut");
    chk!(std::array::from_fn(|i| m.row(i).into_array()), a, "row");
    chk!(std::array::from_fn(|i| m.row_ref(i).into_array()), a, "row_ref");
    chk!(std::array::from_fn(|i| m.row_mut(i).into_array()), a, "row_mut");
    for j in 0..N {
        chkf!(m.col(j).into_array().to_vec(), a.iter().map(|r| r[j]).collect::<Vec<_>>(), format!("col({})", j));
    }
    chk!(std::array::from_fn(|i| std::array::from_fn(|j| *(&mut m[(i, j)]))), a, "index_mut");
    chk!(std::array::from_fn(|i| std::array::from_fn(|j| unsafe { *m.get_unchecked(i, j) })), a, "get_unchecked");
    chk!(std::array::from_fn(|i| std::array::from_fn(|j| unsafe { *m.get_unchecked_mut(i, j) })), a, "get_unchecked_mut");
    let (q, r) = (m.as_ptr(), m.as_mut_ptr() as *const T);
    ensure!(!q.is_null() && !r.is_null() && (q == r || M * N == 0), "as_ptr is {:?}, as_mut_ptr {:?}", q, r);
    chkf!((0..M * N).map(|k| unsafe { *m.as_ptr().add(k) }).collect(), flat, "as_ptr");
    chkf!((0..M * N).map(|k| unsafe { *m.as_mut_ptr().add(k) }).collect(), flat, "as_mut_ptr");
    chkf!(m.iter().copied().collect(), flat, "iter");
    chkf!(m.iter_mut().map(|x| *x).collect(), flat, "iter_mut");
    chkf!(m.into_iter().collect(), flat, "into_iter");
    chkf!((&m).into_iter().copied().collect(), flat, "&into_iter");
    chkf!((&mut m).into_iter().map(|x| *x).collect(), flat, "&mut into_iter");
    let k = c.s.idx(M * N + 2);
    chkf!(m.into_iter().skip(k).collect(), flat[k.min(M * N)..], "into_iter().skip");
    chkf!(m.iter().take(k).copied().collect(), flat[..k.min(M * N)], "iter().take");
    // an exhausted iterator stays exhausted, and its size hint never excludes what it yields
    let mut it = m.into_iter();
    let mut left = M * N;
    loop {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size_hint {:?} with {} left", (lo, hi), left);
        if it.next().is_none() {
            break;
        }
        left -= 1;
    }
    ensure!(left == 0 && it.next().is_none(), "iterator restarted");
    chk!(rd(&m), a, "value after reading");
    Ok(())
}

fn fill<T: Elem, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let x = T::any(&mut c.s);
    c.show(|| format!("fill {:?}", x));
    c.nontrivial(M * N > 0);
    chk!(rd(&Matrix::<T, M, N>::fill(x)), [[x; N]; M], "fill");
    chk!(rd(&Matrix::<T, M, N>::fill_ref(&x)), [[x; N]; M], "fill_ref");
    let ix = Matrix::<(usize, usize), M, N>::indices();
    for i in 0..M {
        for j in 0..N {
            ensure!(ix[(i, j)] == (i, j), "indices()[({}, {})] = {:?}", i, j, ix[(i, j)]);
        }
    }
    Ok(())
}
fn default<T: Elem + Default, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    c.nontrivial(M * N > 0);
    chk!(rd(&Matrix::<T, M, N>::default()), [[T::default(); N]; M], "default");
    chk!(rd(&Matrix::<T, M, N>::new()), [[T::default(); N]; M], "new");
    Ok(())
}

fn write<T: Elem, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let mut a: Rows<T, M, N> = std::array::from_fn(|i| std::array::from_fn(|j| T::tag(i * N + j)));
    let mut m = Matrix::from(a);
    let n = 1 + c.s.idx(14);
    let mut log = Vec::new();
    for _ in 0..n {
        if M * N == 0 {
            break;
        }
        let (i, j) = (c.s.idx(M), c.s.idx(N));
        let x = T::any(&mut c.s);
        let op = c.s.below(16);
        log.push((op, i, j, x));
        if op < 13 {
            a[i][j] = x;
        }
        match op {
            0 => m[(i, j)] = x,
            1 => m.row_mut(i)[j] = x,
            2 => *m.iter_mut().nth(i * N + j).unwrap() = x,
            3 => *(&mut m).into_iter().nth(i * N + j).unwrap() = x,
            4 => m.as_mut_array_of_arrays()[i][j] = x,
            5 => m.as_mut_array_of_vectors()[i][j] = x,
            6 => m.as_mut_vector_of_vectors()[i][j] = x,
            7 => AsMut::<Vector<Vector<T, N>, M>>::as_mut(&mut m)[i][j] = x,
            8 => <&mut Vector<Vector<T, N>, M>>::from(&mut m)[i][j] = x,
            9 => <&mut Rows<T, M, N>>::from(&mut m)[i][j] = x,
            10 => unsafe { *m.as_mut_ptr().add(i * N + j) = x },
            11 => unsafe { *m.get_unchecked_mut(i, j) = x },
            12 => {
                let mut b: Rows<T, M, N> = m.into();
                b[i][j] = x;
                m = b.into();
            }
            13 => {
                let r: [T; N] = gen::arr(&mut c.s);
                a[i] = r;
                *m.row_mut(i) = Vector::from(r);
            }
            14 => {
                let k = c.s.idx(M);
                a.swap(i, k);
                m.as_mut_array_of_vectors().swap(i, k);
            }
            _ => {
                for (k, y) in m.iter_mut().enumerate() {
                    if k % N == j {
                        *y = x;
                    }
                }
                for r in a.iter_mut() {
                    r[j] = x;
                }
            }
        }
        chk!(rd(&m), a, format!("after write {:?}", log.last()));
    }
    c.nontrivial(M * N >= 2 && n >= 2);
    c.show(|| format!("{:?}", log));
    Ok(())
}

fn bounds<T: Elem, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let pick = |s: &mut Src, d: usize| match s.below(4) {
        0 => d,
        1 => s.idx(2 * d + 3),
        2 if s.chance(1, 12) => d + 256 * (1 + s.idx(3)),
        2 if s.chance(1, 60) => d + 65536,
        2 => (d as i64 + s.zigzag(2)).max(0) as usize,
        _ => (d as i64 + s.zigzag(N as u64 + 1)).max(0) as usize,
    };
    // slices
    let len = pick(&mut c.s, M * N);
    let a: Vec<T> = (0..len).map(T::tag).collect();
    c.nontrivial(len != M * N);
    match Matrix::<T, M, N>::try_from(&a[..]) {
        Ok(m) => {
            ensure!(len == M * N, "slice of length {} accepted for {}x{}", len, M, N);
            chkf!(m.into_iter().collect(), a, "try_from");
        }
        Err(()) => ensure!(len != M * N, "slice of length {} rejected for {}x{}", len, M, N),
    }
    let rl = pick(&mut c.s, M);
    let r: Vec<Vector<T, N>> = (0..rl).map(|i| Vector::from(std::array::from_fn(|j| T::tag(i * N + j)))).collect();
    match Matrix::<T, M, N>::try_from(&r[..]) {
        Ok(m) => {
            ensure!(rl == M, "{} rows accepted for {}x{}", rl, M, N);
            let w: Rows<T, M, N> = std::array::from_fn(|i| r[i].into_array());
            chk!(rd(&m), w, "try_from rows");
        }
        Err(()) => ensure!(rl != M, "{} rows rejected for {}x{}", rl, M, N),
    }
    // index out of range in either coordinate
    let out = |s: &mut Src, d: usize, o: usize| match s.below(7) {
        6 => s.idx(d + 1).wrapping_add(1usize << s.below(64)),
        0 => d,
        1 => d + 1 + s.idx(40),
        2 => usize::MAX - s.idx(2),
        3 => o,
        _ => s.idx(d + 1),
    };
    let (i, j) = (out(&mut c.s, M, N), out(&mut c.s, N, M * N));
    c.show(|| format!("flat slice {}, rows {}, index ({}, {})", len, rl, i, j));
    let want = i < M && j < N;
    c.nontrivial(!want);
    let mut m = Matrix::<T, M, N>::from(std::array::from_fn(|i| std::array::from_fn(|j| T::tag(i * N + j))));
    let ok = |r: bool| if r { "did not panic" } else { "panicked" };
    let r = guard(|| {
        let _ = m[(i, j)];
    })
    .is_ok();
    ensure!(r == want, "index ({}, {}) of {}x{} {}", i, j, M, N, ok(r));
    let r = guard(|| m[(i, j)] = T::tag(1)).is_ok();
    ensure!(r == want, "index_mut ({}, {}) of {}x{} {}", i, j, M, N, ok(r));
    let r = guard(|| {
        let _ = m.row(i);
    })
    .is_ok();
    ensure!(r == (i < M), "row({}) of {}x{} {}", i, M, N, ok(r));
    let r = guard(|| {
        let _ = m.row_ref(i);
    })
    .is_ok();
    ensure!(r == (i < M), "row_ref({}) of {}x{} {}", i, M, N, ok(r));
    let r = guard(|| {
        let _ = m.row_mut(i);
    })
    .is_ok();
    ensure!(r == (i < M), "row_mut({}) of {}x{} {}", i, M, N, ok(r));
    if M > 0 {
        let r = guard(|| {
            let _ = m.col(j);
        })
        .is_ok();
        ensure!(r == (j < N), "col({}) of {}x{} {}", j, M, N, ok(r));
    }
    Ok(())
}

fn owned<T: Own, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    track::reset();
    let vals: Vec<i64> = (0..M * N).map(|_| c.s.zigzag(50)).collect();
    c.show(|| format!("{:?}", vals));
    c.nontrivial(M * N >= 2);
    let want: Vec<i64> = vals.iter().map(|x| T::obs(*x)).collect();
    let mk = || -> Matrix<T, M, N> { Matrix::from(std::array::from_fn::<_, M, _>(|i| std::array::from_fn::<_, N, _>(|j| T::make(vals[i * N + j])))) };
    let rdo = |m: &Matrix<T, M, N>| -> Vec<i64> { (0..M * N).map(|k| m[(k / N, k % N)].val()).collect() };
    ensure!(rdo(&mk()) == want, "From<[[T;N];M]>: {:?}", rdo(&mk()));
    let mut k = 0;
    let m = Matrix::<T, M, N>::init(|| {
        k += 1;
        T::make(vals[k - 1])
    });
    ensure!(rdo(&m) == want, "init: {:?}", rdo(&m));
    let m = Matrix::<T, M, N>::from_vector_of_vectors(m.into_vector_of_vectors());
    ensure!(rdo(&m) == want, "into/from_vector_of_vectors");
    let m = Matrix::<T, M, N>::from_array_of_vectors(m.into_array_of_vectors());
    ensure!(rdo(&m) == want, "into/from_array_of_vectors");
    let m = Matrix::<T, M, N>::from_array_of_arrays(m.into_array_of_arrays());
    ensure!(rdo(&m) == want, "into/from_array_of_arrays");
    ensure!(m.iter().map(|x| x.val()).collect::<Vec<_>>() == want, "iter");
    ensure!(m.into_iter().map(|x| x.val()).collect::<Vec<_>>() == want, "into_iter");
    let m = Matrix::<T, M, N>::try_from_iter(vals.iter().map(|x| T::make(*x))).ok_or_else(|| Fail::new("None"))?;
    ensure!(rdo(&m) == want, "try_from_iter");
    let mut m = Matrix::<T, M, N>::try_from_iter_of_vectors(m.into_vector_of_vectors().into_iter()).ok_or_else(|| Fail::new("None"))?;
    ensure!(rdo(&m) == want, "try_from_iter_of_vectors");
    for (k, x) in m.iter_mut().enumerate() {
        x.set(1000 + k as i64);
    }
    ensure!(rdo(&m) == (0..M * N).map(|k| T::obs(1000 + k as i64)).collect::<Vec<_>>(), "iter_mut: {:?}", rdo(&m));
    drop(m);
    ensure!(track::errs().is_empty(), "{:?}", track::errs());
    ensure!(T::live() == 0, "{} elements leaked", T::live());
    Ok(())
}

/// The iterators used through all kinds of methods.
fn methods<const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let a: Rows<i32, M, N> = std::array::from_fn(|i| std::array::from_fn(|j| (i * N + j) as i32));
    c.nontrivial(M * N > 1);
    let want: Vec<i32> = (0..(M * N) as i32).collect();
    let mut m = Matrix::from(a);
    history(&mut c.s, "iter", m.iter().copied(), &want)?;
    let r: Vec<&i32> = want.iter().collect();
    history(&mut c.s, "&into_iter", (&m).into_iter(), &r)?;
    history(&mut c.s, "iter_mut", m.iter_mut().map(|x| *x), &want)?;
    history(&mut c.s, "&mut into_iter", (&mut m).into_iter().map(|x| *x), &want)?;
    history(&mut c.s, "into_iter", m.into_iter(), &want)?;
    let k = c.s.idx(M * N + 1);
    let mut it = m.iter_mut();
    if k > 0 {
        it.nth(k - 1);
    }
    it.for_each(|x| *x += 1000);
    let w: Vec<i32> = want.iter().map(|x| if (*x as usize) < k { *x } else { *x + 1000 }).collect();
    ensure!(m.into_iter().collect::<Vec<_>>() == w, "after adding to all from item {} on: {:?}", k, m);
    Ok(())
}

macro_rules! mt {
    ($p:ident; $($m:literal x $n:literal),*) => {$(
        $p.sub(format!("iterator methods {}x{}", $m, $n), 400, methods::<$m, $n>);
    )*};
}
macro_rules! md {
    ($p:ident, $t:ty, $k:expr; $($m:literal x $n:literal),*) => {$(
        $p.sub(format!("read {} {}x{}", <$t as Elem>::NAME, $m, $n), 300 * $k, read::<$t, $m, $n>);
        $p.sub(format!("write {} {}x{}", <$t as Elem>::NAME, $m, $n), 200 * $k, write::<$t, $m, $n>);
        $p.sub(format!("bounds {} {}x{}", <$t as Elem>::NAME, $m, $n), 300 * $k, bounds::<$t, $m, $n>);
        $p.sub(format!("fill {} {}x{}", <$t as Elem>::NAME, $m, $n), 30 * $k, fill::<$t, $m, $n>);
    )*};
}
macro_rules! od {
    ($p:ident, $t:ty; $($m:literal x $n:literal),*) => {$(
        $p.sub(format!("owned {} {}x{}", <$t as Own>::NAME, $m, $n), 200, owned::<$t, $m, $n>);
    )*};
}
fn main() {
    let mut p = Prop::new("C02", "at least two elements differ (reads), at least two writes, or a wrong length / out-of-range index");
    md!(p, i32, 2; 1 x 1, 1 x 2, 2 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 1 x 4, 4 x 1, 4 x 4, 3 x 4, 4 x 3, 2 x 4, 4 x 2, 3 x 5, 5 x 3, 2 x 7, 7 x 4, 5 x 5, 6 x 6, 8 x 8, 1 x 9, 9 x 2, 16 x 3, 2 x 17, 0 x 3, 3 x 0, 0 x 0);
    md!(p, f64, 1; 2 x 3, 4 x 2, 3 x 3, 5 x 6);
    md!(p, u8, 1; 2 x 2, 3 x 4, 7 x 3);
    md!(p, bool, 1; 2 x 3, 3 x 2);
    md!(p, (u8, u32), 1; 2 x 3, 4 x 2);
    md!(p, (), 1; 2 x 3);
    md!(p, Al32, 1; 3 x 2);
    md!(p, Big, 1; 2 x 3, 4 x 4, 5 x 7);
    md!(p, [u8; 3], 1; 3 x 5);
    mt!(p; 1 x 1, 1 x 4, 4 x 1, 2 x 2, 2 x 3, 3 x 2, 4 x 4, 5 x 3, 2 x 8, 9 x 2, 0 x 2, 2 x 0);
    p.sub("default i32 3x2", 1, default::<i32, 3, 2>);
    p.sub("default f64 4x4", 1, default::<f64, 4, 4>);
    p.sub("default bool 1x7", 1, default::<bool, 1, 7>);
    od!(p, Tr; 1 x 1, 2 x 3, 3 x 2, 4 x 4, 5 x 3, 0 x 2, 2 x 0, 8 x 3);
    od!(p, Heap; 2 x 3, 3 x 3);
    od!(p, Wide; 2 x 3, 3 x 2);
    od!(p, Bulk; 2 x 3, 4 x 4, 7 x 5);
    od!(p, Zs; 2 x 3, 4 x 1);
    let table = vh::alias_table![vecmat::matrix::Matrix2x2<u8> => Matrix<u8, 2, 2>, vecmat::matrix::Matrix2x3<u8> => Matrix<u8, 2, 3>, vecmat::matrix::Matrix2x4<u8> => Matrix<u8, 2, 4>, vecmat::matrix::Matrix3x2<u8> => Matrix<u8, 3, 2>, vecmat::matrix::Matrix3x3<u8> => Matrix<u8, 3, 3>, vecmat::matrix::Matrix3x4<u8> => Matrix<u8, 3, 4>, vecmat::matrix::Matrix4x2<u8> => Matrix<u8, 4, 2>, vecmat::matrix::Matrix4x3<u8> => Matrix<u8, 4, 3>, vecmat::matrix::Matrix4x4<u8> => Matrix<u8, 4, 4>];
    p.sub("aliases", 40, move |c: &mut Cx| vh::aliases(c, &table));
    macro_rules! large {
        ($($m:literal $n:literal;)*) => {$(
            p.sub(concat!("read i32 ", $m, "x", $n), 6, read::<i32, $m, $n>);
            p.sub(concat!("write i32 ", $m, "x", $n), 6, write::<i32, $m, $n>);
            p.sub(concat!("bounds i32 ", $m, "x", $n), 6, bounds::<i32, $m, $n>);
            p.sub(concat!("fill i32 ", $m, "x", $n), 6, fill::<i32, $m, $n>);
            p.sub(concat!("iterator methods ", $m, "x", $n), 6, methods::<$m, $n>);
        )*};
    }
    large!(16 17; 20 30; 300 2; 2 300; 1 257; 257 1;);
    p.main();
}
