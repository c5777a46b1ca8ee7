//! C07: map, zip, fold, scan and friends act like their list counterparts.
use std::cell::{Cell, RefCell};
use vecmat::{Matrix, Vector};
use vh::{elems::*, engine::*, ensure, ensure_eq};

fn vals(s: &mut Src, n: usize) -> Vec<i64> {
    (0..n).map(|_| i64::any(s)).collect()
}
/// Order-sensitive state update.
fn h(s: i64, x: i64) -> i64 {
    s.wrapping_mul(31).wrapping_add(x ^ (s >> 7)).wrapping_add(1)
}
fn scan_list(s0: i64, a: &[i64]) -> (i64, Vec<i64>) {
    let mut s = s0;
    let v = a
        .iter()
        .map(|x| {
            let o = s ^ *x;
            s = h(s, *x);
            o
        })
        .collect();
    (s, v)
}

fn vector<const N: usize>(c: &mut Cx) -> Res {
    let a = vals(&mut c.s, N);
    let b = vals(&mut c.s, N);
    let s0 = c.s.zigzag(100);
    c.show(|| format!("{:?} {:?} {}", a, b, s0));
    c.nontrivial(N >= 2 && a.windows(2).any(|w| w[0] != w[1]));
    let v = || Vector::<i64, N>::from(std::array::from_fn(|i| a[i]));
    let w = || Vector::<i64, N>::from(std::array::from_fn(|i| b[i]));
    let seen = RefCell::new(Vec::new());
    // map, with a closure whose result depends on what it has seen
    let mut s = s0;
    let r = v().map(|x| {
        seen.borrow_mut().push(x);
        s = h(s, x);
        (s, x)
    });
    ensure_eq!(seen.take(), a, "map: elements the closure saw");
    let mut t = s0;
    let want: Vec<(i64, i64)> = a
        .iter()
        .map(|x| {
            t = h(t, *x);
            (t, *x)
        })
        .collect();
    ensure_eq!(r.into_array().to_vec(), want, "map");
    // to another type and size
    let r: Vector<String, N> = v().map(|x| x.to_string());
    ensure_eq!(r.into_array().to_vec(), a.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "map to String");
    v().for_each(|x| seen.borrow_mut().push(x));
    ensure_eq!(seen.take(), a, "for_each");
    // zip / unzip
    let z = v().zip(w());
    ensure_eq!(z.into_array().to_vec(), a.iter().copied().zip(b.iter().copied()).collect::<Vec<_>>(), "zip");
    let (x, y) = z.unzip();
    ensure_eq!(x.into_array().to_vec(), a, "unzip first");
    ensure_eq!(y.into_array().to_vec(), b, "unzip second");
    let z = v().map(|x| x as u8).zip(w().map(|x| (x, x as u16)));
    ensure_eq!(z.into_array().to_vec(), a.iter().map(|x| *x as u8).zip(b.iter().map(|x| (*x, *x as u16))).collect::<Vec<_>>(), "zip of different types");
    let (x, y) = z.unzip();
    ensure_eq!(x.into_array().to_vec(), a.iter().map(|x| *x as u8).collect::<Vec<_>>(), "unzip first");
    ensure_eq!(y.into_array().to_vec(), b.iter().map(|x| (*x, *x as u16)).collect::<Vec<_>>(), "unzip second");
    ensure_eq!(v().enumerate().into_array().to_vec(), a.iter().copied().enumerate().collect::<Vec<_>>(), "enumerate");
    // folds
    let r = v().fold((s0, Vec::new()), |(s, mut l), x| {
        l.push(x);
        (h(s, x), l)
    });
    ensure_eq!(r, (a.iter().fold(s0, |s, x| h(s, *x)), a.clone()), "fold");
    let n = Cell::new(0);
    let mut k = 0i64;
    let mut f = v();
    if N > 0 {
        let r = f.fold_first(|s, x| {
            n.set(n.get() + 1);
            k += 1;
            h(s, x).wrapping_add(k)
        });
        let mut k = 0;
        let want = a[1..].iter().fold(a[0], |s, x| {
            k += 1;
            h(s, *x).wrapping_add(k)
        });
        ensure_eq!(r, want, "fold_first");
        ensure_eq!(n.get(), N - 1, "fold_first: calls of the closure");
    }
    f = v();
    // scan
    let calls = Cell::new(0);
    let r = f.scan(s0, |s, x| {
        calls.set(calls.get() + 1);
        let o = *s ^ x;
        *s = h(*s, x);
        o
    });
    ensure_eq!(r.into_array().to_vec(), scan_list(s0, &a).1, "scan");
    ensure_eq!(calls.get(), N, "scan: calls of the closure");
    let mut st = s0;
    let r = v().scan(&mut st, |s, x| {
        let o = **s ^ x;
        **s = h(**s, x);
        o
    });
    ensure_eq!(r.into_array().to_vec(), scan_list(s0, &a).1, "scan over borrowed state");
    ensure_eq!(st, scan_list(s0, &a).0, "state after scan");
    // init
    let mut s = s0;
    let mut calls = 0;
    let r = Vector::<i64, N>::init(|| {
        calls += 1;
        s = h(s, 5);
        s
    });
    let mut t = s0;
    let want: Vec<i64> = (0..N)
        .map(|_| {
            t = h(t, 5);
            t
        })
        .collect();
    ensure_eq!(r.into_array().to_vec(), want, "init");
    ensure_eq!(calls, N, "init: calls of the closure");
    Ok(())
}

fn matrix<const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let a = vals(&mut c.s, M * N);
    let b = vals(&mut c.s, M * N);
    let s0 = c.s.zigzag(100);
    c.show(|| format!("{:?} {:?} {}", a, b, s0));
    c.nontrivial(M * N >= 2 && a.windows(2).any(|w| w[0] != w[1]));
    let mk = |a: &[i64]| Matrix::<i64, M, N>::from(std::array::from_fn::<_, M, _>(|i| std::array::from_fn::<_, N, _>(|j| a[i * N + j])));
    let v = || mk(&a);
    let w = || mk(&b);
    fn fl<T: Clone, const M: usize, const N: usize>(m: &Matrix<T, M, N>) -> Vec<T> {
        let mut v = Vec::new();
        for i in 0..M {
            for j in 0..N {
                v.push(m[(i, j)].clone());
            }
        }
        v
    }
    let seen = RefCell::new(Vec::new());
    let mut s = s0;
    let r = v().map(|x| {
        seen.borrow_mut().push(x);
        s = h(s, x);
        (s, x)
    });
    ensure_eq!(seen.take(), a, "map: elements the closure saw");
    let mut t = s0;
    let want: Vec<(i64, i64)> = a
        .iter()
        .map(|x| {
            t = h(t, *x);
            (t, *x)
        })
        .collect();
    ensure_eq!(fl(&r), want, "map");
    let r: Matrix<String, M, N> = v().map(|x| x.to_string());
    ensure_eq!(fl(&r), a.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "map to String");
    v().for_each(|x| seen.borrow_mut().push(x));
    ensure_eq!(seen.take(), a, "for_each");
    let z = v().zip(w());
    ensure_eq!(fl(&z), a.iter().copied().zip(b.iter().copied()).collect::<Vec<_>>(), "zip");
    let (x, y) = z.unzip();
    ensure_eq!(fl(&x), a, "unzip first");
    ensure_eq!(fl(&y), b, "unzip second");
    let z = v().map(|x| x as u8).zip(w().map(|x| (x, x as u16)));
    ensure_eq!(fl(&z), a.iter().map(|x| *x as u8).zip(b.iter().map(|x| (*x, *x as u16))).collect::<Vec<_>>(), "zip of different types");
    let (x, y) = z.unzip();
    ensure_eq!(fl(&x), a.iter().map(|x| *x as u8).collect::<Vec<_>>(), "unzip first");
    ensure_eq!(fl(&y), b.iter().map(|x| (*x, *x as u16)).collect::<Vec<_>>(), "unzip second");
    let calls = Cell::new(0i64);
    let r = v().fold((s0, Vec::new()), |(s, mut l), x| {
        l.push(x);
        calls.set(calls.get() + 1);
        (h(s, x).wrapping_add(calls.get()), l)
    });
    let mut k = 0;
    let want = a.iter().fold(s0, |s, x| {
        k += 1;
        h(s, *x).wrapping_add(k)
    });
    ensure_eq!(r, (want, a.clone()), "fold");
    if M * N > 0 {
        let n = Cell::new(0);
        let mut k = 0i64;
        let r = v().fold_first(|s, x| {
            n.set(n.get() + 1);
            k += 1;
            h(s, x).wrapping_add(k)
        });
        let mut k = 0;
        let want = a[1..].iter().fold(a[0], |s, x| {
            k += 1;
            h(s, *x).wrapping_add(k)
        });
        ensure_eq!(r, want, "fold_first");
        ensure_eq!(n.get(), M * N - 1, "fold_first: calls of the closure");
    }
    let calls = Cell::new(0);
    let r = v().scan(s0, |s, x| {
        calls.set(calls.get() + 1);
        let o = *s ^ x;
        *s = h(*s, x);
        o
    });
    ensure_eq!(fl(&r), scan_list(s0, &a).1, "scan");
    ensure_eq!(calls.get(), M * N, "scan: calls of the closure");
    let mut st = s0;
    let r = v().scan(&mut st, |s, x| {
        let o = **s ^ x;
        **s = h(**s, x);
        o
    });
    ensure_eq!(fl(&r), scan_list(s0, &a).1, "scan over borrowed state");
    ensure_eq!(st, scan_list(s0, &a).0, "state after scan");
    let mut s = s0;
    let mut calls = 0;
    let r = Matrix::<i64, M, N>::init(|| {
        calls += 1;
        s = h(s, 5);
        s
    });
    let mut t = s0;
    let want: Vec<i64> = (0..M * N)
        .map(|_| {
            t = h(t, 5);
            t
        })
        .collect();
    ensure_eq!(fl(&r), want, "init");
    ensure_eq!(calls, M * N, "init: calls of the closure");
    Ok(())
}

/// Elements that cannot be copied: each is handed to the closure itself, in order.
fn owned<const M: usize, const N: usize>(c: &mut Cx) -> Res {
    track::reset();
    let a: Vec<i64> = (0..M * N).map(|_| c.s.zigzag(99)).collect();
    c.show(|| format!("{:?}", a));
    c.nontrivial(M * N >= 2);
    {
        let mk = || Matrix::<Tr, M, N>::from(std::array::from_fn::<_, M, _>(|i| std::array::from_fn::<_, N, _>(|j| Tr::new(a[i * N + j]))));
        let vk = || Vector::<Tr, N>::from(std::array::from_fn(|i| Tr::new(a[i])));
        let l = mk().fold(Vec::new(), |mut l, x| {
            l.push(x.get());
            l
        });
        ensure_eq!(l, a, "matrix fold");
        let mut l = Vec::new();
        mk().for_each(|x| l.push(x.get()));
        ensure_eq!(l, a, "matrix for_each");
        let (x, y) = mk().map(|x| (x.get(), x)).unzip();
        ensure!(x.into_iter().eq(a.iter().copied()) && y.into_iter().map(|x| x.get()).eq(a.iter().copied()), "matrix map/unzip");
        if M > 0 {
            let row = &a[..N];
            let l = vk().fold(Vec::new(), |mut l, x| {
                l.push(x.get());
                l
            });
            ensure_eq!(l, row, "vector fold");
            let e: Vec<(usize, i64)> = vk().enumerate().into_iter().map(|(i, x)| (i, x.get())).collect();
            ensure_eq!(e, row.iter().copied().enumerate().collect::<Vec<_>>(), "enumerate");
            let s: Vec<i64> = vk().scan(0i64, |s, x| { *s = h(*s, x.get()); *s }).into_array().to_vec();
            let mut t = 0;
            ensure_eq!(s, row.iter().map(|x| { t = h(t, *x); t }).collect::<Vec<_>>(), "vector scan");
        }
    }
    ensure!(track::errs().is_empty(), "{:?}", track::errs());
    Ok(())
}

/// Positions, whatever the size: counters must not be narrow.
fn positions<const N: usize>(c: &mut Cx) -> Res {
    let k = c.s.bits();
    c.show(|| format!("{} elements, key {:x}", N, k));
    c.nontrivial(N >= 2);
    let f = |i: usize| mix(k, i as u64);
    let v = Vector::<usize, N>::indices();
    let ok = |what: &str, it: &mut dyn Iterator<Item = bool>| -> Res {
        for i in 0..N {
            ensure!(it.next() == Some(true), "{}: element {} of {}", what, i, N);
        }
        ensure!(it.next().is_none(), "{}: more than {} elements", what, N);
        Ok(())
    };
    ok("indices", &mut v.iter().enumerate().map(|(i, x)| *x == i))?;
    let w = v.map(f);
    ok("map", &mut w.iter().enumerate().map(|(i, x)| *x == f(i)))?;
    ok("enumerate", &mut w.enumerate().into_iter().enumerate().map(|(i, x)| x == (i, f(i))))?;
    let z = w.zip(v);
    ok("zip", &mut z.iter().enumerate().map(|(i, x)| *x == (f(i), i)))?;
    let (x, y) = z.unzip();
    ok("unzip first", &mut x.iter().enumerate().map(|(i, x)| *x == f(i)))?;
    ok("unzip second", &mut y.iter().enumerate().map(|(i, x)| *x == i))?;
    let n = w.fold(0u64, mix);
    ensure_eq!(n, (0..N).map(f).fold(0, mix), "fold");
    ensure_eq!(w.fold_first(mix), (1..N).map(f).fold(f(0), mix), "fold_first");
    let mut s = k;
    let want: Vec<u64> = (0..N).map(|i| { s = mix(s, f(i)); s }).collect();
    ok("scan", &mut w.scan(k, |s, x| { *s = mix(*s, x); *s }).iter().zip(&want).map(|(a, b)| a == b))?;
    let mut n = 0;
    ok("init", &mut Vector::<u32, N>::init(|| { n += 1; n }).iter().enumerate().map(|(i, x)| *x as usize == i + 1))?;
    let mut n = 0;
    let mut good = true;
    w.for_each(|x| { good &= x == f(n); n += 1; });
    ensure!(good && n == N, "for_each");
    Ok(())
}
fn cells<const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let k = c.s.bits();
    c.show(|| format!("{}x{} elements, key {:x}", M, N, k));
    c.nontrivial(M * N >= 2);
    let f = |i: usize| mix(k, i as u64) as u32;
    let h = |a: u32, b: u32| mix(a as u64, b as u64) as u32;
    let at = |r: usize| (r / N, r % N);
    macro_rules! ok {
        ($what:expr, $m:expr, $want:expr) => {{
            let m = $m;
            for r in 0..M * N {
                ensure!(m[at(r)] == $want(r), "{}: element {:?} of {}x{}", $what, at(r), M, N);
            }
        }};
    }
    let m = Matrix::<(usize, usize), M, N>::indices();
    ok!("indices", &m, at);
    let w = m.map(|(i, j)| f(i * N + j));
    ok!("map", &w, f);
    let z = w.zip(w.map(|x| !x as u8));
    ok!("zip", &z, |r| (f(r), !f(r) as u8));
    let (x, y) = z.unzip();
    ok!("unzip first", &x, f);
    ok!("unzip second", &y, |r| !f(r) as u8);
    ensure_eq!(w.fold(7, h), (0..M * N).map(f).fold(7, h), "fold");
    ensure_eq!(w.fold_first(h), (1..M * N).map(f).fold(f(0), h), "fold_first");
    let mut s = 3;
    let want: Vec<u32> = (0..M * N).map(|i| { s = h(s, f(i)); s }).collect();
    ok!("scan", w.scan(3, |s, x| { *s = h(*s, x); *s }), |r: usize| want[r]);
    let mut n = 0;
    ok!("init", Matrix::<u32, M, N>::init(|| { n += 1; n }), |r| r as u32 + 1);
    let mut n = 0;
    let mut good = true;
    w.for_each(|x| { good &= x == f(n); n += 1; });
    ensure!(good && n == M * N, "for_each");
    Ok(())
}

macro_rules! vd {
    ($p:ident; $($n:literal)*) => {$( $p.sub(format!("vector {}", $n), 800, vector::<$n>); )*};
}
macro_rules! md {
    ($p:ident; $($m:literal x $n:literal),*) => {$(
        $p.sub(format!("matrix {}x{}", $m, $n), 500, matrix::<$m, $n>);
        $p.sub(format!("owned {}x{}", $m, $n), 200, owned::<$m, $n>);
    )*};
}
fn main() {
    let mut p = Prop::new("C07", "at least two elements that are not all equal");
    vd!(p; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 31 32 33 64);
    md!(p; 1 x 1, 1 x 2, 2 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 4 x 4, 3 x 5, 5 x 3, 2 x 7, 8 x 3, 1 x 9, 9 x 2, 0 x 2, 2 x 0, 6 x 6, 3 x 17);
    p.sub("vector 300", 10, vector::<300>);
    p.sub("matrix 40x37", 4, matrix::<40, 37>);
    p.sub("matrix 300x3", 4, matrix::<300, 3>);
    p.sub("matrix 3x300", 4, matrix::<3, 300>);
    p.sub("positions 128", 10, positions::<128>);
    p.sub("positions 256", 10, positions::<256>);
    p.sub("positions 257", 10, positions::<257>);
    p.sub("positions 1000", 4, positions::<1000>);
    p.sub("positions 70000", 1, positions::<70000>);
    p.sub("cells 16x17", 4, cells::<16, 17>);
    p.sub("cells 37x40", 2, cells::<37, 40>);
    p.sub("cells 129x130", 2, cells::<129, 130>);
    p.sub("cells 400x7", 2, cells::<400, 7>);
    p.sub("cells 7x400", 2, cells::<7, 400>);
    p.sub("cells 257x258", 1, cells::<257, 258>);
    p.sub("cells 22000x3", 1, cells::<22000, 3>);
    p.sub("cells 3x22000", 1, cells::<3, 22000>);
    p.main();
}
