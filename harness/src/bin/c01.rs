//! C01: vector conversions and accessors.
use std::convert::TryFrom;
use vecmat::{vector::*, Vector};
use vh::{elems::*, engine::*, ensure, gen, iters::history};

fn same<T: Elem>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
}
macro_rules! chk {
    ($got:expr, $want:expr, $what:expr) => {
        ensure!(same(&$got[..], &$want[..]), "{}: got {:?}, expected {:?}", $what, &$got[..], &$want[..])
    };
}

fn nt<T: Elem>(a: &[T]) -> bool {
    a.len() >= 2 && a.windows(2).any(|w| !w[0].same(&w[1]))
}

fn read<T: Elem, const N: usize>(c: &mut Cx) -> Res {
    let a: [T; N] = gen::arr(&mut c.s);
    c.show(|| format!("{:?}", a));
    c.nontrivial(nt(&a));
    let mut v = Vector::from_array(a);
    // constructions
    let built: [(&str, Vector<T, N>); 8] = [
        ("From<[T;N]>", Vector::from(a)),
        ("From<&[T;N]>", Vector::from(&a)),
        ("try_from(slice)", Vector::try_from(&a[..]).map_err(|_| Fail::new("try_from of a slice of the right length failed"))?),
        ("try_from_iter", Vector::try_from_iter(a.iter().copied()).ok_or_else(|| Fail::new("try_from_iter of N items gave None"))?),
        ("init", {
            let mut i = 0;
            let v = Vector::init(|| {
                i += 1;
                a[i - 1]
            });
            ensure!(i == N, "init called its closure {} times for {} elements", i, N);
            v
        }),
        ("copy", v),
        ("clone", #[allow(clippy::clone_on_copy)] v.clone()),
        ("into_iter round trip", Vector::try_from_iter(v.into_iter()).unwrap()),
    ];
    for (n, b) in built.iter() {
        chk!(b.into_array(), a, n);
    }
    // reads
    chk!(v.into_array(), a, "into_array");
    chk!(v.as_array(), a, "as_array");
    chk!(v.as_mut_array(), a, "as_mut_array");
    chk!(<[T; N]>::from(v), a, "Into<[T;N]>");
    chk!(<&[T; N]>::from(&v), a, "Into<&[T;N]>");
    chk!(<&mut [T; N]>::from(&mut v), a, "Into<&mut [T;N]>");
    chk!(AsRef::<[T; N]>::as_ref(&v), a, "as_ref");
    chk!(AsMut::<[T; N]>::as_mut(&mut v), a, "as_mut");
    let idx: Vec<T> = (0..N).map(|i| v[i]).collect();
    chk!(idx, a, "index");
    let idx: Vec<T> = (0..N).map(|i| *(&mut v[i])).collect();
    chk!(idx, a, "index_mut");
    let (q, r) = (v.as_ptr(), v.as_mut_ptr() as *const T);
    ensure!(!q.is_null() && !r.is_null() && (q == r || N == 0), "as_ptr is {:?}, as_mut_ptr {:?}", q, r);
    let p: Vec<T> = (0..N).map(|i| unsafe { *v.as_ptr().add(i) }).collect();
    chk!(p, a, "as_ptr");
    let p: Vec<T> = (0..N).map(|i| unsafe { *v.as_mut_ptr().add(i) }).collect();
    chk!(p, a, "as_mut_ptr");
    let p: Vec<T> = (0..N).map(|i| unsafe { *v.get_unchecked(i) }).collect();
    chk!(p, a, "get_unchecked");
    let p: Vec<T> = (0..N).map(|i| unsafe { *v.get_unchecked_mut(i) }).collect();
    chk!(p, a, "get_unchecked_mut");
    chk!(v.iter().copied().collect::<Vec<_>>(), a, "iter");
    chk!(v.iter_mut().map(|x| *x).collect::<Vec<_>>(), a, "iter_mut");
    chk!(v.into_iter().collect::<Vec<_>>(), a, "into_iter");
    chk!((&v).into_iter().copied().collect::<Vec<_>>(), a, "&into_iter");
    chk!((&mut v).into_iter().map(|x| *x).collect::<Vec<_>>(), a, "&mut into_iter");
    // double-ended, exact-size and skipping use of the iterators
    let rev: Vec<T> = a.iter().rev().copied().collect();
    chk!(v.iter().rev().copied().collect::<Vec<_>>(), rev, "iter().rev()");
    chk!(v.iter_mut().rev().map(|x| *x).collect::<Vec<_>>(), rev, "iter_mut().rev()");
    chk!(v.into_iter().rev().collect::<Vec<_>>(), rev, "into_iter().rev()");
    ensure!(v.iter().len() == N && v.into_iter().len() == N, "iterator length");
    let k = c.s.idx(N + 2);
    chk!(v.into_iter().skip(k).collect::<Vec<_>>(), a.iter().skip(k).copied().collect::<Vec<_>>(), "into_iter().skip");
    ensure!(v.into_iter().nth(k).map(|x| x.same(&a[k.min(N.saturating_sub(1))])) == a.get(k).map(|_| true), "into_iter().nth({})", k);
    chk!(v.into_array(), a, "value after reading");
    Ok(())
}

fn fill<T: Elem, const N: usize>(c: &mut Cx) -> Res {
    let x = T::any(&mut c.s);
    c.show(|| format!("fill {:?}", x));
    c.nontrivial(N >= 1);
    chk!(Vector::<T, N>::fill(x).into_array(), [x; N], "fill");
    let i: Vec<usize> = Vector::<usize, N>::indices().into_array().to_vec();
    ensure!(i == (0..N).collect::<Vec<_>>(), "indices: {:?}", i);
    Ok(())
}
fn default<T: Elem + Default, const N: usize>(c: &mut Cx) -> Res {
    c.nontrivial(N >= 1);
    chk!(Vector::<T, N>::default().into_array(), [T::default(); N], "default");
    chk!(Vector::<T, N>::new().into_array(), [T::default(); N], "new");
    Ok(())
}

/// Writes through every mutable route, interleaved, against an array model.
fn write<T: Elem, const N: usize>(c: &mut Cx) -> Res {
    let mut m: [T; N] = std::array::from_fn(T::tag);
    let mut v = Vector::from(m);
    let n = 1 + c.s.idx(12);
    let mut log = Vec::new();
    for _ in 0..n {
        if N == 0 {
            break;
        }
        let i = c.s.idx(N);
        let x = T::any(&mut c.s);
        let op = c.s.below(10);
        log.push((op, i, x));
        m[i] = x;
        match op {
            0 => v[i] = x,
            1 => *v.iter_mut().nth(i).unwrap() = x,
            2 => v.as_mut_array()[i] = x,
            3 => AsMut::<[T; N]>::as_mut(&mut v)[i] = x,
            4 => <&mut [T; N]>::from(&mut v)[i] = x,
            5 => unsafe { *v.as_mut_ptr().add(i) = x },
            6 => unsafe { *v.get_unchecked_mut(i) = x },
            7 => {
                for (j, y) in (&mut v).into_iter().enumerate() {
                    if j == i {
                        *y = x;
                    }
                }
            }
            8 => {
                *(&mut v).into_iter().rev().nth(N - 1 - i).unwrap() = x;
            }
            _ => {
                let mut a: [T; N] = v.into();
                a[i] = x;
                v = a.into();
            }
        }
        chk!(v.as_array(), m, format!("after write {:?}", log.last()));
    }
    c.nontrivial(N >= 2 && n >= 2);
    c.show(|| format!("{:?}", log));
    Ok(())
}

/// Slices of every length are accepted exactly if the length is the dimension; out-of-range panics.
fn bounds<T: Elem, const N: usize>(c: &mut Cx) -> Res {
    let len = match c.s.below(3) {
        0 => N,
        1 => c.s.idx(2 * N + 3),
        2 if c.s.chance(1, 12) => N + 256 * (1 + c.s.idx(3)),
        2 if c.s.chance(1, 60) => N + 65536,
        _ => (N as i64 + c.s.zigzag(2)).max(0) as usize,
    };
    let a: Vec<T> = (0..len).map(T::tag).collect();
    c.show(|| format!("slice of length {} into dimension {}", len, N));
    c.nontrivial(len != N);
    match Vector::<T, N>::try_from(&a[..]) {
        Ok(v) => {
            ensure!(len == N, "slice of length {} accepted for dimension {}", len, N);
            chk!(v.into_array(), a, "try_from");
        }
        Err(()) => ensure!(len != N, "slice of length {} rejected", len),
    }
    let mut v = Vector::<T, N>::from(std::array::from_fn(T::tag));
    let i: usize = match c.s.below(6) {
        5 => c.s.idx(N + 1).wrapping_add(1usize << c.s.below(64)),
        0 => N,
        1 => N + 1 + c.s.idx(70),
        2 => usize::MAX - c.s.idx(3),
        3 => (usize::MAX / std::mem::size_of::<T>().max(2)) + c.s.idx(3),
        _ => c.s.idx(N + 1),
    };
    let r = guard(|| {
        let _ = v[i];
    });
    ensure!(r.is_ok() == (i < N), "index {} of {}: {}", i, N, if r.is_ok() { "did not panic" } else { "panicked" });
    let r = guard(|| {
        v[i] = T::tag(0);
    });
    ensure!(r.is_ok() == (i < N), "index_mut {} of {}: {}", i, N, if r.is_ok() { "did not panic" } else { "panicked" });
    Ok(())
}

/// The iterators used through all kinds of methods.
fn methods<const N: usize>(c: &mut Cx) -> Res {
    let want: Vec<i32> = (0..N as i32).collect();
    c.nontrivial(N > 1);
    let mut v = Vector::<i32, N>::from(std::array::from_fn(|i| i as i32));
    history(&mut c.s, "iter", v.iter().copied(), &want)?;
    let r: Vec<&i32> = want.iter().collect();
    history(&mut c.s, "&into_iter", (&v).into_iter(), &r)?;
    history(&mut c.s, "iter_mut", v.iter_mut().map(|x| *x), &want)?;
    history(&mut c.s, "&mut into_iter", (&mut v).into_iter().map(|x| *x), &want)?;
    history(&mut c.s, "into_iter", v.into_iter(), &want)
}

macro_rules! spec {
    ($name:ident, $n:literal, ($($f:ident $fr:ident $fm:ident $i:literal),*), $al:ident) => {
        fn $name<T: Elem>(c: &mut Cx) -> Res {
            let a: [T; $n] = gen::arr(&mut c.s);
            c.show(|| format!("{:?}", a));
            c.nontrivial(nt(&a));
            let mut v: $al<T> = Vector::from(a);
            $(
                ensure!(v.$f().same(&a[$i]), "{}(): {:?}, expected {:?}", stringify!($f), v.$f(), a[$i]);
                ensure!(v.$fr().same(&a[$i]), "{}()", stringify!($fr));
                ensure!((*v.$fm()).same(&a[$i]), "{}()", stringify!($fm));
                ensure!(std::ptr::eq(v.$fr(), &v[$i]), "{} is not a reference into the vector", stringify!($fr));
                { let p = v.$fm() as *const T; ensure!(p == &v[$i] as *const T, "{} is not a reference into the vector", stringify!($fm)); }
            )*
            #[allow(unused_parens)]
            let t = ($({ let _ = stringify!($f); a[$i] }),*);
            chk!(<Vector<T, $n>>::from_tuple(t).into_array(), a, "from_tuple");
            chk!(<Vector<T, $n>>::from(t).into_array(), a, "From<tuple>");
            let ($($f),*) = v.into_tuple();
            chk!([$($f),*], a, "into_tuple");
            let ($($f),*) = v.into();
            chk!([$($f),*], a, "Into<tuple>");
            // writes
            let mut m = a;
            for _ in 0..4 {
                let i = c.s.idx($n);
                let x = T::any(&mut c.s);
                m[i] = x;
                match i { $( $i => *v.$fm() = x, )* _ => unreachable!() }
                chk!(v.into_array(), m, "after component write");
            }
            Ok(())
        }
    };
}
spec!(spec2, 2, (x x_ref x_mut 0, y y_ref y_mut 1), Vector2);
spec!(spec3, 3, (x x_ref x_mut 0, y y_ref y_mut 1, z z_ref z_mut 2), Vector3);
spec!(spec4, 4, (x x_ref x_mut 0, y y_ref y_mut 1, z z_ref z_mut 2, w w_ref w_mut 3), Vector4);

/// Elements that are neither Copy nor Clone go through the owning routes.
fn owned<T: Own, const N: usize>(c: &mut Cx) -> Res {
    track::reset();
    let vals: Vec<i64> = (0..N).map(|_| c.s.zigzag(50)).collect();
    c.show(|| format!("{:?}", vals));
    c.nontrivial(N >= 2);
    let want: Vec<i64> = vals.iter().map(|x| T::obs(*x)).collect();
    let mk = || -> Vector<T, N> { Vector::from(std::array::from_fn(|i| T::make(vals[i]))) };
    let rd = |v: &Vector<T, N>| v.iter().map(|x| x.val()).collect::<Vec<_>>();
    ensure!(rd(&mk()) == want, "From<[T;N]>: {:?}", rd(&mk()));
    let mut i = 0;
    let v = Vector::<T, N>::init(|| {
        i += 1;
        T::make(vals[i - 1])
    });
    ensure!(rd(&v) == want, "init: {:?}", rd(&v));
    let a: [T; N] = v.into_array();
    ensure!(a.iter().map(|x| x.val()).collect::<Vec<_>>() == want, "into_array");
    let v = Vector::<T, N>::try_from_iter(vals.iter().map(|x| T::make(*x))).ok_or_else(|| Fail::new("None"))?;
    ensure!(rd(&v) == want, "try_from_iter");
    ensure!(v.into_iter().map(|x| x.val()).collect::<Vec<_>>() == want, "into_iter");
    let mut v = mk();
    let mut m = want.clone();
    for _ in 0..4 {
        if N == 0 {
            break;
        }
        let i = c.s.idx(N);
        let x = c.s.zigzag(1000);
        m[i] = T::obs(x);
        match c.s.below(3) {
            0 => v[i] = T::make(x),
            1 => v.iter_mut().nth(i).unwrap().set(x),
            _ => v.as_mut_array()[i].set(x),
        }
        ensure!(rd(&v) == m, "after write: {:?}, expected {:?}", rd(&v), m);
    }
    drop(v);
    drop(a);
    ensure!(track::errs().is_empty(), "{:?}", track::errs());
    Ok(())
}

macro_rules! vd {
    ($p:ident, $t:ty, $k:expr; $($n:literal)*) => {$(
        $p.sub(format!("read {} {}", <$t as Elem>::NAME, $n), 400 * $k, read::<$t, $n>);
        $p.sub(format!("write {} {}", <$t as Elem>::NAME, $n), 200 * $k, write::<$t, $n>);
        $p.sub(format!("bounds {} {}", <$t as Elem>::NAME, $n), 150 * $k, bounds::<$t, $n>);
        $p.sub(format!("fill {} {}", <$t as Elem>::NAME, $n), 40 * $k, fill::<$t, $n>);
    )*};
}
macro_rules! od {
    ($p:ident, $t:ty; $($n:literal)*) => {$(
        $p.sub(format!("owned {} {}", <$t as Own>::NAME, $n), 200, owned::<$t, $n>);
    )*};
}
macro_rules! sd {
    ($p:ident; $($t:ty),*) => {$(
        $p.sub(format!("spec2 {}", <$t as Elem>::NAME), 500, spec2::<$t>);
        $p.sub(format!("spec3 {}", <$t as Elem>::NAME), 500, spec3::<$t>);
        $p.sub(format!("spec4 {}", <$t as Elem>::NAME), 500, spec4::<$t>);
    )*};
}
macro_rules! dd {
    ($p:ident; $($t:ty),*) => {$(
        $p.sub(format!("default {} 0", <$t as Elem>::NAME), 1, default::<$t, 0>);
        $p.sub(format!("default {} 5", <$t as Elem>::NAME), 1, default::<$t, 5>);
        $p.sub(format!("default {} 33", <$t as Elem>::NAME), 1, default::<$t, 33>);
    )*};
}
fn main() {
    let mut p = Prop::new("C01", "at least two elements differ (reads), at least two writes, or a length/index outside the exact dimension");
    vd!(p, i32, 2; 0 1 2 3 4 5 6 7 8 9 12 15 16 17 31 32 33 64 65);
    vd!(p, f64, 2; 1 2 3 4 5 8 16 17);
    vd!(p, u8, 1; 1 2 3 4 7 16);
    vd!(p, u128, 1; 2 3 5);
    vd!(p, bool, 1; 2 4 9);
    vd!(p, (), 1; 0 1 3 16);
    vd!(p, (u8, u32), 1; 2 3 4 5);
    vd!(p, Al32, 1; 1 3 4 6);
    vd!(p, Big, 1; 1 3 4 16);
    vd!(p, [u8; 3], 1; 2 3 4 16);
    sd!(p; i32, f64, f32, u8, u128, bool, (), char, (u8, u32), Al32, Big, [u8; 3]);
    dd!(p; i32, f64, bool, u8, ());
    od!(p, Tr; 0 1 2 3 4 5 8 16 17 33);
    od!(p, Heap; 1 3 4 8);
    od!(p, Wide; 1 3 5);
    od!(p, Bulk; 1 3 4 17);
    od!(p, Zs; 0 1 4);
    macro_rules! mt {
        ($($n:literal)*) => {$(p.sub(format!("iterator methods {}", $n), 300, methods::<$n>);)*};
    }
    mt!(0 1 2 3 4 5 8 17);
    let vectors = vh::alias_table![vecmat::vector::Vector2<u8> => Vector<u8, 2>, vecmat::vector::Vector3<u8> => Vector<u8, 3>, vecmat::vector::Vector4<u8> => Vector<u8, 4>, vecmat::vector::Vector8<u8> => Vector<u8, 8>, vecmat::vector::Vector16<u8> => Vector<u8, 16>];
    p.sub("aliases", 40, move |c: &mut Cx| vh::aliases(c, &vectors));
    macro_rules! large {
        ($($n:literal $k:literal;)*) => {$(
            p.sub(concat!("read i32 ", $n), $k, read::<i32, $n>);
            p.sub(concat!("write i32 ", $n), $k, write::<i32, $n>);
            p.sub(concat!("bounds i32 ", $n), $k, bounds::<i32, $n>);
            p.sub(concat!("fill i32 ", $n), $k, fill::<i32, $n>);
            p.sub(concat!("iterator methods ", $n), $k, methods::<$n>);
        )*};
    }
    large!(128 20; 256 20; 257 20; 300 20; 1000 4;);
    od!(p, Tr; 300);
    p.main();
}
