//! Random histories of ownership-moving calls, run against a model of the values they hold.
//! Every closure, clone, element operation and destructor is a point where a panic can be injected.
use crate::elems::{floor_div, floor_mod, track, Own, SafeDiv, Tr};
use crate::engine::{guard, Cx, Fail, Res, Src, INJECTED};
use crate::{ensure, ensure_eq};
use num_traits::{One, Zero};
use vecmat::{
    matrix::FlatIter,
    traits::Dot,
    vector::GroupIter,
    Matrix, Vector,
};

enum Thing<T, const M: usize, const N: usize> {
    V(Vector<T, N>),
    A([T; N]),
    Mx(Matrix<T, M, N>),
    Tx(Matrix<T, N, M>),
    W(Vector<Vector<T, N>, M>),
    L(Vec<T>),
}
use Thing::*;
impl<T: Own, const M: usize, const N: usize> Thing<T, M, N> {
    fn vals(&self) -> Vec<i64> {
        match self {
            V(v) => v.iter().map(|x| x.val()).collect(),
            A(a) => a.iter().map(|x| x.val()).collect(),
            Mx(m) => m.iter().map(|x| x.val()).collect(),
            Tx(m) => m.iter().map(|x| x.val()).collect(),
            W(w) => w.iter().flat_map(|v| v.iter().map(|x| x.val())).collect(),
            L(l) => l.iter().map(|x| x.val()).collect(),
        }
    }
}

/// Calls made: what, and two numbers. Cheap to keep, also under an interpreter.
#[derive(Default)]
struct Log(Vec<(&'static str, usize, usize)>);
impl Log {
    fn push(&mut self, what: &'static str, a: usize, b: usize) {
        self.0.push((what, a, b));
    }
}
impl std::fmt::Debug for Log {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for (i, (w, a, b)) in self.0.iter().enumerate() {
            write!(f, "{}{} {} {}", if i > 0 { "; " } else { "" }, w, a, b)?;
        }
        Ok(())
    }
}

struct St<T, const M: usize, const N: usize> {
    things: Vec<(Thing<T, M, N>, Vec<i64>)>,
    next: i64,
    log: Log,
}
fn mk<T: Own>(k: &mut i64, m: &mut Vec<i64>) -> T {
    track::tick();
    *k += 1;
    m.push(T::obs(*k));
    T::make(*k)
}
fn tr(v: &[i64], rows: usize, cols: usize) -> Vec<i64> {
    (0..cols).flat_map(|j| (0..rows).map(move |i| v[i * cols + j])).collect()
}

impl<T: Own, const M: usize, const N: usize> St<T, M, N> {
    fn put(&mut self, t: Thing<T, M, N>, m: Vec<i64>) {
        self.things.push((t, m));
    }
    fn new_vec(&mut self) -> (Vector<T, N>, Vec<i64>) {
        let mut m = Vec::new();
        let k = &mut self.next;
        (Vector::init(|| mk::<T>(k, &mut m)), m)
    }
    /// One random call. What it consumes is removed from the state first.
    fn step(&mut self, s: &mut Src) {
        let op = s.below(6);
        if self.things.is_empty() || op == 0 {
            return self.create(s);
        }
        let i = s.idx(self.things.len());
        if op == 1 {
            return self.in_place(i, s);
        }
        let (t, m) = self.things.swap_remove(i);
        match t {
            V(v) => self.vec_op(v, m, s),
            A(a) => {
                self.log.push("array->vector", 0, 0);
                let v = if s.bool() { Vector::from_array(a) } else { Vector::from(a) };
                self.put(V(v), m)
            }
            Mx(x) => self.mat_op(x, m, s),
            Tx(x) => {
                self.log.push("transpose back", 0, 0);
                let r = x.transpose();
                let m = tr(&m, N, M);
                self.put(Mx(r), m)
            }
            W(w) => {
                self.log.push("vectors->matrix", 0, 0);
                self.put(Mx(Matrix::from_vector_of_vectors(w)), m)
            }
            L(l) => self.list_op(l, m, s),
        }
    }
    fn create(&mut self, s: &mut Src) {
        let k = s.below(8);
        self.log.push("create", k as usize, 0);
        match k {
            0 => {
                let (v, m) = self.new_vec();
                self.put(V(v), m);
            }
            1 => {
                let mut m = Vec::new();
                let k = &mut self.next;
                let a: [T; N] = std::array::from_fn(|_| mk(k, &mut m));
                self.put(V(a.into()), m);
            }
            2 => {
                let mut m = Vec::new();
                let k = &mut self.next;
                let x = Matrix::<T, M, N>::init(|| mk(k, &mut m));
                self.put(Mx(x), m);
            }
            3 | 4 => {
                // possibly too short
                let n = s.idx(2 * N + 2);
                let mut m = Vec::new();
                let k = &mut self.next;
                let r = Vector::<T, N>::try_from_iter((0..n).map(|_| mk(k, &mut m)));
                self.log.push("try_from_iter", n, N);
                if let Some(v) = r {
                    m.truncate(N);
                    self.put(V(v), m);
                }
            }
            5 => {
                let n = s.idx(M * N + N + 2);
                let mut m = Vec::new();
                let k = &mut self.next;
                let r = Matrix::<T, M, N>::try_from_iter((0..n).map(|_| mk(k, &mut m)));
                self.log.push("matrix try_from_iter", n, M * N);
                if let Some(v) = r {
                    m.truncate(M * N);
                    self.put(Mx(v), m);
                }
            }
            6 => {
                let n = s.idx(M + 2);
                let mut m = Vec::new();
                let k = &mut self.next;
                let r = Matrix::<T, M, N>::try_from_iter_of_vectors((0..n).map(|_| Vector::init(|| mk(k, &mut m))));
                self.log.push("try_from_iter_of_vectors", n, M);
                if let Some(v) = r {
                    m.truncate(M * N);
                    self.put(Mx(v), m);
                }
            }
            _ => {
                // rows one by one, from a stream through groups
                let n = s.idx(3 * N + 2);
                let mut m = Vec::new();
                let k = &mut self.next;
                let gs: Vec<Vector<T, N>> = GroupIter::<_, N>::new((0..n).map(|_| mk(k, &mut m))).take(4).collect();
                let m: Vec<i64> = m[..gs.len() * N].to_vec();
                for (i, g) in gs.into_iter().enumerate() {
                    self.put(V(g), m[i * N..(i + 1) * N].to_vec());
                }
            }
        }
    }
    fn in_place(&mut self, i: usize, s: &mut Src) {
        let k = s.below(4);
        self.log.push("in place", k as usize, 0);
        let next = &mut self.next;
        let (t, m) = &mut self.things[i];
        let mut put = |x: &mut T, m: &mut i64| {
            let mut c = Vec::new();
            let y = mk::<T>(next, &mut c);
            *m = c[0];
            *x = y;
        };
        match t {
            V(v) if N > 0 => {
                let i = s.idx(N);
                match k {
                    0 => put(&mut v[i], &mut m[i]),
                    1 => {
                        for (x, m) in v.iter_mut().zip(m.iter_mut()) {
                            put(x, m);
                        }
                    }
                    2 => {
                        let j = s.idx(N);
                        v.as_mut_array().swap(i, j);
                        m.swap(i, j);
                    }
                    _ => put(v.as_mut_array().last_mut().unwrap(), m.last_mut().unwrap()),
                }
            }
            Mx(x) if M * N > 0 => {
                let (i, j) = (s.idx(M), s.idx(N));
                match k {
                    0 => put(&mut x[(i, j)], &mut m[i * N + j]),
                    1 => {
                        for (x, m) in x.iter_mut().zip(m.iter_mut()) {
                            put(x, m);
                        }
                    }
                    2 => {
                        for (x, m) in x.row_mut(i).iter_mut().zip(m[i * N..].iter_mut()) {
                            put(x, m);
                        }
                    }
                    _ => {
                        let mut c = Vec::new();
                        let v = Vector::init(|| mk::<T>(next, &mut c));
                        m[i * N..(i + 1) * N].copy_from_slice(&c);
                        x.as_mut_vector_of_vectors()[i] = v;
                    }
                }
            }
            Tx(x) if M * N > 0 => {
                let (i, j) = (s.idx(N), s.idx(M));
                put(&mut x[(i, j)], &mut m[i * M + j]);
            }
            _ => {}
        }
    }
    fn partial<I: Iterator<Item = T>>(&mut self, mut it: I, m: Vec<i64>, s: &mut Src) {
        // take some, by various methods, then drop the iterator or use it up
        let keep = s.bool();
        let mut l = Vec::new();
        let mut w = Vec::new();
        let mut p = 0;
        for _ in 0..1 + s.idx(3) {
            let k = s.idx(m.len() - p + 2);
            let op = s.below(5);
            self.log.push("partial iteration", op as usize, k);
            match op {
                0 | 1 => {
                    for _ in 0..k {
                        track::tick();
                        match it.next() {
                            None => break,
                            Some(x) => {
                                l.push(x);
                                w.push(m[p]);
                                p += 1;
                            }
                        }
                    }
                }
                2 => {
                    l.extend(it.nth(k));
                    w.extend(m.get(p + k));
                    p = (p + k + 1).min(m.len());
                }
                3 => {
                    let n = l.len();
                    let _ = it.try_for_each(|x| {
                        track::tick();
                        l.push(x);
                        if l.len() - n > k {
                            Err(())
                        } else {
                            Ok(())
                        }
                    });
                    let q = (p + k + 1).min(m.len());
                    w.extend(&m[p..q]);
                    p = q;
                }
                _ => {
                    let mut c = 0;
                    l.extend(it.find(|_| {
                        track::tick();
                        c += 1;
                        c > k
                    }));
                    w.extend(m.get(p + k));
                    p = (p + k + 1).min(m.len());
                }
            }
        }
        let end = s.below(6);
        self.log.push("end of iteration, kept", end as usize, keep as usize);
        match end {
            0 | 1 => drop(it),
            2 => {
                l.extend(it.last());
                w.extend(m[p..].last());
            }
            3 => {
                if it.count() != m.len() - p {
                    track::err("count".to_string());
                }
            }
            4 => {
                l = it.fold(l, |mut l, x| {
                    track::tick();
                    l.push(x);
                    l
                });
                w.extend(&m[p..]);
            }
            _ => {
                it.for_each(|x| {
                    track::tick();
                    l.push(x)
                });
                w.extend(&m[p..]);
            }
        }
        if keep {
            self.put(L(l), w);
        }
    }
    fn vec_op(&mut self, v: Vector<T, N>, m: Vec<i64>, s: &mut Src) {
        let k = s.below(17);
        self.log.push("vector op", k as usize, 0);
        match k {
            0 => self.put(A(v.into_array()), m),
            1 => self.put(A(v.into()), m),
            2 => {
                let r = v.map(|x| {
                    track::tick();
                    x
                });
                self.put(V(r), m)
            }
            3 => {
                // replace every element by a new one
                let next = &mut self.next;
                let mut c = Vec::new();
                let r = v.map(|x| {
                    let y = mk::<T>(next, &mut c);
                    drop(x);
                    y
                });
                self.put(V(r), c)
            }
            4 => {
                let (w, wm) = self.new_vec();
                let z = v.zip(w);
                let (a, b) = z.unzip();
                self.put(V(a), m);
                self.put(V(b), wm);
            }
            5 => {
                let (w, wm) = self.new_vec();
                let first = s.bool();
                let z = v.zip(w).map(|(x, y)| {
                    track::tick();
                    if first {
                        x
                    } else {
                        y
                    }
                });
                self.put(V(z), if first { m } else { wm });
            }
            6 => {
                let mut i = 0;
                let r = v.enumerate().map(|(j, x)| {
                    if i != j {
                        track::err(format!("enumerate gave {} for element {}", j, i));
                    }
                    i += 1;
                    x
                });
                self.put(V(r), m)
            }
            7 => {
                let mut n = 0;
                v.for_each(|x| {
                    track::tick();
                    if x.val() != m[n] {
                        track::err(format!("for_each saw {} for element {}", x.val(), n));
                    }
                    n += 1;
                });
            }
            8 => {
                let l = v.fold(Vec::new(), |mut l, x| {
                    track::tick();
                    l.push(x);
                    l
                });
                self.put(L(l), m);
            }
            9 if N > 0 => {
                let x = v.fold_first(|a, b| {
                    track::tick();
                    if a.val() < b.val() {
                        b
                    } else {
                        a
                    }
                });
                let mx = *m.iter().max().unwrap();
                self.put(L(vec![x]), vec![mx]);
            }
            10 => {
                // scan whose state owns an element and emits the previous one
                let next = &mut self.next;
                let mut c = Vec::new();
                let first = mk::<T>(next, &mut c);
                let r = v.scan(Some(first), |st, x| {
                    track::tick();
                    st.replace(x).unwrap()
                });
                let mut w = c;
                w.extend(&m);
                w.truncate(N);
                self.put(V(r), w);
            }
            11 => self.partial(v.into_iter(), m, s),
            12 => {
                let mut m = m;
                m.reverse();
                self.partial(v.into_iter().rev(), m, s)
            }
            13 => {
                // as the first row of a matrix, with other rows
                let mut wm = m;
                let mut rows: Vec<Vector<T, N>> = vec![v];
                while rows.len() < M {
                    let (r, rm) = self.new_vec();
                    rows.push(r);
                    wm.extend(rm);
                }
                wm.truncate(M * N);
                if let Ok(a) = <[Vector<T, N>; M]>::try_from(rows) {
                    self.put(Mx(Matrix::from_array_of_vectors(a)), wm)
                }
            }
            14 => {
                // through a flattened stream of this and an empty sequence
                let n = s.idx(3);
                let mut src: Vec<Vec<T>> = (0..n).map(|_| Vec::new()).collect();
                src.push(v.into_iter().collect());
                src.push(Vec::new());
                let k = s.idx(N + 2);
                let l: Vec<T> = FlatIter::new(src.into_iter()).map(|f| f.take(k).collect()).unwrap_or_default();
                let n = l.len();
                if n != k.min(N) {
                    track::err(format!("flattening gave {} items, expected {}", n, k.min(N)));
                }
                self.put(L(l), m[..n].to_vec());
            }
            15 => {
                let (w, wm) = self.new_vec();
                // nested: vector of pairs dropped half-way through an iteration
                let k = s.idx(N + 1);
                let l: Vec<(T, T)> = v.zip(w).into_iter().take(k).collect();
                let n = l.len();
                for (x, y) in l {
                    self.put(L(vec![x]), vec![]);
                    self.put(L(vec![y]), vec![]);
                }
                let len = self.things.len();
                for i in 0..n {
                    self.things[len - 2 * n + 2 * i].1 = vec![m[i]];
                    self.things[len - 2 * n + 2 * i + 1].1 = vec![wm[i]];
                }
            }
            _ => drop(v),
        }
    }
    fn new_mat(&mut self) -> (Matrix<T, M, N>, Vec<i64>) {
        let mut m = Vec::new();
        let k = &mut self.next;
        (Matrix::init(|| mk::<T>(k, &mut m)), m)
    }
    fn mat_op(&mut self, x: Matrix<T, M, N>, m: Vec<i64>, s: &mut Src) {
        let k = s.below(15);
        self.log.push("matrix op", k as usize, 0);
        match k {
            0 | 1 => {
                let r = x.transpose();
                let w = tr(&m, M, N);
                self.put(Tx(r), w);
            }
            2 => self.put(W(x.into_vector_of_vectors()), m),
            3 => {
                let a: [[T; N]; M] = x.into_array_of_arrays();
                self.put(Mx(Matrix::from_array_of_arrays(a)), m)
            }
            4 => {
                let a = x.into_array_of_vectors();
                for (i, r) in a.into_iter().enumerate() {
                    self.put(V(r), m[i * N..(i + 1) * N].to_vec());
                }
            }
            5 => {
                let next = &mut self.next;
                let mut c = Vec::new();
                let r = x.map(|_| mk::<T>(next, &mut c));
                self.put(Mx(r), c)
            }
            6 => {
                let (y, ym) = self.new_mat();
                let (a, b) = x.zip(y).unzip();
                self.put(Mx(a), m);
                self.put(Mx(b), ym);
            }
            7 => {
                let (y, ym) = self.new_mat();
                let first = s.bool();
                let z = x.zip(y).map(|(x, y)| {
                    track::tick();
                    if first {
                        x
                    } else {
                        y
                    }
                });
                self.put(Mx(z), if first { m } else { ym });
            }
            8 => {
                let mut n = 0;
                x.for_each(|x| {
                    track::tick();
                    if x.val() != m[n] {
                        track::err(format!("for_each saw {} for element {}", x.val(), n));
                    }
                    n += 1;
                });
            }
            9 => {
                let l = x.fold(Vec::new(), |mut l, x| {
                    track::tick();
                    l.push(x);
                    l
                });
                self.put(L(l), m);
            }
            10 if M * N > 0 => {
                let r = x.fold_first(|a, b| {
                    track::tick();
                    if a.val() < b.val() {
                        b
                    } else {
                        a
                    }
                });
                let mx = *m.iter().max().unwrap();
                self.put(L(vec![r]), vec![mx]);
            }
            11 => {
                let next = &mut self.next;
                let mut c = Vec::new();
                let first = mk::<T>(next, &mut c);
                let r = x.scan(Some(first), |st, x| {
                    track::tick();
                    st.replace(x).unwrap()
                });
                let mut w = c;
                w.extend(&m);
                w.truncate(M * N);
                self.put(Mx(r), w);
            }
            12 | 13 => self.partial(x.into_iter(), m, s),
            _ => drop(x),
        }
    }
    fn list_op(&mut self, l: Vec<T>, m: Vec<i64>, s: &mut Src) {
        let k = s.below(6);
        self.log.push("list op", k as usize, l.len());
        let n = l.len();
        match k {
            0 => {
                let mut it = l.into_iter();
                if let Some(v) = Vector::<T, N>::try_from_iter(&mut it) {
                    self.put(V(v), m[..N].to_vec());
                    let rest: Vec<T> = it.collect();
                    self.put(L(rest), m[N..].to_vec());
                }
            }
            1 => {
                if let Some(x) = Matrix::<T, M, N>::try_from_iter(l.into_iter()) {
                    self.put(Mx(x), m[..M * N].to_vec());
                }
            }
            2 => {
                let mut i = 0;
                for g in GroupIter::<_, N>::new(l.into_iter()).take(n + 1) {
                    track::tick();
                    if N == 0 {
                        break;
                    }
                    self.put(V(g), m[i * N..(i + 1) * N].to_vec());
                    i += 1;
                }
            }
            3 if N > 0 => {
                let w = m[..n / N * N].to_vec();
                if let Some(f) = FlatIter::new(GroupIter::<_, N>::new(l.into_iter())) {
                    self.partial(f, w, s);
                }
            }
            4 => {
                // lists of one, none, two, one, none ... elements
                let mut l = l.into_iter();
                let mut i = 0;
                let parts: Vec<Vec<T>> = std::iter::from_fn(|| {
                    i += 1;
                    let v: Vec<T> = l.by_ref().take(i % 3).collect();
                    if i % 3 != 0 && v.is_empty() {
                        None
                    } else {
                        Some(v)
                    }
                })
                .collect();
                if let Some(f) = FlatIter::new(parts.into_iter()) {
                    self.partial(f, m, s);
                }
            }
            _ => drop(l),
        }
    }
    fn check(&mut self) -> Res {
        ensure!(track::errs().is_empty(), "{:?} after {:?}", track::errs(), self.log);
        for (t, m) in &self.things {
            ensure_eq!(t.vals(), *m, "values after {:?}", self.log);
        }
        ensure!(track::errs().is_empty(), "{:?} after {:?}", track::errs(), self.log);
        Ok(())
    }
}

/// A history without panics: values follow the model and live elements are exactly those held.
pub fn history<T: Own, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    track::reset();
    let mut st = St::<T, M, N> { things: Vec::new(), next: 0, log: Log(Vec::new()) };
    let n = 2 + c.s.idx(20);
    for _ in 0..n {
        st.step(&mut c.s);
        st.check()?;
        let held: usize = st.things.iter().map(|t| t.1.len()).sum();
        ensure!(T::live() == held as i64, "{} elements alive, {} held, after {:?}", T::live(), held, st.log);
        if st.things.len() > 24 {
            break;
        }
    }
    c.nontrivial(n >= 4 && st.next >= 2 && st.log.0.len() >= 4);
    c.show(|| format!("{:?}", st.log));
    let log = std::mem::take(&mut st.log);
    drop(st);
    ensure!(track::errs().is_empty(), "{:?} after {:?}", track::errs(), log);
    ensure!(T::live() == 0, "{} elements leaked by {:?}", T::live(), log);
    Ok(())
}

/// A history in which user code panics once: nothing is dropped twice or used while dead.
pub fn panicking<T: Own, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    track::reset();
    let mut st = St::<T, M, N> { things: Vec::new(), next: 0, log: Log(Vec::new()) };
    let n = 1 + c.s.idx(12);
    let mut fired = 0;
    for _ in 0..n {
        let armed = c.s.chance(3, 4);
        if armed {
            track::arm(c.s.below(2 * (M * N) as u64 + 3));
        }
        let r = guard(|| st.step(&mut c.s));
        track::disarm();
        if let Err(m) = r {
            ensure!(m.contains(INJECTED), "unexpected panic {} in {:?}", m, st.log);
            fired += 1;
            st.log.push("PANIC", 0, 0);
            // What the caller still owns stays usable; contents may be partly updated.
            for t in st.things.iter_mut() {
                t.1 = t.0.vals();
            }
        }
        st.check()?;
        if st.things.len() > 24 {
            break;
        }
    }
    c.nontrivial(fired > 0);
    c.label_if(fired > 0, "panic fired");
    c.show(|| format!("{:?}", st.log));
    let log = std::mem::take(&mut st.log);
    drop(st);
    ensure!(track::errs().is_empty(), "{:?} after {:?}", track::errs(), log);
    ensure!(T::live() >= 0, "more drops than creations after {:?}", log);
    Ok(())
}

/// Arithmetic, comparison and clone on tracked elements, with or without an injected panic.
pub fn arith<const M: usize, const N: usize>(c: &mut Cx, panics: bool) -> Res {
    let op = c.s.below(ARITH_OPS);
    arith_op::<M, N>(c, op, panics)
}
/// One operation of `arith`.
pub fn arith_op<const M: usize, const N: usize>(c: &mut Cx, op: u64, panics: bool) -> Res {
    track::reset();
    let g = |s: &mut Src| s.zigzag(9);
    let a: Vec<i64> = (0..N).map(|_| g(&mut c.s)).collect();
    let b: Vec<i64> = (0..N).map(|_| g(&mut c.s)).collect();
    let p: Vec<i64> = (0..M * N).map(|_| g(&mut c.s)).collect();
    let q: Vec<i64> = (0..M * N).map(|_| g(&mut c.s)).collect();
    let fuse = c.s.below(2 * (M * N) as u64 + 4);
    c.show(|| format!("op {} on {:?} {:?} / {:?} {:?}, fuse {:?}", op, a, b, p, q, if panics { Some(fuse) } else { None }));
    let vec = |x: &[i64]| -> Vector<Tr, N> { Vector::from(std::array::from_fn(|i| Tr::new(x[i]))) };
    let mat = |x: &[i64]| -> Matrix<Tr, M, N> { Matrix::from(std::array::from_fn::<_, M, _>(|i| std::array::from_fn::<_, N, _>(|j| Tr::new(x[i * N + j])))) };
    let (mut va, mut ma) = (vec(&a), mat(&p));
    let live0 = track::live();
    let two = |f: fn(i64, i64) -> i64, x: &[i64], y: &[i64]| -> Vec<i64> { x.iter().zip(y).map(|(x, y)| f(*x, *y)).collect() };
    let rv = |v: &Vector<Tr, N>| v.iter().map(|x| x.get()).collect::<Vec<_>>();
    let rm = |v: &Matrix<Tr, M, N>| v.iter().map(|x| x.get()).collect::<Vec<_>>();
    // for a consuming operation: the second operand's stand-in for the first
    let (va2, vb, ma2, mb) = (vec(&a), vec(&b), mat(&p), mat(&q));
    if panics {
        track::arm(fuse);
    }
    // expected results: of the consuming operation, or of the mutated va / ma
    let r: Result<(Vec<i64>, Vec<i64>), String> = guard(|| {
        let out = match op {
            0 => (rv(&(va2 + vb)), two(i64::wrapping_add, &a, &b)),
            1 => (rv(&(va2 - vb)), two(i64::wrapping_sub, &a, &b)),
            2 => (rv(&(va2 * vb)), two(i64::wrapping_mul, &a, &b)),
            3 => (rv(&(va2 / vb)), two(SafeDiv::safe_div, &a, &b)),
            4 => (rv(&(va2 % vb)), two(SafeDiv::safe_rem, &a, &b)),
            5 => (rv(&(-va2)), a.iter().map(|x| -x).collect()),
            6 => (rv(&(!va2)), a.iter().map(|x| !x).collect()),
            7 => (rv(&(va2 & vb)), two(|x, y| x & y, &a, &b)),
            8 => (rv(&(va2 | vb)), two(|x, y| x | y, &a, &b)),
            9 => (rv(&(va2 ^ vb)), two(|x, y| x ^ y, &a, &b)),
            10 => (vec![va2.dot(vb).get()], vec![a.iter().zip(&b).map(|(x, y)| x * y).sum()]),
            11 => (vec![va2.sum().get()], vec![a.iter().sum()]),
            12 => (vec![va2.max().get()], vec![*a.iter().max().unwrap_or(&0)]),
            13 => (vec![va2.min().get()], vec![*a.iter().min().unwrap_or(&0)]),
            14 => (va2.vlt(vb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x < y) as i64, &a, &b)),
            15 => (va2.veq(vb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x == y) as i64, &a, &b)),
            16 => (rv(&va.clone()), a.clone()),
            17 => (vec![(va == vb) as i64], vec![(a == b) as i64]),
            18 => (rv(&[va2, vb].into_iter().sum::<Vector<Tr, N>>()), two(i64::wrapping_add, &a, &b)),
            19 => (rv(&[va2, vb].into_iter().product::<Vector<Tr, N>>()), two(i64::wrapping_mul, &a, &b)),
            20 => (rm(&(ma2 + mb)), two(i64::wrapping_add, &p, &q)),
            21 => (rm(&(ma2 - mb)), two(i64::wrapping_sub, &p, &q)),
            22 => (rm(&(ma2 * mb)), two(i64::wrapping_mul, &p, &q)),
            23 => (rm(&(ma2 % mb)), two(SafeDiv::safe_rem, &p, &q)),
            24 => (rm(&(-ma2)), p.iter().map(|x| -x).collect()),
            25 => (rm(&ma.clone()), p.clone()),
            26 => (vec![ma2.sum().get()], vec![p.iter().sum()]),
            27 => (rm(&[ma2, mb].into_iter().sum::<Matrix<Tr, M, N>>()), two(i64::wrapping_add, &p, &q)),
            28 => (rv(&<Vector<Tr, N> as Default>::default()), vec![0; N]),
            29 => (rm(&<Matrix<Tr, M, N> as Zero>::zero()), vec![0; M * N]),
            30 => (vec![va.is_zero() as i64, ma.is_zero() as i64], vec![a.iter().all(|x| *x == 0) as i64, p.iter().all(|x| *x == 0) as i64]),
            31 => {
                let d = Matrix::diagonal(va2);
                (d.into_iter().map(|x| x.get()).collect(), (0..N * N).map(|k| if k / N == k % N { a[k / N] } else { 0 }).collect())
            }
            32 => {
                let d: Matrix<Tr, N, N> = One::one();
                (d.into_iter().map(|x| x.get()).collect(), (0..N * N).map(|k| (k / N == k % N) as i64).collect())
            }
            33 => (ma2.veq(mb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x == y) as i64, &p, &q)),
            // assigning forms: `va` / `ma` stay ours whatever happens
            34 => {
                va += vb;
                (rv(&va), two(i64::wrapping_add, &a, &b))
            }
            35 => {
                va *= vb;
                (rv(&va), two(i64::wrapping_mul, &a, &b))
            }
            36 => {
                va ^= vb;
                (rv(&va), two(|x, y| x ^ y, &a, &b))
            }
            37 => {
                ma -= mb;
                (rm(&ma), two(i64::wrapping_sub, &p, &q))
            }
            38 => {
                ma %= mb;
                (rm(&ma), two(SafeDiv::safe_rem, &p, &q))
            }
            39 => {
                ma |= mb;
                (rm(&ma), two(|x, y| x | y, &p, &q))
            }
            40 => {
                va -= vb;
                (rv(&va), two(i64::wrapping_sub, &a, &b))
            }
            41 => {
                va /= vb;
                (rv(&va), two(SafeDiv::safe_div, &a, &b))
            }
            42 => {
                va %= vb;
                (rv(&va), two(SafeDiv::safe_rem, &a, &b))
            }
            43 => {
                va &= vb;
                (rv(&va), two(|x, y| x & y, &a, &b))
            }
            44 => {
                va |= vb;
                (rv(&va), two(|x, y| x | y, &a, &b))
            }
            45 => {
                ma += mb;
                (rm(&ma), two(i64::wrapping_add, &p, &q))
            }
            46 => {
                ma *= mb;
                (rm(&ma), two(i64::wrapping_mul, &p, &q))
            }
            47 => {
                ma /= mb;
                (rm(&ma), two(SafeDiv::safe_div, &p, &q))
            }
            48 => {
                ma &= mb;
                (rm(&ma), two(|x, y| x & y, &p, &q))
            }
            49 => {
                ma ^= mb;
                (rm(&ma), two(|x, y| x ^ y, &p, &q))
            }
            50 => (rm(&(ma2 / mb)), two(SafeDiv::safe_div, &p, &q)),
            51 => (rm(&(ma2 & mb)), two(|x, y| x & y, &p, &q)),
            52 => (rm(&(ma2 | mb)), two(|x, y| x | y, &p, &q)),
            53 => (rm(&(ma2 ^ mb)), two(|x, y| x ^ y, &p, &q)),
            54 => (rm(&(!ma2)), p.iter().map(|x| !x).collect()),
            55 => (va2.vle(vb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x <= y) as i64, &a, &b)),
            56 => (va2.vgt(vb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x > y) as i64, &a, &b)),
            57 => (va2.vge(vb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x >= y) as i64, &a, &b)),
            58 => (va2.vne(vb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x != y) as i64, &a, &b)),
            59 => (ma2.vlt(mb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x < y) as i64, &p, &q)),
            60 => (ma2.vle(mb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x <= y) as i64, &p, &q)),
            61 => (ma2.vgt(mb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x > y) as i64, &p, &q)),
            62 => (ma2.vge(mb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x >= y) as i64, &p, &q)),
            63 => (ma2.vne(mb).into_iter().map(|x| x as i64).collect(), two(|x, y| (x != y) as i64, &p, &q)),
            64 => (vec![ma2.max().get()], vec![*p.iter().max().unwrap_or(&0)]),
            65 => (vec![ma2.min().get()], vec![*p.iter().min().unwrap_or(&0)]),
            66 => (vec![(ma == mb) as i64, (va != vb) as i64], vec![(p == q) as i64, (a != b) as i64]),
            67 => (rv(&va2.div_floor(vb)), two(floor_div, &a, &b)),
            68 => (rv(&va2.mod_floor(vb)), two(floor_mod, &a, &b)),
            69 => {
                let (d, m) = va2.div_mod_floor(vb);
                (rv(&d).into_iter().chain(rv(&m)).collect(), two(floor_div, &a, &b).into_iter().chain(two(floor_mod, &a, &b)).collect())
            }
            70 => (rm(&ma2.div_floor(mb)), two(floor_div, &p, &q)),
            71 => (rm(&ma2.mod_floor(mb)), two(floor_mod, &p, &q)),
            72 => {
                let (d, m) = ma2.div_mod_floor(mb);
                (rm(&d).into_iter().chain(rm(&m)).collect(), two(floor_div, &p, &q).into_iter().chain(two(floor_mod, &p, &q)).collect())
            }
            73 => (rm(&<Matrix<Tr, M, N> as Default>::default()), vec![0; M * N]),
            74 => (rv(&<Vector<Tr, N> as Zero>::zero()), vec![0; N]),
            75 => (rv(&[va2, vb].iter().map(|v| v.clone()).rev().sum::<Vector<Tr, N>>()), two(i64::wrapping_add, &a, &b)),
            // what is there is dropped, once
            76 => {
                va.clone_from(&vb);
                (rv(&va), b.clone())
            }
            _ => {
                ma.clone_from(&mb);
                (rm(&ma), q.clone())
            }
        };
        out
    });
    track::disarm();
    match r {
        Ok((got, want)) => {
            ensure!(got == want, "op {}: {:?}, expected {:?}", op, got, want);
            c.nontrivial(!panics && N >= 2);
        }
        Err(m) => {
            ensure!(panics && m.contains(INJECTED), "unexpected panic {} in op {}", m, op);
            c.nontrivial(true);
            c.label("panic fired");
        }
    }
    // the operands still owned hold live, well-formed elements
    let (x, y) = (rv(&va), rm(&ma));
    ensure!(x.len() == N && y.len() == M * N, "operand lost elements");
    ensure!(track::errs().is_empty(), "op {}: {:?}", op, track::errs());
    for (what, now, was, by) in [("vector", &x, &a, &b), ("matrix", &y, &p, &q)] {
        for (i, v) in now.iter().enumerate() {
            // an element is either untouched or the finished result
            let (k, l) = (was[i], by[i]);
            let ok = *v == k || [k.wrapping_add(l), k.wrapping_sub(l), k.wrapping_mul(l), k.safe_div(l), k.safe_rem(l), k & l, k | l, k ^ l, l].contains(v);
            ensure!(ok, "op {}: element {} of the {} became {} from {} and {}", op, i, what, v, k, l);
        }
    }
    if !panics {
        ensure!(track::live() == live0, "op {}: {} elements alive, expected {}", op, track::live(), live0);
    }
    drop(va);
    drop(ma);
    ensure!(track::errs().is_empty(), "op {}: {:?}", op, track::errs());
    if !panics {
        ensure!(track::live() == 0, "op {}: {} elements leaked", op, track::live());
    }
    let _ = Fail::new("");
    Ok(())
}

/// Tuple conversions of owned elements.
pub fn tuples(c: &mut Cx) -> Res {
    track::reset();
    let x: Vec<i64> = (0..4).map(|_| c.s.zigzag(50)).collect();
    c.nontrivial(true);
    c.show(|| format!("{:?}", x));
    let t = |i: usize| Tr::new(x[i]);
    let (a, b) = Vector::<Tr, 2>::from_tuple((t(0), t(1))).into_tuple();
    ensure!([a.get(), b.get()] == x[..2], "2-tuple");
    let (a, b): (Tr, Tr) = Vector::<Tr, 2>::from((a, b)).into();
    ensure!([a.get(), b.get()] == x[..2], "2-tuple");
    let (a, b, d) = Vector::<Tr, 3>::from_tuple((a, b, t(2))).into_tuple();
    ensure!([a.get(), b.get(), d.get()] == x[..3], "3-tuple");
    let (a, b, d): (Tr, Tr, Tr) = Vector::<Tr, 3>::from((a, b, d)).into();
    ensure!([a.get(), b.get(), d.get()] == x[..3], "3-tuple");
    let (a, b, d, e) = Vector::<Tr, 4>::from_tuple((a, b, d, t(3))).into_tuple();
    ensure!([a.get(), b.get(), d.get(), e.get()] == x[..], "4-tuple");
    let (a, b, d, e): (Tr, Tr, Tr, Tr) = Vector::<Tr, 4>::from((a, b, d, e)).into();
    ensure!([a.get(), b.get(), d.get(), e.get()] == x[..], "4-tuple");
    ensure!(track::live() == 4, "{} alive", track::live());
    drop((a, b, d, e));
    ensure!(track::errs().is_empty() && track::live() == 0, "{:?}, {} alive", track::errs(), track::live());
    Ok(())
}

/// Elements of two kinds going through the calls that take or give two kinds.
pub fn pairs<A: Own, B: Own, const M: usize, const N: usize>(c: &mut Cx, panics: bool) -> Res {
    track::reset();
    let op = c.s.below(14);
    let take = c.s.idx(N + 2);
    let takem = c.s.idx(M * N + 2);
    let fuse = c.s.below(2 * (M * N) as u64 + 3);
    let what = format!("op {} on pairs of {} and {}, take {} {}, fuse {:?}", op, A::NAME, B::NAME, take, takem, panics.then_some(fuse));
    c.show(|| what.clone());
    c.nontrivial(N > 1);
    let oa = |v: &[i64]| v.iter().map(|x| A::obs(*x)).collect::<Vec<_>>();
    let ob = |v: &[i64]| v.iter().map(|x| B::obs(*x)).collect::<Vec<_>>();
    let (xa, xb): (Vec<i64>, Vec<i64>) = ((1..=N as i64).collect(), (101..=100 + N as i64).collect());
    let (ya, yb): (Vec<i64>, Vec<i64>) = ((1..=(M * N) as i64).collect(), (51..=50 + (M * N) as i64).collect());
    let (wa, wb, ma, mb) = (oa(&xa), ob(&xb), oa(&ya), ob(&yb));
    fn vec<T: Own, const N: usize>(x: &[i64]) -> Vector<T, N> {
        let mut i = x.iter();
        Vector::init(|| {
            track::tick();
            T::make(*i.next().unwrap())
        })
    }
    fn mat<T: Own, const M: usize, const N: usize>(x: &[i64]) -> Matrix<T, M, N> {
        let mut i = x.iter();
        Matrix::init(|| {
            track::tick();
            T::make(*i.next().unwrap())
        })
    }
    fn vals<'a, T: Own>(i: impl Iterator<Item = &'a T>) -> Vec<i64> {
        i.map(|x| x.val()).collect()
    }
    fn to<A: Own, B: Own>(x: A) -> B {
        track::tick();
        B::make(x.val())
    }
    fn swap<A, B>((x, y): (A, B)) -> (B, A) {
        track::tick();
        (y, x)
    }
    // what is alive while `a` elements of the first and `b` of the second kind are held
    let alive = |a: usize, b: usize| -> Res {
        let want = [0, 1].map(|i| A::LEDGER[i] * a as i64 + B::LEDGER[i] * b as i64);
        let got = [track::live() as i64, track::zst_live()];
        ensure!(got == want, "alive (tracked, zero-sized): {:?}, expected {:?}", got, want);
        Ok(())
    };
    if panics {
        track::arm(fuse);
    }
    let r = guard(|| -> Res {
        match op {
            0 => {
                let z = vec::<A, N>(&xa).zip(vec::<B, N>(&xb));
                ensure_eq!(vals(z.iter().map(|t| &t.0)), wa, "first halves");
                ensure_eq!(vals(z.iter().map(|t| &t.1)), wb, "second halves");
                alive(N, N)?;
                let (a, b) = z.unzip();
                ensure_eq!(vals(a.iter()), wa, "unzipped first halves");
                ensure_eq!(vals(b.iter()), wb, "unzipped second halves");
                alive(N, N)?;
                drop(a);
                alive(0, N)
            }
            1 => {
                let z = mat::<A, M, N>(&ya).zip(mat::<B, M, N>(&yb));
                ensure_eq!(vals(z.iter().map(|t| &t.0)), ma, "first halves");
                ensure_eq!(vals(z.iter().map(|t| &t.1)), mb, "second halves");
                alive(M * N, M * N)?;
                let (a, b) = z.unzip();
                ensure_eq!(vals(a.iter()), ma, "unzipped first halves");
                ensure_eq!(vals(b.iter()), mb, "unzipped second halves");
                alive(M * N, M * N)?;
                drop(b);
                alive(M * N, 0)
            }
            2 => {
                let (b, a) = vec::<A, N>(&xa).zip(vec::<B, N>(&xb)).map(swap).unzip();
                ensure_eq!((vals(a.iter()), vals(b.iter())), (wa.clone(), wb.clone()), "swapped");
                alive(N, N)
            }
            3 => {
                let (b, a) = mat::<A, M, N>(&ya).zip(mat::<B, M, N>(&yb)).map(swap).unzip();
                ensure_eq!((vals(a.iter()), vals(b.iter())), (ma.clone(), mb.clone()), "swapped");
                alive(M * N, M * N)
            }
            4 => {
                let b = vec::<A, N>(&xa).map(to::<A, B>);
                ensure_eq!(vals(b.iter()), xa.iter().map(|x| B::obs(A::obs(*x))).collect::<Vec<_>>(), "mapped");
                alive(0, N)
            }
            5 => {
                let b = mat::<A, M, N>(&ya).map(to::<A, B>);
                ensure_eq!(vals(b.iter()), ya.iter().map(|x| B::obs(A::obs(*x))).collect::<Vec<_>>(), "mapped");
                alive(0, M * N)
            }
            6 => {
                // the state holds the previous element
                let v = vec::<A, N>(&xa).scan(None, |s: &mut Option<A>, x| to::<A, B>(s.replace(x).unwrap_or_else(|| A::make(0))));
                let want: Vec<i64> = (0..N as i64).map(|x| B::obs(A::obs(x))).collect();
                ensure_eq!(vals(v.iter()), want, "scanned");
                alive(0, N)
            }
            7 => {
                let v = mat::<A, M, N>(&ya).scan(None, |s: &mut Option<A>, x| to::<A, B>(s.replace(x).unwrap_or_else(|| A::make(0))));
                let want: Vec<i64> = (0..(M * N) as i64).map(|x| B::obs(A::obs(x))).collect();
                ensure_eq!(vals(v.iter()), want, "scanned");
                alive(0, M * N)
            }
            8 => {
                let l = vec::<A, N>(&xa).fold(Vec::new(), |mut l: Vec<B>, x| {
                    l.push(to(x));
                    l
                });
                ensure_eq!(vals(l.iter()), xa.iter().map(|x| B::obs(A::obs(*x))).collect::<Vec<_>>(), "folded");
                alive(0, N)
            }
            9 => {
                // an iterator of pairs given up half-way
                let mut it = vec::<A, N>(&xa).zip(vec::<B, N>(&xb)).into_iter();
                let l: Vec<(A, B)> = it.by_ref().take(take).collect();
                let k = take.min(N);
                ensure_eq!(vals(l.iter().map(|t| &t.1)), wb[..k].to_vec(), "first pairs");
                alive(N, N)?;
                drop(it);
                alive(k, k)
            }
            10 => {
                let mut it = mat::<A, M, N>(&ya).zip(mat::<B, M, N>(&yb)).into_iter();
                let l: Vec<(A, B)> = it.by_ref().take(takem).collect();
                let k = takem.min(M * N);
                ensure_eq!(vals(l.iter().map(|t| &t.0)), ma[..k].to_vec(), "first pairs");
                alive(M * N, M * N)?;
                drop(it);
                alive(k, k)
            }
            11 => {
                // built from a stream of pairs that may end early
                let g = (0..takem).map(|i| {
                    track::tick();
                    (A::make(i as i64), B::make(i as i64 + 50))
                });
                let m = Matrix::<(A, B), M, N>::try_from_iter(g);
                ensure_eq!(m.is_some(), takem >= M * N, "built");
                // the iterator may already have made one more pair
                let k = m.iter().flat_map(|m| m.iter()).count();
                ensure_eq!(k, if takem >= M * N { M * N } else { 0 }, "elements");
                alive(k, k)
            }
            12 => {
                let t = mat::<A, M, N>(&ya).zip(mat::<B, M, N>(&yb)).transpose();
                ensure_eq!(vals(t.iter().map(|t| &t.0)), tr(&ma, M, N), "transposed first halves");
                ensure_eq!(vals(t.iter().map(|t| &t.1)), tr(&mb, M, N), "transposed second halves");
                let v = t.into_vector_of_vectors();
                alive(M * N, M * N)?;
                let l: Vec<(A, B)> = v.into_iter().flatten().collect();
                ensure_eq!(vals(l.iter().map(|t| &t.1)), tr(&mb, M, N), "rows of the transposed");
                alive(M * N, M * N)
            }
            _ => {
                let e = vec::<A, N>(&xa).zip(vec::<B, N>(&xb)).enumerate();
                ensure_eq!(e.iter().map(|t| t.0).collect::<Vec<_>>(), (0..N).collect::<Vec<_>>(), "numbers");
                alive(N, N)?;
                let (_, z) = e.unzip();
                let (a, b) = z.unzip();
                ensure_eq!((vals(a.iter()), vals(b.iter())), (wa.clone(), wb.clone()), "enumerated");
                alive(N, N)
            }
        }
    });
    track::disarm();
    match r {
        Ok(r) => {
            r?;
            alive(0, 0).map_err(|_| Fail::new(format!("{} tracked and {} zero-sized elements leaked by {}", track::live(), track::zst_live(), what)))?;
        }
        Err(m) => {
            ensure!(panics && m.contains(INJECTED), "unexpected panic {} in {}", m, what);
            c.label_if(true, "panic fired");
            ensure!(track::live() as i64 >= 0 && track::zst_live() >= 0, "more drops than creations after {}", what);
        }
    }
    ensure!(track::errs().is_empty(), "{:?} after {}", track::errs(), what);
    Ok(())
}
/// Register `pairs` for many kinds and shapes.
#[macro_export]
macro_rules! add_pairs {
    ($p:ident, $panics:literal, $k:expr; $($a:ty, $b:ty);*) => {$(
        $crate::add_pairs!(@ $p, $panics, $k, $a, $b; 1 x 1, 2 x 3, 3 x 2, 2 x 4, 1 x 5, 5 x 1, 2 x 9, 1 x 17);
    )*};
    (@ $p:ident, $panics:literal, $k:expr, $a:ty, $b:ty; $($m:literal x $n:literal),*) => {$(
        $p.sub(format!("pairs of {} and {} {}x{}", <$a as Own>::NAME, <$b as Own>::NAME, $m, $n), $k, |c: &mut Cx| pairs::<$a, $b, $m, $n>(c, $panics));
    )*};
}

/// Number of operations of `arith`.
pub const ARITH_OPS: u64 = 78;
