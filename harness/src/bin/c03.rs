//! C03: building from streams consumes, groups and flattens exactly.
use std::{cell::Cell, collections::VecDeque, convert::TryFrom};
use vecmat::{
    matrix::FlatIter,
    vector::GroupIter,
    Matrix, Vector,
};
use vh::{elems::*, engine::*, ensure, iters::history};

/// A source that counts what is taken from it and may keep yielding after its first `None`.
struct Source<'a, T> {
    items: VecDeque<Option<T>>,
    taken: &'a Cell<usize>,
    polls: &'a Cell<usize>,
    hint: (usize, Option<usize>),
}
impl<'a, T> Iterator for Source<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.polls.set(self.polls.get() + 1);
        let x = self.items.pop_front().flatten();
        if x.is_some() {
            self.taken.set(self.taken.get() + 1);
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
fn len_for(s: &mut Src, n: usize) -> usize {
    match s.below(6) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => n + 1,
        3 => s.idx(n + 1),
        4 => n + s.idx(n + 5),
        _ => s.idx(2 * n + 4),
    }
}
fn hint_for(s: &mut Src, n: usize) -> (usize, Option<usize>) {
    match s.below(4) {
        0 => (0, None),
        1 => (n, Some(n)),
        2 => (n / 2, Some(n + 3)),
        _ => (0, Some(n)),
    }
}

/// One vector from an iterator: exactly N items are taken, in order, or none is produced.
fn vec_from<T: Own, const N: usize>(c: &mut Cx) -> Res {
    track::reset();
    let len = len_for(&mut c.s, N);
    let hint = hint_for(&mut c.s, len);
    let by_ref = c.s.bool();
    c.show(|| format!("{} items into dimension {}, size hint {:?}, by_ref {}", len, N, hint, by_ref));
    c.nontrivial(len != N);
    c.label_if(len < N, "stream too short");
    c.label_if(len > N, "stream longer than needed");
    let (taken, polls) = (Cell::new(0), Cell::new(0));
    let mut src = Source { items: (0..len).map(|i| Some(T::make(i as i64 + 1))).collect(), taken: &taken, polls: &polls, hint };
    let r = if by_ref { Vector::<T, N>::try_from_iter(src.by_ref()) } else { Vector::<T, N>::try_from_iter(&mut src) };
    ensure!(r.is_some() == (len >= N), "{} items for dimension {}: {}", len, N, if r.is_some() { "a value" } else { "no value" });
    if let Some(v) = r {
        let got: Vec<i64> = v.iter().map(|x| x.val()).collect();
        let want: Vec<i64> = (0..N).map(|i| T::obs(i as i64 + 1)).collect();
        ensure!(got == want, "got {:?}, expected {:?}", got, want);
        ensure!(taken.get() == N, "took {} items for {} elements", taken.get(), N);
        let rest: Vec<i64> = src.map(|x| x.val()).collect();
        let want: Vec<i64> = (N..len).map(|i| T::obs(i as i64 + 1)).collect();
        ensure!(rest == want, "left {:?} in the iterator, expected {:?}", rest, want);
    } else {
        ensure!(T::live() == 0, "{} elements leaked by a failed construction", T::live());
    }
    ensure!(track::errs().is_empty(), "{:?}", track::errs());
    Ok(())
}

fn mat_from<T: Own, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    track::reset();
    let len = len_for(&mut c.s, M * N);
    let hint = hint_for(&mut c.s, len);
    c.show(|| format!("{} items into {}x{}, size hint {:?}", len, M, N, hint));
    c.nontrivial(len != M * N);
    let (taken, polls) = (Cell::new(0), Cell::new(0));
    let mut src = Source { items: (0..len).map(|i| Some(T::make(i as i64 + 1))).collect(), taken: &taken, polls: &polls, hint };
    let r = Matrix::<T, M, N>::try_from_iter(&mut src);
    ensure!(r.is_some() == (len >= M * N), "{} items for {}x{}: {}", len, M, N, if r.is_some() { "a value" } else { "no value" });
    if let Some(m) = r {
        for i in 0..M {
            for j in 0..N {
                ensure!(m[(i, j)].val() == T::obs((i * N + j) as i64 + 1), "element ({}, {}) is {}", i, j, m[(i, j)].val());
            }
        }
        ensure!(taken.get() == M * N, "took {} items for {} elements", taken.get(), M * N);
        let rest: Vec<i64> = src.map(|x| x.val()).collect();
        let want: Vec<i64> = (M * N..len).map(|i| T::obs(i as i64 + 1)).collect();
        ensure!(rest == want, "left {:?} in the iterator, expected {:?}", rest, want);
    }
    // rows
    let len = len_for(&mut c.s, M);
    let (taken, polls) = (Cell::new(0), Cell::new(0));
    let mk = |i: usize| -> Vector<T, N> { Vector::from(std::array::from_fn(|j| T::make((i * N + j) as i64 + 1))) };
    let mut src = Source { items: (0..len).map(|i| Some(mk(i))).collect(), taken: &taken, polls: &polls, hint: (0, None) };
    let r = Matrix::<T, M, N>::try_from_iter_of_vectors(&mut src);
    ensure!(r.is_some() == (len >= M), "{} rows for {}x{}: {}", len, M, N, if r.is_some() { "a value" } else { "no value" });
    if let Some(m) = r {
        for i in 0..M {
            for j in 0..N {
                ensure!(m[(i, j)].val() == T::obs((i * N + j) as i64 + 1), "rows: element ({}, {}) is {}", i, j, m[(i, j)].val());
            }
        }
        ensure!(taken.get() == M, "took {} rows for {}", taken.get(), M);
        ensure!(src.count() == len - M, "rows left in the iterator");
    }
    ensure!(track::errs().is_empty(), "{:?}", track::errs());
    Ok(())
}

/// Grouping a stream: consecutive full groups; several takes from one stream in a row.
fn group<const N: usize>(c: &mut Cx) -> Res {
    let len = c.s.idx(5 * N + 3);
    let hint = hint_for(&mut c.s, len);
    c.show(|| format!("{} items in groups of {}", len, N));
    c.nontrivial(len >= 2 * N && len % N != 0);
    let (taken, polls) = (Cell::new(0), Cell::new(0));
    let src = || Source { items: (0..len as i64).map(Some).collect(), taken: &taken, polls: &polls, hint };
    let want: Vec<Vec<i64>> = (0..len as i64).collect::<Vec<_>>().chunks_exact(N).map(|x| x.to_vec()).collect();
    let mut g = GroupIter::<_, N>::new(src());
    let mut got: Vec<Vec<i64>> = Vec::new();
    loop {
        let (lo, hi) = g.size_hint();
        let left = want.len() - got.len();
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size_hint {:?} with {} groups left", (lo, hi), left);
        match g.next() {
            None => break,
            Some(v) => {
                got.push(v.into_array().to_vec());
                ensure!(taken.get() == got.len() * N, "took {} items for {} groups", taken.get(), got.len());
                ensure!(got.len() <= want.len(), "too many groups: {:?}", got);
            }
        }
    }
    ensure!(got == want, "groups {:?}, expected {:?}", got, want);
    ensure!(g.next().is_none(), "a group after the end");
    // through adaptors
    let k = c.s.idx(4);
    let got: Vec<i64> = GroupIter::<_, N>::new(src()).skip(k).map(|v| v.sum()).collect();
    let w: Vec<i64> = want.iter().skip(k).map(|g| g.iter().sum()).collect();
    ensure!(got == w, "skip({}) of the groups: sums {:?}, expected {:?}", k, got, w);
    // several constructions from the same stream
    let mut s = src();
    let a = Vector::<i64, N>::try_from_iter(&mut s);
    let b = Vector::<i64, N>::try_from_iter(&mut s);
    ensure!(a.map(|v| v.into_array().to_vec()) == want.first().cloned(), "first vector of the stream {:?}", a);
    ensure!(b.map(|v| v.into_array().to_vec()) == want.get(1).cloned(), "second vector of the stream {:?}", b);
    Ok(())
}

fn seqs(s: &mut Src) -> Vec<Vec<i64>> {
    let n = s.idx(8);
    let mut k = 0;
    (0..n)
        .map(|_| {
            let l = *s.pick(&[0usize, 1, 0, 2, 0, 3, 5]);
            (0..l)
                .map(|_| {
                    k += 1;
                    k
                })
                .collect()
        })
        .collect()
}
fn flat(c: &mut Cx) -> Res {
    let xs = seqs(&mut c.s);
    c.show(|| format!("{:?}", xs));
    c.nontrivial(xs.iter().any(|x| x.is_empty()) && xs.iter().any(|x| x.len() > 1));
    c.label_if(xs.first().map_or(false, |x| x.is_empty()), "first empty");
    c.label_if(xs.windows(2).any(|w| w[0].is_empty() && w[1].is_empty()), "two empty in a row");
    c.label_if(xs.last().map_or(false, |x| x.is_empty()), "last empty");
    let want: Vec<i64> = xs.iter().flatten().copied().collect();
    match FlatIter::new(xs.clone().into_iter()) {
        None => ensure!(want.is_empty(), "no iterator although there are items {:?}", want),
        Some(mut f) => {
            let mut got = Vec::new();
            loop {
                let (lo, hi) = f.size_hint();
                let left = want.len().saturating_sub(got.len());
                ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size_hint {:?} with {} left", (lo, hi), left);
                match f.next() {
                    None => break,
                    Some(x) => got.push(x),
                }
                ensure!(got.len() <= want.len() + 1, "too many items: {:?}", got);
            }
            ensure!(got == want, "flattened to {:?}, expected {:?}", got, want);
            ensure!(f.next().is_none() && f.next().is_none(), "an item after the end");
        }
    }
    // references, nested iterators, lazily produced inner sequences
    let got: Vec<i64> = FlatIter::new(xs.iter()).map(|f| f.copied().collect()).unwrap_or_default();
    ensure!(got == want, "by reference: {:?}, expected {:?}", got, want);
    let lens: Vec<usize> = xs.iter().map(|x| x.len()).collect();
    let got: Vec<usize> = FlatIter::new(lens.iter().map(|l| 0..*l)).map(|f| f.collect()).unwrap_or_default();
    let w: Vec<usize> = lens.iter().flat_map(|l| 0..*l).collect();
    ensure!(got == w, "of ranges: {:?}, expected {:?}", got, w);
    let k = c.s.idx(want.len() + 2);
    let got: Vec<i64> = FlatIter::new(xs.iter()).map(|f| f.skip(k).copied().collect()).unwrap_or_default();
    ensure!(got == want[k.min(want.len())..], "skip({}): {:?}", k, got);
    let got: Vec<i64> = FlatIter::new(xs.iter()).map(|f| f.take(k).copied().collect()).unwrap_or_default();
    ensure!(got == want[..k.min(want.len())], "take({}): {:?}", k, got);
    let got = FlatIter::new(xs.iter()).and_then(|f| f.last().copied());
    ensure!(got == want.last().copied(), "last: {:?}", got);
    let got = FlatIter::new(xs.iter()).map_or(0, |f| f.count());
    ensure!(got == want.len(), "count: {:?}", got);
    // grouping a flattened stream and flattening a grouped one
    let got: Vec<[i64; 3]> = FlatIter::new(xs.clone().into_iter()).map(|f| GroupIter::<_, 3>::new(f).map(|v| v.into_array()).collect()).unwrap_or_default();
    let w: Vec<[i64; 3]> = want.chunks_exact(3).map(|x| [x[0], x[1], x[2]]).collect();
    ensure!(got == w, "groups of the flattened stream: {:?}, expected {:?}", got, w);
    let got: Vec<i64> = FlatIter::new(GroupIter::<_, 2>::new(want.iter().copied())).map(|f| f.collect()).unwrap_or_default();
    ensure!(got == want[..want.len() / 2 * 2], "flattened groups: {:?}", got);
    Ok(())
}
/// Flattening fixed-size inner sequences (vectors, including empty ones) and owning elements.
fn flat_owned<const N: usize>(c: &mut Cx) -> Res {
    track::reset();
    let n = c.s.idx(6);
    let stop = c.s.idx(n * N + 2);
    c.show(|| format!("{} vectors of dimension {}, {} items taken", n, N, stop));
    c.nontrivial(n >= 2);
    {
        let mk = |i: usize| -> Vector<Tr, N> { Vector::from(std::array::from_fn(|j| Tr::new((i * N + j) as i64))) };
        let got: Vec<i64> = FlatIter::new((0..n).map(mk)).map(|f| f.take(stop).map(|x| x.get()).collect()).unwrap_or_default();
        let want: Vec<i64> = (0..(n * N).min(stop) as i64).collect();
        ensure!(got == want, "{:?}, expected {:?}", got, want);
    }
    ensure!(track::errs().is_empty(), "{:?}", track::errs());
    ensure!(track::live() == 0, "{} elements leaked", track::live());
    Ok(())
}
/// A stream that ends early gives no value even if it could be resumed.
fn resuming<const N: usize>(c: &mut Cx) -> Res {
    let len = c.s.idx(N + 1);
    let more = c.s.idx(N + 2);
    c.show(|| format!("{} items, None, {} more into dimension {}", len, more, N));
    c.nontrivial(len < N && more > 0);
    let (taken, polls) = (Cell::new(0), Cell::new(0));
    let mut items: VecDeque<Option<i64>> = (0..len as i64).map(Some).collect();
    items.push_back(None);
    items.extend((0..more as i64).map(|x| Some(100 + x)));
    let mut src = Source { items, taken: &taken, polls: &polls, hint: (0, None) };
    let r = Vector::<i64, N>::try_from_iter(&mut src);
    if len >= N {
        ensure!(r.is_some(), "no value from {} items", len);
        ensure!(taken.get() == N, "took {} items", taken.get());
    } else {
        ensure!(r.is_none(), "a value {:?} although the stream ended after {} items", r, len);
    }
    Ok(())
}

/// Groups and flattened sequences used through all kinds of iterator methods.
fn group_methods<const N: usize>(c: &mut Cx) -> Res {
    let len = c.s.idx(6 * N + 3);
    let hint = hint_for(&mut c.s, len);
    c.show(|| format!("{} items in groups of {}", len, N));
    c.nontrivial(len > N);
    let (taken, polls) = (Cell::new(0), Cell::new(0));
    let want: Vec<Vector<i64, N>> = (0..len as i64).collect::<Vec<_>>().chunks_exact(N).map(|x| Vector::try_from(x).unwrap()).collect();
    let src = Source { items: (0..len as i64).map(Some).collect(), taken: &taken, polls: &polls, hint };
    history(&mut c.s, "groups", GroupIter::<_, N>::new(src), &want)
}
fn flat_methods(c: &mut Cx) -> Res {
    let xs = seqs(&mut c.s);
    c.show(|| format!("{:?}", xs));
    let want: Vec<i64> = xs.iter().flatten().copied().collect();
    c.nontrivial(xs.iter().any(|x| x.is_empty()) && want.len() > 1);
    if let Some(f) = FlatIter::new(xs.iter()) {
        history(&mut c.s, "flattened references", f.copied(), &want)?;
    }
    if let Some(f) = FlatIter::new(xs.clone().into_iter()) {
        history(&mut c.s, "flattened lists", f, &want)?;
    }
    let hint = hint_for(&mut c.s, xs.len());
    let (taken, polls) = (Cell::new(0), Cell::new(0));
    let n = c.s.idx(6);
    let src = Source { items: (0..n as i64).map(|i| Some(Vector::from([3 * i, 3 * i + 1, 3 * i + 2]))).collect(), taken: &taken, polls: &polls, hint: if n == 0 { (0, None) } else { (n.min(hint.0), None) } };
    if let Some(f) = FlatIter::new(src) {
        history(&mut c.s, "flattened vectors", f, &(0..3 * n as i64).collect::<Vec<_>>())?;
    }
    if let Some(f) = FlatIter::new(xs.iter()) {
        let w: Vec<Vector<i64, 2>> = want.chunks_exact(2).map(|x| Vector::try_from(x).unwrap()).collect();
        history(&mut c.s, "groups of the flattened", GroupIter::<_, 2>::new(f.copied()), &w)?;
    }
    Ok(())
}

macro_rules! vd {
    ($p:ident, $t:ty; $($n:literal)*) => {$(
        $p.sub(format!("vector from {} {}", <$t as Own>::NAME, $n), 600, vec_from::<$t, $n>);
    )*};
}
macro_rules! md {
    ($p:ident, $t:ty; $($m:literal x $n:literal),*) => {$(
        $p.sub(format!("matrix from {} {}x{}", <$t as Own>::NAME, $m, $n), 600, mat_from::<$t, $m, $n>);
    )*};
}
macro_rules! gd {
    ($p:ident; $($n:literal)*) => {$(
        $p.sub(format!("group {}", $n), 600, group::<$n>);
        $p.sub(format!("resuming {}", $n), 300, resuming::<$n>);
        $p.sub(format!("group methods {}", $n), 600, group_methods::<$n>);
    )*};
}
macro_rules! fd {
    ($p:ident; $($n:literal)*) => {$(
        $p.sub(format!("flat owned {}", $n), 300, flat_owned::<$n>);
    )*};
}
fn main() {
    let mut p = Prop::new("C03", "the stream is shorter or longer than needed, spans several groups with a remainder, or has empty and non-empty inner sequences");
    vd!(p, Tr; 0 1 2 3 4 5 6 7 8 9 12 16 17 32 33);
    vd!(p, Heap; 1 2 3 4 8);
    vd!(p, Wide; 1 2 3 4);
    vd!(p, Bulk; 1 3 8 17);
    md!(p, Bulk; 2 x 3, 4 x 4);
    vd!(p, Zs; 0 1 2 3 4 16);
    md!(p, Tr; 1 x 1, 1 x 3, 3 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 4 x 4, 5 x 2, 2 x 7, 8 x 3, 0 x 2, 2 x 0);
    md!(p, Heap; 2 x 3, 3 x 2);
    md!(p, Zs; 2 x 3, 4 x 1);
    gd!(p; 1 2 3 4 5 7 8 16);
    fd!(p; 0 1 2 3 5);
    p.sub("flat", 6000, flat);
    p.sub("flat methods", 6000, flat_methods);
    p.sub("vector from tracked 300", 20, vec_from::<Tr, 300>);
    p.sub("matrix from tracked 17x16", 20, mat_from::<Tr, 17, 16>);
    p.sub("matrix from tracked 2x300", 20, mat_from::<Tr, 2, 300>);
    p.sub("matrix from tracked 300x2", 20, mat_from::<Tr, 300, 2>);
    p.sub("group 300", 20, group::<300>);
    p.sub("group methods 300", 20, group_methods::<300>);
    p.main();
}
