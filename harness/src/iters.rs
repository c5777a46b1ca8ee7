//! Histories of iterator methods against the list of items still to come: `nth`, `fold`, `try_fold` and the like may be
//! overridden for speed, so using only `next` would not be enough.
use crate::engine::*;
use crate::ensure;
use std::fmt::Debug;

/// Use `it`, which must yield `want` and then nothing, by a random sequence of methods.
pub fn history<I, X>(s: &mut Src, what: &str, it: I, want: &[X]) -> Res
where
    I: Iterator<Item = X>,
    X: Debug + PartialEq + Clone,
{
    let mut it = it;
    let mut p = 0;
    let mut log: Vec<String> = Vec::new();
    let n = want.len();
    macro_rules! same {
        ($got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            ensure!(g == w, "{} of {:?}, after {:?}: got {:?}, expected {:?}", what, want, log, g, w);
        }};
    }
    for _ in 0..s.idx(6) {
        let left = &want[p..];
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left.len() && hi.map_or(true, |h| h >= left.len()), "{} of {:?}, after {:?}: size_hint {:?} with {} left", what, want, log, (lo, hi), left.len());
        let k = s.idx(left.len() + 2);
        let op = s.below(9);
        log.push(["next", "nth", "take", "skip", "try_for_each", "find", "position", "try_fold", "any"][op as usize].to_string() + &format!(" {}", k));
        let to = (p + k + 1).min(n);
        match op {
            0 => {
                same!(it.next(), left.first().cloned());
                p = (p + 1).min(n);
            }
            1 => {
                same!(it.nth(k), left.get(k).cloned());
                p = to;
            }
            2 => {
                same!(it.by_ref().take(k).collect::<Vec<X>>(), left[..k.min(left.len())].to_vec());
                p = (p + k).min(n);
            }
            3 => {
                same!(it.by_ref().skip(k).next(), left.get(k).cloned());
                p = to;
            }
            4 => {
                let mut seen = Vec::new();
                let r = it.try_for_each(|x| {
                    seen.push(x);
                    if seen.len() > k { Err(()) } else { Ok(()) }
                });
                same!(seen, left[..(k + 1).min(left.len())].to_vec());
                same!(r.is_err(), k < left.len());
                p = to;
            }
            5 => {
                let mut c = 0;
                let r = it.find(|_| {
                    c += 1;
                    c > k
                });
                same!(r, left.get(k).cloned());
                p = to;
            }
            6 => {
                let mut c = 0;
                let r = it.position(|_| {
                    c += 1;
                    c > k
                });
                same!(r, if k < left.len() { Some(k) } else { None });
                p = to;
            }
            7 => {
                let r = it.try_fold(Vec::new(), |mut a, x| {
                    a.push(x);
                    if a.len() > k { Err(a) } else { Ok(a) }
                });
                same!(r.is_err(), k < left.len());
                let (Ok(a) | Err(a)) = r;
                same!(a, left[..(k + 1).min(left.len())].to_vec());
                p = to;
            }
            _ => {
                let mut c = 0;
                let r = it.any(|_| {
                    c += 1;
                    c > k
                });
                same!(r, k < left.len());
                p = to;
            }
        }
    }
    let left = want[p..].to_vec();
    let op = s.below(9);
    log.push(["collect", "fold", "for_each", "count", "last", "step_by", "chain", "extend", "reduce"][op as usize].to_string());
    match op {
        0 => same!(it.collect::<Vec<X>>(), left),
        1 => same!(
            it.fold(Vec::new(), |mut a, x| {
                a.push(x);
                a
            }),
            left
        ),
        2 => {
            let mut a = Vec::new();
            it.for_each(|x| a.push(x));
            same!(a, left);
        }
        3 => same!(it.count(), left.len()),
        4 => same!(it.last(), left.last().cloned()),
        5 => {
            let k = 1 + s.idx(4);
            same!(it.step_by(k).collect::<Vec<X>>(), left.iter().step_by(k).cloned().collect::<Vec<X>>());
        }
        6 => same!(it.chain(want.iter().cloned()).collect::<Vec<X>>(), left.iter().chain(want).cloned().collect::<Vec<X>>()),
        7 => {
            let mut a = Vec::with_capacity(1);
            a.extend(it.by_ref());
            same!(a, left);
            ensure!(it.next().is_none(), "{} of {:?}, after {:?}: an item after the end", what, want, log);
        }
        _ => {
            let mut a = Vec::new();
            let r = it.reduce(|x, y| {
                a.push(x);
                y
            });
            a.extend(r);
            same!(a, left);
        }
    }
    Ok(())
}
