//! C34: text output shows every element in order.
use std::fmt::{self, Debug, Display, Write};
use vecmat::{
    complex::{Complex, Quaternion},
    Matrix, Vector,
};
use vh::{engine::*, ensure, gen};

/// Shows differently in the two modes, and may refuse to be shown.
#[derive(Clone, Copy)]
struct Mark(u32, bool);
impl Display for Mark {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.1 {
            return Err(fmt::Error);
        }
        write!(f, "d{}", self.0)?;
        write!(f, "y")
    }
}
impl Debug for Mark {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.1 {
            return Err(fmt::Error);
        }
        write!(f, "g{}", self.0)?;
        write!(f, "z")
    }
}
/// What can be printed and made up here.
trait El: Display + Debug + Clone + Send + Sync + 'static {
    fn make(c: &mut Cx, i: usize) -> Self;
}
impl El for Mark {
    fn make(_: &mut Cx, i: usize) -> Mark {
        Mark(i as u32 + 1, false)
    }
}
impl El for i32 {
    fn make(c: &mut Cx, _: usize) -> i32 {
        match c.s.below(4) {
            0 => *c.s.pick(&[0, 1, -1, i32::MIN, i32::MAX]),
            1 => c.s.bits() as i32,
            _ => c.s.zigzag(99) as i32,
        }
    }
}
impl El for u128 {
    fn make(c: &mut Cx, _: usize) -> u128 {
        (c.s.bits() as u128) << c.s.below(65)
    }
}
impl El for f64 {
    fn make(c: &mut Cx, _: usize) -> f64 {
        match c.s.below(4) {
            0 => *c.s.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, -f64::INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX, 1e16, 1e-7, 0.1]),
            1 => f64::from_bits(c.s.bits()),
            _ => gen::moderate(&mut c.s),
        }
    }
}
impl El for f32 {
    fn make(c: &mut Cx, i: usize) -> f32 {
        f64::make(c, i) as f32
    }
}
impl El for bool {
    fn make(c: &mut Cx, _: usize) -> bool {
        c.s.bool()
    }
}
impl El for &'static str {
    fn make(c: &mut Cx, _: usize) -> &'static str {
        *c.s.pick(&["", "a", "{}", "(1, 2)", "Vector", "\u{e9}\u{1F980}", "a,b", "%s", "quote\"d"])
    }
}
impl El for char {
    fn make(c: &mut Cx, _: usize) -> char {
        *c.s.pick(&['a', '+', '{', '0', '\u{1F980}', '\'', '"'])
    }
}
impl El for Complex<i32> {
    fn make(c: &mut Cx, i: usize) -> Self {
        Complex::new(i32::make(c, i), i32::make(c, i))
    }
}
impl El for Vector<u8, 2> {
    fn make(c: &mut Cx, _: usize) -> Self {
        Vector::from([c.s.bits() as u8, c.s.bits() as u8])
    }
}

/// A sink that fails at a given write, or one that takes everything.
struct Sink {
    text: String,
    writes: usize,
    fail: Option<usize>,
    after: bool,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if Some(self.writes) == self.fail {
            self.after = true;
            self.writes += 1;
            return Err(fmt::Error);
        }
        self.writes += 1;
        self.text.push_str(s);
        Ok(())
    }
}
fn to_sink(x: &dyn Fn(&mut Sink) -> fmt::Result, fail: Option<usize>) -> Result<(Sink, fmt::Result), Fail> {
    let mut s = Sink { text: String::new(), writes: 0, fail, after: false };
    let r = guard(|| x(&mut s)).map_err(|m| Fail::new(format!("panic: {}", m)))?;
    Ok((s, r))
}
fn punctuation(c: char) -> bool {
    c.is_whitespace() || ",;()[]|".contains(c)
}
/// `text` is the name and then the elements in order with nothing but punctuation between them.
fn in_order(text: &str, name: &str, elems: &[String], columns: Option<usize>) -> Res {
    let bad = |why: String| Err(Fail::new(format!("{}: {:?} for {} with {:?}", why, text, name, elems)));
    let t = text.trim_start();
    let Some(mut rest) = t.strip_prefix(name) else { return bad("wrong type name".into()) };
    if rest.starts_with(|c: char| c.is_alphanumeric()) {
        return bad("name or dimensions go on".into());
    }
    for (i, e) in elems.iter().enumerate() {
        // skip punctuation, but not the start of the element itself
        let mut line = 0;
        loop {
            if !e.is_empty() && rest.starts_with(e.as_str()) {
                break;
            }
            if e.is_empty() {
                break;
            }
            match rest.chars().next() {
                Some(c) if punctuation(c) => {
                    line += usize::from(c == '\n');
                    rest = &rest[c.len_utf8()..];
                }
                _ => return bad(format!("element {} is not where it should be", i)),
            }
        }
        rest = &rest[e.len()..];
        if let Some(n) = columns {
            if !e.is_empty() && i > 0 && !elems[i - 1].is_empty() {
                if (line > 0) != (i % n == 0) {
                    return bad(format!("element {} is on the wrong line", i));
                }
            }
        }
    }
    if !rest.chars().all(punctuation) {
        return bad(format!("something follows the elements: {:?}", rest));
    }
    Ok(())
}
/// Both modes, without and with failures.
fn judge<X: Display + Debug, T: El>(c: &mut Cx, x: &X, name: &str, elems: &[T], columns: Option<usize>) -> Res {
    c.nontrivial(elems.len() > 1);
    let modes: [(&str, Vec<String>, &dyn Fn(&mut Sink) -> fmt::Result); 2] = [
        ("Display", elems.iter().map(|e| format!("{}", e)).collect(), &|s| write!(s, "{}", x)),
        ("Debug", elems.iter().map(|e| format!("{:?}", e)).collect(), &|s| write!(s, "{:?}", x)),
    ];
    for (mode, want, f) in &modes {
        let (s, r) = to_sink(f, None)?;
        ensure!(r.is_ok(), "{} fails on a sink that takes everything", mode);
        if let Err(e) = in_order(&s.text, name, want, columns) {
            return Err(Fail::new(format!("{}: {}", mode, e.msg)));
        }
        // fail at every write
        let n = s.writes;
        for k in 0..n.min(60) {
            let k = if n > 60 { c.s.idx(n) } else { k };
            let (p, r) = to_sink(f, Some(k))?;
            ensure!(r.is_err(), "{}: failure of write {} of {} is not reported", mode, k, n);
            ensure!(s.text.starts_with(&p.text) || p.writes <= k + 1, "{}: failure of write {} of {}: {:?}", mode, k, n, p.text);
        }
    }
    // a width is either passed to every element or to none
    let wide: [(&str, Vec<String>, String, &dyn Fn(&mut Sink) -> fmt::Result); 2] = [
        ("Display", elems.iter().map(|e| format!("{:*^9}", e)).collect(), x.to_string(), &|s| write!(s, "{:*^9}", x)),
        ("Debug", elems.iter().map(|e| format!("{:*^9?}", e)).collect(), format!("{:?}", x), &|s| write!(s, "{:*^9?}", x)),
    ];
    for (mode, want, plain, f) in &wide {
        let (s, r) = to_sink(f, None)?;
        ensure!(r.is_ok(), "{} fails on a sink that takes everything", mode);
        if s.text != *plain {
            if let Err(e) = in_order(&s.text, name, want, columns) {
                return Err(Fail::new(format!("{} with a width: {}", mode, e.msg)));
            }
        }
    }
    // the other ways to print must not panic, and report errors too
    for f in [
        &(|s: &mut Sink| write!(s, "{:#?}", x)) as &dyn Fn(&mut Sink) -> fmt::Result,
        &|s| write!(s, "{:8.3}", x),
        &|s| write!(s, "{:<+08.2?}", x),
    ] {
        let (s, r) = to_sink(f, None)?;
        ensure!(r.is_ok(), "fails on a sink that takes everything");
        if s.writes > 0 {
            let k = c.s.idx(s.writes);
            let (_, r) = to_sink(f, Some(k))?;
            ensure!(r.is_err(), "failure of write {} of {} is not reported", k, s.writes);
        }
    }
    Ok(())
}
fn vector<T: El, const N: usize>(c: &mut Cx) -> Res {
    let a: [T; N] = std::array::from_fn(|i| T::make(c, i));
    c.show(|| format!("{:?}", a));
    let v = Vector::from_array(a.clone());
    judge(c, &v, &format!("Vector{}", N), &a, None)
}
fn matrix<T: El, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let a: [[T; N]; M] = std::array::from_fn(|i| std::array::from_fn(|j| T::make(c, i * N + j)));
    c.show(|| format!("{:?}", a));
    let m = Matrix::from_array_of_arrays(a.clone());
    let flat: Vec<T> = a.iter().flatten().cloned().collect();
    judge(c, &m, &format!("Matrix{}x{}", M, N), &flat, Some(N))
}
fn complex<T: El>(c: &mut Cx) -> Res {
    let a = [T::make(c, 0), T::make(c, 1)];
    c.show(|| format!("{:?}", a));
    judge(c, &Complex::new(a[0].clone(), a[1].clone()), "Complex", &a, None)
}
fn quaternion<T: El>(c: &mut Cx) -> Res {
    let a: [T; 4] = std::array::from_fn(|i| T::make(c, i));
    c.show(|| format!("{:?}", a));
    judge(c, &Quaternion::new(a[0].clone(), a[1].clone(), a[2].clone(), a[3].clone()), "Quaternion", &a, None)
}
/// An element that refuses makes the whole fail.
fn refusing(c: &mut Cx) -> Res {
    let k = c.s.idx(6);
    let bad = c.s.idx(7);
    let m: [Mark; 6] = std::array::from_fn(|i| Mark(i as u32, i == bad));
    c.show(|| format!("kind {}, element {} refuses", k, bad));
    c.nontrivial(bad < 6);
    let mut s = [Sink { text: String::new(), writes: 0, fail: None, after: false }, Sink { text: String::new(), writes: 0, fail: None, after: false }];
    let [p, q] = &mut s;
    macro_rules! both {
        ($x:expr, $n:expr) => {{
            let x = $x;
            (write!(p, "{}", x), write!(q, "{:?}", x), $n)
        }};
    }
    let (a, b, n) = match k {
        0 => both!(Vector::from(m), 6),
        1 => both!(Matrix::from_array_of_arrays([[m[0], m[1], m[2]], [m[3], m[4], m[5]]]), 6),
        2 => both!(Matrix::from_array_of_arrays([[m[0], m[1]], [m[2], m[3]], [m[4], m[5]]]), 6),
        3 => both!(Complex::new(m[0], m[1]), 2),
        4 => both!(Quaternion::new(m[0], m[1], m[2], m[3]), 4),
        _ => both!(Vector::from([m[0]]), 1),
    };
    ensure!(a.is_err() == (bad < n), "Display is {:?} with element {} refusing", a, bad);
    ensure!(b.is_err() == (bad < n), "Debug is {:?} with element {} refusing", b, bad);
    Ok(())
}
macro_rules! all {
    ($p:ident; $($t:ty, $k:literal;)*) => {$(
        let n = |s: &str| format!("{} {}", s, stringify!($t));
        $p.sub(n("vector 0"), 2, vector::<$t, 0>);
        $p.sub(n("vector 1"), $k, vector::<$t, 1>);
        $p.sub(n("vector 2"), $k, vector::<$t, 2>);
        $p.sub(n("vector 3"), $k, vector::<$t, 3>);
        $p.sub(n("vector 4"), $k, vector::<$t, 4>);
        $p.sub(n("vector 12"), $k, vector::<$t, 12>);
        $p.sub(n("matrix 0x0"), 2, matrix::<$t, 0, 0>);
        $p.sub(n("matrix 0x3"), 2, matrix::<$t, 0, 3>);
        $p.sub(n("matrix 3x0"), 2, matrix::<$t, 3, 0>);
        $p.sub(n("matrix 1x1"), $k, matrix::<$t, 1, 1>);
        $p.sub(n("matrix 2x3"), $k, matrix::<$t, 2, 3>);
        $p.sub(n("matrix 3x2"), $k, matrix::<$t, 3, 2>);
        $p.sub(n("matrix 4x4"), $k, matrix::<$t, 4, 4>);
        $p.sub(n("matrix 1x5"), $k, matrix::<$t, 1, 5>);
        $p.sub(n("matrix 10x2"), $k, matrix::<$t, 10, 2>);
        $p.sub(n("complex"), $k, complex::<$t>);
        $p.sub(n("quaternion"), $k, quaternion::<$t>);
    )*};
}
/// One case each: the elements are all different.
macro_rules! sizes {
    ($p:ident; $($n:literal)*;) => {$(
        $p.sub(concat!("vector ", $n, " marked"), 1, vector::<Mark, $n>);
    )*};
}
macro_rules! wide {
    ($p:ident; $($m:literal $n:literal,)*) => {$(
        $p.sub(concat!("matrix ", $m, "x", $n, " marked"), 1, matrix::<Mark, $m, $n>);
    )*};
}
fn main() {
    let mut p = Prop::new("C34", "more than one element (refusing elements: one of them refuses)");
    all!(p; Mark, 5; i32, 80; u128, 30; f64, 80; f32, 40; bool, 10; &'static str, 60; char, 30; Complex<i32>, 30; Vector<u8, 2>, 30;);
    sizes!(p; 5 6 7 8 9 10 11 13 15 16 17 20 21 31 32 33 48 64 65 100 128 257 300 1000;);
    wide!(p; 1 8, 1 9, 1 11, 1 16, 1 17, 1 33, 2 1, 2 2, 3 1, 4 1, 5 1, 8 1, 9 1, 11 1, 16 1, 17 1, 33 1, 2 4, 2 5, 2 7, 2 12, 4 2, 5 3, 3 4, 3 5, 3 7, 4 3, 4 5, 5 5, 6 6, 7 3, 7 7, 8 8, 9 2, 9 9, 10 10, 11 2, 3 11, 12 12, 3 17, 17 3, 5 20, 1 300, 300 1, 16 17, 40 37,);
    p.sub("matrix 12x12 i32", 5, matrix::<i32, 12, 12>);
    p.sub("vector 20 f64", 5, vector::<f64, 20>);
    p.sub("refusing elements", 300, refusing);
    p.main();
}
