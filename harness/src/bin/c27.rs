//! C27: every transformation kind forms a group acting on points.
use vecmat::{
    complex::{Complex, Moebius, Quaternion},
    transform::{Chain, Linear, Rotation2, Rotation3, Scale, Shift},
    Transform, Vector,
};
use vh::{custom::*, elems::*, engine::*, ensure, tf::*};

/// A primitive, forwards or backwards.
type Step<P> = (P, bool);
fn fold<P: Tf<V>, V: Pt>(steps: &[Step<P>], mut x: V, mag: &mut f64) -> Option<V> {
    for (p, inverted) in steps {
        x = if *inverted { p.back(x)? } else { p.model(x)? };
        *mag = mag.max(x.size());
    }
    Some(x)
}
/// Laws on three transformations.
fn laws<P: Tf<V>, V: Pt>(c: &mut Cx) -> Res {
    let (p, q, r) = (P::gen(c), P::gen(c), P::gen(c));
    let x = V::gen(c);
    c.show(|| format!("{:?}, {:?}, {:?} at {:?}", p, q, r, x));
    c.nontrivial(true);
    let id = <P as Transform<V>>::identity;
    same("identity", id().apply(x), x, 0.0)?;
    let mut m = 10.0 + x.size();
    if let Some(y) = p.model(x) {
        same("apply", p.apply(x), y, m)?;
        same("identity on the left", id().chain(p).apply(x), y, m)?;
        same("identity on the right", p.chain(id()).apply(x), y, m)?;
        m = m.max(y.size()) * 10.0;
        if p.back(y).is_some() {
            same("inverse after the map", p.inv().apply(p.apply(x)), x, m)?;
            same("inverse chained with the map", p.inv().chain(p).apply(x), x, m)?;
            same("inverse of the inverse", p.inv().inv().apply(x), y, m)?;
        }
    }
    if let Some(y) = p.back(x) {
        let m = 10.0 * (10.0 + x.size() + y.size());
        same("inverse", p.inv().apply(x), y, m)?;
        same("map chained with the inverse", p.chain(p.inv()).apply(x), x, m)?;
    }
    same("inverse of the identity", id().inv().apply(x), x, 0.0)?;
    let s = [(r, false), (q, false), (p, false)];
    let mut m = x.size() + 10.0;
    if let Some(y) = fold(&s[..2], x, &mut m) {
        same("chain of two", q.chain(r).apply(x), y, m * 10.0)?;
    }
    if let Some(y) = fold(&s, x, &mut m) {
        same("chain of three", p.chain(q).chain(r).apply(x), y, m * 100.0)?;
        same("chain of three, other grouping", p.chain(q.chain(r)).apply(x), y, m * 100.0)?;
    }
    let s = [(p, true), (q, true)];
    let mut m = x.size() + 10.0;
    if let Some(y) = fold(&s, x, &mut m) {
        same("inverse of a chain", p.chain(q).inv().apply(x), y, m * 100.0)?;
    }
    Ok(())
}
/// A transformation built by a sequence of operations against the list of its steps.
fn history<P: Tf<V>, V: Pt>(c: &mut Cx) -> Res {
    let max = if V::S::EXACT { 14 } else { 3 };
    let n = 1 + c.s.idx(max);
    let mut t = <P as Transform<V>>::identity();
    let mut steps: Vec<Step<P>> = Vec::new();
    let mut log: Vec<String> = Vec::new();
    let (mut inversions, mut sides) = (0, [0; 2]);
    let x = V::gen(c);
    for _ in 0..n {
        match c.s.below(10) {
            0..=2 => {
                let p = P::gen(c);
                log.push(format!("left {:?}", p));
                t = p.chain(t);
                steps.push((p, false));
                sides[0] += 1;
            }
            3..=5 => {
                let p = P::gen(c);
                log.push(format!("right {:?}", p));
                t = t.chain(p);
                steps.insert(0, (p, false));
                sides[1] += 1;
            }
            6..=7 => {
                log.push("inv".into());
                t = t.inv();
                steps.reverse();
                steps.iter_mut().for_each(|s| s.1 = !s.1);
                inversions += 1;
            }
            8 => {
                if V::S::EXACT && !steps.is_empty() && steps.len() <= 8 {
                    log.push("square".into());
                    t = t.chain(t);
                    steps.extend(steps.clone());
                }
            }
            _ => {
                // insert a pair that cancels out, on either side
                let p = P::gen(c);
                let left = c.s.bool();
                if left {
                    log.push(format!("cancelling left {:?}", p));
                    t = p.chain(p.inv()).chain(t);
                    steps.extend([(p, true), (p, false)]);
                } else {
                    log.push(format!("cancelling right {:?}", p));
                    t = t.chain(p.inv().chain(p));
                    steps.splice(0..0, [(p, false), (p, true)]);
                }
            }
        }
        let mut mag = 10.0 + x.size();
        if let Some(y) = fold(&steps, x, &mut mag) {
            let m = mag * if V::S::EXACT { 0.0 } else { 100.0 };
            if let Err(f) = same("after the operations", t.apply(x), y, m) {
                let l = log.join("; ");
                c.show(|| format!("{} at {:?}", l, x));
                return Err(f);
            }
        }
    }
    c.show(|| format!("{} at {:?}", log.join("; "), x));
    c.nontrivial(inversions > 0 && sides[0] > 0 && sides[1] > 0);
    Ok(())
}
/// Exact group laws over the integers where inverses are exact too.
fn integer(c: &mut Cx) -> Res {
    // unimodular: a product of elementary matrices
    let mut a = [[0i64; 3]; 3];
    for (i, r) in a.iter_mut().enumerate() {
        r[i] = if c.s.bool() { -1 } else { 1 };
    }
    for _ in 0..c.s.idx(5) {
        let (i, j, k) = (c.s.idx(3), c.s.idx(3), c.s.zigzag(3));
        if i != j {
            for l in 0..3 {
                a[i][l] += k * a[j][l];
            }
        }
    }
    let mut v = || -> [i64; 3] { std::array::from_fn(|_| c.s.zigzag(50)) };
    let (b, x) = (v(), v());
    c.show(|| format!("{:?} x + {:?} at {:?}", a, b, x));
    c.nontrivial(a != [[1, 0, 0], [0, 1, 0], [0, 0, 1]] && b != [0; 3]);
    let t = Chain::new(Shift::from_vector(Vector::from(b)), Linear::from_matrix(vecmat::Matrix::from(a)));
    let y: [i64; 3] = std::array::from_fn(|i| b[i] + (0..3).map(|j| a[i][j] * x[j]).sum::<i64>());
    let (x, y) = (Vector::from(x), Vector::from(y));
    ensure!(t.apply(x) == y, "apply: {:?}, expected {:?}", t.apply(x), y);
    ensure!(t.inv().apply(y) == x, "inverse: {:?}, expected {:?}", t.inv().apply(y), x);
    ensure!(t.chain(t.inv()).apply(x) == x, "chained with the inverse: {:?}, expected {:?}", t.chain(t.inv()).apply(x), x);
    ensure!(t.inv().chain(t).apply(x) == x, "inverse chained: {:?}, expected {:?}", t.inv().chain(t).apply(x), x);
    Ok(())
}
fn kind<P: Tf<V>, V: Pt>(p: &mut Prop, name: &str, cases: u64) {
    p.sub(format!("laws, {}", name), cases, laws::<P, V>);
    p.sub(format!("history, {}", name), cases, history::<P, V>);
}
type V<T, const N: usize> = Vector<T, N>;
type Ch<A, B, T, const N: usize> = Chain<A, B, Vector<T, N>>;
macro_rules! all {
    ($p:ident; $($t:ty, $k:literal;)*) => {$(
        let s = stringify!($t);
        kind::<Shift<$t, 1>, V<$t, 1>>(&mut $p, &format!("shift 1 {}", s), $k / 4);
        kind::<Shift<$t, 2>, V<$t, 2>>(&mut $p, &format!("shift 2 {}", s), $k / 8);
        kind::<Shift<$t, 3>, V<$t, 3>>(&mut $p, &format!("shift 3 {}", s), $k / 8);
        kind::<Shift<$t, 5>, V<$t, 5>>(&mut $p, &format!("shift 5 {}", s), $k / 8);
        kind::<Shift<$t, 6>, V<$t, 6>>(&mut $p, &format!("shift 6 {}", s), $k / 8);
        kind::<Shift<$t, 8>, V<$t, 8>>(&mut $p, &format!("shift 8 {}", s), $k / 8);
        kind::<Shift<$t, 17>, V<$t, 17>>(&mut $p, &format!("shift 17 {}", s), $k / 8);
        kind::<Scale<$t>, V<$t, 1>>(&mut $p, &format!("scale 1 {}", s), $k / 8);
        kind::<Scale<$t>, V<$t, 3>>(&mut $p, &format!("scale 3 {}", s), $k / 8);
        kind::<Scale<$t>, V<$t, 9>>(&mut $p, &format!("scale 9 {}", s), $k / 8);
        kind::<Linear<$t, 5>, V<$t, 5>>(&mut $p, &format!("linear 5 {}", s), $k / 8);
        kind::<Linear<$t, 6>, V<$t, 6>>(&mut $p, &format!("linear 6 {}", s), $k / 8);
        kind::<Ch<Shift<$t, 5>, Linear<$t, 5>, $t, 5>, V<$t, 5>>(&mut $p, &format!("shift linear 5 {}", s), $k / 8);
        kind::<Ch<Linear<$t, 5>, Shift<$t, 5>, $t, 5>, V<$t, 5>>(&mut $p, &format!("linear shift 5 {}", s), $k / 8);
        kind::<Ch<Shift<$t, 6>, Scale<$t>, $t, 6>, V<$t, 6>>(&mut $p, &format!("shift scale 6 {}", s), $k / 8);
        kind::<Shift<$t, 4>, V<$t, 4>>(&mut $p, &format!("shift 4 {}", s), $k / 4);
        kind::<Scale<$t>, V<$t, 2>>(&mut $p, &format!("scale 2 {}", s), $k / 4);
        kind::<Scale<$t>, V<$t, 5>>(&mut $p, &format!("scale 5 {}", s), $k / 4);
        kind::<Linear<$t, 1>, V<$t, 1>>(&mut $p, &format!("linear 1 {}", s), $k / 4);
        kind::<Linear<$t, 2>, V<$t, 2>>(&mut $p, &format!("linear 2 {}", s), $k);
        kind::<Linear<$t, 3>, V<$t, 3>>(&mut $p, &format!("linear 3 {}", s), $k);
        kind::<Linear<$t, 4>, V<$t, 4>>(&mut $p, &format!("linear 4 {}", s), $k / 2);
        kind::<Rotation2<$t>, V<$t, 2>>(&mut $p, &format!("rotation 2 {}", s), $k);
        kind::<Rotation3<$t>, V<$t, 3>>(&mut $p, &format!("rotation 3 {}", s), $k);
        kind::<Moebius<Complex<$t>>, Complex<$t>>(&mut $p, &format!("moebius at complex points {}", s), $k);
        kind::<Moebius<Complex<$t>>, Quaternion<$t>>(&mut $p, &format!("moebius at quaternion points {}", s), $k);
        kind::<Ch<Shift<$t, 1>, Linear<$t, 1>, $t, 1>, V<$t, 1>>(&mut $p, &format!("shift linear 1 {}", s), $k / 4);
        kind::<Ch<Shift<$t, 2>, Linear<$t, 2>, $t, 2>, V<$t, 2>>(&mut $p, &format!("shift linear 2 {}", s), $k / 2);
        kind::<Ch<Shift<$t, 3>, Linear<$t, 3>, $t, 3>, V<$t, 3>>(&mut $p, &format!("shift linear 3 {}", s), $k);
        kind::<Ch<Shift<$t, 4>, Linear<$t, 4>, $t, 4>, V<$t, 4>>(&mut $p, &format!("shift linear 4 {}", s), $k / 4);
        kind::<Ch<Linear<$t, 3>, Shift<$t, 3>, $t, 3>, V<$t, 3>>(&mut $p, &format!("linear shift 3 {}", s), $k);
        kind::<Ch<Linear<$t, 2>, Shift<$t, 2>, $t, 2>, V<$t, 2>>(&mut $p, &format!("linear shift 2 {}", s), $k / 2);
        kind::<Ch<Shift<$t, 3>, Scale<$t>, $t, 3>, V<$t, 3>>(&mut $p, &format!("shift scale 3 {}", s), $k);
        kind::<Ch<Shift<$t, 1>, Scale<$t>, $t, 1>, V<$t, 1>>(&mut $p, &format!("shift scale 1 {}", s), $k / 4);
        kind::<Ch<Scale<$t>, Shift<$t, 3>, $t, 3>, V<$t, 3>>(&mut $p, &format!("scale shift 3 {}", s), $k);
        kind::<Ch<Scale<$t>, Shift<$t, 4>, $t, 4>, V<$t, 4>>(&mut $p, &format!("scale shift 4 {}", s), $k / 4);
        kind::<Ch<Shift<$t, 2>, Rotation2<$t>, $t, 2>, V<$t, 2>>(&mut $p, &format!("shift rotation 2 {}", s), $k);
        kind::<Ch<Rotation2<$t>, Shift<$t, 2>, $t, 2>, V<$t, 2>>(&mut $p, &format!("rotation shift 2 {}", s), $k);
        kind::<Ch<Shift<$t, 3>, Rotation3<$t>, $t, 3>, V<$t, 3>>(&mut $p, &format!("shift rotation 3 {}", s), $k);
        kind::<Ch<Rotation3<$t>, Shift<$t, 3>, $t, 3>, V<$t, 3>>(&mut $p, &format!("rotation shift 3 {}", s), $k);
        kind::<Chain<Moebius<Complex<$t>>, Flip, Complex<$t>>, Complex<$t>>(&mut $p, &format!("moebius and user-defined flip at complex points {}", s), $k / 2);
        kind::<Chain<Flip, Moebius<Complex<$t>>, Quaternion<$t>>, Quaternion<$t>>(&mut $p, &format!("user-defined flip and moebius at quaternion points {}", s), $k / 2);
    )*};
}
fn main() {
    let mut p = Prop::new("C27", "laws: three generated transformations; histories: at least one inversion and chaining on both sides; integers: neither part is the identity");
    all!(p; F, 1000; f64, 600; f32, 600;);
    kind::<Chain<Times, Power, Pf>, Pf>(&mut p, "user-defined times power", 600);
    kind::<Chain<Power, Times, Pf>, Pf>(&mut p, "user-defined power times", 600);
    p.sub("unimodular affine maps over the integers", 3000, integer);
    p.finding(
        "moebius-quat-inv",
        "the inverse of a Moebius map whose quaternion coefficients do not commute does not undo it: [[1, i], [j, 2]]",
        || {
            let q = |w: f64, x: f64, y: f64, z: f64| Quaternion::new(w, x, y, z);
            let m = Moebius::new(q(1., 0., 0., 0.), q(0., 1., 0., 0.), q(0., 0., 1., 0.), q(2., 0., 0., 0.));
            let x = q(0.3, -0.2, 0.5, 0.7);
            let g = m.chain(m.inv()).apply(x);
            same("map chained with its inverse", g, x, 0.0)
        },
    );
    let table = vh::alias_table![vecmat::transform::Linear2<f32> => Linear<f32, 2>, vecmat::transform::Shift2<f32> => Shift<f32, 2>, vecmat::transform::Affine2<f32> => Chain<Shift<f32, 2>, Linear<f32, 2>, Vector<f32, 2>>, vecmat::transform::Linear3<f32> => Linear<f32, 3>, vecmat::transform::Shift3<f32> => Shift<f32, 3>, vecmat::transform::Affine3<f32> => Chain<Shift<f32, 3>, Linear<f32, 3>, Vector<f32, 3>>, vecmat::transform::Linear4<f32> => Linear<f32, 4>, vecmat::transform::Shift4<f32> => Shift<f32, 4>, vecmat::transform::Affine4<f32> => Chain<Shift<f32, 4>, Linear<f32, 4>, Vector<f32, 4>>];
    p.sub("aliases", 40, move |c: &mut Cx| vh::aliases(c, &table));
    p.main();
}
