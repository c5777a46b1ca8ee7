//! Float comparisons.
use crate::gen::Fl;

/// `a` and `b` differ by at most `k` units of rounding of a computation whose terms have total
/// magnitude `mag`; equal infinities and two NaNs count as close.
pub fn near<T: Fl>(a: T, b: T, mag: f64, k: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    (a.f() - b.f()).abs() <= k * T::EPS * mag + 1e3 * T::min_positive_value().f()
}
/// Same against a reference computed in f64.
pub fn nearf<T: Fl>(a: T, b: f64, mag: f64, k: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.f() == b {
        return true;
    }
    (a.f() - b).abs() <= k * T::EPS * mag + 1e3 * T::min_positive_value().f()
}
/// Component by component: equal, both not a number, or finite within four roundings.
pub fn close<T: Fl>(what: &str, got: &[T], want: &[T]) -> crate::engine::Res {
    for (g, w) in got.iter().zip(want) {
        let ok = g == w || (g.is_nan() && w.is_nan()) || (g.is_finite() && w.is_finite() && (g.f() - w.f()).abs() <= 4.0 * T::EPS * w.f().abs() + 4.0 * T::EPS * T::min_positive_value().f());
        crate::ensure!(ok, "{}: {:?}, expected {:?}", what, got, want);
    }
    Ok(())
}
/// Distance in units in the last place (large for different signs or NaN mismatch).
pub fn ulps64(a: f64, b: f64) -> u64 {
    if a.is_nan() && b.is_nan() || a == b {
        return 0;
    }
    if a.is_nan() || b.is_nan() {
        return u64::MAX;
    }
    let k = |x: f64| {
        let b = x.to_bits() as i64;
        if b < 0 {
            i64::MIN.wrapping_sub(b)
        } else {
            b
        }
    };
    k(a).abs_diff(k(b))
}
pub fn ulps32(a: f32, b: f32) -> u64 {
    if a.is_nan() && b.is_nan() || a == b {
        return 0;
    }
    if a.is_nan() || b.is_nan() {
        return u64::MAX;
    }
    let k = |x: f32| {
        let b = x.to_bits() as i32;
        if b < 0 {
            i32::MIN.wrapping_sub(b)
        } else {
            b
        }
    };
    k(a).abs_diff(k(b)) as u64
}
