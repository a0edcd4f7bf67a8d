//! Comparisons used by the oracles.

/// Same bits, or both NaN.
#[inline]
pub fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// Same value (zeros are equal), or both NaN.
#[inline]
pub fn eqv(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Position on the line of floats, so that neighbours differ by one.
#[inline]
pub fn ord(x: f32) -> i64 {
    let b = x.to_bits() as i32;
    if b < 0 {
        (i32::MIN as i64) - b as i64
    } else {
        b as i64
    }
}

#[inline]
pub fn ulps(a: f32, b: f32) -> i64 {
    (ord(a) - ord(b)).abs()
}

pub fn show(x: f32) -> String {
    format!("{x:?} ({:#010x})", x.to_bits())
}

/// Difference of two angles modulo a full turn.
pub fn angle_diff(a: f64, b: f64) -> f64 {
    let t = std::f64::consts::TAU;
    let d = (a - b).rem_euclid(t);
    d.min(t - d)
}

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
