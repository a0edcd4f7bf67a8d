//! C41: approximations keep the order of their arguments and have no jumps.

use crate::engine::{random, sweep, Property, Src, Sw, R};
use crate::ensure;
use crate::floats::{x, ALL};
use crate::gen::*;
use crate::oracle::*;

/// Position of a float in the order of all floats (zeros coincide).
fn key(v: f32) -> i64 {
    let b = v.to_bits() as i64;
    if b >> 31 == 0 {
        b
    } else {
        -(b & 0x7fff_ffff)
    }
}

fn unkey(k: i64) -> f32 {
    let v = f32::from_bits(k.unsigned_abs() as u32);
    if k < 0 {
        -v
    } else {
        v
    }
}

struct Fun {
    name: &'static str,
    f: fn(f32) -> f32,
    /// domain
    lo: f32,
    hi: f32,
    falls: bool,
    /// how far a result may go the wrong way: absolute, and relative to itself
    abs: f64,
    rel: f64,
    /// the largest difference of two results for arguments `dx` apart (relative `dr`), or nothing
    step: Option<fn(f64, f64, f64) -> f64>,
}

use std::f32::consts::{FRAC_PI_2, PI};
const TINY: f32 = f32::MIN_POSITIVE;
const BIG: f32 = f32::MAX;

fn slope1(dx: f64, _: f64, _: f64) -> f64 {
    1.25 * dx + 1e-6
}
fn arc(_: f64, _: f64, _: f64) -> f64 {
    3e-3
}
fn same_scale(_: f64, dr: f64, y: f64) -> f64 {
    (2.1 * dr + 5e-7) * y
}

const fn fun(name: &'static str, f: fn(f32) -> f32, (lo, hi): (f32, f32), falls: bool, (abs, rel): (f64, f64), step: Option<fn(f64, f64, f64) -> f64>) -> Fun {
    Fun { name, f, lo, hi, falls, abs, rel, step }
}

static FUNS: &[Fun] = &[
    fun("atan", x::atan, (-BIG, BIG), false, (1e-6, 0.0), Some(slope1)),
    fun("atan_norm", x::atan_norm, (-BIG, BIG), false, (1e-6, 0.0), Some(slope1)),
    fun("asin", x::asin, (-1.0, 1.0), false, (1e-6, 0.0), Some(arc)),
    fun("acos", x::acos, (-1.0, 1.0), true, (1.5e-6, 0.0), Some(arc)),
    fun("sin", x::sin, (-FRAC_PI_2, FRAC_PI_2), false, (1e-6, 0.0), None),
    fun("sin", x::sin, (-PI, PI), false, (9.0, 0.0), Some(slope1)),
    fun("cos", x::cos, (0.0, PI), true, (1e-6, 0.0), None),
    fun("cos", x::cos, (-PI, PI), false, (9.0, 0.0), Some(slope1)),
    fun("tan", x::tan, (-1.55, 1.55), false, (1e-6, 1e-6), None),
    fun("exp", x::exp, (-87.0, 88.7), false, (0.0, 1e-4), None),
    fun("cosh", x::cosh, (0.0, 88.7), false, (0.0, 1e-4), None),
    fun("ln", x::ln, (1e-45, BIG), false, (2e-5, 0.0), None),
    fun("log2", x::log2, (1e-45, BIG), false, (3e-5, 0.0), None),
    fun("log10", x::log10, (1e-45, BIG), false, (1e-5, 0.0), None),
    fun("inv", x::inv, (TINY, 8e37), true, (0.0, 3e-7), Some(same_scale)),
    fun("inv", x::inv, (-8e37, -TINY), true, (0.0, 3e-7), Some(same_scale)),
    fun("recip", x::recip, (TINY, 8e37), true, (0.0, 4e-5), None),
    fun("recip", x::recip, (-8e37, -TINY), true, (0.0, 4e-5), None),
    fun("sqrt", x::sqrt, (TINY, BIG), false, (0.0, 3e-7), Some(same_scale)),
    fun("invsqrt", x::invsqrt, (TINY, BIG), true, (0.0, 3e-7), Some(same_scale)),
];

fn order(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    if !v.is_finite() {
        return Ok(());
    }
    let k = key(v);
    // a distance of 1 to 2^27 floats, different from one argument to the next
    let far = 1i64 << (b.wrapping_mul(0x9e37_79b9) >> 16) % 28;
    // and one within the reach of the bounds on steps
    let near = 1 + (b.wrapping_mul(0x85eb_ca6b) >> 26) as i64;
    let mut any = false;
    for f in FUNS {
        if !(f.lo <= v && v <= f.hi) {
            continue;
        }
        any = true;
        let y = (f.f)(v) as f64;
        for d in [1, near, far] {
            let w = if k + d > key(BIG) { BIG } else { unkey(k + d) };
            if !(w <= f.hi) || w == v {
                continue;
            }
            let z = (f.f)(w) as f64;
            let back = if f.falls { z - y } else { y - z };
            let limit = f.abs + f.rel * y.abs();
            sw.ratio(if back > 0.0 { back / limit } else { 0.0 });
            ensure!(
                back <= limit,
                "{}({}) = {y:e} but {}({}) = {z:e}: {}s by {back:e} on the way up",
                f.name,
                show(v),
                f.name,
                show(w),
                if f.falls { "rise" } else { "fall" }
            );
            if let (Some(s), true) = (f.step, d <= 64) {
                let dx = w as f64 - v as f64;
                let limit = s(dx, dx / v.abs().min(w.abs()) as f64, y.abs());
                let jump = (z - y).abs();
                sw.ratio(jump / limit);
                ensure!(jump <= limit, "{}({}) = {y:e} but {}({}) = {z:e}: a jump of {jump:e}", f.name, show(v), f.name, show(w));
            }
        }
    }
    sw.nontrivial += any as u64;
    Ok(())
}

/// atan2 once around a circle
fn around(s: &mut Src) -> R {
    let at = |t: f64, r: f64| ((r * t.sin()) as f32, (r * t.cos()) as f32);
    let t = match s.upto(3) {
        // next to an eighth of a turn
        0 => s.range(-8, 8) as f64 * std::f64::consts::FRAC_PI_4 + s.range(-1000, 1000) as f64 * 1e-8,
        1 => s.range(-8, 8) as f64 * std::f64::consts::FRAC_PI_4 + s.range(-1000, 1000) as f64 * 1e-5,
        _ => s.range(-31_000_000, 31_000_000) as f64 * 1e-7,
    };
    let d = 10f64.powf(s.range(-80, -10) as f64 / 10.0);
    let r = f32_mag(s, -30, 30) as f64;
    let ((y, v), (y2, v2)) = (at(t, r.abs()), at(t + d, r.abs()));
    s.desc(|| format!("atan2({}, {}) and atan2({}, {})", show(y), show(v), show(y2), show(v2)));
    let (a, b) = ((y as f64).atan2(v as f64), (y2 as f64).atan2(v2 as f64));
    s.nontrivial();
    for (what, p, q, unit) in [
        ("atan2", x::atan2(y, v), x::atan2(y2, v2), 1.0),
        ("atan2_norm", x::atan2_norm(y, v), x::atan2_norm(y2, v2), std::f64::consts::FRAC_PI_2),
    ] {
        let turn = |t: f64| t - (t / std::f64::consts::TAU).round() * std::f64::consts::TAU;
        let (truly, got) = (turn(b - a), turn((q as f64 - p as f64) * unit));
        s.ratio((-got).max(got - 1.3 * truly) / 2e-6);
        ensure!(
            got >= -2e-6 && got <= 1.3 * truly + 2e-6,
            "{what}(y = {}, x = {}) = {p} and {what}(y = {}, x = {}) = {q}: {truly:e} rad apart, but the results {got:e}",
            show(y),
            show(v),
            show(y2),
            show(v2)
        );
    }
    Ok(())
}

pub fn c41() -> Property {
    Property {
        id: "C41",
        rule: "Bit patterns on a stride (landmarks always) as the lower argument of every function whose domain they are in, each with its upper neighbour, one of up to 64 floats above and one of up to 2^27 above; pairs of points on circles of any radius for atan2, half of them next to the eighths of a turn. Non-trivial: in the domain of at least one function.",
        tasks: vec![sweep("one argument", ALL, 13, order), random("around a circle", 60_000_000, around)],
        assumptions: crate::floats::ASSUME,
    }
}
