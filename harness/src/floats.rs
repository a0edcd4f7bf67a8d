//! C01..C15: float functions.

use crate::engine::{random, sweep, Property, Src, Sw, R};
use crate::gen::*;
use crate::oracle::*;
use crate::{ensure, fail};
use micromath::F32;

pub const ALL: u64 = 1 << 32;
const SWEEP_RULE: &str = "Every f32 bit pattern is enumerated in order; non-trivial: finite, non-zero inputs in the accuracy domain of the statement. Generated pairs come from the structured float generator (integers, special values, literals of the sources, neighbours, log-uniform, uniform bits, related operands); non-trivial: inside the stated domain. A panic (overflow checks are on) is a violation.";
pub const ASSUME: &[&str] = &["f64 functions of the platform's libm are accurate to 1e-14 relative"];


/// `F32Ext` methods, never std's or core's inherent ones.
pub mod x {
    use micromath::F32Ext as T;
    macro_rules! un { ($($n:ident)*) => { $(#[inline] pub fn $n(a: f32) -> f32 { <f32 as T>::$n(a) })* } }
    macro_rules! bi { ($($n:ident)*) => { $(#[inline] pub fn $n(a: f32, b: f32) -> f32 { <f32 as T>::$n(a, b) })* } }
    un!(abs acos asin atan atan_norm ceil cos exp floor fract inv invsqrt ln log2 log10 recip round signum sin sqrt tan trunc);
    bi!(atan2 atan2_norm copysign div_euclid hypot log powf rem_euclid);
    #[inline]
    pub fn sin_cos(a: f32) -> (f32, f32) {
        <f32 as T>::sin_cos(a)
    }
    #[inline]
    pub fn powi(a: f32, n: i32) -> f32 {
        <f32 as T>::powi(a, n)
    }
    #[inline]
    pub fn mul_add(a: f32, b: f32, c: f32) -> f32 {
        <f32 as T>::mul_add(a, b, c)
    }
    #[inline]
    pub fn cosh(a: f32) -> f32 {
        micromath::F32(a).cosh().0
    }
}

// ------------------------------------------------------------------ C01, C02, C03

fn rounding(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    if v.is_finite() && v != 0.0 {
        sw.nontrivial += 1;
    }
    macro_rules! chk {
        ($n:ident) => {
            let (got, want) = (x::$n(v), v.$n());
            ensure!(eqv(got, want), "{}({}) = {}, expected {}", stringify!($n), show(v), show(got), show(want));
        };
    }
    chk!(trunc);
    chk!(floor);
    chk!(ceil);
    chk!(round);
    let t = x::trunc(v);
    ensure!(
        v.is_nan() || t.is_sign_negative() == v.is_sign_negative(),
        "trunc({}) = {} lost the sign",
        show(v),
        show(t)
    );
    Ok(())
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: SWEEP_RULE,
        tasks: vec![sweep("rounding", ALL, 1, rounding)],
        assumptions: &["std's f32 trunc, floor, ceil and round are exact"],
    }
}

fn fract(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    let f = x::fract(v);
    if !v.is_finite() {
        ensure!(f.is_nan(), "fract({}) = {}, expected NaN", show(v), show(f));
        return Ok(());
    }
    let want = v - v.trunc();
    sw.nontrivial += (want != 0.0) as u64;
    ensure!(f == want, "fract({}) = {}, expected {}", show(v), show(f), show(want));
    ensure!(f == 0.0 || f.is_sign_negative() == v.is_sign_negative(), "fract({}) = {} has the wrong sign", show(v), show(f));
    let t = x::trunc(v);
    ensure!(t + f == v, "trunc + fract of {} is {} + {}", show(v), show(t), show(f));
    Ok(())
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "Every f32 bit pattern is enumerated; non-trivial: the exact fraction is not zero.",
        tasks: vec![sweep("fract", ALL, 1, fract)],
        assumptions: &["std's f32 trunc and subtraction are exact"],
    }
}

fn signs1(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    sw.nontrivial += 1;
    let a = x::abs(v);
    ensure!(a.to_bits() == b & 0x7fff_ffff, "abs({}) = {}", show(v), show(a));
    let s = x::signum(v);
    if v.is_nan() {
        ensure!(s.is_nan(), "signum({}) = {}", show(v), show(s));
    } else {
        let w = if b >> 31 == 1 { -1.0f32 } else { 1.0 };
        ensure!(s.to_bits() == w.to_bits(), "signum({}) = {}", show(v), show(s));
    }
    let w = F32(v);
    ensure!(w.is_nan() == v.is_nan(), "is_nan({})", show(v));
    ensure!(w.is_infinite() == v.is_infinite(), "is_infinite({})", show(v));
    ensure!(w.is_finite() == v.is_finite(), "is_finite({})", show(v));
    ensure!(w.is_sign_positive() == v.is_sign_positive(), "is_sign_positive({})", show(v));
    ensure!(w.is_sign_negative() == v.is_sign_negative(), "is_sign_negative({})", show(v));
    ensure!(w.to_bits() == b, "to_bits({})", show(v));
    ensure!(F32::from_bits(b).0.to_bits() == b, "from_bits({b:#010x})");
    // copysign with the four kinds of sign operand
    for (i, sgn) in [1.0f32, -1.0, 0.0, -0.0, f32::NAN, -f32::NAN].iter().enumerate() {
        let want = (b & 0x7fff_ffff) | (sgn.to_bits() & 0x8000_0000);
        let _ = i;
        ensure!(x::copysign(v, *sgn).to_bits() == want, "copysign({}, {}) = {}", show(v), show(*sgn), show(x::copysign(v, *sgn)));
        let want = (sgn.to_bits() & 0x7fff_ffff) | (b & 0x8000_0000);
        ensure!(x::copysign(*sgn, v).to_bits() == want, "copysign({}, {}) = {}", show(*sgn), show(v), show(x::copysign(*sgn, v)));
    }
    Ok(())
}

fn copysign2(s: &mut Src) -> R {
    let a = if s.one_in(8) { nan(s) } else { f32_any(s) };
    let b = if s.one_in(8) { nan(s) } else { f32_related(s, a) };
    s.nontrivial_if(a.is_sign_negative() != b.is_sign_negative());
    s.desc(|| format!("copysign({}, {})", show(a), show(b)));
    let got = x::copysign(a, b);
    let want = (a.to_bits() & 0x7fff_ffff) | (b.to_bits() & 0x8000_0000);
    ensure!(got.to_bits() == want, "copysign({}, {}) = {}, expected bits {want:#010x}", show(a), show(b), show(got));
    let got = F32(a).copysign(F32(b)).0;
    ensure!(got.to_bits() == want, "F32 copysign({}, {}) = {}, expected bits {want:#010x}", show(a), show(b), show(got));
    Ok(())
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "Every f32 bit pattern is enumerated (with six fixed partners for copysign), all counted as non-trivial; generated pairs for copysign, non-trivial when the two signs differ.",
        tasks: vec![sweep("abs_signum_classify", ALL, 1, signs1), random("copysign", 16_000_000, copysign2)],
        assumptions: &[],
    }
}

// ------------------------------------------------------------------ C04, C05

fn sincos(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    let (s, c) = (x::sin(v), x::cos(v));
    let p = x::sin_cos(v);
    ensure!(same(p.0, s) && same(p.1, c), "sin_cos({}) = ({}, {}), but sin = {} and cos = {}", show(v), show(p.0), show(p.1), show(s), show(c));
    if !v.is_finite() {
        ensure!(s.is_nan() && c.is_nan(), "sin, cos of {} = {}, {}", show(v), show(s), show(c));
        return Ok(());
    }
    ensure!(s.abs() <= 1.000001 && c.abs() <= 1.000001, "sin, cos of {} out of range: {}, {}", show(v), show(s), show(c));
    let m = v.abs();
    if m <= 4194304.0 {
        sw.nontrivial += 1;
        let bound = if m <= 4096.0 { 0.002 } else { 0.002 + m as f64 * 3e-7 };
        let (ws, wc) = (v as f64).sin_cos();
        let (es, ec) = ((s as f64 - ws).abs(), (c as f64 - wc).abs());
        sw.ratio(es / bound);
        sw.ratio(ec / bound);
        ensure!(es <= bound, "sin({}) = {}, off by {es:e} from {ws}", show(v), show(s));
        ensure!(ec <= bound, "cos({}) = {}, off by {ec:e} from {wc}", show(v), show(c));
    }
    Ok(())
}

pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: SWEEP_RULE,
        tasks: vec![sweep("sin_cos", ALL, 1, sincos)],
        assumptions: ASSUME,
    }
}

fn tan(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    let t = x::tan(v);
    if !v.is_finite() {
        ensure!(t.is_nan(), "tan({}) = {}", show(v), show(t));
        return Ok(());
    }
    if v.abs() <= 1024.0 {
        sw.nontrivial += 1;
        let w = (v as f64).tan();
        if w.abs() <= 30.0 {
            let bound = (0.002 + 0.02 * w.abs()).min(0.6);
            let e = (t as f64 - w).abs();
            sw.ratio(e / bound);
            ensure!(e <= bound, "tan({}) = {}, off by {e:e} from {w}", show(v), show(t));
        } else {
            sw.ratio(28.0 / t.abs() as f64);
            ensure!(t.abs() >= 28.0, "tan({}) = {}, expected {w}", show(v), show(t));
        }
    }
    Ok(())
}

pub fn c05() -> Property {
    Property { id: "C05", rule: SWEEP_RULE, tasks: vec![sweep("tan", ALL, 1, tan)], assumptions: ASSUME }
}

// ------------------------------------------------------------------ C06, C07, C08

const RIGHT: f64 = std::f64::consts::FRAC_PI_2;

fn atan(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    let (n, a) = (x::atan_norm(v), x::atan(v));
    if v.is_nan() {
        ensure!(n.is_nan() && a.is_nan(), "atan, atan_norm of {} = {}, {}", show(v), show(a), show(n));
        return Ok(());
    }
    sw.nontrivial += v.is_finite() as u64;
    ensure!(n.abs() <= 1.0, "atan_norm({}) = {} out of range", show(v), show(n));
    ensure!(a.abs() <= std::f32::consts::FRAC_PI_2, "atan({}) = {} out of range", show(v), show(a));
    let w = (v as f64).atan();
    let (en, ea) = ((n as f64 - w / RIGHT).abs(), (a as f64 - w).abs());
    // 0.1620 degrees
    let (bn, ba) = (0.1620 / 90.0 + 3e-6, 0.1620 / 90.0 * RIGHT + 5e-6);
    sw.ratio(en / bn);
    sw.ratio(ea / ba);
    ensure!(en <= bn, "atan_norm({}) = {}, off by {en:e} from {}", show(v), show(n), w / RIGHT);
    ensure!(ea <= ba, "atan({}) = {}, off by {ea:e} from {w}", show(v), show(a));
    if v.is_infinite() {
        ensure!(n == v.signum(), "atan_norm({}) = {}", show(v), show(n));
        ensure!(a == std::f32::consts::FRAC_PI_2 * v.signum(), "atan({}) = {}", show(v), show(a));
    }
    if b >> 31 == 0 {
        let (m, c) = (x::atan_norm(-v), x::atan(-v));
        ensure!(m.to_bits() == (-n).to_bits() && c.to_bits() == (-a).to_bits(), "atan is not odd at {}: {} and {}", show(v), show(a), show(c));
    }
    Ok(())
}

pub fn c06() -> Property {
    Property { id: "C06", rule: SWEEP_RULE, tasks: vec![sweep("atan", ALL, 1, atan)], assumptions: ASSUME }
}

pub fn atan2_check(s: &mut Src, y: f32, v: f32) -> R {
    let (a, n) = (x::atan2(y, v), x::atan2_norm(y, v));
    let who = || format!("(y = {}, x = {})", show(y), show(v));
    if y.is_nan() || v.is_nan() {
        s.label("NaN operand");
        ensure!(a.is_nan() && n.is_nan(), "atan2, atan2_norm {} = {}, {}, expected NaN", who(), show(a), show(n));
        return Ok(());
    }
    if y == 0.0 && v == 0.0 {
        s.label("two zeros");
        ensure!(a == 0.0 && n == 0.0, "atan2, atan2_norm {} = {}, {}, expected 0", who(), show(a), show(n));
        return Ok(());
    }
    s.nontrivial();
    s.label(match (y.is_sign_negative(), v.is_sign_negative()) {
        (false, false) => "quadrant 1",
        (false, true) => "quadrant 2",
        (true, true) => "quadrant 3",
        (true, false) => "quadrant 4",
    });
    if y.is_infinite() || v.is_infinite() {
        s.label("infinite operand");
    } else if y.abs().max(v.abs()) > 1e15 {
        s.label("huge operand");
    } else if y.abs().max(v.abs()) < 1e-15 {
        s.label("tiny operands");
    }
    if y == 0.0 || v == 0.0 {
        s.label("one zero");
    }
    let w = (y as f64).atan2(v as f64);
    ensure!(a.abs() as f64 <= std::f64::consts::PI + 1e-6, "atan2 {} = {} out of range", who(), show(a));
    let e = angle_diff(a as f64, w);
    s.ratio(e / 0.003);
    ensure!(e <= 0.003, "atan2 {} = {}, off by {e:e} from {w}", who(), show(a));
    ensure!((0.0..4.0).contains(&n), "atan2_norm {} = {} out of range", who(), show(n));
    let e = angle_diff(n as f64 * RIGHT, w) / RIGHT;
    s.ratio(e / 0.0019);
    ensure!(e <= 0.0019, "atan2_norm {} = {}, off by {e:e} from {}", who(), show(n), w / RIGHT);
    let f = F32(y).atan2(F32(v)).0;
    ensure!(same(f, a), "F32 atan2 {} = {}, but {} on f32", who(), show(f), show(a));
    Ok(())
}

fn atan2(s: &mut Src) -> R {
    let y = f32_any(s);
    let v = f32_related(s, y);
    s.desc(|| format!("atan2({}, {})", show(y), show(v)));
    atan2_check(s, y, v)
}

fn atan2_circle(s: &mut Src) -> R {
    // a direction and a radius
    let t = s.upto(7200) as f64 / 7200.0 * std::f64::consts::TAU + s.upto(1000) as f64 * 1e-7;
    let r = 2f64.powi(s.range(-149, 127) as i32);
    let (y, v) = ((r * t.sin()) as f32, (r * t.cos()) as f32);
    s.desc(|| format!("atan2({}, {})", show(y), show(v)));
    atan2_check(s, y, v)
}

/// every bit pattern against a fixed partner
fn atan2_axis(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    sw.nontrivial += !v.is_nan() as u64;
    for p in [1.0f32, -1.0, 0.0, -0.0] {
        for (y, xx) in [(v, p), (p, v)] {
            let a = x::atan2(y, xx);
            if v.is_nan() {
                ensure!(a.is_nan(), "atan2(y = {}, x = {}) = {}, expected NaN", show(y), show(xx), show(a));
                continue;
            }
            if y == 0.0 && xx == 0.0 {
                ensure!(a == 0.0, "atan2(y = {}, x = {}) = {}, expected 0", show(y), show(xx), show(a));
                continue;
            }
            let w = (y as f64).atan2(xx as f64);
            let e = angle_diff(a as f64, w);
            sw.ratio(e / 0.003);
            ensure!(e <= 0.003, "atan2(y = {}, x = {}) = {}, off by {e:e} from {w}", show(y), show(xx), show(a));
        }
    }
    Ok(())
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "Generated pairs (structured floats with related second operand; points of a circle with radius 2^-149..2^127) and bit patterns on a stride against partners 1, -1, 0, -0 on either side; non-trivial: no NaN and not two zeros.",
        tasks: vec![
            random("atan2_pairs", 96_000_000, atan2),
            random("atan2_circle", 48_000_000, atan2_circle),
            sweep("atan2_axis", ALL, 23, atan2_axis),
        ],
        assumptions: ASSUME,
    }
}

fn asin_acos(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    let (s, c) = (x::asin(v), x::acos(v));
    if !(v.abs() <= 1.0) {
        ensure!(s.is_nan(), "asin({}) = {}, expected NaN", show(v), show(s));
        ensure!(c.is_nan(), "acos({}) = {}, expected NaN", show(v), show(c));
        return Ok(());
    }
    sw.nontrivial += 1;
    let (ws, wc) = ((v as f64).asin(), (v as f64).acos());
    let (es, ec) = ((s as f64 - ws).abs(), (c as f64 - wc).abs());
    let bs = (0.1 * ws.abs() + 1e-44).min(0.02);
    sw.ratio(if ws != 0.0 { es / bs } else { 0.0 });
    sw.ratio(ec / 0.03);
    ensure!(es <= bs, "asin({}) = {}, off by {es:e} from {ws}", show(v), show(s));
    ensure!(s.abs() as f64 <= RIGHT + 1e-6, "asin({}) = {} out of range", show(v), show(s));
    ensure!(ec <= 0.03, "acos({}) = {}, off by {ec:e} from {wc}", show(v), show(c));
    ensure!(c as f64 >= -1e-6 && c as f64 <= 2.0 * RIGHT + 1e-6, "acos({}) = {} out of range", show(v), show(c));
    let m = x::asin(-v);
    ensure!(m == -s, "asin is not odd at {}: {} and {}", show(v), show(s), show(m));
    Ok(())
}

pub fn c08() -> Property {
    Property { id: "C08", rule: SWEEP_RULE, tasks: vec![sweep("asin_acos", ALL, 1, asin_acos)], assumptions: ASSUME }
}

// ------------------------------------------------------------------ C09, C10

fn sqrt(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    let (s, i) = (x::sqrt(v), x::invsqrt(v));
    if v.is_nan() || v < 0.0 {
        ensure!(s.is_nan() && i.is_nan(), "sqrt, invsqrt of {} = {}, {}, expected NaN", show(v), show(s), show(i));
        return Ok(());
    }
    if v == 0.0 {
        ensure!((0.0..1e-18).contains(&s), "sqrt({}) = {}", show(v), show(s));
    }
    if v == f32::INFINITY {
        ensure!(s == v, "sqrt({}) = {}", show(v), show(s));
    }
    if v.is_normal() {
        sw.nontrivial += 1;
        let w = (v as f64).sqrt();
        let (es, ei) = ((s as f64 / w - 1.0).abs(), (i as f64 * w - 1.0).abs());
        sw.ratio(es / 0.061);
        sw.ratio(ei / 0.035);
        ensure!(es <= 0.061, "sqrt({}) = {}, off by a factor of {es} from {w}", show(v), show(s));
        ensure!(ei <= 0.035, "invsqrt({}) = {}, off by a factor of {ei} from {}", show(v), show(i), 1.0 / w);
        if b & 0x00ff_ffff == 0x0080_0000 {
            ensure!(s as f64 == w, "sqrt({}) = {}, expected {w}", show(v), show(s));
        }
    }
    if b >> 31 == 0 && v < f32::INFINITY {
        let n = f32::from_bits(b + 1);
        ensure!(x::sqrt(n) >= s, "sqrt decreases from {} to {}: {} to {}", show(v), show(n), show(s), show(x::sqrt(n)));
        if n < f32::INFINITY {
            ensure!(x::invsqrt(n) <= i, "invsqrt increases from {} to {}: {} to {}", show(v), show(n), show(i), show(x::invsqrt(n)));
        }
    }
    Ok(())
}

fn hypot(s: &mut Src) -> R {
    let a = f32_any(s);
    let b = f32_related(s, a);
    s.desc(|| format!("hypot({}, {})", show(a), show(b)));
    let h = x::hypot(a, b);
    let who = || format!("hypot({}, {}) = {}", show(a), show(b), show(h));
    let f = F32(a).hypot(F32(b)).0;
    ensure!(same(f, h), "{}, but {} on F32", who(), show(f));
    if a.is_nan() || b.is_nan() {
        return s.skip();
    }
    for o in [x::hypot(b, a), x::hypot(-a, b), x::hypot(a, -b), x::hypot(-b, -a)] {
        ensure!(same(o, h), "{}, but {} with the operands swapped or negated", who(), show(o));
    }
    let m = a.abs().max(b.abs());
    if (1e-18..=1e19).contains(&m) {
        s.nontrivial();
        if a.abs().min(b.abs()) == 0.0 {
            s.label("one leg zero");
        } else if a.abs() == b.abs() {
            s.label("equal legs");
        } else {
            s.label("different legs");
        }
        let w = (a as f64).hypot(b as f64);
        let e = (h as f64 / w - 1.0).abs();
        s.ratio(e / 0.062);
        ensure!(e <= 0.062, "{}, off by a factor of {e} from {w}", who());
    }
    Ok(())
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: SWEEP_RULE,
        tasks: vec![sweep("sqrt_invsqrt", ALL, 1, sqrt), random("hypot", 80_000_000, hypot)],
        assumptions: ASSUME,
    }
}

fn inv_recip(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    let (i, r) = (x::inv(v), x::recip(v));
    if v.is_nan() {
        ensure!(i.is_nan() && r.is_nan(), "inv, recip of {} = {}, {}, expected NaN", show(v), show(i), show(r));
        return Ok(());
    }
    let t = <F32 as micromath::num_traits::Inv>::inv(F32(v)).0;
    ensure!(same(t, i), "the Inv trait gives {} for {}, but inv gives {}", show(t), show(v), show(i));
    let m = v.abs();
    let neg = v.is_sign_negative();
    let sign_ok = |y: f32| y == 0.0 || y.is_sign_negative() == neg;
    ensure!(sign_ok(i), "inv({}) = {} has the wrong sign", show(v), show(i));
    ensure!(sign_ok(r), "recip({}) = {} has the wrong sign", show(v), show(r));
    const BIG: f32 = 8.507059e37; // 2^126
    if m > BIG {
        ensure!(i.abs() <= 1.18e-38, "inv({}) = {}", show(v), show(i));
        ensure!(r.abs() <= 1.18e-38, "recip({}) = {}", show(v), show(r));
    } else if m < f32::MIN_POSITIVE {
        ensure!(i.abs() >= 7e37, "inv({}) = {}", show(v), show(i));
        ensure!(r.abs() >= 7e37, "recip({}) = {}", show(v), show(r));
        if v == 0.0 {
            ensure!(r.is_infinite(), "recip({}) = {}", show(v), show(r));
        }
    } else {
        sw.nontrivial += 1;
        let (ei, er) = ((i as f64 * v as f64 - 1.0).abs(), (r as f64 * v as f64 - 1.0).abs());
        sw.ratio(ei / 0.126);
        sw.ratio(er / 2e-5);
        ensure!(ei <= 0.126, "inv({}) = {}, off by a factor of {ei} from {}", show(v), show(i), 1.0 / v as f64);
        ensure!(er <= 2e-5, "recip({}) = {}, off by a factor of {er:e} from {}", show(v), show(r), 1.0 / v as f64);
        if b & 0x7f_ffff == 0 {
            ensure!(i == 1.0 / v, "inv({}) = {}, expected {}", show(v), show(i), 1.0 / v);
        }
    }
    Ok(())
}

pub fn c10() -> Property {
    Property { id: "C10", rule: SWEEP_RULE, tasks: vec![sweep("inv_recip", ALL, 1, inv_recip)], assumptions: ASSUME }
}

// ------------------------------------------------------------------ C11, C12

fn exp(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    let e = x::exp(v);
    if v.is_nan() {
        ensure!(e.is_nan(), "exp({}) = {}", show(v), show(e));
        return Ok(());
    }
    ensure!(e >= 0.0, "exp({}) = {}", show(v), show(e));
    if v == 0.0 {
        ensure!(e == 1.0, "exp({}) = {}", show(v), show(e));
    }
    if v < -87.4 {
        ensure!(e <= 1.2e-38, "exp({}) = {}", show(v), show(e));
    }
    if v > 88.73 {
        ensure!(e == f32::INFINITY, "exp({}) = {}", show(v), show(e));
    }
    if (-87.3..=88.72).contains(&v) {
        sw.nontrivial += 1;
        let bound = if v >= 0.0 { 0.001 } else { 0.003 };
        let w = (v as f64).exp();
        let d = (e as f64 / w - 1.0).abs();
        sw.ratio(d / bound);
        ensure!(d <= bound, "exp({}) = {}, off by a factor of {d} from {w}", show(v), show(e));
    }
    Ok(())
}

fn cosh(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    let e = x::cosh(v);
    if v.is_nan() {
        ensure!(e.is_nan(), "cosh({}) = {}", show(v), show(e));
        return Ok(());
    }
    ensure!(!e.is_nan(), "cosh({}) = {}", show(v), show(e));
    ensure!(x::cosh(-v).to_bits() == e.to_bits(), "cosh is not even at {}: {} and {}", show(v), show(e), show(x::cosh(-v)));
    let m = v.abs();
    // the sweep covers one sign
    if m > 89.5 {
        ensure!(e == f32::INFINITY, "cosh({}) = {}", show(v), show(e));
    }
    if m <= 88.72 {
        sw.nontrivial += 1;
        let w = (v as f64).cosh();
        let d = (e as f64 / w - 1.0).abs();
        sw.ratio(d / 0.001);
        ensure!(d <= 0.001, "cosh({}) = {}, off by a factor of {d} from {w}", show(v), show(e));
        let d = (e as f64 - w).abs();
        if (m as f64) <= std::f64::consts::PI {
            sw.ratio(d / 0.003);
            ensure!(d <= 0.003, "cosh({}) = {}, off by {d} from {w}", show(v), show(e));
        } else if (m as f64) <= std::f64::consts::TAU {
            sw.ratio(d / 0.1);
            ensure!(d <= 0.1, "cosh({}) = {}, off by {d} from {w}", show(v), show(e));
        }
    }
    Ok(())
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        rule: SWEEP_RULE,
        tasks: vec![sweep("exp", ALL, 1, exp), sweep("cosh", ALL / 2, 1, cosh)],
        assumptions: ASSUME,
    }
}

fn ln(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    let (l, l2, l10) = (x::ln(v), x::log2(v), x::log10(v));
    let who = || format!("ln, log2, log10 of {} = {}, {}, {}", show(v), show(l), show(l2), show(l10));
    if v.is_nan() || v < 0.0 {
        ensure!(l.is_nan() && l2.is_nan() && l10.is_nan(), "{}, expected NaN", who());
        return Ok(());
    }
    if v == 0.0 || v.is_infinite() {
        let w = if v == 0.0 { f32::NEG_INFINITY } else { f32::INFINITY };
        ensure!(l == w && l2 == w && l10 == w, "{}, expected {w}", who());
        return Ok(());
    }
    if v == 1.0 {
        ensure!(l == 0.0 && l2 == 0.0 && l10 == 0.0, "{}, expected 0", who());
    }
    sw.nontrivial += 1;
    let w = (v as f64).ln();
    let (e, e2, e10) = (
        (l as f64 - w).abs(),
        (l2 as f64 - w * std::f64::consts::LOG2_E).abs(),
        (l10 as f64 - w * std::f64::consts::LOG10_E).abs(),
    );
    sw.ratio(e / 1e-4);
    sw.ratio(e2 / 1.6e-4);
    sw.ratio(e10 / 5e-5);
    ensure!(e <= 1e-4 && e2 <= 1.6e-4 && e10 <= 5e-5, "{}, off by {e:e}, {e2:e}, {e10:e}", who());
    Ok(())
}

fn log(s: &mut Src) -> R {
    let base = if s.one_in(10) { s.pick(&[2.0f32, 10.0, std::f32::consts::E, 0.5, 1.02, 0.98, 16.0]) } else { f32_any(s) };
    let v = if s.one_in(8) {
        // a power of the base, or next to one
        let k = s.range(-20, 20) as i32;
        let p = (base as f64).powi(k) as f32;
        f32::from_bits(p.to_bits().wrapping_add(s.upto(4) as u32).wrapping_sub(2))
    } else {
        f32_related(s, base)
    };
    let (v, base) = if s.upto(7) > 0 { (v.abs(), base.abs()) } else { (v, base) };
    s.desc(|| format!("log({}, base {})", show(v), show(base)));
    let l = x::log(v, base);
    let who = || format!("log({}, base {}) = {}", show(v), show(base), show(l));
    if v.is_nan() || base.is_nan() || v < 0.0 || base < 0.0 {
        s.label("NaN or negative operand");
        ensure!(l.is_nan(), "{}, expected NaN", who());
        return Ok(());
    }
    if !(base > 0.0 && base.is_finite()) {
        return s.skip();
    }
    let lb = (base as f64).ln();
    if lb.abs() < 0.01 {
        return s.skip();
    }
    if v == 0.0 || v.is_infinite() {
        s.label("zero or infinity");
        let want = if (v == 0.0) == (base > 1.0) { f32::NEG_INFINITY } else { f32::INFINITY };
        ensure!(l == want, "{}, expected {want}", who());
        return Ok(());
    }
    s.nontrivial();
    let w = (v as f64).ln() / lb;
    let bound = (1e-4 + 1e-4 * w.abs()) / lb.abs() + 1e-6 * w.abs();
    let e = (l as f64 - w).abs();
    s.ratio(e / bound);
    s.label(if v < 1.0 { "argument below 1" } else { "argument from 1" });
    s.label(if base < 1.0 { "base below 1" } else { "base above 1" });
    ensure!(e <= bound, "{}, off by {e:e} from {w}", who());
    Ok(())
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: SWEEP_RULE,
        tasks: vec![sweep("ln_log2_log10", ALL, 1, ln), random("log", 64_000_000, log)],
        assumptions: ASSUME,
    }
}

// ------------------------------------------------------------------ C13, C14

fn powf_check(s: &mut Src, v: f32, n: f32) -> R {
    let r = x::powf(v, n);
    let who = || format!("powf({}, {}) = {}", show(v), show(n), show(r));
    if n.is_nan() || (v.is_nan() && n != 0.0) {
        s.label("NaN operand");
        ensure!(r.is_nan(), "{}, expected NaN", who());
        return Ok(());
    }
    if n == 0.0 {
        s.label("zero exponent");
        ensure!(r == 1.0, "{}, expected 1", who());
        return Ok(());
    }
    if !n.is_finite() || !v.is_finite() {
        return s.skip();
    }
    if v == 0.0 {
        s.label("zero base");
        if v.is_sign_positive() {
            let w = if n > 0.0 { 0.0 } else { f32::INFINITY };
            ensure!(r == w, "{}, expected {w}", who());
        } else {
            let w = if n > 0.0 { 0.0 } else { f32::INFINITY };
            ensure!(r.abs() == w, "{}, expected {w}", who());
        }
        return Ok(());
    }
    let mut r = r;
    if v < 0.0 {
        if n != n.trunc() {
            s.label("negative base, fractional exponent");
            ensure!(r.is_nan(), "{}, expected NaN", who());
            return Ok(());
        }
        // above 2^24 every f32 is even
        let odd = n.abs() < 16777216.0 && (n as i64) % 2 != 0;
        s.label(if odd { "negative base, odd exponent" } else { "negative base, even exponent" });
        ensure!(!r.is_nan(), "{}, expected a number", who());
        ensure!(r == 0.0 || (r < 0.0) == odd, "{} has the wrong sign", who());
        if odd {
            r = -r;
        }
    } else {
        s.label("positive base");
    }
    let l = n as f64 * (v.abs() as f64).ln();
    let slack = 1.2e-4 * n.abs() as f64;
    let (lo, hi) = ((1e-37f64).ln(), (1e38f64).ln());
    if (lo..=hi).contains(&l) {
        s.nontrivial();
        if slack < 0.1 {
            s.label("accuracy checked to 11% or better");
        }
        let w = l.exp();
        let bound = slack.exp() - 1.0 + 0.004;
        if r == f32::INFINITY && w * (1.0 + bound) >= f32::MAX as f64 {
            return Ok(());
        }
        let e = (r as f64 / w - 1.0).abs();
        s.ratio(e / bound);
        ensure!(e <= bound, "{}, off by a factor of {e} from {w}", who());
    } else if l > (1e39f64).ln() + slack {
        s.nontrivial();
        s.label("overflow");
        ensure!(r == f32::INFINITY, "{}, expected an infinity", who());
    } else if l < (1e-39f64).ln() - slack {
        s.nontrivial();
        s.label("underflow");
        ensure!((0.0..=1.2e-38).contains(&r), "{}, expected underflow", who());
    }
    Ok(())
}

fn powf(s: &mut Src) -> R {
    let v = f32_any(s);
    let n = f32_related(s, v);
    s.desc(|| format!("powf({}, {})", show(v), show(n)));
    powf_check(s, v, n)
}

/// exponents chosen so that the power is representable; integer exponents for negative bases
fn powf_aimed(s: &mut Src) -> R {
    let v = match s.upto(3) {
        0 => f32_any(s),
        1 => {
            let k = s.range(-2_000_000, 2_000_000) as f32;
            1.0 + k * f32::EPSILON * 8.0
        }
        _ => f32_mag(s, -20, 20),
    };
    let l = (v.abs() as f64).ln();
    let n = match s.upto(4) {
        0 => s.range(-130, 130) as f32,
        1 => s.range(-300, 300) as f32 / 4.0,
        2 if l.is_finite() && l != 0.0 => {
            let t = s.range(-9000, 9000) as f64 / 100.0;
            (t / l) as f32
        }
        3 if l.is_finite() && l != 0.0 => {
            let t = s.range(-9000, 9000) as f64 / 100.0;
            (t / l).round() as f32
        }
        _ => {
            let k = s.upto(34);
            let h = s.range(-3, 3) as f32;
            let n = (1u64 << k) as f32 + h;
            if s.flip() {
                -n
            } else {
                n
            }
        }
    };
    s.desc(|| format!("powf({}, {})", show(v), show(n)));
    powf_check(s, v, n)
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "Generated pairs: structured floats, and exponents aimed at representable powers (also near base 1, integral and quarter-integral, and around powers of two); non-trivial: the true power is in the checked range, or certain to overflow or underflow.",
        tasks: vec![random("powf_any", 64_000_000, powf), random("powf_aimed", 96_000_000, powf_aimed)],
        assumptions: ASSUME,
    }
}

fn powi_check(s: &mut Src, v: f32, n: i32) -> R {
    let r = x::powi(v, n);
    let who = || format!("powi({}, {n}) = {}", show(v), show(r));
    if n == 0 {
        s.label("zero exponent");
        ensure!(r == 1.0, "{}, expected 1", who());
        return Ok(());
    }
    if v.is_nan() {
        s.label("NaN base");
        ensure!(r.is_nan(), "{}, expected NaN", who());
        return Ok(());
    }
    ensure!(!r.is_nan(), "{}, expected a number", who());
    let neg = v.is_sign_negative() && n % 2 != 0;
    ensure!(r == 0.0 || (r < 0.0) == neg, "{} has the wrong sign", who());
    let m = r.abs() as f64;
    if v == 0.0 || v.is_infinite() {
        s.label("zero or infinite base");
        let w = if (v == 0.0) == (n > 0) { 0.0 } else { f64::INFINITY };
        ensure!(m == w, "{}, expected magnitude {w}", who());
        return Ok(());
    }
    s.nontrivial();
    let l = n as f64 * (v.abs() as f64).ln();
    let slack = n.unsigned_abs() as f64 * 3e-7;
    let ln2 = std::f64::consts::LN_2;
    if l > 128.0 * ln2 + slack {
        s.label("overflow");
        ensure!(m == f64::INFINITY, "{}, expected an infinity", who());
    } else if l < -152.0 * ln2 - slack {
        s.label("underflow");
        ensure!(m == 0.0, "{}, expected a zero", who());
    } else if l >= -126.0 * ln2 && l <= (f32::MAX as f64).ln() {
        s.label(match n.unsigned_abs() {
            1 => "|n| = 1",
            2..=9 => "|n| 2..9",
            10..=99 => "|n| 10..99",
            100..=9999 => "|n| 100..9999",
            _ => "|n| from 10000",
        });
        let w = (v.abs() as f64).powf(n as f64);
        let bound = slack.exp() - 1.0 + 1e-6;
        if m == f64::INFINITY && w > f32::MAX as f64 * (1.0 - bound) {
            return Ok(());
        }
        let e = (m / w - 1.0).abs();
        s.ratio(e / bound);
        ensure!(e <= bound, "{}, off by a factor of {e:e} from magnitude {w:e}", who());
    } else if l < -126.0 * ln2 {
        s.label("subnormal");
        ensure!(m <= 2.4e-38 * slack.exp(), "{}, expected a subnormal or zero", who());
    }
    Ok(())
}

fn powi(s: &mut Src) -> R {
    let v = f32_any(s);
    let n = i32_any(s);
    s.desc(|| format!("powi({}, {n})", show(v)));
    powi_check(s, v, n)
}

fn powi_aimed(s: &mut Src) -> R {
    let v = match s.upto(2) {
        0 => f32_any(s),
        1 => {
            let k = s.range(-4_000_000, 4_000_000) as f32;
            let v = 1.0 + k * f32::EPSILON;
            if s.flip() {
                -v
            } else {
                v
            }
        }
        _ => f32_mag(s, -3, 3),
    };
    let l = (v.abs() as f64).log2();
    let t = s.range(-1550, 1300) as f64 / 10.0;
    let n = if l.is_finite() && l != 0.0 { (t / l) as i32 } else { i32_any(s) };
    s.desc(|| format!("powi({}, {n})", show(v)));
    powi_check(s, v, n)
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "Generated (base, exponent) pairs: structured floats with small, special, source-literal and uniform exponents, and exponents aimed at representable powers; non-trivial: finite non-zero base and non-zero exponent.",
        tasks: vec![random("powi_any", 80_000_000, powi), random("powi_aimed", 80_000_000, powi_aimed)],
        assumptions: ASSUME,
    }
}

// ------------------------------------------------------------------ C15

fn euclid(s: &mut Src) -> R {
    let (a, b) = if s.upto(3) == 0 {
        // integers
        let m = s.pick(&[20u64, 1000, 16_777_215]);
        let a = s.upto(m) as f32;
        let b = s.upto(m) as f32;
        (if s.flip() { -a } else { a }, if s.flip() { -b } else { b })
    } else {
        let a = f32_any(s);
        (a, f32_related(s, a))
    };
    s.desc(|| format!("({}).rem_euclid({})", show(a), show(b)));
    let (q, r) = (x::div_euclid(a, b), x::rem_euclid(a, b));
    let who = || format!("{} divided by {}: quotient {}, remainder {}", show(a), show(b), show(q), show(r));
    if a.is_nan() || b.is_nan() || b == 0.0 || a.is_infinite() {
        s.label("no remainder");
        ensure!(r.is_nan(), "{}, expected NaN", who());
        return Ok(());
    }
    if b.is_infinite() {
        return s.skip();
    }
    s.nontrivial();
    let t = a % b;
    s.label(match (t == 0.0, t < 0.0, b < 0.0) {
        (true, _, false) => "exact, b > 0",
        (true, _, true) => "exact, b < 0",
        (_, false, false) => "a > 0, b > 0",
        (_, false, true) => "a > 0, b < 0",
        (_, true, false) => "a < 0, b > 0",
        (_, true, true) => "a < 0, b < 0",
    });
    ensure!(r >= 0.0 && r <= b.abs(), "{}: remainder out of range", who());
    let want = if t >= 0.0 { t } else { (t as f64 + b.abs() as f64) as f32 };
    ensure!(ulps(r.abs(), want.abs()) <= 1, "{}: expected remainder {}", who(), show(want));
    if t >= 0.0 {
        ensure!(r == want, "{}: expected remainder {}", who(), show(want));
    }
    // the quotient
    let x = a as f64 / b as f64;
    if x.abs() > 3e38 {
        return Ok(());
    }
    let qt = if t >= 0.0 {
        (a as f64 - t as f64) / b as f64
    } else {
        (a as f64 - t as f64) / b as f64 - b.signum() as f64
    };
    let qt = if qt.abs() < 4.5e15 { qt.round() } else { qt };
    let d = (q as f64 - qt).abs();
    let int = |v: f32| v == v.trunc() && v.abs() < 16777216.0;
    if int(a) && int(b) {
        s.label("integers");
        ensure!(d == 0.0, "{}: expected quotient {qt}", who());
    }
    let near = (x - x.round()).abs() <= x.abs() * 2f64.powi(-23);
    let tol = if near { 1.0 } else { 0.0 } + qt.abs() * 2f64.powi(-22);
    let tol = if qt.abs() < 4194304.0 && !near { 0.0 } else { tol };
    ensure!(d <= tol, "{}: expected quotient {qt}", who());
    if !near && qt.abs() < 4194304.0 {
        s.label("quotient exact");
    }
    let (fq, fr) = (F32(a).div_euclid(F32(b)).0, F32(a).rem_euclid(F32(b)).0);
    if !(same(fq, q) && same(fr, r)) {
        fail!("{}, but on F32 quotient {} and remainder {}", who(), show(fq), show(fr));
    }
    Ok(())
}

pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "Generated pairs: integers below 2^24 and structured floats with related divisor; non-trivial: finite operands and non-zero divisor. The remainder is compared with the exact one (IEEE remainder, f64 sum), the quotient with the exact quotient.",
        tasks: vec![random("euclid", 160_000_000, euclid)],
        assumptions: &["the f32 % operator is exact, as IEEE 754 requires"],
    }
}

// ------------------------------------------------------------------ C39

/// An infinity, a zero or a very large or small number half of the time.
fn extreme(s: &mut Src) -> f32 {
    let x = match s.upto(9) {
        0..=3 => f32::INFINITY,
        4 => 0.0,
        5 => f32_mag(s, 55, 127),
        6 => f32_mag(s, -126, -55),
        _ => f32_any(s),
    };
    if s.flip() {
        -x
    } else {
        x
    }
}

fn limits_of_hypot(s: &mut Src) -> R {
    let (a, b) = (extreme(s), if s.flip() { extreme(s) } else { f32_any(s) });
    let (a, b) = if s.flip() { (b, a) } else { (a, b) };
    s.desc(|| format!("hypot({}, {})", show(a), show(b)));
    let h = x::hypot(a, b);
    let who = || format!("hypot({}, {}) = {}", show(a), show(b), show(h));
    if a.is_nan() || b.is_nan() {
        return s.skip();
    }
    s.nontrivial();
    ensure!(h >= 0.0, "{}, which is negative or NaN", who());
    let m = a.abs().max(b.abs());
    if m.is_infinite() {
        s.label("infinite operand");
        ensure!(h == f32::INFINITY, "{}, expected inf", who());
    } else if m > 1e19 {
        s.label("large operand");
        // the square may be out of range
        ensure!(h as f64 >= 0.93 * m as f64, "{}, less than a leg", who());
    } else if m < 1e-18 {
        s.label("small operand");
        ensure!(h <= 2.5e-18, "{}, expected less than 2.5e-18", who());
    }
    Ok(())
}

/// Lengths of vectors and quaternions, over all their components.
fn limits_of_lengths(s: &mut Src) -> R {
    use micromath::vector::{Vector, Vector2d, Vector3d};
    use micromath::Quaternion;
    let which = s.upto(4);
    let n = [2, 2, 3, 3, 4][which as usize];
    let mut c = [0f32; 4];
    let tiny = s.one_in(3);
    for x in c.iter_mut().take(n) {
        *x = match s.upto(2) {
            _ if tiny => f32_mag(s, -140, -61),
            0 => extreme(s),
            _ => f32_any(s),
        };
    }
    let mut d = [0f32; 4];
    if which % 2 == 1 {
        for (x, c) in d.iter_mut().zip(&c).take(n) {
            *x = match s.upto(3) {
                _ if tiny => f32_mag(s, -140, -61),
                0 => extreme(s),
                1 => f32_related(s, *c),
                _ => f32_any(s),
            };
        }
    }
    let name = ["magnitude", "distance", "magnitude", "distance", "magnitude of the quaternion"][which as usize];
    s.desc(|| format!("{name} {:?} {:?}", &c[..n], &d[..n]));
    let diff: Vec<f32> = c.iter().zip(&d).take(n).map(|(a, b)| a - b).collect();
    if diff.iter().any(|x| x.is_nan()) {
        return s.skip();
    }
    s.nontrivial();
    let (u, v) = ((c[0], c[1]), (d[0], d[1]));
    let (p, q) = ((c[0], c[1], c[2]), (d[0], d[1], d[2]));
    let h = match which {
        0 => Vector2d::from(u).magnitude(),
        1 => Vector2d::from(u).distance(Vector2d::from(v)),
        2 => Vector3d::from(p).magnitude(),
        3 => Vector3d::from(p).distance(Vector3d::from(q)),
        _ => Quaternion::new(c[0], c[1], c[2], c[3]).magnitude(),
    };
    let who = || format!("{name} of {:?}, {:?} is {}", &c[..n], &d[..n], show(h));
    ensure!(h >= 0.0, "{}, which is negative or NaN", who());
    let m = diff.iter().fold(0f32, |m, x| m.max(x.abs()));
    if m.is_infinite() {
        s.label("infinite component");
        ensure!(h == f32::INFINITY, "{}, expected inf", who());
    } else if m > 1e19 {
        s.label("large component");
        ensure!(h as f64 >= 0.93 * m as f64, "{}, less than a component", who());
    } else if m < 1e-18 {
        s.label("small components");
        ensure!(h <= 2.5e-18, "{}, expected less than 2.5e-18", who());
    }
    Ok(())
}

fn limits_of_powf(s: &mut Src) -> R {
    let (v, n) = match s.upto(2) {
        0 => (if s.flip() { f32::INFINITY } else { f32::NEG_INFINITY }, if s.flip() { s.range(-40, 40) as f32 } else { f32_any(s) }),
        1 => (f32_any(s), if s.flip() { f32::INFINITY } else { f32::NEG_INFINITY }),
        _ => (extreme(s), extreme(s)),
    };
    s.desc(|| format!("powf({}, {})", show(v), show(n)));
    if v.is_nan() || n.is_nan() || n == 0.0 || (v.is_finite() && n.is_finite()) {
        return s.skip();
    }
    let r = x::powf(v, n);
    let who = || format!("powf({}, {}) = {}", show(v), show(n), show(r));
    if n.is_finite() && n != n.trunc() && v < 0.0 {
        s.label("negative infinity to a fractional power");
        return s.skip();
    }
    if n.is_infinite() && v.abs() > 0.999 && v.abs() < 1.001 {
        return s.skip();
    }
    s.nontrivial();
    s.label(match (v.is_infinite(), n.is_infinite()) {
        (true, true) => "both infinite",
        (true, _) => "infinite base",
        _ => "infinite exponent",
    });
    let grows = (v.abs() > 1.0) == (n > 0.0);
    let want = if grows { f32::INFINITY } else { 0.0 };
    ensure!(r.abs() == want, "{}, expected magnitude {want}", who());
    let odd = n.abs() < 16777216.0 && (n as i64) % 2 != 0;
    ensure!(r == 0.0 || (r < 0.0) == (v < 0.0 && odd), "{} has the wrong sign", who());
    Ok(())
}

fn limits_of_log(s: &mut Src) -> R {
    let v = f32_any(s).abs();
    let b = s.pick(&[f32::INFINITY, 0.0, -0.0, 1.0]);
    s.desc(|| format!("log({}, base {})", show(v), show(b)));
    if !v.is_finite() || v == 0.0 {
        return s.skip();
    }
    let r = x::log(v, b);
    let who = || format!("log({}, base {}) = {}", show(v), show(b), show(r));
    if b == 1.0 {
        if (v.ln()).abs() < 1e-3 {
            return s.skip();
        }
        s.label("base 1");
        s.nontrivial();
        let want = if v > 1.0 { f32::INFINITY } else { f32::NEG_INFINITY };
        ensure!(r == want, "{}, expected {want}", who());
    } else {
        s.label("base zero or infinite");
        s.nontrivial();
        ensure!(r == 0.0, "{}, expected a zero", who());
    }
    Ok(())
}

fn limits_of_division(s: &mut Src) -> R {
    let a = f32_any(s);
    let b = if s.flip() { f32::INFINITY } else { f32::NEG_INFINITY };
    s.desc(|| format!("({}).rem_euclid({})", show(a), show(b)));
    if !a.is_finite() {
        return s.skip();
    }
    s.nontrivial();
    let (q, r) = (x::div_euclid(a, b), x::rem_euclid(a, b));
    let who = || format!("{} divided by {}: quotient {}, remainder {}", show(a), show(b), show(q), show(r));
    if a >= 0.0 {
        ensure!(q == 0.0 && r == a, "{}, expected 0 and {}", who(), show(a));
    } else {
        ensure!(q == -b.signum() && r == f32::INFINITY, "{}, expected {} and inf", who(), -b.signum());
    }
    Ok(())
}

pub fn c39() -> Property {
    Property {
        id: "C39",
        rule: "Pairs (for lengths, pairs of vectors) with an infinite, very large, very small or zero operand (half of them in either place), the other one any float; non-trivial: the statement fixes the result.",
        tasks: vec![
            random("hypot", 64_000_000, limits_of_hypot),
            random("lengths", 32_000_000, limits_of_lengths),
            random("powf", 64_000_000, limits_of_powf),
            random("log", 32_000_000, limits_of_log),
            random("euclid", 32_000_000, limits_of_division),
        ],
        assumptions: &["f64 square roots have relative error below 1e-15"],
    }
}
