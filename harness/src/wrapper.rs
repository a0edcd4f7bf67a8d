//! C16..C19, C21: the F32 wrapper, its two faces, text, NaN.

use crate::engine::{random, sweep, Property, Src, Sw, R};
use crate::ensure;
use crate::floats::{x, ALL};
use crate::gen::*;
use crate::oracle::*;
use micromath::{F32Ext, F32};
use std::cmp::Ordering;

fn pair(s: &mut Src) -> (f32, f32) {
    let a = if s.one_in(12) { nan(s) } else { f32_any(s) };
    let b = if s.one_in(12) { nan(s) } else { f32_related(s, a) };
    (a, b)
}

// ------------------------------------------------------------------ C16

fn operators_on(a: f32, b: f32) -> R {
    macro_rules! op {
        ($op:tt, $aop:tt, $($m:tt)*) => {{
            let want = a $op b;
            let t = |what: &str, got: f32| -> R {
                ensure!(same(got, want), "{} {} {} as {what} gives {}, expected {}", show(a), stringify!($op), show(b), show(got), show(want));
                Ok(())
            };
            t("F32, F32", (F32(a) $op F32(b)).0)?;
            t("F32, f32", (F32(a) $op b).0)?;
            t("f32, F32", (a $op F32(b)).0)?;
            let mut v = F32(a);
            v $aop F32(b);
            t("assigning F32, F32", v.0)?;
            op!(@ $aop, t, $($m)*);
        }};
        (@ $aop:tt, $t:ident, mixed) => {
            let mut v = F32(a);
            v $aop b;
            $t("assigning F32, f32", v.0)?;
            let mut v = a;
            v $aop F32(b);
            $t("assigning f32, F32", v)?;
        };
        // no such operator on f32
        (@ $aop:tt, $t:ident, left) => {
            let mut v = F32(a);
            v $aop b;
            $t("assigning F32, f32", v.0)?;
        };
    }
    op!(+, +=, mixed);
    op!(-, -=, mixed);
    op!(*, *=, mixed);
    op!(/, /=, mixed);
    op!(%, %=, left);
    ensure!(same((-F32(a)).0, -a), "-{} gives {}", show(a), show((-F32(a)).0));
    Ok(())
}

fn compare_on(a: f32, b: f32) -> R {
    macro_rules! cmp {
        ($op:tt) => {{
            let want = a $op b;
            ensure!((F32(a) $op F32(b)) == want, "F32({}) {} F32({}) is not {want}", show(a), stringify!($op), show(b));
            ensure!((F32(a) $op b) == want, "F32({}) {} {} is not {want}", show(a), stringify!($op), show(b));
            ensure!((a $op F32(b)) == want, "{} {} F32({}) is not {want}", show(a), stringify!($op), show(b));
        }};
    }
    cmp!(==);
    cmp!(!=);
    cmp!(<);
    cmp!(<=);
    cmp!(>);
    cmp!(>=);
    let want: Option<Ordering> = a.partial_cmp(&b);
    let got = [F32(a).partial_cmp(&F32(b)), F32(a).partial_cmp(&b), a.partial_cmp(&F32(b))];
    ensure!(got == [want; 3], "ordering of {} and {}: {got:?}, expected {want:?}", show(a), show(b));
    Ok(())
}

fn operators(s: &mut Src) -> R {
    let (a, b) = pair(s);
    s.nontrivial_if(!a.is_nan() && !b.is_nan() && a != b);
    s.label(match (a.is_nan(), b.is_nan()) {
        (false, false) => "two numbers",
        (true, true) => "two NaNs",
        _ => "one NaN",
    });
    s.desc(|| format!("operators on {} and {}", show(a), show(b)));
    operators_on(a, b)?;
    compare_on(a, b)
}

fn operators_sweep(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    sw.nontrivial += !v.is_nan() as u64;
    // a partner that depends on the index only
    let h = b.wrapping_mul(0x9e37_79b1);
    let p = [1.0, -0.0, f32::from_bits(h), f32::from_bits(b ^ (h & 0x00ff_ffff)), f32::from_bits(b ^ 0x8000_0000), f32::INFINITY, 2.5][(h >> 29) as usize % 7];
    operators_on(v, p)?;
    operators_on(p, v)?;
    compare_on(v, p)?;
    compare_on(p, v)
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "Generated pairs of structured floats (related second operand, NaNs with payloads) and bit patterns on a stride with a partner derived from them, through every operator impl; non-trivial: two different numbers (pairs), not NaN (patterns).",
        tasks: vec![random("operators", 60_000_000, operators), sweep("operators_patterns", ALL, 5, operators_sweep)],
        assumptions: &["the f32 operators of the compiler are the reference"],
    }
}

// ------------------------------------------------------------------ C17

fn folds(s: &mut Src) -> R {
    let n = if s.one_in(1500) { len(s, 70_000) } else { len(s, 600) };
    let style = s.upto(4);
    let base = f32_fin(s);
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(match style {
            0 => f32_within(s, -8, 8),
            1 => f32_any(s),
            2 => f32_mag(s, -1, 1),
            3 => f32_related(s, base),
            _ => s.range(-50, 50) as f32,
        });
    }
    s.nontrivial_if(n >= 2);
    s.label(match n {
        0 => "empty",
        1 => "one value",
        2..=16 => "2 to 16 values",
        17..=600 => "17 to 600 values",
        _ => "over 600 values",
    });
    s.desc(|| format!("{n} values {:?}", &v[..n.min(12)]));
    let (sum, product): (f32, f32) = (v.iter().sum(), v.iter().product());
    let (gs, gp): (F32, F32) = (v.iter().map(|&x| F32(x)).sum(), v.iter().map(|&x| F32(x)).product());
    ensure!(eqv(gs.0, sum), "the sum is {}, expected {}", show(gs.0), show(sum));
    ensure!(eqv(gp.0, product), "the product is {}, expected {}", show(gp.0), show(product));
    // an iterator of unknown length
    let k = v.len() / 2;
    let (a, b) = (v[..k].iter(), v[k..].iter());
    let it = a.chain(b).map(|&x| F32(x)).filter(|_| true);
    let gs: F32 = it.clone().sum();
    let gp: F32 = it.product();
    ensure!(eqv(gs.0, sum), "the sum through a filter is {}, expected {}", show(gs.0), show(sum));
    ensure!(eqv(gp.0, product), "the product through a filter is {}, expected {}", show(gp.0), show(product));
    Ok(())
}

fn conversions(b: u32, sw: &mut Sw) -> R {
    sw.nontrivial += 1;
    let v = f32::from_bits(b);
    let w: F32 = v.into();
    ensure!(w.0.to_bits() == b, "F32::from({}) = {}", show(v), show(w.0));
    let u: f32 = w.into();
    ensure!(u.to_bits() == b, "f32::from(F32({})) = {}", show(v), show(u));
    ensure!(F32::from(v).0.to_bits() == b && f32::from(F32(v)).to_bits() == b, "conversion of {}", show(v));
    Ok(())
}

fn small_ints(i: u32, sw: &mut Sw) -> R {
    sw.nontrivial += 1;
    macro_rules! chk {
        ($($t:ty)*) => { $( {
            let n = i as $t;
            let f = F32::from(n).0;
            ensure!(f as f64 == n as f64 && (n != 0 || f.to_bits() == 0), "F32::from({n}{}) = {}", stringify!($t), show(f));
            let f: F32 = n.into();
            ensure!(f.0 as f64 == n as f64, "{n}{}.into() = {}", stringify!($t), show(f.0));
        } )* };
    }
    chk!(i8 i16 u8 u16);
    if i == 0 {
        macro_rules! k { ($($c:ident)*) => { $( ensure!(same(F32::$c.0, f32::$c), "F32::{} = {}", stringify!($c), show(F32::$c.0)); )* } }
        k!(EPSILON MIN MIN_POSITIVE MAX NAN INFINITY NEG_INFINITY);
        macro_rules! k { ($($c:ident)*) => { $( ensure!(F32::$c == f32::$c, "F32::{} = {}", stringify!($c), F32::$c); )* } }
        k!(RADIX MANTISSA_DIGITS DIGITS MIN_EXP MAX_EXP MIN_10_EXP MAX_10_EXP);
        ensure!(F32::ZERO.0.to_bits() == 0 && F32::ONE.0.to_bits() == 1.0f32.to_bits(), "F32::ZERO, ONE");
        ensure!(F32::default().0.to_bits() == 0, "F32::default() = {}", show(F32::default().0));
    }
    Ok(())
}

fn mul_add(s: &mut Src) -> R {
    let (a, b) = pair(s);
    let c = match s.upto(4) {
        0 => -(a * b),
        1 => f32_related(s, a),
        2 => f32_related(s, b),
        3 => f32_related(s, a * b),
        _ => f32_any(s),
    };
    s.desc(|| format!("mul_add({}, {}, {})", show(a), show(b), show(c)));
    let (two, fused) = (a * b + c, f32::mul_add(a, b, c));
    s.nontrivial_if(two.is_finite());
    if !same(two, fused) {
        s.label("the two roundings differ");
    }
    let ok = |r: f32| eqv(r, two) || eqv(r, fused);
    let (t, w) = (x::mul_add(a, b, c), F32(a).mul_add(F32(b), F32(c)).0);
    ensure!(ok(t), "{}.mul_add({}, {}) = {}, expected {} or {}", show(a), show(b), show(c), show(t), show(two), show(fused));
    ensure!(ok(w), "F32({}).mul_add({}, {}) = {}, expected {} or {}", show(a), show(b), show(c), show(w), show(two), show(fused));
    Ok(())
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "Generated sequences (five value styles, lengths 0..600; non-trivial: two values or more), every f32 bit pattern through the conversions, every 16-bit index as i8, i16, u8 and u16, and generated triples for mul_add (third operand often cancelling; non-trivial: finite result).",
        tasks: vec![
            random("sum_product", 6_000_000, folds),
            sweep("conversions", ALL, 1, conversions),
            sweep("small_ints_and_constants", 65536, 1, small_ints),
            random("mul_add", 40_000_000, mul_add),
        ],
        assumptions: &["f32's own Sum and Product are the reference"],
    }
}

// ------------------------------------------------------------------ C18

/// Every flag combination with a width and a precision given at run time.
fn format_on(v: f32, spec: usize, w: usize, p: usize) -> Option<(String, String, &'static str)> {
    let f = F32(v);
    let mut k = 0usize;
    macro_rules! one {
        ($s:expr, $($arg:ident),*) => {{
            if k == spec {
                let d = |$($arg: usize),*| format!($s, v $(, $arg = $arg)*);
                let e = |$($arg: usize),*| format!($s, f $(, $arg = $arg)*);
                return Some((d($($arg),*), e($($arg),*), $s));
            }
            k += 1;
        }};
    }
    macro_rules! shapes {
        ($pre:literal) => {
            one!(concat!("{:", $pre, "}"),);
            one!(concat!("{:", $pre, "w$}"), w);
            one!(concat!("{:", $pre, ".p$}"), p);
            one!(concat!("{:", $pre, "w$.p$}"), w, p);
            one!(concat!("{:", $pre, "e}"),);
            one!(concat!("{:", $pre, "w$e}"), w);
            one!(concat!("{:", $pre, ".p$e}"), p);
            one!(concat!("{:", $pre, "w$.p$e}"), w, p);
            one!(concat!("{:", $pre, "E}"),);
            one!(concat!("{:", $pre, "w$E}"), w);
            one!(concat!("{:", $pre, ".p$E}"), p);
            one!(concat!("{:", $pre, "w$.p$E}"), w, p);
        };
    }
    shapes!("");
    shapes!("+");
    shapes!("0");
    shapes!("+0");
    shapes!("#");
    shapes!("<");
    shapes!("^");
    shapes!(">");
    shapes!("*<");
    shapes!("x^");
    shapes!("->+");
    shapes!("0<");
    shapes!("é^+");
    shapes!(">+#0");
    shapes!("_^0");
    let _ = k;
    None
}
const SPECS: usize = 15 * 12;

fn formatting(s: &mut Src) -> R {
    let v = if s.one_in(12) { nan(s) } else { f32_any(s) };
    let spec = s.idx(SPECS);
    let (mw, mp) = if s.one_in(100) { (1000, 400) } else { (if s.one_in(6) { 130 } else { 24 }, if s.one_in(6) { 60 } else { 10 }) };
    let w = s.upto(mw) as usize;
    let p = s.upto(mp) as usize;
    let (want, got, name) = format_on(v, spec, w, p).expect("spec in range");
    s.nontrivial();
    s.label(if v.is_finite() { "finite" } else { "not finite" });
    s.desc(|| format!("{} with {name:?}, w = {w}, p = {p}: {got:?}", show(v)));
    ensure!(got == want, "F32({}) with {name:?}, w = {w}, p = {p} is {got:?}, but f32 gives {want:?}", show(v));
    if s.one_in(4) {
        // a writer that is full before the end
        let room = s.upto(want.len() as u64) as usize;
        let (mut a, mut b) = (Room(String::new(), room), Room(String::new(), room));
        use std::fmt::Write;
        let (ra, rb) = match s.upto(2) {
            0 => (write!(a, "{v:w$.p$}"), write!(b, "{:w$.p$}", F32(v))),
            1 => (write!(a, "{v:+w$e}"), write!(b, "{:+w$e}", F32(v))),
            _ => (write!(a, "{v:.p$E}"), write!(b, "{:.p$E}", F32(v))),
        };
        s.label(if ra.is_err() { "writer fails" } else { "writer has room" });
        ensure!(
            a.0 == b.0 && ra.is_err() == rb.is_err(),
            "with room for {room} bytes F32({}) writes {:?} and returns {rb:?}, but f32 writes {:?} and returns {ra:?}",
            show(v),
            b.0,
            a.0
        );
    }
    Ok(())
}

/// A writer with room for some bytes, of which the last write may use a part.
struct Room(String, usize);

impl std::fmt::Write for Room {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        for c in t.chars() {
            if c.len_utf8() > self.1 {
                return Err(std::fmt::Error);
            }
            self.1 -= c.len_utf8();
            self.0.push(c);
        }
        Ok(())
    }
}

fn round_trip(s: &mut Src) -> R {
    let v = f32_any(s);
    if v.is_nan() {
        return s.skip();
    }
    s.nontrivial();
    let texts = [format!("{}", F32(v)), format!("{:e}", F32(v)), format!("{:E}", F32(v)), format!("{:+}", F32(v))];
    s.desc(|| format!("{} as {texts:?}", show(v)));
    for t in texts {
        match t.parse::<F32>() {
            Ok(w) => ensure!(w.0.to_bits() == v.to_bits(), "{} displays as {t:?}, which parses as {}", show(v), show(w.0)),
            Err(e) => crate::fail!("{} displays as {t:?}, which does not parse: {e}", show(v)),
        }
    }
    Ok(())
}

fn number_text(s: &mut Src) -> String {
    let mut t = String::new();
    match s.upto(9) {
        0 => t.push_str(s.pick(&["inf", "-inf", "+Infinity", "infinity", "NaN", "nan", "-NaN", "INF", "iNf", "infi", "nano", "-", "+", "", ".", "e", "e5", "0x10", "1_000", "١", "−1", "1,5", "1f32", "1.0f"])),
        1 => t = format!("{}", f32_any(s)),
        2 => t = format!("{:e}", f32_any(s)),
        _ => {
            t.push_str(s.pick(&["", "", "", "-", "+"]));
            // now and then, more digits than any buffer of this size expects
            let most = if s.one_in(40) { 400 } else { 12 };
            for _ in 0..s.upto(most) {
                t.push((b'0' + s.upto(9) as u8) as char);
            }
            if s.flip() {
                t.push('.');
                for _ in 0..s.upto(most) {
                    t.push((b'0' + s.upto(9) as u8) as char);
                }
            }
            if s.upto(3) == 0 {
                t.push(s.pick(&['e', 'E']));
                t.push_str(s.pick(&["", "", "-", "+"]));
                for _ in 0..s.upto(3) {
                    t.push((b'0' + s.upto(9) as u8) as char);
                }
            }
        }
    }
    // now and then, damage
    if s.one_in(4) && !t.is_empty() {
        let cs: Vec<char> = t.chars().collect();
        let i = s.idx(cs.len() + 1);
        let mut c2 = cs.clone();
        match s.upto(3) {
            0 => c2.insert(i, s.pick(&[' ', '\t', '\n', 'x', '-', '+', '.', 'e', '_', '0', '\0', 'é', '\u{200b}'])),
            1 => {
                c2.remove(i.min(cs.len() - 1));
            }
            2 => c2.truncate(i),
            _ => c2.extend(cs.iter()),
        }
        t = c2.into_iter().collect();
    }
    t
}

fn parsing(s: &mut Src) -> R {
    let t = number_text(s);
    s.desc(|| format!("parse {t:?}"));
    let (want, got) = (t.parse::<f32>(), t.parse::<F32>());
    s.label(if want.is_ok() { "valid" } else { "invalid" });
    s.nontrivial();
    match (&want, &got) {
        (Ok(a), Ok(b)) => ensure!(same(*a, b.0), "{t:?} parses as {}, but as f32 {}", show(b.0), show(*a)),
        (Err(_), Err(_)) => {}
        _ => crate::fail!("{t:?} parses as {got:?}, but as f32 {want:?}"),
    }
    Ok(())
}

fn radix(s: &mut Src) -> R {
    use micromath::num_traits::Num;
    let r = if s.upto(3) == 0 { s.pick(&[2u32, 10, 16, 36]) } else { 2 + s.upto(34) as u32 };
    let mut t = String::new();
    if s.upto(7) == 0 {
        t = number_text(s);
    } else {
        t.push_str(s.pick(&["", "", "-", "+"]));
        let dig = |s: &mut Src, t: &mut String| {
            let top = if s.one_in(30) { 35 } else { r as u64 - 1 };
            let d = s.upto(top) as u32;
            let c = char::from_digit(d, 36).unwrap();
            t.push(if s.flip() { c.to_ascii_uppercase() } else { c });
        };
        for _ in 0..s.upto(14) {
            dig(s, &mut t);
        }
        if s.flip() {
            t.push('.');
            for _ in 0..s.upto(8) {
                dig(s, &mut t);
            }
        }
        if s.one_in(12) {
            t.push_str(s.pick(&["e5", "E-3", "p4", "@2", " ", "_", "e", "-"]));
        }
    }
    s.desc(|| format!("parse {t:?} with radix {r}"));
    let want = crate::engine::guard(|| <f32 as Num>::from_str_radix(&t, r));
    let got = crate::engine::guard(|| <F32 as Num>::from_str_radix(&t, r));
    s.nontrivial();
    match (&want, &got) {
        (Ok(Ok(a)), Ok(Ok(b))) => {
            s.label("valid");
            ensure!(same(*a, b.0), "{t:?} with radix {r} parses as {}, but as f32 {}", show(b.0), show(*a))
        }
        (Ok(Err(_)), Ok(Err(_))) => s.label("invalid"),
        (Err(_), Err(_)) => s.label("panics as for f32"),
        _ => crate::fail!("{t:?} with radix {r}: one of F32 and f32 parses it, the other does not"),
    }
    Ok(())
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        rule: "Generated values with 180 format specifications (three traits, flags, fills, alignments, run-time width and precision), texts of numbers from a grammar with damage, and digit strings in every radix; all counted as non-trivial except NaNs in the round trip.",
        tasks: vec![
            random("formatting", 12_000_000, formatting),
            random("round_trip", 8_000_000, round_trip),
            random("parsing", 24_000_000, parsing),
            random("radix_parsing", 16_000_000, radix),
        ],
        assumptions: &["f32's own formatting and parsing are the reference"],
    }
}

// ------------------------------------------------------------------ C19

fn faces1(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    sw.nontrivial += !v.is_nan() as u64;
    macro_rules! chk {
        ($($n:ident)*) => { $( {
            let (t, w) = (<f32 as F32Ext>::$n(v), F32(v).$n().0);
            ensure!(same(t, w), "{}({}) is {} on f32 and {} on F32", stringify!($n), show(v), show(t), show(w));
        } )* };
    }
    chk!(abs asin atan atan_norm ceil cos exp floor fract inv invsqrt ln log2 log10 recip round signum sin sqrt tan trunc);
    let (t, w) = (<f32 as F32Ext>::sin_cos(v), F32(v).sin_cos());
    ensure!(same(t.0, w.0 .0) && same(t.1, w.1 .0), "sin_cos({}) is {t:?} on f32 and {w:?} on F32", show(v));
    ensure!(same(t.0, x::sin(v)) && same(t.1, x::cos(v)), "sin_cos({}) is {t:?}, but sin is {} and cos {}", show(v), x::sin(v), x::cos(v));
    use micromath::num_traits::{Inv, One, Zero};
    ensure!(same(<F32 as Inv>::inv(F32(v)).0, F32(v).inv().0), "Inv::inv({})", show(v));
    ensure!(<F32 as Zero>::is_zero(&F32(v)) == (v == 0.0), "is_zero({})", show(v));
    ensure!(<F32 as One>::is_one(&F32(v)) == (v == 1.0), "is_one({})", show(v));
    if b == 0 {
        ensure!(<F32 as Zero>::zero().0.to_bits() == 0, "zero() = {}", <F32 as Zero>::zero());
        ensure!(<F32 as One>::one().0.to_bits() == 1.0f32.to_bits(), "one() = {}", <F32 as One>::one());
    }
    Ok(())
}

fn faces2(s: &mut Src) -> R {
    let (a, b) = pair(s);
    let c = f32_related(s, b);
    let n = i32_any(s);
    s.nontrivial_if(!a.is_nan() && !b.is_nan());
    s.desc(|| format!("{}, {}, {}, {n}", show(a), show(b), show(c)));
    macro_rules! chk {
        ($($n:ident)*) => { $( {
            let (t, w) = (<f32 as F32Ext>::$n(a, b), F32(a).$n(F32(b)).0);
            ensure!(same(t, w), "{}({}, {}) is {} on f32 and {} on F32", stringify!($n), show(a), show(b), show(t), show(w));
        } )* };
    }
    chk!(atan2 copysign div_euclid hypot log powf rem_euclid);
    let (t, w) = (<f32 as F32Ext>::powi(a, n), F32(a).powi(n).0);
    ensure!(same(t, w), "powi({}, {n}) is {} on f32 and {} on F32", show(a), show(t), show(w));
    let (t, w) = (<f32 as F32Ext>::mul_add(a, b, c), F32(a).mul_add(F32(b), F32(c)).0);
    ensure!(same(t, w), "mul_add({}, {}, {}) is {} on f32 and {} on F32", show(a), show(b), show(c), show(t), show(w));
    Ok(())
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        rule: "Bit patterns on a stride through 22 one-argument methods of both faces and the num-traits impls; generated argument tuples for the methods of two and three arguments; non-trivial: no NaN argument.",
        tasks: vec![sweep("one_argument", ALL, 3, faces1), random("more_arguments", 30_000_000, faces2)],
        assumptions: &[],
    }
}

// ------------------------------------------------------------------ C21

fn nan_pattern(i: u32) -> f32 {
    // 2^24 patterns: sign and 23 mantissa bits; the zero mantissas would be infinities
    let m = i & 0x7f_ffff;
    f32::from_bits((i >> 23) << 31 | 0x7f80_0000 | if m == 0 { 0x40_0000 } else { m })
}

fn nan1(i: u32, sw: &mut Sw) -> R {
    let v = nan_pattern(i);
    sw.nontrivial += 1;
    macro_rules! chk {
        ($($n:ident)*) => { $( { let r = x::$n(v); ensure!(r.is_nan(), "{}({}) = {}", stringify!($n), show(v), show(r)); } )* };
    }
    chk!(abs acos asin atan atan_norm ceil cos cosh exp floor fract inv invsqrt ln log2 log10 recip round signum sin sqrt tan trunc);
    let (a, b) = x::sin_cos(v);
    ensure!(a.is_nan() && b.is_nan(), "sin_cos({}) = {}, {}", show(v), show(a), show(b));
    ensure!(x::abs(v).is_sign_positive(), "abs({}) = {}", show(v), show(x::abs(v)));
    // fixed partners
    for p in [1.0f32, -2.5, 0.0, -0.0, f32::INFINITY] {
        macro_rules! chk {
            ($($n:ident)*) => { $( {
                let (r, q) = (x::$n(v, p), x::$n(p, v));
                ensure!(r.is_nan(), "{}({}, {}) = {}", stringify!($n), show(v), show(p), show(r));
                ensure!(q.is_nan(), "{}({}, {}) = {}", stringify!($n), show(p), show(v), show(q));
            } )* };
        }
        chk!(atan2 atan2_norm div_euclid rem_euclid hypot log);
        let q = x::powf(p, v);
        ensure!(q.is_nan(), "powf({}, {}) = {}", show(p), show(v), show(q));
        if p != 0.0 {
            let r = x::powf(v, p);
            ensure!(r.is_nan(), "powf({}, {}) = {}", show(v), show(p), show(r));
        }
        let r = x::copysign(v, p);
        ensure!(r.is_nan() && r.is_sign_negative() == p.is_sign_negative(), "copysign({}, {}) = {}", show(v), show(p), show(r));
        let q = x::copysign(p, v);
        ensure!(q.abs() == p.abs() && q.is_sign_negative() == v.is_sign_negative(), "copysign({}, {}) = {}", show(p), show(v), show(q));
    }
    for n in [1, -1, 2, 7, -33, i32::MAX, i32::MIN] {
        let r = x::powi(v, n);
        ensure!(r.is_nan(), "powi({}, {n}) = {}", show(v), show(r));
    }
    ensure!(x::powi(v, 0) == 1.0 && x::powf(v, 0.0) == 1.0 && x::powf(v, -0.0) == 1.0, "powers zero of {}", show(v));
    Ok(())
}

fn nan2(s: &mut Src) -> R {
    let which = s.upto(2);
    let v = nan(s);
    let p = if which == 2 { nan(s) } else { f32_any(s) };
    let (a, b) = if which == 1 { (p, v) } else { (v, p) };
    let c = f32_any(s);
    let n = i32_any(s);
    s.nontrivial_if(!p.is_nan());
    s.desc(|| format!("{}, {}, {}, {n}", show(a), show(b), show(c)));
    macro_rules! chk {
        ($($n:ident)*) => { $( {
            let r = x::$n(a, b);
            ensure!(r.is_nan(), "{}({}, {}) = {}", stringify!($n), show(a), show(b), show(r));
        } )* };
    }
    chk!(atan2 atan2_norm div_euclid rem_euclid hypot log);
    if b != 0.0 {
        chk!(powf);
    }
    if a.is_nan() && n != 0 {
        let r = x::powi(a, n);
        ensure!(r.is_nan(), "powi({}, {n}) = {}", show(a), show(r));
    }
    for (i, r) in [x::mul_add(a, b, c), x::mul_add(c, a, b), x::mul_add(b, c, a)].iter().enumerate() {
        ensure!(r.is_nan(), "mul_add with {}, {}, {} rotated by {i} = {}", show(a), show(b), show(c), show(*r));
    }
    Ok(())
}

fn domain1(b: u32, sw: &mut Sw) -> R {
    let v = f32::from_bits(b);
    if !v.is_finite() {
        return Ok(());
    }
    sw.nontrivial += 1;
    macro_rules! chk {
        ($($n:ident)*) => { $( { let r = x::$n(v); ensure!(!r.is_nan(), "{}({}) = {}", stringify!($n), show(v), show(r)); } )* };
    }
    chk!(abs atan atan_norm ceil cos cosh exp floor fract inv recip round signum sin trunc);
    if v.abs() <= 4194304.0 {
        chk!(tan);
    }
    if v >= 0.0 {
        chk!(sqrt invsqrt ln log2 log10);
    }
    if v.abs() <= 1.0 {
        chk!(asin acos);
    }
    Ok(())
}

fn domain2(s: &mut Src) -> R {
    let a = f32_fin(s);
    let b = f32_related(s, a);
    let n = i32_any(s);
    if !b.is_finite() {
        return s.skip();
    }
    let c = f32_fin(s);
    s.nontrivial();
    s.desc(|| format!("{}, {}, {}, {n}", show(a), show(b), show(c)));
    macro_rules! chk {
        ($n:ident if $c:expr) => {
            if $c {
                let r = x::$n(a, b);
                ensure!(!r.is_nan(), "{}({}, {}) = {}", stringify!($n), show(a), show(b), show(r));
            }
        };
    }
    chk!(atan2 if true);
    chk!(atan2_norm if true);
    chk!(hypot if true);
    chk!(copysign if true);
    chk!(div_euclid if b != 0.0);
    chk!(rem_euclid if b != 0.0);
    chk!(log if a >= 0.0 && b > 0.0 && (b as f64).ln().abs() >= 0.01);
    chk!(powf if a >= 0.0 || b == b.trunc());
    let r = x::powi(a, n);
    ensure!(!r.is_nan(), "powi({}, {n}) = {}", show(a), show(r));
    let r = x::mul_add(a, b, c);
    ensure!(!r.is_nan(), "mul_add({}, {}, {}) = {}", show(a), show(b), show(c), show(r));
    Ok(())
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        rule: "All 2^24 NaN bit patterns through every function (with five fixed partners for two arguments), generated tuples with a NaN in any position (non-trivial: the partner is a number), and finite arguments inside each domain (bit patterns on a stride, generated pairs; non-trivial: finite).",
        tasks: vec![
            sweep("nan_patterns", 1 << 24, 1, nan1),
            random("nan_tuples", 20_000_000, nan2),
            sweep("domains", ALL, 3, domain1),
            random("domain_pairs", 20_000_000, domain2),
        ],
        assumptions: &[],
    }
}
