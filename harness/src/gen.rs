//! Generators of floats, integers and lengths.

use crate::engine::Src;
use std::sync::OnceLock;

/// Numeric literals of the sources under test: they guide generation, never judge.
pub struct Dict {
    pub floats: Vec<f32>,
    pub ints: Vec<u64>,
}

pub fn repo() -> String {
    std::env::var("MMV_REPO").unwrap_or_else(|_| "/repo".into())
}

fn scan(src: &str, floats: &mut Vec<f32>, ints: &mut Vec<u64>) {
    for line in src.lines() {
        let line = line.split("//").next().unwrap();
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let prev_ident = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
            if !b[i].is_ascii_digit() || prev_ident {
                i += 1;
                continue;
            }
            let st = i;
            while i < b.len()
                && (b[i].is_ascii_alphanumeric()
                    || b[i] == b'_'
                    || (b[i] == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit())
                    || (matches!(b[i], b'+' | b'-') && matches!(b[i - 1], b'e' | b'E') && !line[st..i].starts_with("0x")))
            {
                i += 1;
            }
            let t: String = line[st..i].chars().filter(|c| *c != '_').collect();
            let t = [
                "f32", "f64", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize",
            ]
            .iter()
            .find_map(|s| if t.starts_with("0x") && s.starts_with('f') { None } else { t.strip_suffix(s) })
            .unwrap_or(&t)
            .to_string();
            let int = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(h) = t.strip_prefix("0b") {
                u64::from_str_radix(h, 2).ok()
            } else {
                t.parse::<u64>().ok()
            };
            if let Some(n) = int {
                ints.push(n);
                floats.push(n as f32);
                if n > 0xffff && n <= u32::MAX as u64 {
                    floats.push(f32::from_bits(n as u32));
                }
            } else if let Ok(x) = t.parse::<f64>() {
                floats.push(x as f32);
            }
        }
    }
}

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

/// Bit patterns around the values that code treats apart.
pub fn landmarks() -> &'static [u32] {
    static L: OnceLock<Vec<u32>> = OnceLock::new();
    L.get_or_init(|| {
        let mut c: Vec<f32> = dict().floats.clone();
        c.extend((0..=254u32).map(|e| f32::from_bits(e << 23)));
        c.extend((0..=254u32).map(|e| f32::from_bits(e << 23 | 0x40_0000)));
        c.extend((0..2048).map(|i| i as f32 * 0.5));
        c.extend((1..2048).map(|i| (i as f64 * std::f64::consts::FRAC_PI_4) as f32));
        c.extend((-60..=60).map(|i| (i as f64 * std::f64::consts::LN_2) as f32));
        c.extend((-45..=38).map(|i| 10f64.powi(i) as f32));
        c.extend([f32::MAX, f32::INFINITY, f32::NAN]);
        let mut l: Vec<u32> = c
            .iter()
            .flat_map(|x| {
                let b = (x.to_bits() & 0x7fff_ffff) as i64;
                (-16..=16).map(move |d| (b + d).clamp(0, 0x7fff_ffff) as u32)
            })
            .flat_map(|b| [b, b | 1 << 31])
            .collect();
        l.sort_unstable();
        l.dedup();
        l
    })
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        walk(std::path::Path::new(&format!("{}/src", repo())), &mut files);
        let (mut floats, mut ints) = (vec![], vec![]);
        for f in files {
            if let Ok(s) = std::fs::read_to_string(f) {
                let s = s.split("#[cfg(test)]\nmod tests").next().unwrap();
                let s = s.split("#[cfg(test)]\npub(crate) mod tests").next().unwrap();
                scan(s, &mut floats, &mut ints);
            }
        }
        let mut more = vec![];
        for &x in &floats {
            for y in [1.0 / x, x * 2.0, x * 0.5, x + 1.0, x - 1.0] {
                if y.is_finite() {
                    more.push(y);
                }
            }
        }
        floats.extend(more);
        floats.retain(|x| !x.is_nan());
        floats.sort_by_key(|x| x.to_bits());
        floats.dedup_by_key(|x| x.to_bits());
        let mut more: Vec<u64> = ints.iter().flat_map(|&n| [n + 1, n.saturating_sub(1)]).collect();
        ints.append(&mut more);
        ints.sort();
        ints.dedup();
        if floats.is_empty() {
            floats.push(1.0);
            ints.push(1);
        }
        Dict { floats, ints }
    })
}

use std::f32::consts as c;
pub const SPECIALS: &[f32] = &[
    0.0,
    -0.0,
    1.0,
    -1.0,
    0.5,
    2.0,
    f32::INFINITY,
    f32::NEG_INFINITY,
    f32::NAN,
    f32::MAX,
    f32::MIN,
    f32::MIN_POSITIVE,
    -f32::MIN_POSITIVE,
    f32::EPSILON,
    1e-45,
    -1e-45,
    1.1754942e-38,
    5.877472e-39,
    c::PI,
    -c::PI,
    c::FRAC_PI_2,
    -c::FRAC_PI_2,
    c::FRAC_PI_4,
    c::TAU,
    c::E,
    c::LN_2,
    c::LOG2_E,
    c::SQRT_2,
    c::FRAC_1_SQRT_2,
    0.25,
    0.75,
    1.5,
    2.5,
    0.49999997,
    0.50000006,
    0.99999994,
    1.0000001,
    127.0,
    128.0,
    255.0,
    256.0,
    32767.0,
    32768.0,
    65535.0,
    65536.0,
    8388607.5,
    8388608.0,
    8388609.0,
    16777215.0,
    16777216.0,
    2147483600.0,
    2147483648.0,
    -2147483648.0,
    4294967300.0,
    4294967296.0,
    9.223372e18,
    1.8446744e19,
    88.72284,
    -87.33654,
    -103.97208,
    1e10,
    -1e10,
    1e-10,
    1e15,
    1e-15,
    1e18,
    1e19,
    1e-18,
    1e20,
    1e-20,
    1e30,
    1e-30,
    1e38,
    1e-38,
    1.6e38,
    1.7014118e38,
];

#[inline]
fn sign(s: &mut Src, x: f32) -> f32 {
    if s.flip() {
        f32::from_bits(x.to_bits() ^ 0x8000_0000)
    } else {
        x
    }
}

/// A few units in the last place away (one time in four).
#[inline]
fn nudge(s: &mut Src, x: f32) -> f32 {
    let k = s.upto(15);
    match k {
        12 => f32::from_bits(x.to_bits().wrapping_add(1)),
        13 => f32::from_bits(x.to_bits().wrapping_sub(1)),
        14 => f32::from_bits(x.to_bits().wrapping_add(3)),
        15 => f32::from_bits(x.to_bits().wrapping_sub(2)),
        _ => x,
    }
}

/// Any f32, from small integers to NaNs with payloads.
pub fn f32_any(s: &mut Src) -> f32 {
    match s.weighted(&[14, 10, 12, 14, 26, 14, 10]) {
        0 => {
            let x = s.upto(20) as f32;
            sign(s, x)
        }
        1 => {
            let d = [8.0, 10.0, 3.0, 100.0][s.idx(4)];
            let x = s.upto(2000) as f32 / d;
            sign(s, x)
        }
        2 => {
            let x = s.pick(SPECIALS);
            let x = nudge(s, x);
            sign(s, x)
        }
        3 => {
            let d = dict();
            let x = d.floats[s.idx(d.floats.len())];
            let x = nudge(s, x);
            sign(s, x)
        }
        4 => f32_mag(s, -24, 24),
        5 => f32::from_bits(s.upto(u32::MAX as u64) as u32),
        _ => {
            // few significant bits
            let e = s.upto(255) as u32;
            let m = (s.upto(7) as u32) << 20 | if s.flip() { 1 << s.upto(19) } else { 0 };
            let x = f32::from_bits(e << 23 | m);
            sign(s, x)
        }
    }
}

/// Finite.
pub fn f32_fin(s: &mut Src) -> f32 {
    let x = f32_any(s);
    if x.is_finite() {
        x
    } else {
        f32_mag(s, -60, 60)
    }
}

/// Log-uniform magnitude between 2^lo and 2^hi, either sign.
pub fn f32_mag(s: &mut Src, lo: i32, hi: i32) -> f32 {
    let e = (s.range(lo as i64, hi as i64 - 1) + 127) as u32;
    let m = s.upto(0x7f_ffff) as u32;
    let x = f32::from_bits(e << 23 | m);
    sign(s, x)
}

/// `f32_any` folded into magnitudes 2^lo..2^hi (zeros allowed).
pub fn f32_within(s: &mut Src, lo: i32, hi: i32) -> f32 {
    let x = f32_any(s);
    if x == 0.0 {
        return x;
    }
    let e = (x.to_bits() >> 23 & 0xff) as i32 - 127;
    if e >= lo && e < hi {
        return x;
    }
    let span = hi - lo;
    let ne = lo + (e - lo).rem_euclid(span);
    f32::from_bits(x.to_bits() & 0x807f_ffff | ((ne + 127) as u32) << 23)
}

/// Often related to `x`.
pub fn f32_related(s: &mut Src, x: f32) -> f32 {
    match s.weighted(&[50, 8, 6, 5, 7, 7, 6, 4, 4, 3]) {
        0 => f32_any(s),
        1 => x,
        2 => -x,
        3 => 1.0 / x,
        4 => {
            let k = s.upto(40) as f32;
            let x = x * k;
            sign(s, x)
        }
        5 => {
            let k = 1 + s.upto(40);
            let x = x / k as f32;
            sign(s, x)
        }
        6 => {
            let k = s.upto(8) as u32;
            let x = f32::from_bits(if s.flip() { x.to_bits().wrapping_add(k) } else { x.to_bits().wrapping_sub(k) });
            sign(s, x)
        }
        7 => {
            let k = s.range(-30, 30) as i32;
            let x = (x as f64 * 2f64.powi(k)) as f32;
            sign(s, x)
        }
        8 => {
            let k = (s.upto(9) + 1) as f32 + 0.5;
            let x = if s.flip() { x * k } else { x / k };
            sign(s, x)
        }
        _ => x * x,
    }
}

/// A NaN of any payload and sign.
pub fn nan(s: &mut Src) -> f32 {
    let m = match s.upto(3) {
        0 => 0x40_0000,
        1 => 1,
        2 => 0x7f_ffff,
        _ => 1 + s.upto(0x7f_fffe) as u32,
    };
    let x = f32::from_bits(0x7f80_0000 | m);
    sign(s, x)
}

/// i32 exponents and the like: small, special, from the sources, any.
pub fn i32_any(s: &mut Src) -> i32 {
    match s.weighted(&[40, 15, 12, 15, 10, 8]) {
        0 => s.range(0, 40) as i32 * if s.flip() { -1 } else { 1 },
        1 => s.range(0, 400) as i32 * if s.flip() { -1 } else { 1 },
        2 => {
            let t = [
                i32::MIN,
                i32::MAX,
                i32::MIN + 1,
                i32::MAX - 1,
                0,
                1,
                -1,
                127,
                128,
                -126,
                -127,
                -149,
                -150,
                149,
                150,
                255,
                256,
                65535,
                65536,
                1 << 24,
                1 << 30,
                -(1 << 30),
            ];
            s.pick(&t)
        }
        3 => {
            let d = dict();
            let n = d.ints[s.idx(d.ints.len())] as u32 as i32;
            if s.flip() {
                n.wrapping_neg()
            } else {
                n
            }
        }
        4 => (1i32 << s.upto(30)).wrapping_add(s.range(-2, 2) as i32) * if s.flip() { -1 } else { 1 },
        _ => s.upto(u32::MAX as u64) as u32 as i32,
    }
}

/// A length: mostly short, now and then around a power of two or a literal of the sources.
pub fn len(s: &mut Src, max: usize) -> usize {
    let n = match s.weighted(&[60, 20, 10, 10]) {
        0 => s.upto(12) as usize,
        1 => s.upto(64) as usize,
        2 => {
            let k = s.upto(20);
            (1usize << k).wrapping_add(s.range(-1, 1) as usize)
        }
        _ => {
            let d = dict();
            d.ints[s.idx(d.ints.len())] as usize
        }
    };
    if n > max {
        s.upto(max as u64) as usize
    } else {
        n
    }
}
