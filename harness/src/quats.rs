//! C27..C31: quaternions.

use crate::engine::{guard, random, Property, Src, R};
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use micromath::vector::{Component, Vector3d};
use micromath::Quaternion;

type Q4 = [f64; 4];

fn q(a: [f32; 4]) -> Quaternion {
    Quaternion::new(a[0], a[1], a[2], a[3])
}
fn d(a: [f32; 4]) -> Q4 {
    a.map(|x| x as f64)
}
fn un(a: Quaternion) -> Q4 {
    d(a.to_array())
}
/// (value, sum of the magnitudes of the terms) per component
fn hamilton(a: Q4, b: Q4) -> ([f64; 4], [f64; 4]) {
    const T: [[(f64, usize, usize); 4]; 4] = [
        [(1., 0, 0), (-1., 1, 1), (-1., 2, 2), (-1., 3, 3)],
        [(1., 0, 1), (1., 1, 0), (1., 2, 3), (-1., 3, 2)],
        [(1., 0, 2), (-1., 1, 3), (1., 2, 0), (1., 3, 1)],
        [(1., 0, 3), (1., 1, 2), (-1., 2, 1), (1., 3, 0)],
    ];
    let mut v = [0.0; 4];
    let mut m = [0.0; 4];
    for i in 0..4 {
        for (sg, j, k) in T[i] {
            let p = a[j] * b[k];
            v[i] += sg * p;
            m[i] += p.abs();
        }
    }
    (v, m)
}
fn mul(a: Q4, b: Q4) -> Q4 {
    hamilton(a, b).0
}
fn conj(a: Q4) -> Q4 {
    [a[0], -a[1], -a[2], -a[3]]
}
fn norm2(a: Q4) -> f64 {
    a.iter().map(|x| x * x).sum()
}
fn len3(v: [f64; 3]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn rot(a: Q4, v: [f64; 3]) -> [f64; 3] {
    let r = mul(mul(a, [0.0, v[0], v[1], v[2]]), conj(a));
    [r[1], r[2], r[3]]
}

/// Components: integers, structured, any magnitude below 2^30; zeros are common.
fn comps(s: &mut Src) -> [f32; 4] {
    let style = s.upto(4);
    std::array::from_fn(|_| {
        if s.one_in(6) {
            return 0.0;
        }
        match style {
            0 => s.range(-20, 20) as f32,
            1 => s.range(-2000, 2000) as f32,
            2 => f32_mag(s, -2, 2),
            3 => f32_within(s, -6, 6),
            _ => f32_within(s, -29, 29),
        }
    })
}

// ------------------------------------------------------------------ C27

fn algebra(s: &mut Src) -> R {
    let a = comps(s);
    let b = match s.upto(7) {
        0 => a,
        1 => a.map(|x| -x),
        2 => [a[0], -a[1], -a[2], -a[3]],
        _ => comps(s),
    };
    let k = f32_within(s, -20, 20);
    s.desc(|| format!("{a:?}, {b:?}, scalar {k:?}"));
    s.nontrivial_if(a.iter().filter(|x| **x != 0.0).count() >= 3 && b.iter().filter(|x| **x != 0.0).count() >= 3);
    let (p, w) = (q(a), q(b));
    let chk = |what: &str, got: Quaternion, want: [f32; 4]| -> R {
        let g = got.to_array();
        ensure!(g.iter().zip(&want).all(|(x, y)| eqv(*x, *y)), "{what} of {a:?}, {b:?}, scalar {k:?} is {g:?}, expected {want:?}");
        Ok(())
    };
    let z = |f: &dyn Fn(f32, f32) -> f32| -> [f32; 4] { std::array::from_fn(|i| f(a[i], b[i])) };
    chk("p + q", p + w, z(&|x, y| x + y))?;
    chk("p - q", p - w, z(&|x, y| x - y))?;
    let mut u = p;
    u += w;
    chk("p += q", u, z(&|x, y| x + y))?;
    let mut u = p;
    u -= w;
    chk("p -= q", u, z(&|x, y| x - y))?;
    let ak = a.map(|x| x * k);
    chk("p * k", p * k, ak)?;
    chk("k * p", k * p, ak)?;
    chk("p.scale(k)", p.scale(k), ak)?;
    chk("p.scale(F32(k))", p.scale(micromath::F32(k)), ak)?;
    let n = k as i16;
    chk("p.scale(i16)", p.scale(n), a.map(|x| x * n as f32))?;
    let mut u = p;
    u *= k;
    chk("p *= k", u, ak)?;
    chk("conj", p.conj(), [a[0], -a[1], -a[2], -a[3]])?;
    // products
    let (v, m) = hamilton(d(a), d(b));
    let g = un(p * w);
    let int = a.iter().chain(&b).all(|x| *x == x.trunc());
    for i in 0..4 {
        let exact = int && m[i] < 16777216.0;
        let bound = if exact { 0.0 } else { 5e-7 * m[i] + 1e-40 };
        let e = (g[i] - v[i]).abs();
        if !exact {
            s.ratio(e / bound);
        }
        ensure!(e <= bound, "component {i} of {a:?} * {b:?} is {:e}, off by {e:e} from {:e}", g[i], v[i]);
    }
    if int {
        s.label("integer components");
    }
    let (v, m): (f64, f64) = (0..4).map(|i| a[i] as f64 * b[i] as f64).fold((0.0, 0.0), |(v, m), p| (v + p, m + p.abs()));
    let bound = if int && m < 16777216.0 { 0.0 } else { 5e-7 * m + 1e-40 };
    let g = p.dot(w) as f64;
    ensure!((g - v).abs() <= bound, "{a:?} dot {b:?} is {g:e}, expected {v:e}");
    // identity
    chk("1 * p", Quaternion::IDENTITY * p, a)?;
    chk("p * 1", p * Quaternion::IDENTITY, a)?;
    Ok(())
}

fn conversions(s: &mut Src) -> R {
    let a: [f32; 4] = std::array::from_fn(|_| if s.one_in(12) { nan(s) } else { f32_any(s) });
    s.desc(|| format!("{a:?}"));
    s.nontrivial_if((1..4).all(|i| a[i].to_bits() != a[0].to_bits()));
    let chk = |what: &str, g: [f32; 4]| -> R {
        ensure!(g.iter().zip(&a).all(|(x, y)| x.to_bits() == y.to_bits()), "{what} of {a:?} is {g:?}");
        Ok(())
    };
    let p = q(a);
    chk("to_array", p.to_array())?;
    chk("array", p.into())?;
    let t: (f32, f32, f32, f32) = p.into();
    chk("tuple", [t.0, t.1, t.2, t.3])?;
    chk("w, x, y, z", [p.w(), p.x(), p.y(), p.z()])?;
    chk("from an array", Quaternion::from(a).to_array())?;
    chk("from a tuple", Quaternion::from((a[0], a[1], a[2], a[3])).to_array())?;
    let v = Quaternion::from(Vector3d { x: a[1], y: a[2], z: a[3] }).to_array();
    ensure!(v[0] == 0.0, "the real part of a vector's quaternion is {}", v[0]);
    chk("from a vector (with w)", [a[0], v[1], v[2], v[3]])?;
    let i = [s.range(-128, 127) as i8, s.range(-128, 127) as i8, s.range(-128, 127) as i8];
    let v = Quaternion::from(Vector3d { x: i[0], y: i[1], z: i[2] }).to_array();
    ensure!(v == [0.0, i[0] as f32, i[1] as f32, i[2] as f32], "the i8 vector {i:?} becomes {v:?}");
    let i = [s.upto(65535) as u16, s.upto(65535) as u16, s.upto(65535) as u16];
    let v = Quaternion::from(Vector3d { x: i[0], y: i[1], z: i[2] }).to_array();
    ensure!(v == [0.0, i[0] as f32, i[1] as f32, i[2] as f32], "the u16 vector {i:?} becomes {v:?}");
    let eq = p == q(a);
    ensure!(eq == a.iter().all(|x| !x.is_nan()), "{a:?} == itself is {eq}");
    let j = s.idx(4);
    let mut b = a;
    b[j] = f32_any(s);
    let eq = p == q(b);
    ensure!(eq == (0..4).all(|i| a[i] == b[i]), "{a:?} == {b:?} is {eq}");
    let id = Quaternion::default().to_array();
    ensure!(id == [1.0, 0.0, 0.0, 0.0] && Quaternion::IDENTITY.to_array() == id, "the default is {id:?}");
    Ok(())
}

pub fn c27() -> Property {
    Property {
        id: "C27",
        rule: "Generated pairs of quaternions (integers, structured floats, magnitudes up to 2^29, equal, negated and conjugate pairs) against Hamilton's table in f64, and conversions of any bit patterns; non-trivial: three non-zero components in both (algebra), w different from the rest (conversions).",
        tasks: vec![random("algebra", 64_000_000, algebra), random("conversions", 40_000_000, conversions)],
        assumptions: &["f64 products of f32 are exact"],
    }
}

// ------------------------------------------------------------------ C28

fn magnitudes(s: &mut Src) -> R {
    let a = match s.upto(5) {
        0 => {
            // norm a power of two: one component, or all four equal
            let x = 2f32.powi(s.range(-58, 60) as i32);
            let x = if s.flip() { -x } else { x };
            if s.flip() {
                [x, x, -x, x]
            } else {
                let mut a = [0.0; 4];
                a[s.idx(4)] = x;
                a
            }
        }
        1 => std::array::from_fn(|_| f32_any(s)),
        2 => std::array::from_fn(|_| f32_within(s, -66, 66)),
        _ => comps(s),
    };
    s.desc(|| format!("{a:?}"));
    let p = q(a);
    let n = p.norm();
    let (i, u) = (guard(|| p.inv()), guard(|| p.normalize()));
    ensure!(i.is_err() == (n == 0.0), "inv of {a:?} with norm {n:e} is {i:?}");
    ensure!(u.is_err() == (n == 0.0), "normalize of {a:?} with norm {n:e} is {u:?}");
    let w = norm2(d(a));
    if w == 0.0 {
        s.label("zero");
        ensure!(n == 0.0, "the norm of {a:?} is {n:e}");
        return Ok(());
    }
    if !(1e-36..=1e37).contains(&w) {
        return s.skip();
    }
    s.nontrivial();
    let e = (n as f64 / w - 1.0).abs();
    s.ratio(e / 5e-7);
    ensure!(e <= 5e-7, "the norm of {a:?} is {n:e}, expected {w:e}");
    let l = w.sqrt();
    let m = p.magnitude();
    let e = (m as f64 / l - 1.0).abs();
    s.ratio(e / 0.062);
    ensure!(e <= 0.062, "the magnitude of {a:?} is {m:e}, expected {l:e}");
    let u = un(u.unwrap());
    let lu = norm2(u).sqrt();
    s.ratio((lu - 1.0).abs() / 0.036);
    ensure!((lu - 1.0).abs() <= 0.036, "{a:?} normalizes to {u:?} with length {lu}");
    for k in 0..4 {
        let e = (a[k] as f64 / l - u[k] / lu).abs();
        ensure!(e <= 1e-6, "{a:?} normalizes to {u:?}: direction off by {e:e} in component {k}");
    }
    let i = un(i.unwrap());
    let c = conj(d(a));
    let pow2 = w.log2() == w.log2().round() && n as f64 == w;
    if pow2 {
        s.label("norm a power of two");
    }
    for k in 0..4 {
        let want = c[k] / w;
        // components may be subnormal
        let bound = if pow2 && want.abs() >= 1e-30 { 1e-7 } else { 0.127 } * want.abs() + 1e-40;
        let e = (i[k] - want).abs();
        s.ratio(e / bound);
        ensure!(e <= bound, "inv of {a:?} is {i:?}, expected {:?}", c.map(|x| x / w));
    }
    let one = un(p * q(i.map(|x| x as f32)));
    for k in 0..4 {
        let e = (one[k] - (k == 0) as u8 as f64).abs();
        ensure!(e <= 0.13, "{a:?} times its inverse is {one:?}");
    }
    Ok(())
}

pub fn c28() -> Property {
    Property {
        id: "C28",
        rule: "Generated quaternions (integers, structured, magnitudes 2^-66..2^66, any bit patterns, norms that are powers of two, zero); non-trivial: norm in the accuracy domain of the statement.",
        tasks: vec![random("norm_inv_normalize", 80_000_000, magnitudes)],
        assumptions: &["f64 arithmetic has relative error below 1e-15"],
    }
}

// ------------------------------------------------------------------ C29

/// A quaternion of unit length to f32 rounding.
pub fn unit(s: &mut Src) -> [f32; 4] {
    let a: [f64; 4] = match s.upto(5) {
        0 => std::array::from_fn(|_| s.range(-4, 4) as f64),
        1 => {
            // a rotation about an axis
            let t = s.range(-720, 720) as f64 / 4.0 * std::f64::consts::PI / 180.0;
            let mut a = [t.cos(), 0.0, 0.0, 0.0];
            a[1 + s.idx(3)] = t.sin();
            a
        }
        2 => {
            // nearly one of the axes
            let mut a: [f64; 4] = std::array::from_fn(|_| f32_mag(s, -24, -4) as f64);
            let i = s.idx(4);
            a[i] = if s.flip() { -1.0 } else { 1.0 };
            a
        }
        _ => std::array::from_fn(|_| s.range(-1_000_000, 1_000_000) as f64),
    };
    let l = norm2(a).sqrt();
    if l == 0.0 {
        return [1.0, 0.0, 0.0, 0.0];
    }
    a.map(|x| (x / l) as f32)
}

fn rotated<C: Component + Into<f32> + Copy>(s: &mut Src, a: [f32; 4], v: [C; 3]) -> R {
    let p = q(a);
    let f: [f32; 3] = v.map(|x| x.into());
    let vd = f.map(|x| x as f64);
    let l = len3(vd);
    let want = rot(d(a), vd);
    let n = norm2(d(a));
    let vec = Vector3d { x: v[0], y: v[1], z: v[2] };
    for (what, r) in [("rotate", p.rotate(vec)), ("q * v", p * vec)] {
        let g = [r.x as f64, r.y as f64, r.z as f64];
        for i in 0..3 {
            let e = (g[i] - want[i]).abs();
            let bound = 2e-6 * n * l + 1e-38;
            s.ratio(e / bound);
            ensure!(e <= bound, "{what} of {f:?} by {a:?} is {g:?}, expected {want:?}");
        }
    }
    Ok(())
}

fn rotate(s: &mut Src) -> R {
    let a = match s.upto(5) {
        0 => comps(s).map(|x| if x.abs() < 1e9 { x } else { 1.0 }),
        // nearly of unit length
        1 => {
            let k = 1.0 + s.range(-40, 40) as f32 / 1000.0;
            unit(s).map(|x| x * k)
        }
        _ => unit(s),
    };
    let kind = s.upto(6);
    s.nontrivial_if(a.iter().filter(|x| **x != 0.0).count() >= 2);
    macro_rules! ints {
        ($t:ident) => {{
            let v: [$t; 3] = std::array::from_fn(|_| <$t as crate::vectors::Comp>::gen(s));
            s.label(stringify!($t));
            s.desc(|| format!("{a:?} on {v:?}"));
            rotated(s, a, v)
        }};
    }
    match kind {
        0 => ints!(i8),
        1 => ints!(i16),
        2 => ints!(u8),
        3 => ints!(u16),
        k => {
            let hi = s.pick(&[3, 20, 60]);
            let v: [f32; 3] = std::array::from_fn(|_| if s.one_in(5) { 0.0 } else { f32_within(s, -hi, hi) });
            s.desc(|| format!("{a:?} on {v:?}"));
            if k == 4 {
                s.label("F32");
                return rotated(s, a, v.map(micromath::F32));
            }
            s.label("f32");
            rotated(s, a, v)?;
            // composition
            let b = unit(s);
            let (p, w) = (q(a), q(b));
            let vec = Vector3d { x: v[0], y: v[1], z: v[2] };
            let one = p.rotate(w.rotate(vec));
            let two = (p * w).rotate(vec);
            let l = len3(v.map(|x| x as f64)) * norm2(d(a));
            for (x, y) in [(one.x, two.x), (one.y, two.y), (one.z, two.z)] {
                let e = (x as f64 - y as f64).abs();
                ensure!(e <= 8e-6 * l + 1e-29, "rotating {v:?} by {b:?} and then {a:?} gives {one:?}, by their product {two:?}");
            }
            Ok(())
        }
    }
}

fn axis_angle(s: &mut Src) -> R {
    if s.upto(4) == 0 {
        // other component types
        macro_rules! ints {
            ($t:ident) => {{
                let v: [$t; 3] = std::array::from_fn(|_| <$t as crate::vectors::Comp>::gen(s));
                let t = <$t as crate::vectors::Comp>::gen_small(s, 13);
                s.desc(|| format!("axis_angle({v:?}, {t})"));
                s.label(stringify!($t));
                return axis_angle_check(s, v.map(|x| x as f32), t as f32, Quaternion::axis_angle(Vector3d { x: v[0], y: v[1], z: v[2] }, t));
            }};
        }
        match s.upto(3) {
            0 => ints!(i8),
            1 => ints!(i16),
            2 => ints!(u8),
            _ => ints!(u16),
        }
    }
    let unit_axis = s.upto(2) > 0;
    let v: [f32; 3] = if unit_axis {
        let a = unit(s);
        let l = len3([a[1] as f64, a[2] as f64, a[3] as f64]);
        if l < 1e-3 {
            [0.0, 0.0, 1.0]
        } else {
            [(a[1] as f64 / l) as f32, (a[2] as f64 / l) as f32, (a[3] as f64 / l) as f32]
        }
    } else {
        std::array::from_fn(|_| f32_within(s, -20, 20))
    };
    let t = match s.upto(3) {
        0 => s.range(-64, 64) as f32 * std::f32::consts::FRAC_PI_8,
        1 => s.range(-700, 700) as f32 / 100.0,
        _ => f32_within(s, -20, 13),
    };
    s.desc(|| format!("axis_angle({v:?}, {t:?})"));
    let p = if s.one_in(4) {
        Quaternion::axis_angle(Vector3d { x: micromath::F32(v[0]), y: micromath::F32(v[1]), z: micromath::F32(v[2]) }, micromath::F32(t))
    } else {
        Quaternion::axis_angle(Vector3d { x: v[0], y: v[1], z: v[2] }, t)
    };
    axis_angle_check(s, v, t, p)?;
    if unit_axis {
        s.label("rotation by a unit axis");
        // Rodrigues' formula
        let k = v.map(|x| x as f64);
        let u: [f32; 3] = std::array::from_fn(|_| f32_within(s, -3, 3));
        let ud = u.map(|x| x as f64);
        let (sn, cs) = (t as f64).sin_cos();
        let dot: f64 = (0..3).map(|i| k[i] * ud[i]).sum();
        let cross = [k[1] * ud[2] - k[2] * ud[1], k[2] * ud[0] - k[0] * ud[2], k[0] * ud[1] - k[1] * ud[0]];
        let want: [f64; 3] = std::array::from_fn(|i| ud[i] * cs + cross[i] * sn + k[i] * dot * (1.0 - cs));
        let r = p.rotate(Vector3d { x: u[0], y: u[1], z: u[2] });
        let g = [r.x as f64, r.y as f64, r.z as f64];
        let e = len3(std::array::from_fn(|i| g[i] - want[i]));
        let bound = 0.01 * len3(ud) + 1e-30;
        s.ratio(e / bound);
        ensure!(e <= bound, "turning {u:?} by {t} about {v:?} gives {g:?}, expected {want:?}");
    }
    Ok(())
}

fn axis_angle_check(s: &mut Src, v: [f32; 3], t: f32, p: Quaternion) -> R {
    s.nontrivial_if(t != 0.0);
    let (sn, cs) = (t as f64 / 2.0).sin_cos();
    let g = un(p);
    let e = (g[0] - cs).abs();
    s.ratio(e / 0.002);
    ensure!(e <= 0.002, "axis_angle({v:?}, {t:?}) = {g:?}: real part off by {e:e} from {cs}");
    for i in 0..3 {
        let want = v[i] as f64 * sn;
        let e = (g[i + 1] - want).abs();
        let bound = 0.002 * (v[i] as f64).abs() + 1e-40;
        s.ratio(e / bound);
        ensure!(e <= bound, "axis_angle({v:?}, {t:?}) = {g:?}: component {i} off by {e:e} from {want}");
    }
    Ok(())
}

pub fn c29() -> Property {
    Property {
        id: "C29",
        rule: "Generated unit quaternions (small integers normalised, quarter-degree rotations about axes, nearly axial, uniform), vectors of 6 component types, axes and angles; non-trivial: the rotation is not a multiple of a component axis (two components or more), or the angle is not zero.",
        tasks: vec![random("rotate", 56_000_000, rotate), random("axis_angle", 40_000_000, axis_angle)],
        assumptions: &["f64 arithmetic has relative error below 1e-15"],
    }
}

// ------------------------------------------------------------------ C30

fn between(s: &mut Src) -> R {
    let dir = |s: &mut Src| -> [f64; 3] {
        let v: [f64; 3] = match s.upto(2) {
            0 => std::array::from_fn(|_| s.range(-4, 4) as f64),
            1 => std::array::from_fn(|_| f32_mag(s, -16, 3) as f64 * s.upto(1) as f64),
            _ => std::array::from_fn(|_| s.range(-100_000, 100_000) as f64),
        };
        let l = len3(v);
        if l == 0.0 {
            [0.0, 1.0, 0.0]
        } else {
            v.map(|x| x / l)
        }
    };
    let u = dir(s);
    let kind = s.upto(6);
    let v = match kind {
        0 => u,
        1 => u.map(|x| -x),
        2 | 3 => {
            // nearly parallel or opposite
            let w = dir(s);
            let k = 10f64.powf(-(s.upto(90) as f64) / 10.0);
            let sg = if kind == 2 { 1.0 } else { -1.0 };
            let v: [f64; 3] = std::array::from_fn(|i| sg * u[i] + k * w[i]);
            let l = len3(v);
            if l == 0.0 {
                u
            } else {
                v.map(|x| x / l)
            }
        }
        _ => dir(s),
    };
    let (lu, lv) = if s.flip() { (1.0, 1.0) } else { (10f64.powf(s.range(-69, 69) as f64 / 10.0), 10f64.powf(s.range(-69, 69) as f64 / 10.0)) };
    let (u, v) = (u.map(|x| (x * lu) as f32), v.map(|x| (x * lv) as f32));
    s.desc(|| format!("from {u:?} to {v:?}"));
    s.nontrivial();
    between_check(s, u, v, Quaternion::from_two_vectors(Vector3d { x: u[0], y: u[1], z: u[2] }, Vector3d { x: v[0], y: v[1], z: v[2] }))
}

fn between_check(s: &mut Src, u: [f32; 3], v: [f32; 3], p: Quaternion) -> R {
    let g = un(p);
    let (ud, vd) = (u.map(|x| x as f64), v.map(|x| x as f64));
    let (lu, lv) = (len3(ud), len3(vd));
    let angle = |a: [f64; 3], b: [f64; 3]| -> f64 {
        let c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
        let dot: f64 = (0..3).map(|i| a[i] * b[i]).sum();
        len3(c).atan2(dot)
    };
    let th = angle(ud, vd);
    s.label(if th < 1e-3 {
        "parallel"
    } else if th > std::f64::consts::PI - 1e-3 {
        "opposite"
    } else if th > 3.0 {
        "within 8 degrees of opposite"
    } else {
        "any angle"
    });
    let r = p.rotate(Vector3d { x: u[0], y: u[1], z: u[2] });
    let r = [r.x as f64, r.y as f64, r.z as f64];
    let off = angle(r, vd);
    s.ratio(off / 0.01);
    ensure!(off <= 0.01, "the rotation {g:?} from {u:?} to {v:?} gives {r:?}, off by {off:e} rad");
    let e = (len3(r) / lu - 1.0).abs();
    s.ratio(e / 0.08);
    ensure!(e <= 0.08, "the rotation {g:?} from {u:?} to {v:?} gives {r:?}, scaled by {}", len3(r) / lu);
    let _ = lv;
    let ra = 2.0 * len3([g[1], g[2], g[3]]).atan2(g[0].abs());
    let e = (ra - th).abs();
    s.ratio(e / 0.01);
    ensure!(e <= 0.01, "the rotation {g:?} from {u:?} to {v:?} turns by {ra} rad, but the angle between them is {th}");
    Ok(())
}

/// integer and F32 components
fn between_types(s: &mut Src) -> R {
    macro_rules! ints {
        ($t:ident) => {{
            let (lo, hi) = ($t::MIN as i64, $t::MAX as i64);
            // small numbers too
            let (lo, hi) = if s.flip() { (lo, hi) } else { (lo.max(-5), 5) };
            let mut u: [$t; 3] = std::array::from_fn(|_| s.range(lo, hi) as $t);
            let v: [$t; 3] = std::array::from_fn(|_| s.range(lo, hi) as $t);
            if u == [0; 3] {
                u[0] = 1;
            }
            let v = if v == [0; 3] || s.one_in(8) {
                if lo < 0 { std::array::from_fn(|i| (u[i] as i64 * lo.signum()) as $t) } else { u }
            } else {
                v
            };
            s.desc(|| format!("from {u:?} to {v:?} ({})", stringify!($t)));
            s.label(stringify!($t));
            s.nontrivial();
            let p = Quaternion::from_two_vectors(Vector3d { x: u[0], y: u[1], z: u[2] }, Vector3d { x: v[0], y: v[1], z: v[2] });
            between_check(s, u.map(|x| x as f32), v.map(|x| x as f32), p)
        }};
    }
    match s.upto(4) {
        0 => ints!(i8),
        1 => ints!(i16),
        2 => ints!(u8),
        3 => ints!(u16),
        _ => {
            let a = unit(s);
            let b = unit(s);
            let (u, v) = ([a[0], a[1], a[2]], [b[1], b[2], b[3]]);
            if len3(u.map(|x| x as f64)) < 1e-2 || len3(v.map(|x| x as f64)) < 1e-2 {
                return s.skip();
            }
            s.desc(|| format!("from {u:?} to {v:?} (F32)"));
            s.label("F32");
            s.nontrivial();
            let f = |v: [f32; 3]| Vector3d { x: micromath::F32(v[0]), y: micromath::F32(v[1]), z: micromath::F32(v[2]) };
            between_check(s, u, v, Quaternion::from_two_vectors(f(u), f(v)))
        }
    }
}

pub fn c30() -> Property {
    Property {
        id: "C30",
        rule: "Generated pairs of vectors (unrelated, equal, opposite, nearly parallel and nearly opposite to 1e-9, lengths 1 or 1e-7..1e7; integer vectors of four types; F32); all in the domain count as non-trivial.",
        tasks: vec![random("between", 80_000_000, between), random("between_types", 32_000_000, between_types)],
        assumptions: &["f64 arithmetic has relative error below 1e-15"],
    }
}

// ------------------------------------------------------------------ C31

fn euler(s: &mut Src) -> R {
    let a = match s.upto(4) {
        0 => {
            // at or near gimbal lock: w = +-y, x = -+z after a turn about z
            let t = s.range(-3600, 3600) as f64 / 3600.0 * std::f64::consts::PI;
            let (sn, cs) = t.sin_cos();
            let h = std::f64::consts::FRAC_1_SQRT_2;
            let e = if s.flip() { 0.0 } else { f32_mag(s, -23, -6) as f64 };
            let sg = if s.flip() { 1.0 } else { -1.0 };
            let b = [h * cs, -sg * h * sn, sg * h * cs + e, h * sn];
            let l = norm2(b).sqrt();
            b.map(|x| (x / l) as f32)
        }
        _ => unit(s),
    };
    s.desc(|| format!("{a:?}"));
    s.nontrivial_if(a.iter().filter(|x| **x != 0.0).count() >= 2);
    let [w, x, y, z] = d(a);
    let (r, p, yw) = q(a).to_euler();
    let who = || format!("Euler angles of {a:?} = ({r}, {p}, {yw})");
    let sp = (2.0 * (w * y - x * z)).clamp(-1.0, 1.0);
    if sp.abs() > 0.999999 {
        s.label("gimbal lock");
    }
    let e = (p as f64 - sp.asin()).abs();
    s.ratio(e / 0.022);
    ensure!(e <= 0.022, "{}: pitch off from {}", who(), sp.asin());
    for (what, got, n, m) in [
        ("roll", r, 2.0 * (w * x + y * z), 1.0 - 2.0 * (x * x + y * y)),
        ("yaw", yw, 2.0 * (w * z + x * y), 1.0 - 2.0 * (y * y + z * z)),
    ] {
        ensure!(!got.is_nan() && got.abs() <= 3.1416, "{}: {what} out of range", who());
        if n.abs() < 1e-3 && m.abs() < 1e-3 {
            continue;
        }
        let want = n.atan2(m);
        let e = angle_diff(got as f64, want);
        s.ratio(e / 0.004);
        ensure!(e <= 0.004, "{}: {what} off by {e:e} from {want}", who());
    }
    Ok(())
}

pub fn c31() -> Property {
    Property {
        id: "C31",
        rule: "Generated unit quaternions as for C29, and one in five at or near gimbal lock; non-trivial: two non-zero components or more.",
        tasks: vec![random("euler", 96_000_000, euler)],
        assumptions: &["f64 functions of the platform's libm are accurate to 1e-14 relative"],
    }
}
