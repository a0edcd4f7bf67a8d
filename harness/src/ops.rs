//! Every public operation on floats as a function from plain numbers to plain numbers.
//! The feature gates let the crate of `../digest` use the same table with any subset of features.

use micromath::{F32Ext, F32};

/// Operands.
#[derive(Clone, Debug, Default)]
pub struct In {
    pub a: f32,
    pub b: f32,
    pub c: f32,
    /// exponents, and components of integer vectors
    pub n: i32,
    /// indices and lengths
    pub k: usize,
    pub v: [f32; 3],
    pub w: [f32; 3],
    pub p: [f32; 4],
    pub q: [f32; 4],
    pub s: Vec<f32>,
}

/// Results.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Out {
    /// bits, one NaN for all
    pub f: Vec<u32>,
    pub text: String,
    /// the call is documented to panic for these operands
    pub documented: bool,
}

pub fn canon(x: f32) -> f32 {
    if x.is_nan() {
        f32::from_bits(0x7fc0_0000)
    } else {
        x
    }
}

impl Out {
    #[inline]
    pub fn f(&mut self, x: f32) {
        self.f.push(canon(x).to_bits());
    }
    pub fn fs(&mut self, x: &[f32]) {
        for &x in x {
            self.f(x);
        }
    }
    pub fn t(&mut self, x: impl core::fmt::Display) {
        use core::fmt::Write;
        let _ = write!(self.text, "{x};");
    }
}

pub type Op = (&'static str, fn(&In, &mut Out));

macro_rules! un {
    ($v:ident: $($n:ident)*) => { $( $v.push((stringify!($n), |i: &In, o: &mut Out| o.f(<f32 as F32Ext>::$n(i.a)))); )* };
}
macro_rules! bi {
    ($v:ident: $($n:ident)*) => { $( $v.push((stringify!($n), |i: &In, o: &mut Out| o.f(<f32 as F32Ext>::$n(i.a, i.b)))); )* };
}
macro_rules! ops {
    ($v:ident: $($n:literal => |$i:ident, $o:ident| $e:expr;)*) => { $( $v.push(($n, |$i: &In, $o: &mut Out| { let _ = &$i; $e; })); )* };
}

#[allow(clippy::op_ref, clippy::redundant_closure_call)]
pub fn table() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    un!(v: abs acos asin atan atan_norm ceil cos exp floor fract inv invsqrt ln log2 log10 recip round signum sin sqrt tan trunc);
    bi!(v: atan2 atan2_norm copysign div_euclid hypot log powf rem_euclid);
    ops!(v:
        "powi" => |i, o| o.f(<f32 as F32Ext>::powi(i.a, i.n));
        "mul_add" => |i, o| o.f(<f32 as F32Ext>::mul_add(i.a, i.b, i.c));
        "sin_cos" => |i, o| { let (s, c) = <f32 as F32Ext>::sin_cos(i.a); o.f(s); o.f(c) };
        "cosh" => |i, o| o.f(F32(i.a).cosh().0);
        "F32 arithmetic" => |i, o| {
            let (x, y) = (F32(i.a), F32(i.b));
            o.fs(&[(x + y).0, (x - y).0, (x * y).0, (x / y).0, (x % y).0, (-x).0]);
            o.fs(&[(x + i.b).0, (i.a - y).0, (x * i.b).0, (i.a / y).0, (x % i.b).0]);
        };
        "F32 assignment" => |i, o| {
            let mut x = F32(i.a);
            x += F32(i.b); x -= i.c; x *= F32(i.c); x /= i.b; x %= F32(i.a);
            o.f(x.0);
        };
        "F32 sum and product" => |i, o| {
            o.f(i.s.iter().map(|&x| F32(x)).sum::<F32>().0);
            o.f(i.s.iter().map(|&x| F32(x)).product::<F32>().0);
        };
        "F32 comparison" => |i, o| {
            let (x, y) = (F32(i.a), F32(i.b));
            o.t(x == y); o.t(x < y); o.t(x == i.b); o.t(i.a < y);
            o.t(x.is_nan()); o.t(x.is_finite()); o.t(x.is_infinite()); o.t(x.is_sign_negative()); o.t(x.is_sign_positive());
        };
        "F32 text" => |i, o| {
            let x = F32(i.a);
            o.t(x); o.t(format_args!("{x:?} {x:e} {x:E} {x:.3} {x:>12.1} {x:+e}"));
            let s = i.a.to_string();
            o.t(s.parse::<F32>().map(|x| canon(x.0).to_bits()).is_ok());
        };
        "F32 conversion" => |i, o| {
            o.fs(&[f32::from(F32::from(i.a)), F32::from_bits(F32(i.a).to_bits()).0]);
            o.fs(&[F32::from(i.n as i8).0, F32::from(i.n as i16).0, F32::from(i.n as u8).0, F32::from(i.n as u16).0]);
        };
    );
    #[cfg(feature = "num-traits")]
    {
        use micromath::num_traits::{Inv, Num, One, Zero};
        ops!(v:
            "num-traits" => |i, o| {
                o.f(<F32 as Inv>::inv(F32(i.a)).0);
                o.t(F32(i.a).is_zero()); o.t(F32(i.a).is_one());
                o.fs(&[F32::zero().0, F32::one().0]);
                if let Ok(x) = F32::from_str_radix(&i.a.to_string(), 10) { o.f(x.0) }
            };
        );
    }
    #[cfg(feature = "statistics")]
    {
        use micromath::statistics::{Mean, StdDev, Trim, Variance};
        ops!(v:
            "mean" => |i, o| o.f(i.s.iter().copied().mean());
            "variance" => |i, o| o.f(i.s.as_slice().variance());
            "stddev" => |i, o| o.f(i.s.as_slice().stddev());
            "trim" => |i, o| { let s = i.s.as_slice(); s.trim().for_each(|x| o.f(x)) };
            "trim_at" => |i, o| { let s = i.s.as_slice(); s.trim_at(i.a).for_each(|x| o.f(x)) };
            "statistics of integers" => |i, o| {
                let b: Vec<u8> = i.s.iter().map(|&x| x as u8).collect();
                let s: Vec<i16> = i.s.iter().map(|&x| x as i16).collect();
                o.fs(&[b.as_slice().variance(), b.as_slice().stddev(), s.as_slice().variance(), s.as_slice().stddev()]);
                let (b, s) = (b.as_slice(), s.as_slice());
                b.trim_at(i.b).for_each(|x| o.f(x as f32));
                s.trim().for_each(|x| o.f(x as f32));
            };
        );
    }
    #[cfg(feature = "vector")]
    {
        use micromath::vector::*;
        fn d2(v: [f32; 3]) -> F32x2 {
            F32x2 { x: v[0], y: v[1] }
        }
        fn d3(v: [f32; 3]) -> F32x3 {
            F32x3 { x: v[0], y: v[1], z: v[2] }
        }
        fn o2(o: &mut Out, v: F32x2) {
            o.fs(&v.to_array())
        }
        fn o3(o: &mut Out, v: F32x3) {
            o.fs(&v.to_array())
        }
        ops!(v:
            "2d arithmetic" => |i, o| { let (v, w) = (d2(i.v), d2(i.w)); o2(o, v + w); o2(o, v - w); o2(o, v * i.a); o2(o, i.a * v); o2(o, v / i.b) };
            "2d assignment" => |i, o| { let mut v = d2(i.v); v += d2(i.w); v *= i.a; v -= d2(i.w); v /= i.b; o2(o, v) };
            "2d products" => |i, o| { let (v, w) = (d2(i.v), d2(i.w)); o.f(v.dot(w)); o.f(Vector::dot(v, w)); o.f(v.perpendicular_dot(w)); o3(o, v.cross(w)); o3(o, v * w) };
            "2d lengths" => |i, o| { let (v, w) = (d2(i.v), d2(i.w)); o.fs(&[v.magnitude(), v.magnitude_sq(), v.distance(w)]) };
            "2d normalized" => |i, o| o2(o, d2(i.v).normalized());
            "2d get, iter, map" => |i, o| {
                let mut v = d2(i.v);
                o.t(v.get(i.k).map_or(7, |x| canon(x).to_bits()));
                o.t(v.get(usize::MAX - i.k).is_none());
                v.iter().for_each(|x| o.f(x));
                o2(o, v.map(|x| x * 2.0));
                let mut it = v.iter();
                for _ in 0..i.k.min(9) { o.t(it.next().map_or(7, |x| canon(x).to_bits())); }
            };
            "2d index" => |i, o| { o.documented = i.k > 1; o.f(d2(i.v)[i.k]) };
            "2d from iterator" => |i, o| { o.documented = i.s.len() != 2; o2(o, i.s.iter().copied().collect()) };
            "2d from slice" => |i, o| { o.documented = i.s.len() != 2; o2(o, F32x2::from_slice(&i.s)) };
            "2d conversions" => |i, o| {
                let v = d2(i.v);
                let t: (f32, f32) = v.into();
                let a: [f32; 2] = v.into();
                o.fs(&[t.0, t.1]); o2(o, a.into()); o2(o, t.into());
                o.t(format_args!("{v:?} {}", v == d2(i.w)));
                let n = i.n;
                o2(o, F32x2::from(I8x2 { x: n as i8, y: (n >> 8) as i8 })); o2(o, F32x2::from(U16x2 { x: n as u16, y: (n >> 8) as u16 }));
                o2(o, F32x2::from(U8x2 { x: n as u8, y: (n >> 8) as u8 })); o2(o, F32x2::from(I16x2 { x: n as i16, y: (n >> 8) as i16 }));
            };
            "2d sum" => |i, o| { let v = [d2(i.v), d2(i.w), F32x2 { x: i.a, y: i.b }]; o2(o, v.iter().sum()); o2(o, v.iter().copied().take(i.k % 4).sum()) };
            "2d of F32" => |i, o| {
                let f = |v: [f32; 3]| Vector2d { x: F32(v[0]), y: F32(v[1]) };
                let (v, w) = (f(i.v), f(i.w));
                let r = (v + w) * F32(i.a) - w / F32(i.b);
                o.fs(&[r.x.0, r.y.0, v.dot(w).0, v.magnitude(), v.distance(w), v.magnitude_sq().0, v.perpendicular_dot(w).0]);
                let u = v.normalized();
                o.fs(&[u.x.0, u.y.0]);
                let u = F32(i.c) * v;
                o.fs(&[u.x.0, u.y.0]);
            };
            "3d arithmetic" => |i, o| { let (v, w) = (d3(i.v), d3(i.w)); o3(o, v + w); o3(o, v - w); o3(o, v * i.a); o3(o, i.a * v); o3(o, v / i.b) };
            "3d assignment" => |i, o| { let mut v = d3(i.v); v += d3(i.w); v *= i.a; v -= d3(i.w); v /= i.b; o3(o, v) };
            "3d products" => |i, o| { let (v, w) = (d3(i.v), d3(i.w)); o.f(v.dot(w)); o.f(Vector::dot(v, w)); o3(o, v.cross(w)); o3(o, v * w) };
            "3d lengths" => |i, o| { let (v, w) = (d3(i.v), d3(i.w)); o.fs(&[v.magnitude(), v.magnitude_sq(), v.distance(w)]) };
            "3d normalized" => |i, o| o3(o, d3(i.v).normalized());
            "3d get, iter, map" => |i, o| {
                let mut v = d3(i.v);
                o.t(v.get(i.k).map_or(7, |x| canon(x).to_bits()));
                o.t(v.get(usize::MAX - i.k).is_none());
                v.iter().for_each(|x| o.f(x));
                o3(o, v.map(|x| x - 2.0));
                let mut it = v.iter();
                for _ in 0..i.k.min(9) { o.t(it.next().map_or(7, |x| canon(x).to_bits())); }
            };
            "3d index" => |i, o| { o.documented = i.k > 2; o.f(d3(i.v)[i.k]) };
            "3d from iterator" => |i, o| { o.documented = i.s.len() != 3; o3(o, i.s.iter().copied().collect()) };
            "3d from slice" => |i, o| { o.documented = i.s.len() != 3; o3(o, F32x3::from_slice(&i.s)) };
            "3d conversions" => |i, o| {
                let v = d3(i.v);
                let t: (f32, f32, f32) = v.into();
                let a: [f32; 3] = v.into();
                o.fs(&[t.0, t.1, t.2]); o3(o, a.into()); o3(o, t.into()); o3(o, d2(i.w).into());
                o.t(format_args!("{v:?} {}", v == d3(i.w)));
                let n = i.n;
                o3(o, F32x3::from(I8x3 { x: n as i8, y: (n >> 8) as i8, z: (n >> 16) as i8 })); o3(o, F32x3::from(U16x3 { x: n as u16, y: (n >> 8) as u16, z: (n >> 16) as u16 }));
                o3(o, F32x3::from(U8x3 { x: n as u8, y: (n >> 8) as u8, z: (n >> 16) as u8 })); o3(o, F32x3::from(I16x3 { x: n as i16, y: (n >> 8) as i16, z: (n >> 16) as i16 }));
                o3(o, F32x3::from(Vector3d { x: F32(i.v[2]), y: F32(i.v[0]), z: F32(i.v[1]) }));
            };
            "3d sum" => |i, o| { let v = [d3(i.v), d3(i.w), F32x3 { x: i.a, y: i.b, z: i.c }]; o3(o, v.iter().sum()); o3(o, v.iter().copied().take(i.k % 4).sum()) };
            "3d of F32" => |i, o| {
                let f = |v: [f32; 3]| Vector3d { x: F32(v[0]), y: F32(v[1]), z: F32(v[2]) };
                let (v, w) = (f(i.v), f(i.w));
                let r = (v + w) * F32(i.a) - w / F32(i.b);
                o.fs(&[r.x.0, r.y.0, r.z.0, v.dot(w).0, v.magnitude(), v.distance(w), v.magnitude_sq().0]);
                let u = v.normalized();
                o.fs(&[u.x.0, u.y.0, u.z.0]);
                let u = F32(i.c) * v.cross(w);
                o.fs(&[u.x.0, u.y.0, u.z.0]);
            };
        );
    }
    #[cfg(feature = "quaternion")]
    {
        use micromath::Quaternion;
        fn q(p: [f32; 4]) -> Quaternion {
            p.into()
        }
        fn oq(o: &mut Out, q: Quaternion) {
            o.fs(&q.to_array())
        }
        ops!(v:
            "quaternion arithmetic" => |i, o| { let (p, q) = (q(i.p), q(i.q)); oq(o, p + q); oq(o, p - q); oq(o, p * q); oq(o, p * i.a); oq(o, i.b * p); oq(o, p.conj()) };
            "quaternion assignment" => |i, o| { let mut p = q(i.p); p += q(i.q); p *= i.a; p -= q(i.p); oq(o, p) };
            "quaternion measures" => |i, o| { let (p, q) = (q(i.p), q(i.q)); o.fs(&[p.dot(q), p.norm(), p.magnitude(), p.w(), p.x(), p.y(), p.z()]) };
            "quaternion inv" => |i, o| { let q = q(i.p); o.documented = q.norm() == 0.0; oq(o, q.inv()) };
            "quaternion normalize" => |i, o| { let q = q(i.p); o.documented = q.norm() == 0.0; oq(o, q.normalize()) };
            "quaternion scale" => |i, o| { oq(o, q(i.p).scale(i.a)); oq(o, q(i.p).scale(F32(i.b))) };
            "quaternion to_euler" => |i, o| { let (r, p, y) = q(i.p).to_euler(); o.fs(&[r, p, y]) };
            "quaternion conversions" => |i, o| {
                let p = q(i.p);
                let t: (f32, f32, f32, f32) = p.into();
                let a: [f32; 4] = p.into();
                o.fs(&[t.0, t.1, t.2, t.3]); o.fs(&a); oq(o, t.into());
                oq(o, Quaternion::new(i.a, i.b, i.c, i.a)); oq(o, Quaternion::default()); oq(o, Quaternion::IDENTITY);
                o.t(format_args!("{p:?} {}", p == q(i.q)));
            };
        );
    }
    #[cfg(all(feature = "quaternion", feature = "vector"))]
    {
        use micromath::{vector::*, Quaternion};
        fn d3(v: [f32; 3]) -> F32x3 {
            v.into()
        }
        ops!(v:
            "quaternion from_two_vectors" => |i, o| o.fs(&Quaternion::from_two_vectors(d3(i.v), d3(i.w)).to_array());
            "quaternion axis_angle" => |i, o| o.fs(&Quaternion::axis_angle(d3(i.v), i.a).to_array());
            "quaternion rotate" => |i, o| { o.fs(&Quaternion::from(i.p).rotate(d3(i.v)).to_array()); o.fs(&(Quaternion::from(i.q) * d3(i.v)).to_array()) };
            "quaternion from vector" => |i, o| o.fs(&Quaternion::from(d3(i.v)).to_array());
            "quaternion and integer vectors" => |i, o| {
                let n = i.n;
                let a = I16x3 { x: (n as i8).into(), y: ((n >> 8) as i8).into(), z: ((n >> 16) as i8).into() };
                let b = I16x3 { x: i.k as i16, y: a.z, z: a.x };
                o.fs(&Quaternion::from_two_vectors(a, b).to_array());
                o.fs(&Quaternion::axis_angle(a, n as i16).to_array());
                o.fs(&Quaternion::from(i.p).rotate(a).to_array());
                o.fs(&Quaternion::from(a).to_array());
            };
        );
    }
    v
}
