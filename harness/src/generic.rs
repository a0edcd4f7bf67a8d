//! C36, C37: vectors, components and samples of types that a user defines.

use crate::engine::{guard, random, Property, Src, R};
use crate::gen::*;
use crate::oracle::*;
use crate::vectors::{access, access_history, lengths_of, magnitude_sq_of, normalized_of, Comp, Vect};
use crate::{ensure, fail};
use micromath::statistics::{trim, Mean, StdDev, Trim, Variance};
use micromath::vector::{Component, F32x3, Vector, Vector2d, Vector3d};
use micromath::{Quaternion, F32};
use std::ops::{Add, Div, Index, Mul, Sub};

// ------------------------------------------------------------------ a vector with any number of axes

/// Components in reverse, so that nothing but `get` and `FromIterator` can know where they are.
#[derive(Copy, Clone, Debug, PartialEq)]
pub struct Vn<C, const N: usize>([C; N]);

impl<C: Component, const N: usize> Default for Vn<C, N> {
    fn default() -> Self {
        Vn([C::default(); N])
    }
}
impl<C: Component, const N: usize> FromIterator<C> for Vn<C, N> {
    fn from_iter<I: IntoIterator<Item = C>>(it: I) -> Self {
        let mut r = [C::default(); N];
        let mut n = 0;
        for c in it {
            assert!(n < N, "too many components");
            r[N - 1 - n] = c;
            n += 1;
        }
        assert!(n == N, "too few components");
        Vn(r)
    }
}
impl<C: Component, const N: usize> Vector<C> for Vn<C, N> {
    const AXES: usize = N;
    fn get(self, i: usize) -> Option<C> {
        (i < N).then(|| self.0[N - 1 - i])
    }
    fn dot(self, o: Self) -> C {
        (0..N).fold(C::default(), |a, i| a + self.0[i] * o.0[i])
    }
}
impl<C: Component, const N: usize> Index<usize> for Vn<C, N> {
    type Output = C;
    fn index(&self, i: usize) -> &C {
        &self.0[N.checked_sub(1 + i).expect("index")]
    }
}
impl<C: Comp, const N: usize> Vect<C, N> for Vn<C, N> {
    fn mk(mut c: [C; N]) -> Self {
        c.reverse();
        Vn(c)
    }
    fn un(self) -> [C; N] {
        let mut c = self.0;
        c.reverse();
        c
    }
}

macro_rules! sizes {
    ($s:ident, $f:ident, $($t:ident)*) => {{
        // a type and a number of axes
        let k = $s.upto(6 * (0 $(+ { let _: $t; 1 })*) - 1);
        let mut n = 0;
        $(
            if k == n { $s.label(concat!("1 axis of ", stringify!($t))); return $f::<$t, Vn<$t, 1>, 1>($s); } n += 1;
            if k == n { $s.label(concat!("2 axes of ", stringify!($t))); return $f::<$t, Vn<$t, 2>, 2>($s); } n += 1;
            if k == n { $s.label(concat!("3 axes of ", stringify!($t))); return $f::<$t, Vn<$t, 3>, 3>($s); } n += 1;
            if k == n { $s.label(concat!("4 axes of ", stringify!($t))); return $f::<$t, Vn<$t, 4>, 4>($s); } n += 1;
            if k == n { $s.label(concat!("7 axes of ", stringify!($t))); return $f::<$t, Vn<$t, 7>, 7>($s); } n += 1;
            if k == n { $s.label(concat!("40 axes of ", stringify!($t))); return $f::<$t, Vn<$t, 40>, 40>($s); } n += 1;
        )*
        let _ = n;
        unreachable!()
    }};
}

fn any_access<C: Comp, V: Vect<C, N> + Index<usize, Output = C> + PartialEq, const N: usize>(s: &mut Src) -> R {
    let c: [C; N] = std::array::from_fn(|_| C::gen(s));
    access_history::<C, V, N>(s, c)
}

fn vn_access(s: &mut Src) -> R {
    sizes!(s, any_access, i8 u16 i32 f32 F32)
}
fn vn_lengths(s: &mut Src) -> R {
    sizes!(s, lengths_of, i8 u8 i16 u16 f32 F32)
}
fn vn_magnitude_sq(s: &mut Src) -> R {
    sizes!(s, magnitude_sq_of, i8 u8 i16 u16 i32 u32 f32 F32)
}
fn vn_normalized(s: &mut Src) -> R {
    sizes!(s, normalized_of, f32 F32)
}

/// A vector of very many axes, which knows its components only as multiples of fixed ones.
#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct Long<const N: usize>(i32);

fn base(i: usize) -> i32 {
    if i == 0 {
        return 1;
    }
    [-1, 1, 0, 2, 0, 1, -1, -2, 1, 0, -1][(i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(20) as usize % 11]
}

impl<const N: usize> FromIterator<i32> for Long<N> {
    fn from_iter<I: IntoIterator<Item = i32>>(it: I) -> Self {
        let (mut n, mut k) = (0, 0);
        for c in it {
            assert!(n < N, "too many components");
            if n == 0 {
                k = c;
            }
            assert!(c == k * base(n), "component {n} is {c}");
            n += 1;
        }
        assert!(n == N, "only {n} components");
        Long(k)
    }
}
impl<const N: usize> Vector<i32> for Long<N> {
    const AXES: usize = N;
    fn get(self, i: usize) -> Option<i32> {
        (i < N).then(|| self.0 * base(i))
    }
    fn dot(self, o: Self) -> i32 {
        (0..N).map(|i| self.0 * o.0 * base(i) * base(i)).sum()
    }
}
/// The same with components that convert to f32.
#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct LongF<const N: usize>(f32);
impl<const N: usize> FromIterator<f32> for LongF<N> {
    fn from_iter<I: IntoIterator<Item = f32>>(it: I) -> Self {
        let (mut n, mut k) = (0, 0.0);
        for c in it {
            assert!(n < N, "too many components");
            if n == 0 {
                k = c;
            }
            let want = k * base(n) as f32;
            assert!((c - want).abs() <= 1e-6 * want.abs(), "component {n} is {c}");
            n += 1;
        }
        assert!(n == N, "only {n} components");
        LongF(k)
    }
}
impl<const N: usize> Vector<f32> for LongF<N> {
    const AXES: usize = N;
    fn get(self, i: usize) -> Option<f32> {
        (i < N).then(|| self.0 * base(i) as f32)
    }
    fn dot(self, o: Self) -> f32 {
        (0..N).map(|i| self.0 * o.0 * (base(i) * base(i)) as f32).sum()
    }
}

fn long_case<const N: usize>(s: &mut Src) -> R {
    let (k, m) = (s.range(1, 9) as i32, s.range(-9, 9) as i32);
    s.nontrivial();
    s.desc(|| format!("{N} axes, {k} times the base, factor {m}"));
    let v = Long::<N>(k);
    let mut n = 0;
    for c in v.iter() {
        ensure!(n < N && c == k * base(n), "component {n} of {N} is {c}");
        n += 1;
    }
    ensure!(n == N, "the iterator over {N} axes ends after {n}");
    let skip = if s.upto(7) == 0 { usize::MAX - s.upto(2) as usize } else { s.upto(N as u64 + 2) as usize };
    let mut it = v.iter();
    let first = it.next();
    let got = it.nth(skip);
    let want = if skip < N - 1 { v.get(skip + 1) } else { None };
    ensure!(first == Some(k * base(0)) && got == want, "next and nth({skip}) of {N} axes are {first:?} and {got:?}, expected {want:?}");
    let (lo, hi) = it.size_hint();
    let due = N.saturating_sub(skip.saturating_add(2));
    ensure!(lo <= due && hi.map_or(true, |h| h >= due), "size_hint of {due} components is ({lo}, {hi:?})");
    let last = it.clone().last();
    ensure!(last == (due > 0).then(|| k * base(N - 1)), "the last of {due} components is {last:?}");
    let left = it.count();
    ensure!(left == due, "{left} components of {N} left after next and nth({skip}), expected {due}");
    let mut w = v;
    let r = guard(|| w.map(|c| c * m));
    ensure!(r == Ok(Long(k * m)), "mapping {N} axes gives {r:?}");
    let list: Vec<i32> = (0..N).map(|i| k * base(i)).collect();
    let r = guard(|| Long::<N>::from_slice(&list));
    ensure!(r == Ok(v), "from_slice of {N} components gives {r:?}");
    for bad in [0, 1, N - 1] {
        let r = guard(|| Long::<N>::from_slice(&list[..bad]));
        ensure!(r.is_err(), "from_slice of {bad} components for {N} axes gives {r:?}");
    }
    let sq: i64 = (0..N).map(|i| (base(i) * base(i)) as i64).sum();
    let want = sq * (k * k) as i64;
    let got = v.magnitude_sq();
    ensure!(got as i64 == want, "magnitude_sq of {N} axes is {got}, expected {want}");
    // in floats: all sums are integers, and exact
    let f = LongF::<N>(k as f32);
    let got = f.magnitude_sq();
    ensure!(got as f64 == want as f64, "magnitude_sq of {N} float axes is {got}, expected {want}");
    for (what, got, want) in [
        ("magnitude", f.magnitude(), want as f64),
        ("distance", f.distance(LongF(m as f32)), (sq * ((k - m) * (k - m)) as i64) as f64),
    ] {
        let bound = 0.062 * want.sqrt() + 1e-18;
        let e = (got as f64 - want.sqrt()).abs();
        s.ratio(e / bound);
        ensure!(e <= bound, "{what} with {N} axes is {got}, expected {}", want.sqrt());
    }
    let r = guard(|| f.normalized());
    let want = 1.0 / (sq as f64).sqrt();
    ensure!(matches!(r, Ok(LongF(x)) if (0.93..=1.001).contains(&(x as f64 / want))), "{N} axes normalize to {r:?}, expected {want}");
    Ok(())
}

fn vn_long(s: &mut Src) -> R {
    match s.upto(6) {
        0 => long_case::<127>(s),
        1 => long_case::<255>(s),
        2 => long_case::<256>(s),
        3 => long_case::<257>(s),
        4 => long_case::<1000>(s),
        5 => long_case::<65_537>(s),
        _ => long_case::<100_000>(s),
    }
}

pub fn c36() -> Property {
    Property {
        id: "C36",
        rule: "A harness-defined vector type (components stored in reverse) with 1, 2, 3, 4, 7 or 40 axes of up to 8 component types, generated components and histories of iterator operations as for C22 and C25; non-trivial: components not all equal, very many axes (127 to 100,000, components computed on demand), or the squared length in the accuracy domain.",
        tasks: vec![
            random("access", 7_500_000, vn_access),
            random("magnitude and distance", 18_000_000, vn_lengths),
            random("magnitude_sq", 12_000_000, vn_magnitude_sq),
            random("normalized", 9_000_000, vn_normalized),
            random("very many axes", 6_000, vn_long),
        ],
        assumptions: &["f64 square roots and sums have relative error below 1e-14"],
    }
}

// ------------------------------------------------------------------ a ring without order: integers modulo a prime

const P: u64 = (1 << 61) - 1;

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct Mod(u64);

impl PartialOrd for Mod {
    /// There is no order.
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        (self == o).then_some(std::cmp::Ordering::Equal)
    }
}
impl Add for Mod {
    type Output = Mod;
    fn add(self, o: Mod) -> Mod {
        Mod((self.0 + o.0) % P)
    }
}
impl Sub for Mod {
    type Output = Mod;
    fn sub(self, o: Mod) -> Mod {
        Mod((self.0 + P - o.0) % P)
    }
}
impl Mul for Mod {
    type Output = Mod;
    fn mul(self, o: Mod) -> Mod {
        Mod((self.0 as u128 * o.0 as u128 % P as u128) as u64)
    }
}
impl Div for Mod {
    type Output = Mod;
    /// The field's own quotient; zero for a zero divisor.
    fn div(self, o: Mod) -> Mod {
        let (mut r, mut b, mut e) = (self, o, P - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
}
impl std::iter::Sum for Mod {
    fn sum<I: Iterator<Item = Mod>>(it: I) -> Mod {
        it.fold(Mod(0), |a, b| a + b)
    }
}
impl Component for Mod {}

impl Comp for Mod {
    const NAME: &'static str = "integers modulo 2^61-1";
    const FLOAT: bool = false;
    const SIGNED: bool = true;
    fn gen(s: &mut Src) -> Self {
        Mod(match s.upto(3) {
            0 => s.upto(5),
            1 => P - 1 - s.upto(5),
            _ => s.upto(P - 1),
        })
    }
    fn gen_small(s: &mut Src, _: u32) -> Self {
        Self::gen(s)
    }
    fn same(self, o: Self) -> bool {
        self == o
    }
    fn bits(self) -> u64 {
        self.0
    }
    fn f(self) -> f64 {
        self.0 as f64
    }
    fn i(self) -> i128 {
        self.0 as i128
    }
    fn fits(_: i128) -> bool {
        true
    }
    fn add_(self, o: Self) -> Option<Self> {
        Some(self + o)
    }
    fn sub_(self, o: Self) -> Option<Self> {
        Some(self - o)
    }
    fn mul_(self, o: Self) -> Option<Self> {
        Some(self * o)
    }
    fn div_(self, o: Self) -> Option<Self> {
        Some(self / o)
    }
}

// ------------------------------------------------------------------ a number with a label

/// Converts to f32; its own arithmetic saturates, and it carries a label that only a copy keeps.
#[derive(Copy, Clone, Debug, Default, PartialEq, PartialOrd)]
pub struct Fix {
    /// 64ths
    v: i16,
    label: u32,
}
impl From<Fix> for f32 {
    fn from(x: Fix) -> f32 {
        x.v as f32 / 64.0
    }
}
impl From<f32> for Fix {
    fn from(x: f32) -> Fix {
        Fix { v: (x * 64.0) as i16, label: x.to_bits() }
    }
}
impl Add for Fix {
    type Output = Fix;
    fn add(self, o: Fix) -> Fix {
        Fix { v: self.v.saturating_add(o.v), label: 0 }
    }
}
impl Sub for Fix {
    type Output = Fix;
    fn sub(self, o: Fix) -> Fix {
        Fix { v: self.v.saturating_sub(o.v), label: 0 }
    }
}
impl Mul for Fix {
    type Output = Fix;
    fn mul(self, o: Fix) -> Fix {
        Fix { v: (self.v as i64 * o.v as i64 / 64).clamp(-32768, 32767) as i16, label: 0 }
    }
}
impl Div for Fix {
    type Output = Fix;
    fn div(self, o: Fix) -> Fix {
        Fix { v: (self.v as i64 * 64).checked_div(o.v as i64).unwrap_or(0).clamp(-32768, 32767) as i16, label: 0 }
    }
}
impl Component for Fix {}

fn fix(s: &mut Src) -> Fix {
    let v = match s.upto(3) {
        0 => s.range(-10, 10) as i16 * 64,
        1 => s.range(-700, 700) as i16,
        2 => s.pick(&[i16::MIN, i16::MAX, 0, 1, -1, 64, -64, 12800]),
        _ => s.range(-32768, 32767) as i16,
    };
    Fix { v, label: s.upto(1000) as u32 }
}

// ------------------------------------------------------------------ C37

fn ring2(s: &mut Src) -> R {
    access::two::<Mod>(s)?;
    let g = |s: &mut Src| -> [Mod; 2] { std::array::from_fn(|_| Mod::gen(s)) };
    let (a, b, k) = (g(s), g(s), Mod::gen(s));
    s.desc(|| format!("2D {}: {a:?}, {b:?}, scalar {k:?}", Mod::NAME));
    let (v, w) = (Vector2d::from(a), Vector2d::from(b));
    let cross = a[0] * b[1] - a[1] * b[0];
    forms(&a, &b, k, |x| Vector2d::from([x[0], x[1]]), |v| v.to_array().to_vec())?;
    ensure!(v.dot(w) == a[0] * b[0] + a[1] * b[1], "dot of {a:?} and {b:?} is {:?}", v.dot(w));
    ensure!(Vector::dot(v, w) == v.dot(w), "Vector::dot of {a:?} and {b:?} is {:?}", Vector::dot(v, w));
    ensure!(v.perpendicular_dot(w) == cross, "perpendicular_dot of {a:?} and {b:?} is {:?}", v.perpendicular_dot(w));
    for (what, t) in [("cross", v.cross(w)), ("v * w", v * w)] {
        ensure!(t.to_array() == [Mod(0), Mod(0), cross], "{what} of {a:?} and {b:?} is {t:?}");
    }
    let m = v.magnitude_sq();
    ensure!(m == a[0] * a[0] + a[1] * a[1], "magnitude_sq of {a:?} is {m:?}");
    Ok(())
}

fn ring3(s: &mut Src) -> R {
    access::three::<Mod>(s)?;
    let g = |s: &mut Src| -> [Mod; 3] { std::array::from_fn(|_| Mod::gen(s)) };
    let (a, b, k) = (g(s), g(s), Mod::gen(s));
    s.desc(|| format!("3D {}: {a:?}, {b:?}, scalar {k:?}", Mod::NAME));
    let (v, w) = (Vector3d::from(a), Vector3d::from(b));
    forms(&a, &b, k, |x| Vector3d::from([x[0], x[1], x[2]]), |v| v.to_array().to_vec())?;
    let dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    ensure!(v.dot(w) == dot, "dot of {a:?} and {b:?} is {:?}", v.dot(w));
    ensure!(Vector::dot(v, w) == dot, "Vector::dot of {a:?} and {b:?} is {:?}", Vector::dot(v, w));
    let c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    for (what, t) in [("cross", v.cross(w)), ("v * w", v * w)] {
        ensure!(t.to_array() == c, "{what} of {a:?} and {b:?} is {t:?}");
    }
    let m = v.magnitude_sq();
    ensure!(m == a[0] * a[0] + a[1] * a[1] + a[2] * a[2], "magnitude_sq of {a:?} is {m:?}");
    Ok(())
}

/// Operators and sums.
fn forms<V>(a: &[Mod], b: &[Mod], k: Mod, mk: impl Fn(&[Mod]) -> V, un: impl Fn(V) -> Vec<Mod>) -> R
where
    V: Copy
        + Add<Output = V>
        + Sub<Output = V>
        + Mul<Mod, Output = V>
        + Div<Mod, Output = V>
        + std::ops::AddAssign
        + std::ops::SubAssign
        + std::ops::MulAssign<Mod>
        + std::ops::DivAssign<Mod>
        + std::iter::Sum<V>
        + for<'a> std::iter::Sum<&'a V>,
{
    let (v, w) = (mk(a), mk(b));
    let each = |f: &dyn Fn(Mod, Mod) -> Mod| -> Vec<Mod> { a.iter().zip(b).map(|(&x, &y)| f(x, y)).collect() };
    let eachk = |f: &dyn Fn(Mod, Mod) -> Mod| -> Vec<Mod> { a.iter().map(|&x| f(x, k)).collect() };
    let assign = |f: &dyn Fn(&mut V)| -> V {
        let mut u = v;
        f(&mut u);
        u
    };
    for (what, got, want) in [
        ("v + w", v + w, each(&|x, y| x + y)),
        ("v += w", assign(&|u| *u += w), each(&|x, y| x + y)),
        ("v - w", v - w, each(&|x, y| x - y)),
        ("v -= w", assign(&|u| *u -= w), each(&|x, y| x - y)),
        ("v * k", v * k, eachk(&|x, y| x * y)),
        ("v *= k", assign(&|u| *u *= k), eachk(&|x, y| x * y)),
        ("v / k", v / k, eachk(&|x, y| x / y)),
        ("v /= k", assign(&|u| *u /= k), eachk(&|x, y| x / y)),
        ("the sum of v, w, v", [v, w, v].into_iter().sum(), each(&|x, y| x + y + x)),
        ("the sum of &v, &w, &v", [v, w, v].iter().sum(), each(&|x, y| x + y + x)),
    ] {
        let got = un(got);
        ensure!(got == want, "{what} of {a:?} and {b:?}, k = {k:?}, is {got:?}, expected {want:?}");
    }
    Ok(())
}

fn f3(v: [f32; 3]) -> F32x3 {
    F32x3 { x: v[0], y: v[1], z: v[2] }
}

fn through_f32(s: &mut Src) -> R {
    let g = |s: &mut Src| -> [Fix; 3] { std::array::from_fn(|_| fix(s)) };
    let (a, b, k) = (g(s), g(s), fix(s));
    let (fa, fb, fk) = (a.map(f32::from), b.map(f32::from), f32::from(k));
    s.nontrivial_if(fa.iter().chain(&fb).filter(|x| **x != 0.0).count() > 2);
    s.desc(|| format!("{fa:?}, {fb:?}, {fk:?} in fixed point"));
    let chk = |what: &str, got: &[f32], want: &[f32]| -> R {
        ensure!(
            got.iter().zip(want).all(|(x, y)| same(*x, *y)),
            "{what} of {fa:?}, {fb:?}, {fk:?} in fixed point is {got:?}, of the same numbers as f32 {want:?}"
        );
        Ok(())
    };
    let (v, w) = (Vector3d::from(a), Vector3d::from(b));
    let (fv, fw) = (f3(fa), f3(fb));
    chk("3D magnitude", &[v.magnitude()], &[fv.magnitude()])?;
    chk("3D distance", &[v.distance(w)], &[fv.distance(fw)])?;
    let n = v.normalized().to_array();
    let want = fv.normalized().to_array().map(Fix::from);
    ensure!(n == want, "{fa:?} in fixed point normalizes to {n:?}, expected {want:?}");
    let (v2, w2) = (Vector2d { x: a[0], y: a[1] }, Vector2d { x: b[0], y: b[1] });
    let (fv2, fw2) = (Vector2d { x: fa[0], y: fa[1] }, Vector2d { x: fb[0], y: fb[1] });
    chk("2D magnitude", &[v2.magnitude()], &[fv2.magnitude()])?;
    chk("2D distance", &[v2.distance(w2)], &[fv2.distance(fw2)])?;
    let n = v2.normalized().to_array();
    let want = fv2.normalized().to_array().map(Fix::from);
    ensure!(n == want, "({:?}, {:?}) in fixed point normalizes to {n:?}, expected {want:?}", fa[0], fa[1]);
    // quaternions
    let q = Quaternion::new(f32_within(s, -8, 8), f32_within(s, -8, 8), f32_within(s, -8, 8), f32_within(s, -8, 8));
    chk("rotate", &q.rotate(v).to_array(), &q.rotate(fv).to_array())?;
    chk("q * v", &(q * v).to_array(), &(q * fv).to_array())?;
    chk("axis_angle", &Quaternion::axis_angle(v, k).to_array(), &Quaternion::axis_angle(fv, fk).to_array())?;
    chk("scale", &q.scale(k).to_array(), &q.scale(fk).to_array())?;
    chk("from_two_vectors", &Quaternion::from_two_vectors(v, w).to_array(), &Quaternion::from_two_vectors(fv, fw).to_array())?;
    chk("a quaternion", &Quaternion::from(v).to_array(), &[0.0, fa[0], fa[1], fa[2]])?;
    Ok(())
}

fn samples(s: &mut Src) -> R {
    let n = len(s, 400).max(2);
    let v: Vec<Fix> = (0..n).map(|_| fix(s)).collect();
    let f: Vec<f32> = v.iter().map(|&x| x.into()).collect();
    let t = s.pick(&[2.0, 1.0, 0.5, 1.5, 0.0, 3.0, f32::INFINITY]) + s.upto(3) as f32 * 0.125;
    s.desc(|| format!("trim_at({t:?}) of {n} labelled numbers {:?} ...", &f[..n.min(10)]));
    let mut same_value = false;
    for (i, x) in v.iter().enumerate() {
        same_value |= i > 0 && x.v == v[i - 1].v && x.label != v[i - 1].label;
    }
    let (sv, sf) = (v.as_slice(), f.as_slice());
    let a = (sv.iter().map(|&x| f32::from(x)).mean(), sv.variance(), sv.stddev());
    let b = (sf.iter().copied().mean(), sf.variance(), sf.stddev());
    ensure!(
        same(a.0, b.0) && same(a.1, b.1) && same(a.2, b.2),
        "mean, variance, stddev are {a:?} of a user-defined type, {b:?} of the same numbers as f32: {f:?}"
    );
    // the elements are passed on as they are
    let kept: Vec<Fix> = (&sv).trim_at(t).collect();
    let want: Vec<f32> = (&sf).trim_at(t).collect();
    let got: Vec<f32> = kept.iter().map(|&x| x.into()).collect();
    ensure!(got == want, "trim_at({t:?}) keeps {got:?} of a user-defined type, {want:?} of the same numbers as f32");
    s.nontrivial_if(kept.len() > 0 && kept.len() < n);
    if same_value {
        s.label("equal numbers with different labels");
    }
    let mut at = 0;
    for x in &kept {
        match v[at..].iter().position(|y| y == x) {
            Some(p) => at += p + 1,
            None => fail!("{x:?} of the result is not an element of the rest of the sample {:?}", &v[at..]),
        }
    }
    // equal numbers stay or go together
    for (i, x) in v.iter().enumerate() {
        let count = |l: &[Fix]| l.iter().filter(|y| *y == x).count();
        if kept.iter().any(|y| y.v == x.v) && (i < 40) {
            ensure!(count(&kept) == count(&v), "{x:?} is {} times in the sample and {} times in the result", count(&v), count(&kept));
        }
    }
    let whole: Vec<Fix> = trim::Iter::new(sv, t).collect();
    ensure!(whole == kept, "trim::Iter::new and trim_at differ: {whole:?}, {kept:?}");
    Ok(())
}

pub fn c37() -> Property {
    Property {
        id: "C37",
        rule: "Two harness-defined component types: integers modulo 2^61-1, which have no order (checked against the field's own formulas), and labelled fixed-point numbers with saturating arithmetic (checked against the converted f32); non-trivial: components not all equal, more than two non-zero, or a proper part of the sample trimmed.",
        tasks: vec![
            random("2D vectors over a prime field", 3_600_000, ring2),
            random("3D vectors over a prime field", 3_600_000, ring3),
            random("vectors and quaternions through f32", 18_000_000, through_f32),
            random("samples", 2_400_000, samples),
        ],
        assumptions: &["equal instantiations of the same generic code round alike"],
    }
}

// ------------------------------------------------------------------ C38

/// The texts of the components occur in `text` one after the other.
fn in_order(text: &str, parts: &[String]) -> bool {
    let mut rest = text;
    for p in parts {
        match rest.find(p.as_str()) {
            Some(i) => rest = &rest[i + p.len()..],
            None => return false,
        }
    }
    true
}

fn follows<T: PartialEq + Copy + std::fmt::Debug, C: Comp, const N: usize>(s: &mut Src, a: [C; N], b: [C; N], mk: impl Fn([C; N]) -> T, un: impl Fn(T) -> [C; N]) -> R {
    let (p, q) = (mk(a), mk(b));
    let want = (0..N).all(|i| a[i] == b[i]);
    s.label(if want { "equal" } else { "unequal" });
    let differ = (0..N).filter(|&i| a[i] != b[i]).count();
    s.nontrivial_if(differ == 1 || want);
    ensure!((p == q) == want && (q == p) == want, "{a:?} == {b:?} is {} of {}", p == q, std::any::type_name::<T>());
    ensure!((p != q) != want, "{a:?} != {b:?} is {} of {}", p != q, std::any::type_name::<T>());
    let same = a.iter().all(|x| x == x);
    #[allow(clippy::eq_op)]
    let reflexive = p == p;
    ensure!(reflexive == same, "{a:?} == itself is {reflexive} of {}", std::any::type_name::<T>());
    #[allow(clippy::clone_on_copy)]
    let c = un(p.clone());
    ensure!(a.iter().zip(&c).all(|(x, y)| x.bits() == y.bits()), "a clone of {a:?} is {c:?}");
    let mut c = q;
    c.clone_from(&p);
    let c = un(c);
    ensure!(a.iter().zip(&c).all(|(x, y)| x.bits() == y.bits()), "clone_from of {a:?} gives {c:?}");
    // debugging output shows the number of every component, in order
    let prec = s.upto(4) as usize;
    let number = |t: String| t.trim_start_matches("F32(").trim_end_matches(')').to_string();
    let plain: Vec<String> = a.iter().map(|x| number(format!("{x:?}"))).collect();
    let signed: Vec<String> = a.iter().map(|x| number(format!("{x:+?}"))).collect();
    let wide: Vec<String> = a.iter().map(|x| number(format!("{x:12?}"))).collect();
    let hex: Vec<String> = a.iter().map(|x| number(format!("{x:x?}"))).collect();
    let short: Vec<String> = a.iter().map(|x| number(format!("{x:.prec$?}"))).collect();
    for (what, text, parts) in [
        ("{:?}", format!("{p:?}"), &plain),
        ("{:#?}", format!("{p:#?}"), &plain),
        ("{:.prec$?}", format!("{p:.prec$?}"), &short),
        ("{:+?}", format!("{p:+?}"), &signed),
        ("{:12?}", format!("{p:12?}"), &wide),
        ("{:x?}", format!("{p:x?}"), &hex),
    ] {
        ensure!(in_order(&text, parts), "{what} of {} {a:?} shows {text} (prec {prec})", std::any::type_name::<T>());
    }
    Ok(())
}

fn operands<C: Comp, const N: usize>(s: &mut Src) -> ([C; N], [C; N]) {
    let a: [C; N] = std::array::from_fn(|_| C::gen(s));
    let mut b = a;
    match s.upto(3) {
        // differ in one place, or a neighbour
        0 => b[s.idx(N)] = C::gen(s),
        1 => b = std::array::from_fn(|_| C::gen(s)),
        2 => b.rotate_left(1),
        _ => {}
    }
    (a, b)
}

mod follow {
    use super::*;
    pub fn two<C: Comp>(s: &mut Src) -> R {
        let (a, b) = operands::<C, 2>(s);
        s.desc(|| format!("2D {}: {a:?}, {b:?}", C::NAME));
        follows(s, a, b, |c| Vector2d { x: c[0], y: c[1] }, |v| [v.x, v.y])
    }
    pub fn three<C: Comp>(s: &mut Src) -> R {
        let (a, b) = operands::<C, 3>(s);
        s.desc(|| format!("3D {}: {a:?}, {b:?}", C::NAME));
        follows(s, a, b, |c| Vector3d { x: c[0], y: c[1], z: c[2] }, |v| [v.x, v.y, v.z])
    }
}

fn follow_vectors(s: &mut Src) -> R {
    crate::vectors::dispatch!(s, follow)
}

/// a float, a quarter of them zeros of either sign and NaNs
fn touchy(s: &mut Src) -> f32 {
    match s.upto(11) {
        0 => 0.0,
        1 => -0.0,
        2 => nan(s),
        _ => f32_any(s),
    }
}

fn follow_quaternions(s: &mut Src) -> R {
    let a: [f32; 4] = std::array::from_fn(|_| touchy(s));
    let mut b = a;
    match s.upto(3) {
        0 => b[s.idx(4)] = touchy(s),
        1 => b = std::array::from_fn(|_| touchy(s)),
        2 => b = a.map(|x| -x),
        _ => {}
    }
    s.desc(|| format!("quaternions {a:?}, {b:?}"));
    follows(s, a, b, |c| Quaternion::new(c[0], c[1], c[2], c[3]), |q| q.to_array())?;
    ensure!(Quaternion::default() == Quaternion::IDENTITY, "the default quaternion is {:?}", Quaternion::default());
    Ok(())
}

fn follow_f32(s: &mut Src) -> R {
    let a = touchy(s);
    let b = if s.flip() { touchy(s) } else { f32_related(s, a) };
    s.desc(|| format!("F32 {a:?}, {b:?}"));
    follows(s, [a], [b], |c| F32(c[0]), |x| [x.0])
}

pub fn c38() -> Property {
    Property {
        id: "C38",
        rule: "Generated pairs of vectors of 16 types, quaternions and F32 (equal, different in one component, rotated, unrelated; zeros of either sign and NaNs over-represented); non-trivial: equal, or different in exactly one component.",
        tasks: vec![
            random("vectors", 4_500_000, follow_vectors),
            random("quaternions", 1_500_000, follow_quaternions),
            random("F32", 1_500_000, follow_f32),
        ],
        assumptions: &["formatting of f32 and integers by the standard library"],
    }
}
