//! C22..C26: vectors.

use crate::engine::{guard, random, sweep, Property, Src, Sw, R};
use crate::gen::*;
use crate::oracle::*;
use crate::{ensure, fail};
use micromath::vector::{F32x2, F32x3, Vector, Vector2d, Vector3d};
use micromath::F32;

/// A component type as the checks see it.
pub trait Comp: micromath::vector::Component + Send + Sync + 'static {
    const NAME: &'static str;
    const FLOAT: bool;
    const SIGNED: bool;
    fn gen(s: &mut Src) -> Self;
    /// magnitude below 2^bits for integers, between 2^-b and 2^b for floats
    fn gen_small(s: &mut Src, bits: u32) -> Self;
    /// bit for bit, any NaN for NaN
    fn same(self, o: Self) -> bool;
    /// same bits
    fn bits(self) -> u64;
    fn f(self) -> f64;
    fn i(self) -> i128;
    fn fits(i: i128) -> bool;
    fn add_(self, o: Self) -> Option<Self>;
    fn sub_(self, o: Self) -> Option<Self>;
    fn mul_(self, o: Self) -> Option<Self>;
    fn div_(self, o: Self) -> Option<Self>;
    /// a few units in the last place away
    fn near(_: &mut Src, x: Self) -> Self {
        x
    }
}

macro_rules! int_comp {
    ($($t:ident)*) => { $(
        impl Comp for $t {
            const NAME: &'static str = stringify!($t);
            const FLOAT: bool = false;
            const SIGNED: bool = $t::MIN != 0;
            fn gen(s: &mut Src) -> Self {
                match s.weighted(&[30, 20, 15, 15, 20]) {
                    0 => { let v = s.upto(12) as $t; if Self::SIGNED && s.flip() { (0 as $t).wrapping_sub(v) } else { v } }
                    1 => s.pick(&[$t::MIN, $t::MAX, 0, 1, $t::MAX - 1, $t::MIN + 1, $t::MAX / 2, $t::MAX / 2 + 1, 2]),
                    2 => (1 as $t).wrapping_shl(s.upto($t::BITS as u64 - 1) as u32).wrapping_add(s.upto(2) as $t).wrapping_sub(1),
                    3 => { let d = dict(); d.ints[s.idx(d.ints.len())] as $t }
                    _ => s.upto(u32::MAX as u64) as $t,
                }
            }
            fn gen_small(s: &mut Src, bits: u32) -> Self {
                let b = bits.min($t::BITS - Self::SIGNED as u32);
                let b = if s.upto(3) == 0 { s.upto(b as u64) as u32 } else { b };
                let v = s.upto((1u64 << b) - 1) as i64;
                (if Self::SIGNED && s.flip() { -v } else { v }) as $t
            }
            fn same(self, o: Self) -> bool { self == o }
            fn bits(self) -> u64 { self as i64 as u64 }
            fn f(self) -> f64 { self as f64 }
            fn i(self) -> i128 { self as i128 }
            fn fits(i: i128) -> bool { i >= $t::MIN as i128 && i <= $t::MAX as i128 }
            fn add_(self, o: Self) -> Option<Self> { self.checked_add(o) }
            fn sub_(self, o: Self) -> Option<Self> { self.checked_sub(o) }
            fn mul_(self, o: Self) -> Option<Self> { self.checked_mul(o) }
            fn div_(self, o: Self) -> Option<Self> { self.checked_div(o) }
        }
    )* };
}
int_comp!(i8 i16 i32 u8 u16 u32);

macro_rules! float_comp {
    ($t:ident, $wrap:expr, $get:expr) => {
        impl Comp for $t {
            const NAME: &'static str = stringify!($t);
            const FLOAT: bool = true;
            const SIGNED: bool = true;
            fn gen(s: &mut Src) -> Self {
                let x = if s.one_in(20) { nan(s) } else { f32_any(s) };
                $wrap(x)
            }
            fn gen_small(s: &mut Src, bits: u32) -> Self {
                let x = match s.upto(5) {
                    0 => s.range(-20, 20) as f32,
                    1 => f32_mag(s, -2, 2),
                    _ => f32_within(s, -(bits as i32), bits as i32),
                };
                $wrap(x)
            }
            fn same(self, o: Self) -> bool { same($get(self), $get(o)) }
            fn bits(self) -> u64 { $get(self).to_bits() as u64 }
            fn near(s: &mut Src, x: Self) -> Self {
                let d = s.range(-3, 3) as i32;
                let y = f32::from_bits($get(x).to_bits().wrapping_add(d as u32));
                if y.is_finite() { $wrap(y) } else { x }
            }
            fn f(self) -> f64 { $get(self) as f64 }
            fn i(self) -> i128 { unreachable!() }
            fn fits(_: i128) -> bool { true }
            fn add_(self, o: Self) -> Option<Self> { Some($wrap($get(self) + $get(o))) }
            fn sub_(self, o: Self) -> Option<Self> { Some($wrap($get(self) - $get(o))) }
            fn mul_(self, o: Self) -> Option<Self> { Some($wrap($get(self) * $get(o))) }
            fn div_(self, o: Self) -> Option<Self> { Some($wrap($get(self) / $get(o))) }
        }
    };
}
float_comp!(f32, |x: f32| x, |x: f32| x);
float_comp!(F32, F32, |x: F32| x.0);

/// A vector type as the checks see it.
pub trait Vect<C: Comp, const N: usize>: Vector<C> + 'static {
    fn mk(c: [C; N]) -> Self;
    fn un(self) -> [C; N];
}
impl<C: Comp> Vect<C, 2> for Vector2d<C> {
    fn mk(c: [C; 2]) -> Self {
        Vector2d { x: c[0], y: c[1] }
    }
    fn un(self) -> [C; 2] {
        [self.x, self.y]
    }
}
impl<C: Comp> Vect<C, 3> for Vector3d<C> {
    fn mk(c: [C; 3]) -> Self {
        Vector3d { x: c[0], y: c[1], z: c[2] }
    }
    fn un(self) -> [C; 3] {
        [self.x, self.y, self.z]
    }
}

fn same_bits<C: Comp>(a: &[C], b: &[C]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.bits() == b.bits())
}
fn same_all<C: Comp>(a: &[C], b: &[C]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.same(*b))
}

fn gen_arr<C: Comp, const N: usize>(s: &mut Src) -> [C; N] {
    std::array::from_fn(|_| C::gen(s))
}

/// `$f!(i8, Vector2d, 2)` and so on for the chosen one of 16 vector types.
macro_rules! dispatch {
    ($s:ident, $f:ident) => {{
        let k = $s.upto(15);
        $crate::vectors::dispatch!(@ $s, $f, k, i8 i16 i32 u8 u16 u32 f32 F32)
    }};
    (@ $s:ident, $f:ident, $k:ident, $($t:ident)*) => {{
        let mut n = 0;
        $( if $k == n { $s.label(concat!("2D ", stringify!($t))); return $f::two::<$t>($s); } n += 1; )*
        $( if $k == n { $s.label(concat!("3D ", stringify!($t))); return $f::three::<$t>($s); } n += 1; )*
        let _ = n;
        unreachable!()
    }};
}
pub(crate) use dispatch;

// ------------------------------------------------------------------ C22

pub use access::common as access_history;

pub mod access {
    use super::*;

    pub fn common<C: Comp, V: Vect<C, N> + std::ops::Index<usize, Output = C> + PartialEq, const N: usize>(s: &mut Src, c: [C; N]) -> R {
        let v = V::mk(c);
        s.nontrivial_if(c.iter().any(|x| x.bits() != c[0].bits()));
        s.desc(|| format!("{N}D vector of {} {c:?}", C::NAME));
        ensure!(V::AXES == N, "AXES = {}", V::AXES);
        let chk = |what: &str, got: &[C]| -> R {
            ensure!(same_bits(got, &c), "{what} of {c:?} ({}) gives {got:?}", C::NAME);
            Ok(())
        };
        chk("from_slice", &V::from_slice(&c).un())?;
        chk("collecting an iterator", &c.iter().copied().collect::<V>().un())?;
        chk("collecting a filtered iterator", &c.iter().copied().filter(|_| true).collect::<V>().un())?;
        chk("iter", &v.iter().collect::<Vec<C>>())?;
        chk("index", &(0..N).map(|i| v[i]).collect::<Vec<C>>())?;
        let g: Option<Vec<C>> = (0..N).map(|i| v.get(i)).collect();
        let Some(g) = g else { fail!("get gives None below {N} for {c:?}") };
        chk("get", &g)?;
        let mut seen = vec![];
        let mut w = v;
        let m = w.map(|x| {
            seen.push(x);
            x
        });
        chk("map (argument order)", &seen)?;
        chk("map (result)", &m.un())?;
        chk("map (receiver afterwards)", &w.un())?;
        // map to other components
        let d: [C; N] = gen_arr(s);
        let mut i = 0;
        let m = w.map(|_| {
            i += 1;
            d[i - 1]
        });
        ensure!(same_bits(&m.un(), &d), "mapping {c:?} to {d:?} gives {:?}", m.un());
        // beyond the axes
        let idx = match s.upto(4) {
            0 => N + s.upto(3) as usize,
            1 => usize::MAX - s.upto(2) as usize,
            2 => 1usize << s.upto(63),
            3 => (1usize << s.upto(63)) + s.upto(3) as usize,
            _ => s.upto(u64::MAX) as usize,
        };
        // (catching panics is what takes time here)
        let panics = s.upto(5);
        if idx >= N {
            let got = guard(|| v.get(idx));
            ensure!(matches!(got, Ok(None)), "get({idx}) of {c:?} gives {got:?}, expected None");
            if panics < 2 {
                let got = guard(|| v[idx]);
                ensure!(got.is_err(), "index {idx} of {c:?} gives {got:?}, expected a panic");
            }
        }
        // other numbers of components
        let n = len(s, 2000);
        if n != N && panics >= 4 {
            let many: Vec<C> = (0..n).map(|i| c[i % N]).collect();
            let r = guard(|| V::from_slice(&many));
            ensure!(r.is_err(), "from_slice of {n} components gives {r:?}, expected a panic");
            let r = guard(|| many.iter().copied().collect::<V>());
            ensure!(r.is_err(), "collecting {n} components gives {r:?}, expected a panic");
        }
        // any pattern of consumption
        let mut it = v.iter();
        let mut pos = 0;
        for _ in 0..1 + s.upto(11) {
            match s.upto(9) {
                0 => {
                    // a clone continues from the same place
                    let rest: Vec<C> = it.clone().collect();
                    ensure!(same_bits(&rest, &c[pos.min(N)..]), "a clone of the iterator at {pos} of {c:?} gives {rest:?}");
                }
                1 => {
                    let k = far(s);
                    let got = it.nth(k);
                    let want = pos.checked_add(k).and_then(|i| c.get(i)).copied();
                    ensure!(got.map(C::bits) == want.map(C::bits), "nth({k}) at {pos} of {c:?} gives {got:?}");
                    pos = pos.saturating_add(k).saturating_add(1).min(N);
                }
                2 => {
                    let (lo, hi) = it.size_hint();
                    let left = N - pos;
                    ensure!(lo <= left && hi.is_none_or(|h| h >= left), "size_hint at {pos} of {c:?} is ({lo}, {hi:?})");
                }
                3 => {
                    let n = it.clone().count();
                    ensure!(n == N - pos, "count at {pos} of {c:?} is {n}");
                }
                4 => {
                    let got = it.clone().last();
                    let want = c[pos..].last().copied();
                    ensure!(got.map(C::bits) == want.map(C::bits), "last at {pos} of {c:?} gives {got:?}");
                }
                5 => {
                    let mut rest = vec![];
                    it.clone().for_each(|x| rest.push(x));
                    ensure!(same_bits(&rest, &c[pos..]), "for_each at {pos} of {c:?} gives {rest:?}");
                    let k = far(s);
                    let rest: Vec<C> = it.clone().skip(k).collect();
                    let want = c[pos..].get(k..).unwrap_or(&[]);
                    ensure!(same_bits(&rest, want), "skip({k}) at {pos} of {c:?} gives {rest:?}");
                }
                _ => {
                    let got = it.next();
                    let want = c.get(pos).copied();
                    ensure!(got.map(C::bits) == want.map(C::bits), "next at {pos} of {c:?} gives {got:?}");
                    pos = (pos + 1).min(N);
                }
            }
        }
        // a zipped pair of iterators
        let w = V::mk(d);
        for (i, (a, b)) in v.iter().zip(w.iter()).enumerate() {
            ensure!(i < N && a.bits() == c[i].bits() && b.bits() == d[i].bits(), "zip of {c:?} and {d:?} at {i}: {a:?}, {b:?}");
        }
        let z = V::default().un();
        ensure!(z.iter().all(|x| x.same(C::default())), "the default vector is {z:?}");
        // equality
        let e: bool = v == w;
        ensure!(e == c.iter().zip(&d).all(|(p, q)| p == q), "{c:?} == {d:?} is {e}");
        Ok(())
    }

    /// How far to skip: mostly a little, sometimes as far as can be said.
    fn far(s: &mut Src) -> usize {
        match s.upto(7) {
            7 => s.pick(&[usize::MAX, usize::MAX - 1, usize::MAX - 2, usize::MAX / 2 + 1, 1 << 32, 256, 65536]),
            k => (k / 2) as usize,
        }
    }

    pub fn two<C: Comp>(s: &mut Src) -> R {
        let c: [C; 2] = gen_arr(s);
        common::<C, Vector2d<C>, 2>(s, c)?;
        let v = Vector2d { x: c[0], y: c[1] };
        let (x, y): (C, C) = v.into();
        ensure!(same_bits(&[x, y], &c), "{c:?} as a tuple is ({x:?}, {y:?})");
        let a: [C; 2] = v.into();
        ensure!(same_bits(&a, &c) && same_bits(&v.to_array(), &c), "{c:?} as an array is {a:?}");
        let w = Vector2d::from((c[0], c[1]));
        ensure!(same_bits(&w.un(), &c), "the tuple of {c:?} makes {w:?}");
        let w = Vector2d::from(c);
        ensure!(same_bits(&w.un(), &c), "the array {c:?} makes {w:?}");
        let t = Vector3d::from(v).un();
        ensure!(same_bits(&t, &[c[0], c[1], C::default()]), "{c:?} in 3D is {t:?}");
        Ok(())
    }
    pub fn three<C: Comp>(s: &mut Src) -> R {
        let c: [C; 3] = gen_arr(s);
        common::<C, Vector3d<C>, 3>(s, c)?;
        let v = Vector3d { x: c[0], y: c[1], z: c[2] };
        let (x, y, z): (C, C, C) = v.into();
        ensure!(same_bits(&[x, y, z], &c), "{c:?} as a tuple is ({x:?}, {y:?}, {z:?})");
        let a: [C; 3] = v.into();
        ensure!(same_bits(&a, &c) && same_bits(&v.to_array(), &c), "{c:?} as an array is {a:?}");
        let w = Vector3d::from((c[0], c[1], c[2]));
        ensure!(same_bits(&w.un(), &c), "the tuple of {c:?} makes {w:?}");
        let w = Vector3d::from(c);
        ensure!(same_bits(&w.un(), &c), "the array {c:?} makes {w:?}");
        Ok(())
    }
}

fn access_case(s: &mut Src) -> R {
    dispatch!(s, access)
}

pub fn c22() -> Property {
    Property {
        id: "C22",
        rule: "Generated components for 16 vector types (8 component types, 2 dimensions), an out-of-range index, a wrong number of components and a history of iterator operations per case; non-trivial: the components are not all equal.",
        tasks: vec![random("access", 24_000_000, access_case)],
        assumptions: &[],
    }
}

// ------------------------------------------------------------------ C23

type Bin<C> = fn(C, C) -> Option<C>;

fn zip_op<C: Comp, const N: usize>(a: [C; N], b: [C; N], f: Bin<C>) -> Option<[C; N]> {
    let mut r = a;
    for i in 0..N {
        r[i] = f(a[i], b[i])?;
    }
    Some(r)
}

mod arith {
    use super::*;

    macro_rules! body {
        ($s:ident, $V:ident, $N:literal, $C:ident) => {{
            let s = $s;
            // small magnitudes, so that most integer operations do not overflow
            let a: [$C; $N] = if s.upto(2) == 0 { gen_arr(s) } else { std::array::from_fn(|_| $C::gen_small(s, 3 + 4 * ($C::FLOAT as u32) * 4)) };
            let b: [$C; $N] = if s.upto(2) == 0 { gen_arr(s) } else { std::array::from_fn(|_| $C::gen_small(s, 3 + 4 * ($C::FLOAT as u32) * 4)) };
            let k: $C = if s.upto(2) == 0 { $C::gen(s) } else { $C::gen_small(s, 4) };
            s.desc(|| format!("{}D {}: {a:?}, {b:?}, scalar {k:?}", $N, $C::NAME));
            let (v, w) = (<$V<$C> as Vect<$C, $N>>::mk(a), <$V<$C> as Vect<$C, $N>>::mk(b));
            let ks = [k; $N];
            macro_rules! chk {
                ($what:literal, $want:ident, $got:expr) => {{
                    let got = Vect::<$C, $N>::un($got);
                    ensure!(same_all(&got, &$want), "{} on {}: {a:?}, {b:?}, scalar {k:?} gives {got:?}, expected {:?}", $what, $C::NAME, $want);
                }};
            }
            let mut done = 0;
            if let Some(want) = zip_op(a, b, $C::add_) {
                done += 1;
                chk!("v + w", want, v + w);
                chk!("w + v", want, w + v);
                let mut u = v;
                u += w;
                chk!("v += w", want, u);
            }
            if let Some(want) = zip_op(a, b, $C::sub_) {
                done += 1;
                chk!("v - w", want, v - w);
                let mut u = v;
                u -= w;
                chk!("v -= w", want, u);
            }
            if let Some(want) = zip_op(a, ks, $C::mul_) {
                done += 1;
                chk!("v * k", want, v * k);
                chk!("k * v", want, k * v);
                let mut u = v;
                u *= k;
                chk!("v *= k", want, u);
            }
            if let Some(want) = zip_op(a, ks, $C::div_) {
                done += 1;
                chk!("v / k", want, v / k);
                let mut u = v;
                u /= k;
                chk!("v /= k", want, u);
            }
            s.nontrivial_if(done >= 3);
            // sums
            let n = match s.upto(3) { 0 => 0, 1 => s.upto(3), _ => s.upto(40) };
            let mut acc = [$C::default(); $N];
            let mut list: Vec<$V<$C>> = vec![];
            // a long sequence repeats a short one
            let (n, fresh) = if s.one_in(100) { (n * (1 + s.upto(30)), n) } else { (n, n) };
            for i in 0..n as usize {
                let c: [$C; $N] = if i < fresh as usize {
                    std::array::from_fn(|_| $C::gen_small(s, 4))
                } else {
                    Vect::<$C, $N>::un(list[i % fresh as usize])
                };
                let Some(next) = zip_op(acc, c, $C::add_) else { break };
                acc = next;
                list.push(<$V<$C> as Vect<$C, $N>>::mk(c));
            }
            let sums: [$V<$C>; 4] = [
                list.iter().copied().sum(),
                list.iter().sum(),
                list.iter().copied().filter(|_| true).sum(),
                list.iter().filter(|_| true).sum(),
            ];
            for sum in sums {
                let got = Vect::<$C, $N>::un(sum);
                let ok = got.iter().zip(&acc).all(|(g, w)| g == w || g.same(*w));
                ensure!(ok, "the sum of {list:?} is {got:?}, expected {acc:?}");
            }
            Ok(())
        }};
    }
    // `k * v` exists per component type, so this cannot be generic
    pub trait Run {
        fn two(s: &mut Src) -> R;
        fn three(s: &mut Src) -> R;
    }
    macro_rules! runs {
        ($($t:ident)*) => { $( impl Run for $t {
            fn two(s: &mut Src) -> R { body!(s, Vector2d, 2, $t) }
            fn three(s: &mut Src) -> R { body!(s, Vector3d, 3, $t) }
        } )* };
    }
    runs!(i8 i16 i32 u8 u16 u32 f32 F32);
    pub fn two<T: Run>(s: &mut Src) -> R {
        T::two(s)
    }
    pub fn three<T: Run>(s: &mut Src) -> R {
        T::three(s)
    }
}

fn arith_case(s: &mut Src) -> R {
    dispatch!(s, arith)
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        rule: "Generated operands (any, or small so that integers do not overflow), scalars and sequences of up to 40 vectors for 16 vector types; an operation that would overflow on an axis is left out; non-trivial: at least three of the four operations were checked.",
        tasks: vec![random("arithmetic", 24_000_000, arith_case)],
        assumptions: &["checked integer operations and f32 operators of the compiler are the reference"],
    }
}

// ------------------------------------------------------------------ C24

/// (exact value, sum of magnitudes of the terms) of a sum of signed products, or None if an integer would not fit
enum Exact {
    Int(i128),
    Float(f64, f64),
}

fn products<C: Comp>(terms: &[(i32, C, C)]) -> Option<Exact> {
    if C::FLOAT {
        let (mut v, mut m) = (0.0, 0.0);
        for &(sg, a, b) in terms {
            // f64 products of f32 are exact
            let p = a.f() * b.f();
            v += sg as f64 * p;
            m += p.abs();
        }
        return Some(Exact::Float(v, m));
    }
    let (mut v, mut m) = (0i128, 0i128);
    for &(sg, a, b) in terms {
        let p = a.i() * b.i();
        if !C::fits(p) {
            return None;
        }
        v += sg as i128 * p;
        m += p.abs();
        // and every partial result, in either order
        if !C::SIGNED && v < 0 {
            return None;
        }
    }
    C::fits(m).then_some(())?;
    (C::fits(v) && C::fits(-m * C::SIGNED as i128)).then_some(Exact::Int(v))
}

fn check_product<C: Comp>(s: &mut Src, what: &str, got: C, terms: &[(i32, C, C)]) -> R {
    match products(terms) {
        None => Ok(()),
        Some(Exact::Int(w)) => {
            ensure!(got.i() == w, "{what} ({}) = {got:?}, expected {w}; terms {terms:?}", C::NAME);
            Ok(())
        }
        Some(Exact::Float(w, m)) => {
            let (e, bound) = ((got.f() - w).abs(), 4e-7 * m + 1e-40);
            s.ratio(e / bound);
            ensure!(e <= bound, "{what} ({}) = {got:?}, off by {e:e} from {w:e}; terms {terms:?}", C::NAME);
            Ok(())
        }
    }
}

mod prod {
    use super::*;

    fn comps<C: Comp, const N: usize>(s: &mut Src) -> ([C; N], [C; N]) {
        // half the width of integers, so that most products fit; floats below 2^59
        let bits = if C::FLOAT { 59 } else { (std::mem::size_of::<C>() * 4) as u32 - 1 };
        let mut a: [C; N] = std::array::from_fn(|_| C::gen_small(s, bits));
        let mut b: [C; N] = std::array::from_fn(|_| C::gen_small(s, bits));
        match s.upto(6) {
            // basis-like and related operands
            0 => {
                let i = s.idx(N);
                for (j, c) in a.iter_mut().enumerate() {
                    if j != i {
                        *c = C::default();
                    }
                }
            }
            1 => b = a,
            2 => {
                // one wide operand, one narrow
                a = std::array::from_fn(|_| if C::FLOAT { C::gen_small(s, 59) } else { C::gen(s) });
                b = std::array::from_fn(|_| C::gen_small(s, 1));
            }
            3 if !C::FLOAT => {
                // widths that share those of the type
                let w = (std::mem::size_of::<C>() * 8) as u32 - C::SIGNED as u32;
                for i in 0..N {
                    let k = s.upto(w as u64) as u32;
                    a[i] = C::gen_small(s, k);
                    let k = w - k;
                    for j in 0..N {
                        if j == i || s.one_in(2) {
                            b[j] = C::gen_small(s, k);
                        }
                    }
                }
            }
            _ => {}
        }
        s.nontrivial_if(a.iter().zip(&b).filter(|(x, y)| x.f() != 0.0 && y.f() != 0.0).count() >= 2);
        (a, b)
    }

    /// The crate may only be called when nothing overflows.
    fn ok<C: Comp>(all: &[&[(i32, C, C)]]) -> bool {
        all.iter().all(|t| products(t).is_some())
    }

    pub fn two<C: Comp>(s: &mut Src) -> R {
        let (a, b) = comps::<C, 2>(s);
        s.desc(|| format!("2D {}: {a:?}, {b:?}", C::NAME));
        let (v, w) = (Vector2d { x: a[0], y: a[1] }, Vector2d { x: b[0], y: b[1] });
        let d = [(1, a[0], b[0]), (1, a[1], b[1])];
        let p = [(1, a[0], b[1]), (-1, a[1], b[0])];
        if ok(&[&d]) {
            s.label("dot");
            check_product(s, "dot", v.dot(w), &d)?;
            check_product(s, "Vector::dot", Vector::dot(v, w), &d)?;
        }
        if ok(&[&p]) {
            s.label("perpendicular_dot");
            check_product(s, "perpendicular_dot", v.perpendicular_dot(w), &p)?;
            for (what, t) in [("cross", v.cross(w)), ("v * w", v * w)] {
                ensure!(t.x == C::default() && t.y == C::default(), "{what} of {a:?} and {b:?} ({}) is {t:?}", C::NAME);
                check_product(s, what, t.z, &p)?;
            }
        }
        Ok(())
    }

    pub fn three<C: Comp>(s: &mut Src) -> R {
        let (a, b) = comps::<C, 3>(s);
        s.desc(|| format!("3D {}: {a:?}, {b:?}", C::NAME));
        let (v, w) = (Vector3d { x: a[0], y: a[1], z: a[2] }, Vector3d { x: b[0], y: b[1], z: b[2] });
        let d = [(1, a[0], b[0]), (1, a[1], b[1]), (1, a[2], b[2])];
        if ok(&[&d]) {
            s.label("dot");
            check_product(s, "dot", v.dot(w), &d)?;
            check_product(s, "Vector::dot", Vector::dot(v, w), &d)?;
        }
        let x = [(1, a[1], b[2]), (-1, a[2], b[1])];
        let y = [(1, a[2], b[0]), (-1, a[0], b[2])];
        let z = [(1, a[0], b[1]), (-1, a[1], b[0])];
        if ok(&[&x, &y, &z]) {
            s.label("cross");
            for (what, t) in [("cross", v.cross(w)), ("v * w", v * w)] {
                check_product(s, &format!("x of {what}"), t.x, &x)?;
                check_product(s, &format!("y of {what}"), t.y, &y)?;
                check_product(s, &format!("z of {what}"), t.z, &z)?;
            }
        }
        Ok(())
    }
}

fn prod_case(s: &mut Src) -> R {
    dispatch!(s, prod)
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        rule: "Generated pairs for 16 vector types (half-width and mixed-width integers, floats below 2^59, axis-parallel and equal operands), compared with i128 or f64 sums of products; a product that would overflow is left out; non-trivial: at least two axes non-zero in both operands.",
        tasks: vec![random("products", 80_000_000, prod_case)],
        assumptions: &["sums of a few f64 products have relative error below 1e-15"],
    }
}

// ------------------------------------------------------------------ C25

fn length_check(s: &mut Src, what: &str, got: f32, sq: f64) -> R {
    if sq == 0.0 {
        s.label("zero length");
        ensure!((0.0..1e-18).contains(&got), "{what} = {got:e}, expected 0");
    } else if (1e-36..=1e37).contains(&sq) {
        s.nontrivial();
        let e = (got as f64 / sq.sqrt() - 1.0).abs();
        s.ratio(e / 0.062);
        ensure!(e <= 0.062, "{what} = {got:e}, off by a factor of {e} from {:e}", sq.sqrt());
    }
    Ok(())
}

pub fn lengths_of<C: Comp + Into<f32>, V: Vect<C, N>, const N: usize>(s: &mut Src) -> R {
    let bits = if C::FLOAT { s.pick(&[4, 20, 62]) } else { 32 };
    let a: [C; N] = std::array::from_fn(|_| C::gen_small(s, bits));
    let b: [C; N] = match s.upto(5) {
        0 => a,
        4 => {
            // all but one axis in common, or nearly so
            let mut b = a;
            let i = s.idx(N);
            b[i] = C::gen_small(s, bits);
            b
        }
        5 if C::FLOAT => a.map(|x| C::near(s, x)),
        1 => gen_arr(s),
        _ => std::array::from_fn(|_| C::gen_small(s, bits)),
    };
    s.desc(|| format!("{N}D {}: {a:?}, {b:?}", C::NAME));
    let (v, w) = (V::mk(a), V::mk(b));
    let sq: f64 = a.iter().map(|x| x.f() * x.f()).sum();
    length_check(s, &format!("magnitude of {a:?} ({})", C::NAME), v.magnitude(), sq)?;
    let d: f64 = a.iter().zip(&b).map(|(x, y)| (x.f() - y.f()).powi(2)).sum();
    // the differences are taken in f32, where they may round
    let (x, y) = (v.distance(w), w.distance(v));
    if b.iter().all(|x| x.f().is_finite()) && d < 1e37 {
        length_check(s, &format!("distance of {a:?} and {b:?} ({})", C::NAME), x, d)?;
    }
    ensure!(same(x, y), "distance of {a:?} and {b:?} ({}) is {x:e} one way and {y:e} the other", C::NAME);
    Ok(())
}

pub fn magnitude_sq_of<C: Comp + std::iter::Sum, V: Vect<C, N>, const N: usize>(s: &mut Src) -> R {
    let bits = if C::FLOAT { 60 } else { (std::mem::size_of::<C>() * 4) as u32 };
    let a: [C; N] = std::array::from_fn(|_| C::gen_small(s, bits));
    s.desc(|| format!("{N}D {}: {a:?}", C::NAME));
    if C::FLOAT {
        let w: f64 = a.iter().map(|x| x.f() * x.f()).sum();
        let got = V::mk(a).magnitude_sq().f();
        if w < 1e37 {
            s.nontrivial();
            let bound = f64::max(4e-7, 6e-8 * (N + 2) as f64) * w + 1e-40;
            s.ratio((got - w).abs() / bound);
            ensure!((got - w).abs() <= bound, "magnitude_sq of {a:?} ({}) = {got:e}, expected {w:e}", C::NAME);
        }
    } else {
        let w: i128 = a.iter().map(|x| x.i() * x.i()).sum();
        if !C::fits(w) {
            return s.skip();
        }
        s.nontrivial();
        let got = V::mk(a).magnitude_sq().i();
        ensure!(got == w, "magnitude_sq of {a:?} ({}) = {got}, expected {w}", C::NAME);
    }
    Ok(())
}

pub fn normalized_of<C: Comp + Into<f32> + From<f32>, V: Vect<C, N>, const N: usize>(s: &mut Src) -> R {
    let bits = s.pick(&[4, 20, 62]);
    let a: [C; N] = std::array::from_fn(|_| C::gen_small(s, bits));
    s.desc(|| format!("{N}D {}: {a:?} normalized", C::NAME));
    let r = V::mk(a).normalized().un();
    let sq: f64 = a.iter().map(|x| x.f() * x.f()).sum();
    if sq == 0.0 {
        s.label("zero vector");
        ensure!(r.iter().all(|x| x.f() == 0.0), "the zero vector {a:?} normalizes to {r:?}");
        return Ok(());
    }
    if !(1e-36..=1e37).contains(&sq) {
        return s.skip();
    }
    s.nontrivial();
    let (la, lr) = (sq.sqrt(), r.iter().map(|x| x.f() * x.f()).sum::<f64>().sqrt());
    ensure!((0.93..=1.001).contains(&lr), "{a:?} normalizes to {r:?} with length {lr}");
    for i in 0..N {
        let e = (a[i].f() / la - r[i].f() / lr).abs();
        s.ratio(e / 1e-6);
        ensure!(e <= 1e-6, "{a:?} normalizes to {r:?}: direction off by {e:e} on axis {i}");
    }
    Ok(())
}

fn lengths(s: &mut Src) -> R {
    let k = s.upto(11);
    macro_rules! go { ($($n:literal $t:ident)*) => { match k {
        $( n if n == 2 * $n => { s.label(concat!("2D ", stringify!($t))); lengths_of::<$t, Vector2d<$t>, 2>(s) }
           n if n == 2 * $n + 1 => { s.label(concat!("3D ", stringify!($t))); lengths_of::<$t, Vector3d<$t>, 3>(s) } )*
        _ => unreachable!(),
    } } }
    go!(0 i8 1 i16 2 u8 3 u16 4 f32 5 F32)
}
fn magnitude_sq(s: &mut Src) -> R {
    let k = s.upto(15);
    macro_rules! go { ($($n:literal $t:ident)*) => { match k {
        $( n if n == 2 * $n => { s.label(concat!("2D ", stringify!($t))); magnitude_sq_of::<$t, Vector2d<$t>, 2>(s) }
           n if n == 2 * $n + 1 => { s.label(concat!("3D ", stringify!($t))); magnitude_sq_of::<$t, Vector3d<$t>, 3>(s) } )*
        _ => unreachable!(),
    } } }
    go!(0 i8 1 i16 2 u8 3 u16 4 f32 5 F32 6 i32 7 u32)
}
fn normalized(s: &mut Src) -> R {
    match s.upto(3) {
        0 => normalized_of::<f32, Vector2d<f32>, 2>(s),
        1 => normalized_of::<f32, Vector3d<f32>, 3>(s),
        2 => normalized_of::<F32, Vector2d<F32>, 2>(s),
        _ => normalized_of::<F32, Vector3d<F32>, 3>(s),
    }
}

pub fn c25() -> Property {
    Property {
        id: "C25",
        rule: "Generated vectors and pairs (equal and unrelated) for 12 vector types convertible to f32, 16 for magnitude_sq, 4 for normalized; non-trivial: the squared length is in the accuracy domain of the statement.",
        tasks: vec![
            random("magnitude_distance", 64_000_000, lengths),
            random("magnitude_sq", 32_000_000, magnitude_sq),
            random("normalized", 48_000_000, normalized),
        ],
        assumptions: &["f64 square roots and sums have relative error below 1e-15"],
    }
}

// ------------------------------------------------------------------ C26

fn widen(i: u32, sw: &mut Sw) -> R {
    // every 16-bit value on every axis; the other axes get other values
    let h = i.wrapping_mul(0x9e37_79b1);
    let c = [i as u64, (h >> 8) as u64, (h >> 16) as u64];
    sw.nontrivial += 1;
    for rot in 0..3 {
        let c = [c[rot % 3], c[(rot + 1) % 3], c[(rot + 2) % 3]];
        macro_rules! chk {
            ($($t:ident)*) => { $( {
                let (x, y, z) = (c[0] as $t, c[1] as $t, c[2] as $t);
                let v: F32x2 = Vector2d { x, y }.into();
                ensure!(v.x as f64 == x as f64 && v.y as f64 == y as f64, "({x}, {y}) of {} becomes {v:?}", stringify!($t));
                let v: F32x3 = Vector3d { x, y, z }.into();
                ensure!(v.x as f64 == x as f64 && v.y as f64 == y as f64 && v.z as f64 == z as f64, "({x}, {y}, {z}) of {} becomes {v:?}", stringify!($t));
            } )* };
        }
        chk!(i8 i16 u8 u16);
    }
    Ok(())
}

fn widen_f32(s: &mut Src) -> R {
    let c: [F32; 3] = gen_arr(s);
    s.nontrivial_if(c[0].bits() != c[1].bits() && c[1].bits() != c[2].bits());
    s.desc(|| format!("{c:?}"));
    let v: F32x3 = Vector3d { x: c[0], y: c[1], z: c[2] }.into();
    ensure!(same(v.x, c[0].0) && same(v.y, c[1].0) && same(v.z, c[2].0), "{c:?} becomes {v:?}");
    Ok(())
}

pub fn c26() -> Property {
    Property {
        id: "C26",
        rule: "Every 16-bit pattern on each axis in turn (as i8, i16, u8 and u16, two and three dimensions), the other axes holding different values; generated triples for F32 (non-trivial: neighbours differ).",
        tasks: vec![sweep("integers", 65536, 1, widen), random("F32", 16_000_000, widen_f32)],
        assumptions: &[],
    }
}
