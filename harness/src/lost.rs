//! C40: a NaN is never lost, an infinity never becomes an ordinary number.

use crate::engine::{guard, random, Property, Src, R};
use crate::ensure;
use crate::gen::*;
use micromath::statistics::{Mean, StdDev, Trim, Variance};
use micromath::vector::{Vector, Vector2d, Vector3d};
use micromath::{Quaternion, F32};

/// Moderate numbers, in which one or more are replaced by `bad`.
fn spoilt<const N: usize>(s: &mut Src, mut bad: impl FnMut(&mut Src) -> f32) -> ([f32; N], [bool; N]) {
    let mut a: [f32; N] = std::array::from_fn(|_| f32_within(s, -20, 20));
    let mut at = [false; N];
    let i = s.idx(N);
    at[i] = true;
    for b in at.iter_mut() {
        *b |= s.one_in(8);
    }
    for i in 0..N {
        if at[i] {
            a[i] = bad(s);
        }
    }
    (a, at)
}

fn moderate<const N: usize>(s: &mut Src) -> [f32; N] {
    std::array::from_fn(|_| f32_within(s, -20, 20))
}

/// NaN exactly where due.
fn nans(what: &str, got: &[f32], want: &[bool], who: &dyn Fn() -> String) -> R {
    ensure!(
        got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.is_nan() == *w),
        "{what} of {} is {got:?}, NaN expected at {want:?}",
        who()
    );
    Ok(())
}

macro_rules! vectors {
    ($name:ident, $c:ty, $mk:expr, $un:expr) => {
        fn $name(s: &mut Src) -> R {
            let mk = $mk;
            let un = $un;
            s.nontrivial();
            // three dimensions
            let (a, at) = spoilt::<3>(s, nan);
            let b: [f32; 3] = moderate(s);
            let k = f32_within(s, -20, 20);
            s.desc(|| format!("{a:?}, {b:?}, scalar {k:?} ({})", stringify!($c)));
            let who = || format!("{a:?}, {b:?}, scalar {k:?} ({})", stringify!($c));
            let v3 = |a: [f32; 3]| Vector3d { x: mk(a[0]), y: mk(a[1]), z: mk(a[2]) };
            let u3 = |v: Vector3d<$c>| [un(v.x), un(v.y), un(v.z)];
            let (v, w) = (v3(a), v3(b));
            for (what, r) in [("v + w", v + w), ("w - v", w - v), ("v * k", v * mk(k)), ("the sum", [w, v, w].into_iter().sum())] {
                nans(what, &u3(r), &at, &who)?;
            }
            // an axis of a cross product sees the two others
            let cross = [at[1] || at[2], at[2] || at[0], at[0] || at[1]];
            nans("v * w", &u3(v * w), &cross, &who)?;
            nans("w * v", &u3(w * v), &cross, &who)?;
            for (what, r) in [
                ("dot", un(v.dot(w))),
                ("dot of w and v", un(w.dot(v))),
                ("magnitude", v.magnitude()),
                ("distance", v.distance(w)),
                ("distance of w and v", w.distance(v)),
                ("distance of v and v", v.distance(v)),
            ] {
                nans(what, &[r], &[true], &who)?;
            }
            // two
            let (a, at) = spoilt::<2>(s, nan);
            let b: [f32; 2] = moderate(s);
            let who = || format!("{a:?}, {b:?} ({})", stringify!($c));
            let (v, w) = (Vector2d { x: mk(a[0]), y: mk(a[1]) }, Vector2d { x: mk(b[0]), y: mk(b[1]) });
            for (what, r) in [("v + w", v + w), ("w - v", w - v), ("v / k", v / mk(3.0)), ("the sum", [w, v, w].into_iter().sum())] {
                nans(what, &[un(r.x), un(r.y)], &at, &who)?;
            }
            for (what, r) in [
                ("dot", un(v.dot(w))),
                ("perpendicular_dot", un(v.perpendicular_dot(w))),
                ("the z of v * w", un((v * w).z)),
                ("magnitude", v.magnitude()),
                ("distance", v.distance(w)),
                ("distance of w and v", w.distance(v)),
            ] {
                nans(what, &[r], &[true], &who)?;
            }
            // infinities
            let inf = |s: &mut Src| if s.flip() { f32::INFINITY } else { f32::NEG_INFINITY };
            let (a, at) = spoilt::<3>(s, inf);
            let b: [f32; 3] = moderate(s);
            let who = || format!("{a:?}, {b:?} ({})", stringify!($c));
            let (v, w) = (v3(a), v3(b));
            for (what, r) in [("magnitude", v.magnitude()), ("distance", v.distance(w)), ("distance of w and v", w.distance(v))] {
                ensure!(r == f32::INFINITY, "{what} of {} is {r}, expected inf", who());
            }
            let d = un(v.dot(w));
            ensure!(!d.is_finite() || (0..3).any(|i| at[i] && b[i] == 0.0), "dot of {} is {d}", who());
            Ok(())
        }
    };
}
vectors!(vectors_f32, f32, |x: f32| x, |x: f32| x);
vectors!(vectors_wrapped, F32, F32, |x: F32| x.0);

macro_rules! normalized {
    ($s:ident, $n:literal, $V:ident { $($f:ident $i:literal),* }) => {{
        let (a, _) = spoilt::<$n>($s, nan);
        let v = $V { $($f: a[$i]),* };
        let r = v.normalized();
        nans("normalized", &[$(r.$f),*], &[true; $n], &|| format!("{a:?}"))?;
        let v = $V { $($f: F32(a[$i])),* };
        let m = [v.normalized(), v];
        nans("normalized", &[$(m[0].$f.0),*], &[true; $n], &|| format!("{a:?} (F32)"))?;
        nans("magnitude_sq", &[v.magnitude_sq().0], &[true], &|| format!("{a:?} (F32)"))?;
    }};
}

fn normalizing(s: &mut Src) -> R {
    s.nontrivial();
    normalized!(s, 3, Vector3d { x 0, y 1, z 2 });
    normalized!(s, 2, Vector2d { x 0, y 1 });
    Ok(())
}

fn quaternions(s: &mut Src) -> R {
    s.nontrivial();
    let (a, at) = spoilt::<4>(s, nan);
    let b: [f32; 4] = moderate(s);
    let k = f32_within(s, -20, 20);
    s.desc(|| format!("{a:?}, {b:?}"));
    let who = || format!("{a:?}, {b:?}");
    let (p, q) = (Quaternion::from(a), Quaternion::from(b));
    let all = [true; 4];
    for (what, r) in [("p + q", p + q), ("q - p", q - p), ("p * k", p * k), ("k * p", k * p), ("conj", p.conj()), ("scale", p.scale(k))] {
        nans(what, &r.to_array(), &at, &who)?;
    }
    for (what, r) in [("p * q", p * q), ("q * p", q * p), ("p * NaN", Quaternion::from(b) * nan(s))] {
        nans(what, &r.to_array(), &all, &who)?;
    }
    for (what, r) in [("dot", p.dot(q)), ("dot of q and p", q.dot(p)), ("norm", p.norm()), ("magnitude", p.magnitude())] {
        nans(what, &[r], &[true], &who)?;
    }
    for (what, r) in [("inv", guard(|| p.inv())), ("normalize", guard(|| p.normalize()))] {
        match r {
            Ok(r) => nans(what, &r.to_array(), &all, &who)?,
            Err(e) => return Err(format!("{what} of {} panics: {e}", who())),
        }
    }
    let v: [f32; 3] = moderate(s);
    let v3 = |a: [f32; 3]| Vector3d { x: a[0], y: a[1], z: a[2] };
    let who = || format!("{a:?} on {v:?}");
    nans("rotate", &p.rotate(v3(v)).to_array(), &[true; 3], &who)?;
    nans("p * v", &(p * v3(v)).to_array(), &[true; 3], &who)?;
    let e = p.to_euler();
    nans("to_euler", &[e.0, e.1, e.2], &[true; 3], &who)?;
    // a spoilt vector
    let (u, ut) = spoilt::<3>(s, nan);
    let who = || format!("{b:?} on {u:?}");
    nans("rotate", &q.rotate(v3(u)).to_array(), &[true; 3], &who)?;
    nans("from a vector", &Quaternion::from(v3(u)).to_array(), &[false, ut[0], ut[1], ut[2]], &who)?;
    let who = || format!("{u:?} and {v:?}");
    nans("from_two_vectors", &Quaternion::from_two_vectors(v3(u), v3(v)).to_array(), &all, &who)?;
    nans("from_two_vectors, swapped", &Quaternion::from_two_vectors(v3(v), v3(u)).to_array(), &all, &who)?;
    nans("axis_angle", &Quaternion::axis_angle(v3(u), k).to_array(), &[false, ut[0], ut[1], ut[2]], &who)?;
    let bad = nan(s);
    nans("axis_angle with a NaN", &Quaternion::axis_angle(v3(v), bad).to_array(), &all, &who)?;
    Ok(())
}

fn samples(s: &mut Src) -> R {
    let n = 2 + s.upto(60) as usize;
    let mut v: Vec<f32> = (0..n).map(|_| f32_within(s, -20, 20)).collect();
    let i = s.idx(n);
    v[i] = nan(s);
    if s.one_in(4) {
        let i = (i + 1 + s.idx(n - 1)) % n;
        v[i] = if s.flip() { f32::INFINITY } else { nan(s) };
    }
    s.nontrivial();
    s.desc(|| format!("{v:?}"));
    let f: Vec<F32> = v.iter().map(|x| F32(*x)).collect();
    let slice = v.as_slice();
    let who = || format!("{v:?}");
    nans(
        "mean, variance, stddev",
        &[v.iter().copied().mean(), slice.variance(), slice.stddev(), f.as_slice().variance(), f.as_slice().stddev()],
        &[true; 5],
        &who,
    )?;
    let t = s.pick(&[2.0, 0.5, 1e30, f32::INFINITY, f32::MAX]);
    let r: Vec<f32> = (&slice).trim_at(t).collect();
    ensure!(r.is_empty(), "trim_at({t:?}) of {} gives {r:?}", who());
    let r: Vec<f32> = (&slice).trim().collect();
    ensure!(r.is_empty(), "trim() of {} gives {r:?}", who());
    // an infinity
    let mut w: Vec<f32> = v.iter().map(|x| if x.is_nan() || x.is_infinite() { 1.0 } else { *x }).collect();
    w[i] = if s.flip() { f32::INFINITY } else { f32::NEG_INFINITY };
    let m = w.iter().copied().mean();
    ensure!(m == w[i], "the mean of {w:?} is {m}");
    let (var, sd) = (w.as_slice().variance(), w.as_slice().stddev());
    ensure!(!var.is_finite() && !sd.is_finite(), "variance and stddev of {w:?} are {var}, {sd}");
    Ok(())
}

pub fn c40() -> Property {
    Property {
        id: "C40",
        rule: "Vectors, quaternions and samples of moderate numbers of which one or more are replaced by NaNs of any payload, or by infinities; all cases are non-trivial.",
        tasks: vec![
            random("vectors of f32", 12_000_000, vectors_f32),
            random("vectors of F32", 12_000_000, vectors_wrapped),
            random("normalized", 12_000_000, normalizing),
            random("quaternions", 12_000_000, quaternions),
            random("samples", 6_000_000, samples),
        ],
        assumptions: &["a NaN operand makes f32 arithmetic NaN, as IEEE 754 requires"],
    }
}
