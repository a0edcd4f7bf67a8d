//! C32, C33: statistics.

use crate::engine::{random, sweep, Property, Src, Sw, R};
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::vectors::Comp;
use micromath::statistics::{trim, Mean, StdDev, Trim, Variance};
use micromath::F32;

const U: f64 = 6e-8;

/// A number that the statistics accept.
pub trait Num: Comp + Into<f32> {
    /// a value of a sample
    fn value(s: &mut Src, style: u64, base: Self) -> Self;
    /// not a number, or infinite
    fn odd(s: &mut Src) -> Self;
    /// a small integer
    fn of(i: i64) -> Self;
}

macro_rules! ivalue {
    ($($t:ident)*) => { $(
        impl Num for $t {
            fn odd(_: &mut Src) -> Self { 0 }
            fn of(i: i64) -> Self { i as $t }
            fn value(s: &mut Src, style: u64, base: Self) -> Self {
                match style {
                    0 => base,
                    1 => Self::gen_small(s, 4),
                    2 => base.wrapping_add(s.upto(6) as $t),
                    3 => if s.one_in(8) { Self::gen(s) } else { base.wrapping_add(s.upto(3) as $t) },
                    _ => Self::gen(s),
                }
            }
        }
    )* };
}
ivalue!(i8 u8 i16 u16);

fn odd(s: &mut Src) -> f32 {
    match s.upto(2) {
        0 => nan(s),
        1 => f32::INFINITY,
        _ => f32::NEG_INFINITY,
    }
}
fn fvalue(s: &mut Src, style: u64, base: f32) -> f32 {
    match style {
        0 => base,
        1 => s.range(-40, 40) as f32,
        2 => base + s.range(-50, 50) as f32 / 10.0,
        3 => {
            if s.one_in(8) {
                f32_within(s, -10, 20)
            } else {
                base + f32_mag(s, -6, 2)
            }
        }
        4 => s.range(-100_000, 100_000) as f32,
        5 => f32_within(s, -4, 4),
        6 => base * (1.0 + s.range(-1000, 1000) as f32 * 1e-6),
        _ => f32_within(s, -49, 49),
    }
}
impl Num for f32 {
    fn odd(s: &mut Src) -> f32 {
        odd(s)
    }
    fn of(i: i64) -> f32 {
        i as f32
    }
    fn value(s: &mut Src, style: u64, base: f32) -> f32 {
        fvalue(s, style, base)
    }
}
impl Num for F32 {
    fn odd(s: &mut Src) -> F32 {
        F32(odd(s))
    }
    fn of(i: i64) -> F32 {
        F32(i as f32)
    }
    fn value(s: &mut Src, style: u64, base: F32) -> F32 {
        F32(fvalue(s, style, base.0))
    }
}

fn sample<C: Num>(s: &mut Src, min: usize, max: usize) -> Vec<C> {
    let n = len(s, max).max(min);
    let style = s.upto(7);
    // a base of ordinary size: zero for a third of the samples
    let mut base = C::value(s, if C::FLOAT { 7 } else { 9 }, C::default());
    if s.upto(2) == 0 {
        base = C::default();
    } else if C::FLOAT && s.flip() {
        base = C::value(s, 4, base);
    }
    let mut v: Vec<C> = Vec::with_capacity(n);
    // long samples repeat a short pattern, so that a case stays a short list of choices
    let fresh = n.min(200);
    for _ in 0..fresh {
        let x = C::value(s, style, base);
        v.push(x);
    }
    for i in fresh..n {
        let x = v[(i * 7 + i / fresh) % fresh];
        v.push(x);
    }
    if n > 2 && s.one_in(4) {
        v.sort_by(|a, b| a.f().total_cmp(&b.f()));
        if s.flip() {
            v.reverse();
        }
    }
    v
}

fn show_sample<C: Comp>(v: &[C]) -> String {
    if v.len() <= 40 {
        format!("{v:?}")
    } else {
        format!("{} numbers, {:?} ...", v.len(), &v[..12])
    }
}

struct Exact {
    n: f64,
    mean: f64,
    /// bound of the error of a mean computed in f32
    mean_err: f64,
    /// all running sums are exact
    sums_exact: bool,
    variance: f64,
    variance_err: f64,
}

fn exact<C: Comp>(v: &[C]) -> Exact {
    let n = v.len() as f64;
    let (mut sum, mut comp, mut mag) = (0f64, 0f64, 0f64);
    let mut exact = true;
    for x in v {
        let x = x.f();
        mag += x.abs();
        // compensated
        let t = sum + x;
        comp += if sum.abs() >= x.abs() { (sum - t) + x } else { (x - t) + sum };
        sum = t;
        exact &= (sum as f32) as f64 == sum && comp == 0.0;
    }
    let mean = (sum + comp) / n;
    let meanabs = mag / n;
    // the quotient and the count are rounded
    let mut mean_err = if exact { 1e-6 * mean.abs() } else { 1.3e-7 * (n + 2.0) * meanabs };
    mean_err += 1.5e-45;
    let (mut ss, mut d1) = (0f64, 0f64);
    for x in v {
        let d = x.f() - mean;
        ss += d * d;
        d1 += d;
    }
    ss -= d1 * d1 / n;
    // sum of (x - m')^2 = sum of d^2 + n (m - m')^2, then rounding of the differences, squares and sum
    let me = if exact && mean as f32 as f64 == mean && n < 16777216.0 { 0.0 } else { mean_err };
    let drift = n * me * me;
    let err = drift + (n + 8.0) * 2.0 * U * (ss + drift) + n * 2e-45;
    Exact {
        n,
        mean,
        mean_err: if me == 0.0 { 0.0 } else { mean_err },
        sums_exact: exact,
        variance: ss / (n - 1.0),
        variance_err: 1.05 * err / (n - 1.0),
    }
}

/// An iterator that says nothing useful about its length, and goes on after its end.
struct Odd<'a> {
    v: &'a [f32],
    i: usize,
    shape: u64,
}
impl Iterator for Odd<'_> {
    type Item = f32;
    fn next(&mut self) -> Option<f32> {
        let i = self.i;
        self.i += 1;
        if i == self.v.len() {
            None
        } else if i > self.v.len() {
            Some(1e9)
        } else {
            Some(self.v[i])
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.v.len().saturating_sub(self.i);
        match self.shape % 4 {
            0 => (0, None),
            1 => (0, Some(usize::MAX)),
            2 => (left / 2, Some(left * 2 + 7)),
            _ => (left, Some(left + 1)),
        }
    }
}

fn mean_by(v: &[f32], shape: u64) -> f32 {
    match shape {
        0 => v.iter().cloned().mean(),
        1 => v.to_vec().into_iter().mean(),
        2 => v.iter().rev().rev().copied().mean(),
        3 => v[..v.len() / 2].iter().chain(&v[v.len() / 2..]).copied().mean(),
        4 => v.iter().copied().filter(|x| !x.is_nan()).mean(),
        5 => {
            let mut it = v.iter().copied().peekable();
            it.peek();
            it.mean()
        }
        k => Odd { v, i: 0, shape: k }.mean(),
    }
}

fn mean(s: &mut Src) -> R {
    let v: Vec<f32> = sample::<f32>(s, 1, 20_000);
    let shape = s.upto(9);
    s.desc(|| format!("mean of {} (iterator {shape})", show_sample(&v)));
    let e = exact(&v);
    let m = mean_by(&v, shape) as f64;
    let tol = if e.sums_exact { e.mean.abs() * 1e-6 + 1.5e-45 } else { e.mean_err };
    s.label(if e.sums_exact { "exact sums" } else { "rounded sums" });
    s.label(if v.len() > 64 { "more than 64 items" } else { "up to 64 items" });
    s.nontrivial_if(v.len() > 1 && v.iter().any(|x| *x != v[0]));
    let d = (m - e.mean).abs();
    s.ratio(d / tol);
    ensure!(d <= tol, "mean is {m:e} instead of {:e} (allowed {tol:e})", e.mean);
    let again = mean_by(&v, 0);
    ensure!(same(again, m as f32), "mean is {} through one iterator and {} through another", show(m as f32), show(again));
    Ok(())
}

fn moments<C: Num>(s: &mut Src, max: usize) -> R {
    let v: Vec<C> = sample::<C>(s, 2, max);
    s.desc(|| format!("{} sample {}", C::NAME, show_sample(&v)));
    check_moments(s, &v)
}

fn check_moments<C: Num>(s: &mut Src, v: &[C]) -> R {
    let e = exact(v);
    let var = v.variance();
    let sd = v.stddev();
    s.nontrivial_if(e.variance > 0.0);
    s.label(C::NAME);
    s.label(if v.len() > 64 { "more than 64 items" } else { "up to 64 items" });
    let d = (var as f64 - e.variance).abs();
    s.ratio(d / e.variance_err);
    ensure!(
        d <= e.variance_err,
        "variance is {} instead of {:e} (allowed {:e}, {} numbers)",
        show(var),
        e.variance,
        e.variance_err,
        e.n
    );
    if var == 0.0 {
        // sqrt(0) is 8e-20
        ensure!(sd >= 0.0 && sd < 1e-19, "variance is 0 and stddev {}", show(sd));
    } else if var >= f32::MIN_POSITIVE {
        let root = (var as f64).sqrt();
        let d = (sd as f64 - root).abs() / root;
        s.ratio(d / 0.062);
        ensure!(d <= 0.062, "variance is {} and stddev {}", show(var), show(sd));
    }
    let again = (v.to_vec().as_slice().variance(), v.stddev());
    ensure!(same(again.0, var) && same(again.1, sd), "another call gives another result: {again:?}");
    Ok(())
}

fn many(s: &mut Src) -> R {
    // a length beyond what a 16-bit counter or the precision of f32 can hold
    let n = match s.upto(3) {
        0 => 32_766 + s.upto(4),
        1 => 65_534 + s.upto(4),
        2 => 100_000 + s.upto(3_000_000),
        _ => (1 << 24) + s.upto(1 << 23),
    };
    let every = 1 + s.upto(if n > 1 << 24 { 2000 } else { 50 });
    let x = s.range(1, 4) as f32;
    s.desc(|| format!("mean of {n} items: {x} at every multiple of {every}, else 0"));
    s.nontrivial();
    let m = (0..n).map(|i| if i % every == 0 { x } else { 0.0 }).mean() as f64;
    let count = n.div_ceil(every) as f64;
    if count * x as f64 > 16777216.0 {
        return s.skip();
    }
    let want = count * x as f64 / n as f64;
    let d = (m - want).abs() / want;
    s.ratio(d / 1e-6);
    ensure!(d <= 1e-6, "mean is {m:e} instead of {want:e}");
    if n < 70_000 || n < 1 << 24 && s.one_in(4) {
        let v: Vec<u8> = (0..n).map(|i| if i % every == 0 { x as u8 } else { 0 }).collect();
        check_moments(s, &v)?;
        let v: Vec<f32> = v.iter().map(|&x| x as f32).collect();
        check_moments(s, &v)?;
    }
    Ok(())
}

/// A long sample of zeros, and pairs of opposite integers whose order of addition makes no difference.
fn sparse<C: Num>(s: &mut Src) -> (Vec<C>, Vec<i64>) {
    let n = match s.weighted(&[4, 4, 2, 1]) {
        0 => 32_766 + s.upto(4),
        1 => 65_534 + s.upto(4_000),
        2 => 100_000 + s.upto(1_000_000),
        _ => (1 << 24) + 1 + s.upto(1 << 23),
    } as usize;
    let mut v = vec![C::of(0); n];
    let mut sizes: Vec<i64> = (0..2 + s.upto(2)).map(|_| s.range(1, 100)).collect();
    sizes.sort();
    sizes.dedup();
    let pairs = 1 + s.idx(600);
    // places a prime apart do not meet
    let step = s.pick(&[1usize, 2, 13, 26]);
    let from = s.idx(n - 2 * pairs * step);
    for k in 0..pairs {
        let x = sizes[k % sizes.len()];
        v[from + 2 * k * step] = C::of(x);
        v[from + (2 * k + 1) * step] = C::of(-x);
    }
    sizes.truncate(pairs);
    s.nontrivial();
    s.desc(|| format!("{n} items of {}: {pairs} pairs of + and - {sizes:?}, {step} apart from {from}, else 0", C::NAME));
    (v, sizes)
}

fn sum_of_squares<C: Num>(v: &[C]) -> f64 {
    v.iter().map(|x| x.f() * x.f()).sum()
}

fn many_variance<C: Num>(s: &mut Src) -> R {
    let (v, _) = sparse::<C>(s);
    let want = sum_of_squares(&v) / (v.len() as f64 - 1.0);
    let got = v.as_slice().variance() as f64;
    let d = (got - want).abs() / want;
    s.ratio(d / 1e-6);
    ensure!(d <= 1e-6, "variance is {got:e} instead of {want:e}");
    let (got, want) = (v.as_slice().stddev() as f64, want.sqrt());
    ensure!((got - want).abs() <= 0.0621 * want, "stddev is {got:e} instead of {want:e}");
    Ok(())
}

fn many_trim<C: Num>(s: &mut Src) -> R
where
    f32: From<C>,
{
    let (v, sizes) = sparse::<C>(s);
    let slice = v.as_slice();
    let sd = slice.stddev() as f64;
    // a threshold that keeps some sizes, well between two of them
    let keep = s.idx(sizes.len() + 1);
    let below = if keep == 0 { 0.0 } else { sizes[keep - 1] as f64 };
    let above = sizes.get(keep).map_or(below * 1.5, |x| *x as f64);
    let at = if keep == 0 { above * 0.98 } else { below + (above - below) * [0.02, 0.5, 0.98][s.idx(3)] };
    let t = (at / sd) as f32;
    let want = v.iter().filter(|x| x.f().abs() < at);
    let mut n = 0;
    let mut got = slice.trim_at(t);
    for w in want {
        let g = got.next();
        ensure!(g.map(C::bits) == Some(w.bits()), "trim_at({t:?}) of {} items gives {g:?} at {n}, expected {w:?} (stddev {sd:e})", v.len());
        n += 1;
    }
    let g = got.next();
    ensure!(g.is_none(), "trim_at({t:?}) of {} items gives {g:?} after all {n} it should (stddev {sd:e})", v.len());
    Ok(())
}

fn huge(i: u32, sw: &mut Sw) -> R {
    // more items than any 32-bit counter can hold
    let n: u64 = [(1 << 31) + 12_345, (1u64 << 32) + 54_321][i as usize];
    sw.nontrivial += 1;
    let m = (0..n).map(|i| if i & 0xff_ffff == 0 { 1024.0 } else { 0.0 }).mean() as f64;
    let want = n.div_ceil(1 << 24) as f64 * 1024.0 / n as f64;
    let d = (m - want).abs() / want;
    sw.ratio(d / 1e-6);
    ensure!(d <= 1e-6, "mean of {n} items is {m:e} instead of {want:e}");
    Ok(())
}

/// A task of some seconds, which does not depend on the build.
pub const HUGE: &str = "more items than 32 bits count";

pub fn c32() -> Property {
    Property {
        id: "C32",
        rule: "samples of 1 to 20,000 numbers (constant, small integers, clusters around a base with outliers, any magnitude up to 5e14; sorted or not; slices of up to 25 million), iterators with truthful, vague and no size hints, and iterators of up to 2^32 + 54,321 items; non-trivial: at least two different numbers",
        tasks: vec![
            random("mean", 1_200_000, mean),
            random("variance and stddev of f32", 1_200_000, |s| moments::<f32>(s, 20_000)),
            random("variance and stddev of F32", 300_000, |s| moments::<F32>(s, 2_000)),
            random("variance and stddev of i8", 450_000, |s| moments::<i8>(s, 20_000)),
            random("variance and stddev of u8", 450_000, |s| moments::<u8>(s, 20_000)),
            random("variance and stddev of i16", 450_000, |s| moments::<i16>(s, 20_000)),
            random("variance and stddev of u16", 450_000, |s| moments::<u16>(s, 20_000)),
            random("many items", 320, many),
            random("variance of many items", 320, |s| match s.upto(2) {
                0 => many_variance::<i8>(s),
                1 => many_variance::<i16>(s),
                _ => many_variance::<f32>(s),
            }),
            sweep(HUGE, 2, 1, huge),
        ],
        assumptions: &["f64 sums (compensated for the mean) are exact enough to judge f32 ones"],
    }
}

// ------------------------------------------------------------------ C33

fn threshold(s: &mut Src, v: &[f64], mean: f64, sd: f64) -> f32 {
    match s.weighted(&[6, 4, 4, 2, 2]) {
        0 => s.upto(40) as f32 / 10.0,
        1 => s.pick(&[
            2.0,
            1.0,
            0.0,
            -1.0,
            -0.0,
            f32::INFINITY,
            f32::NEG_INFINITY,
            f32::NAN,
            f32::MIN_POSITIVE,
            1e-45,
            f32::MAX,
            3.0,
        ]),
        2 if sd > 0.0 => {
            // around the place of one of the elements
            let d = (v[s.idx(v.len())] - mean).abs() / sd;
            (d * [1.01, 0.99, 1.0001, 0.9999, 1.0][s.idx(5)]) as f32
        }
        3 => f32_any(s),
        _ => s.upto(1000) as f32 / 250.0,
    }
}

fn seq<C: Comp>(a: &[C], b: &[C]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits())
}

enum Consume {
    Next,
    Nth(usize),
    Take(usize),
    Hint,
    Rest,
    Fold,
    Last,
    Count,
}

/// Takes elements; true when the iterator has come to its end.
fn step<C: Num>(it: &mut trim::Iter<'_, C>, how: &Consume, out: &mut Vec<C>, counted: &mut usize) -> bool
where
    f32: From<C>,
{
    match how {
        Consume::Next => it.next().map(|x| out.push(x)).is_none(),
        Consume::Nth(k) => it.nth(*k).map(|x| out.push(x)).is_none(),
        Consume::Take(k) => {
            out.extend(it.by_ref().take(*k));
            out.len() < *k
        }
        Consume::Hint => false,
        Consume::Rest => {
            for x in it.by_ref() {
                out.push(x)
            }
            true
        }
        Consume::Fold => {
            it.by_ref().for_each(|x| out.push(x));
            true
        }
        Consume::Last => {
            it.by_ref().last().map(|x| out.push(x));
            true
        }
        Consume::Count => {
            *counted = it.by_ref().count();
            true
        }
    }
}

/// Samples whose mean, variance and stddev are exact in any order of evaluation, and a threshold that some
/// elements reach exactly: those are not below it.
fn on_the_boundary<C: Num>(s: &mut Src) -> R
where
    f32: From<C>,
{
    // deviations in units of stddev / 4: their squares add up to 16 (n - 1)
    let mut d: Vec<i64> = vec![];
    for _ in 0..1 + s.upto(4) {
        for &k in s.pick(&[&[4][..], &[4], &[8], &[12], &[2, 2], &[6, 2], &[6, 6]]) {
            d.extend([-k, k]);
        }
    }
    let over = |d: &[i64]| d.iter().map(|k| k * k).sum::<i64>() - 16 * (d.len() as i64 - 1);
    while over(&d) < 0 {
        d.extend([-8, 8]);
    }
    while over(&d) > 0 {
        d.push(0);
    }
    // any order
    for i in (1..d.len()).rev() {
        let j = s.idx(i + 1);
        d.swap(i, j);
    }
    let unit: i64 = if C::FLOAT { 1 << s.upto(6) } else { s.pick(&[1, 2]) };
    let middle = if C::FLOAT { s.range(-500, 500) * unit } else { s.range(26, 100) };
    let v: Vec<C> = d.iter().map(|k| C::of(middle + k * unit)).collect();
    let sd = (4 * unit) as f32;
    let slice: &[C] = &v;
    let t = s.pick(&[0.5, 1.0, 1.5, 2.0, 3.0]);
    s.desc(|| format!("{}, trim_at({t:?}) of {}", C::NAME, show_sample(&v)));
    let want: Vec<C> = v.iter().zip(&d).filter(|(_, k)| k.abs() < (t * 4.0) as i64).map(|(x, _)| *x).collect();
    let on = d.iter().filter(|k| k.abs() == (t * 4.0) as i64).count();
    s.nontrivial_if(on > 0);
    s.label(if on > 0 { "elements exactly on the boundary" } else { "no element on the boundary" });
    let got = slice.stddev();
    ensure!(got == sd, "the stddev of {} is {}, expected {sd}", show_sample(&v), show(got));
    let got: Vec<C> = (&slice).trim_at(t).collect();
    ensure!(seq(&got, &want), "trim_at({t:?}) of {} gives {}, expected {}", show_sample(&v), show_sample(&got), show_sample(&want));
    if t == 2.0 {
        let got: Vec<C> = (&slice).trim().collect();
        ensure!(seq(&got, &want), "trim() of {} gives {}, expected {}", show_sample(&v), show_sample(&got), show_sample(&want));
    }
    Ok(())
}

fn boundary(s: &mut Src) -> R {
    match s.upto(5) {
        0 => on_the_boundary::<i8>(s),
        1 => on_the_boundary::<u8>(s),
        2 => on_the_boundary::<i16>(s),
        3 => on_the_boundary::<u16>(s),
        4 => on_the_boundary::<F32>(s),
        _ => on_the_boundary::<f32>(s),
    }
}

fn trimming<C: Num>(s: &mut Src) -> R
where
    f32: From<C>,
{
    let mut v: Vec<C> = sample::<C>(s, 2, 3_000);
    if C::FLOAT && s.one_in(25) {
        // not a number, or infinite
        let i = s.idx(v.len());
        v[i] = C::odd(s);
    }
    let e = exact(&v);
    let slice: &[C] = &v;
    let sd = slice.stddev() as f64;
    let fs: Vec<f64> = v.iter().map(|x| x.f()).collect();
    let t = threshold(s, &fs, e.mean, sd);
    s.desc(|| format!("{}, trim_at({t:?}) of {}", C::NAME, show_sample(&v)));
    let before = v.clone();
    let whole: Vec<C> = (&slice).trim_at(t).collect::<Vec<C>>();

    // the reference
    let finite = fs.iter().all(|x| x.is_finite());
    let mut must = vec![]; // (index, forced)
    let td = t as f64;
    let sd_rel = 6.0 * U + if e.variance > 0.0 { e.variance_err / e.variance } else { 0.0 };
    for (i, &x) in fs.iter().enumerate() {
        if !finite || t.is_nan() {
            continue;
        }
        let d = (x - e.mean).abs();
        let lim = td * sd;
        let tol = e.mean_err + 6.0 * U * d + lim.abs() * sd_rel;
        let unsure = if lim.is_nan() {
            tol > 0.0
        } else if lim.is_infinite() {
            false
        } else {
            // a deviation of (nearly) nothing: rounding decides
            tol > 0.0 && ((d - lim).abs() <= tol || (e.mean_err > 0.0 && sd <= 4.0 * e.mean_err))
                // where the product of the threshold and the deviation is as good as nothing in f32
                || lim > 0.0 && lim < 1e-37 && d < 1e-37
        };
        if unsure {
            must.push((i, false));
        } else if sd > 0.0 && d < lim {
            must.push((i, true));
        }
    }
    let forced = must.iter().filter(|m| m.1).count();
    s.nontrivial_if(forced > 0 && must.len() < v.len());
    s.label(match (must.len() - forced, forced) {
        (1.., _) => "some elements at the boundary",
        (_, 0) => "nothing within the threshold",
        (_, k) if k == v.len() => "everything within the threshold",
        _ => "some within, some without",
    });
    // `whole` is `v` without those outside, the unsure ones being optional, in order
    let mut k = 0;
    for &(i, sure) in &must {
        if k < whole.len() && whole[k].bits() == v[i].bits() {
            k += 1;
        } else if sure {
            return Err(format!(
                "element {i}, {:?}, is missing: |{:?} - {:e}| is below {t:?} times {sd:e}; result {}",
                v[i],
                v[i],
                e.mean,
                show_sample(&whole)
            ));
        }
    }
    ensure!(
        k == whole.len(),
        "{:?} does not belong at position {k} of the result {} (mean {:e}, stddev {sd:e})",
        whole[k],
        show_sample(&whole),
        e.mean
    );

    // any pattern of consumption yields the same elements
    let mut it = trim::Iter::new(slice, t);
    let mut got: Vec<C> = vec![];
    let mut pos = 0;
    let mut log = String::new();
    let steps = s.upto(6);
    let mut done = false;
    for _ in 0..=steps {
        let how = match s.upto(8) {
            0 => Consume::Next,
            1 => Consume::Hint,
            2 => Consume::Take(s.upto(4) as usize),
            3 => Consume::Nth(s.upto(3) as usize),
            4 => Consume::Nth(if s.upto(3) == 0 { usize::MAX - s.upto(1) as usize } else { s.upto(9) as usize }),
            5 => Consume::Rest,
            6 => Consume::Last,
            7 => Consume::Count,
            _ => Consume::Fold,
        };
        got.clear();
        if let Consume::Hint = how {
            let (lo, hi) = it.size_hint();
            let left = whole.len() - pos.min(whole.len());
            ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size_hint ({lo}, {hi:?}) with {left} left");
        }
        let mut counted = 0;
        let end = step(&mut it, &how, &mut got, &mut counted);
        let left = whole.len() - pos.min(whole.len());
        if let Consume::Count = how {
            ensure!(counted == left, "count gives {counted} where {left} of {} were left", whole.len());
        }
        let (name, want): (&str, &[C]) = match how {
            Consume::Next => ("next", &whole[pos.min(whole.len())..(pos + 1).min(whole.len())]),
            Consume::Nth(k) => ("nth", &whole[pos.saturating_add(k).min(whole.len())..pos.saturating_add(k).saturating_add(1).min(whole.len())]),
            Consume::Take(k) => ("take", &whole[pos.min(whole.len())..(pos + k).min(whole.len())]),
            Consume::Hint => ("size_hint", &[]),
            Consume::Rest => ("for", &whole[pos.min(whole.len())..]),
            Consume::Fold => ("for_each", &whole[pos.min(whole.len())..]),
            Consume::Last => ("last", &whole[if left > 0 { whole.len() - 1 } else { whole.len() }..]),
            Consume::Count => ("count", &[]),
        };
        log.push_str(name);
        log.push(' ');
        ensure!(
            seq(&got, want),
            "after {log}the iterator gave {} where {} was due, of {}",
            show_sample(&got),
            show_sample(want),
            show_sample(&whole)
        );
        pos = pos.saturating_add(match how {
            Consume::Nth(k) => k.saturating_add(1),
            _ => want.len(),
        });
        done |= end;
        if done {
            pos = whole.len();
        }
    }
    it.by_ref().for_each(drop);
    for _ in 0..3 {
        ensure!(it.next().is_none(), "the iterator went on after its end");
    }
    // consumed as a whole (a reference to the iterator would not pass these calls on)
    let mut it = trim::Iter::new(slice, t);
    let begun = it.by_ref().take(s.upto(3) as usize).count();
    let rest = &whole[begun.min(whole.len())..];
    match s.upto(3) {
        0 => {
            let got: Vec<C> = it.last().into_iter().collect();
            let want = &rest[rest.len().saturating_sub(1)..];
            ensure!(seq(&got, want), "last after {begun} of {} is {}, expected {}", show_sample(&whole), show_sample(&got), show_sample(want));
        }
        1 => {
            let got = it.count();
            ensure!(got == rest.len(), "count after {begun} of {} is {got}, expected {}", show_sample(&whole), rest.len());
        }
        2 => {
            let mut got = vec![];
            it.for_each(|x| got.push(x));
            ensure!(seq(&got, rest), "for_each after {begun} of {} gives {}", show_sample(&whole), show_sample(&got));
        }
        _ => {
            let by = 1 + s.upto(2) as usize;
            let got: Vec<C> = it.step_by(by).collect();
            let want: Vec<C> = rest.iter().copied().step_by(by).collect();
            ensure!(seq(&got, &want), "step_by({by}) after {begun} of {} gives {}", show_sample(&whole), show_sample(&got));
        }
    }
    // the default threshold
    let def = (&slice).trim().collect::<Vec<C>>();
    let two = (&slice).trim_at(2.0).collect::<Vec<C>>();
    ensure!(seq(&def, &two), "trim() gives {} and trim_at(2.0) {}", show_sample(&def), show_sample(&two));
    ensure!(trim::DEFAULT_THRESHOLD == 2.0, "the default threshold is {:?}", trim::DEFAULT_THRESHOLD);
    let again = (&slice).trim_at(t).collect::<Vec<C>>();
    ensure!(seq(&again, &whole), "another call gives another result");
    ensure!(seq(&before, &v), "the slice has changed");
    Ok(())
}

pub fn c33() -> Property {
    Property {
        id: "C33",
        rule: "samples of 2 to 3,000 numbers, and of up to 25 million (some with a NaN or an infinity), thresholds from 0 to 4, special ones and ones next to an element's own distance, up to seven steps of consumption (next, nth, take, last, count, for, for_each, size_hint); non-trivial: some elements are surely within and some surely outside",
        tasks: vec![
            random("f32", 1_500_000, trimming::<f32>),
            random("F32", 300_000, trimming::<F32>),
            random("i8", 600_000, trimming::<i8>),
            random("u8", 600_000, trimming::<u8>),
            random("i16", 600_000, trimming::<i16>),
            random("u16", 600_000, trimming::<u16>),
            random("exactly on the boundary", 6_000_000, boundary),
            random("many items", 320, |s| match s.upto(2) {
                0 => many_trim::<i8>(s),
                1 => many_trim::<i16>(s),
                _ => many_trim::<f32>(s),
            }),
        ],
        assumptions: &["the stddev of the slice is the crate's own, which C32 checks"],
    }
}
