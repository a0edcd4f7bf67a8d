//! C20: programs over a pool of values.

use crate::engine::{guard, random, sweep, Property, Src, Sw, R};
use crate::ensure;
use crate::gen::*;
use crate::ops::{self, In, Op, Out};
use std::sync::OnceLock;

fn table() -> &'static [Op] {
    static T: OnceLock<Vec<Op>> = OnceLock::new();
    T.get_or_init(ops::table)
}

#[derive(Clone)]
struct Step {
    op: usize,
    /// pool indices of a, b, c; starts of v, w, p, q, s
    at: [usize; 8],
    n: i32,
    k: usize,
    len: usize,
}

fn input(pool: &[f32], st: &Step) -> In {
    let m = pool.len();
    let get = |j: usize| pool[j % m];
    let run = |st: usize, k: usize| get(st + k);
    In {
        a: get(st.at[0]),
        b: get(st.at[1]),
        c: get(st.at[2]),
        n: st.n,
        k: st.k,
        v: std::array::from_fn(|k| run(st.at[3], k)),
        w: std::array::from_fn(|k| run(st.at[4], k)),
        p: std::array::from_fn(|k| run(st.at[5], k)),
        q: std::array::from_fn(|k| run(st.at[6], k)),
        s: (0..st.len).map(|k| run(st.at[7], k)).collect(),
    }
}

/// What a step gave: its results, or its documented panic.
type Log = Vec<(Out, bool)>;

fn run(first: &[f32], prog: &[Step]) -> Result<(Log, usize), String> {
    let mut pool = first.to_vec();
    let mut log = vec![];
    let mut fed = 0;
    for (j, st) in prog.iter().enumerate() {
        let (name, f) = table()[st.op];
        let i = input(&pool, st);
        let mut out = Out::default();
        let r = guard(|| f(&i, &mut out));
        match r {
            Ok(()) => {
                ensure!(!out.documented, "step {j}, {name}: no panic where one is documented; {i:?}");
                fed += st.at[..3].iter().any(|&k| k % pool.len() >= first.len()) as usize;
                // results become operands
                for &b in out.f.iter().take(8) {
                    if pool.len() < 400 {
                        pool.push(f32::from_bits(b));
                    } else {
                        pool[st.at[0] % 400] = f32::from_bits(b);
                    }
                }
                log.push((out, false));
            }
            Err(p) => {
                ensure!(out.documented, "step {j}, {name}: panic: {p}; {i:?}");
                log.push((out, true));
            }
        }
    }
    Ok((log, fed))
}

fn program(s: &mut Src) -> R {
    let first: Vec<f32> = (0..1 + s.upto(9)).map(|_| if s.one_in(30) { nan(s) } else { f32_any(s) }).collect();
    let n = 1 + s.upto(39) as usize;
    let ops = table();
    // a program stays with a few operations half of the time
    let few: Vec<usize> = (0..4).map(|_| s.idx(ops.len())).collect();
    let narrow = s.flip();
    let mut pool = first.len();
    let mut prog = vec![];
    for _ in 0..n {
        let op = if narrow { few[s.idx(4)] } else { s.idx(ops.len()) };
        // recent values are more likely
        let mut at = [0; 8];
        for a in &mut at {
            *a = if s.flip() { pool.saturating_sub(1 + s.idx(8)) } else { s.idx(pool) };
        }
        let k = if s.one_in(6) { s.upto(u64::MAX) as usize } else { s.idx(4) };
        let len = if s.one_in(5) { s.idx(40) } else { s.idx(5) };
        prog.push(Step { op, at, n: i32_any(s), k, len });
        pool += 4;
    }
    s.desc(|| {
        let names: Vec<_> = prog.iter().map(|p| ops[p.op].0).collect();
        format!("{first:?}: {}", names.join(", "))
    });
    let (one, fed) = run(&first, &prog)?;
    s.nontrivial_if(fed >= 2);
    s.label(if one.iter().any(|x| x.1) { "with a documented panic" } else { "without a panic" });
    let (two, _) = run(&first, &prog)?;
    for (j, (a, b)) in one.iter().zip(&two).enumerate() {
        ensure!(a == b, "step {j}, {}: {a:?} the first time, {b:?} the second", ops[prog[j].op].0);
    }
    // and each step alone, in reverse order, from the recorded operands
    if s.one_in(4) {
        let mut pool = first.clone();
        let mut ins = vec![];
        for (st, (o, _)) in prog.iter().zip(&one) {
            ins.push(input(&pool, st));
            for &b in o.f.iter().take(8) {
                if pool.len() < 400 {
                    pool.push(f32::from_bits(b));
                } else {
                    pool[st.at[0] % 400] = f32::from_bits(b);
                }
            }
        }
        for j in (0..prog.len()).rev() {
            let mut out = Out::default();
            let p = guard(|| (ops[prog[j].op].1)(&ins[j], &mut out)).is_err();
            ensure!((&out, p) == (&one[j].0, one[j].1), "{}: {out:?} on its own, {:?} in the program", ops[prog[j].op].0, one[j].0);
        }
    }
    Ok(())
}

/// One operation on arbitrary operands.
fn single(s: &mut Src) -> R {
    let ops = table();
    let op = s.idx(ops.len());
    let a = f32_any(s);
    let val = |s: &mut Src| if s.flip() { f32_any(s) } else { f32_related(s, a) };
    let i = In {
        a,
        b: val(s),
        c: val(s),
        n: i32_any(s),
        k: if s.one_in(6) { s.upto(u64::MAX) as usize } else { s.idx(4) },
        v: std::array::from_fn(|_| val(s)),
        w: std::array::from_fn(|_| val(s)),
        p: std::array::from_fn(|_| val(s)),
        q: std::array::from_fn(|_| val(s)),
        s: (0..s.upto(6)).map(|_| val(s)).collect(),
    };
    s.desc(|| format!("{} of {i:?}", ops[op].0));
    let mut out = Out::default();
    let r = guard(|| (ops[op].1)(&i, &mut out));
    s.nontrivial_if(r.is_ok());
    match r {
        Ok(()) => ensure!(!out.documented, "{}: no panic where one is documented", ops[op].0),
        Err(p) => ensure!(out.documented, "{}: panic: {p}", ops[op].0),
    }
    Ok(())
}

fn arbitrary(s: &mut Src) -> In {
    let val = f32_any;
    In {
        a: val(s),
        b: val(s),
        c: val(s),
        n: i32_any(s),
        k: s.idx(4),
        v: std::array::from_fn(|_| val(s)),
        w: std::array::from_fn(|_| val(s)),
        p: std::array::from_fn(|_| val(s)),
        q: std::array::from_fn(|_| val(s)),
        s: (0..s.upto(6)).map(|_| val(s)).collect(),
    }
}

/// What a careless cache would take for the same operands.
fn alike(s: &mut Src, i: &In) -> In {
    let mut j = i.clone();
    let how = s.upto(9);
    let bit = s.upto(22) as u32;
    let r = s.upto(u32::MAX as u64) as u32;
    let all = s.flip();
    let change = |s: &mut Src, x: &mut f32| {
        if !(all || s.flip()) {
            return;
        }
        let b = x.to_bits();
        *x = f32::from_bits(match how {
            0 => b ^ 0x8000_0000,
            1 => b ^ 1,
            2 => b ^ 1 << bit,
            // the same significand, exponent, upper or lower half
            3 => b & 0x807f_ffff | r & 0x7f80_0000,
            4 => b & 0xff80_0000 | r & 0x007f_ffff,
            5 => b & 0xffff_0000 | r & 0xffff,
            6 => b & 0xffff | r & 0xffff_0000,
            7 => b.wrapping_add(1 << bit),
            8 => (*x * 2.0).to_bits(),
            _ => b ^ 0x0080_0000,
        });
    };
    for x in [&mut j.a, &mut j.b, &mut j.c] {
        change(s, x);
    }
    for x in j.v.iter_mut().chain(&mut j.w).chain(&mut j.p).chain(&mut j.q).chain(&mut j.s) {
        change(s, x);
    }
    match s.upto(5) {
        0 => std::mem::swap(&mut j.a, &mut j.b),
        1 => {
            std::mem::swap(&mut j.v, &mut j.w);
            std::mem::swap(&mut j.p, &mut j.q);
        }
        2 => {
            j.v.reverse();
            j.w.reverse();
            j.p.reverse();
            j.q.reverse();
            j.s.reverse();
        }
        3 => j.n = if s.flip() { j.n.wrapping_neg() } else { j.n ^ 1 },
        _ => {}
    }
    j
}

/// The same call after other calls, of the same and of other operations.
fn history(s: &mut Src) -> R {
    let ops = table();
    let op = s.idx(ops.len());
    let i = if s.flip() { arbitrary(s) } else { alike(s, &IN_ONE) };
    let near: Vec<In> = (0..1 + s.upto(2)).map(|_| alike(s, &i)).collect();
    let far: Vec<In> = (0..2).map(|_| arbitrary(s)).collect();
    let other = s.idx(ops.len());
    let times = if s.one_in(200) { 300 } else { 1 };
    s.desc(|| format!("{} of {i:?} after {} other calls alike, {near:?}", ops[op].0, near.len()));
    let call = |op: usize, i: &In| {
        let mut out = Out::default();
        let r = guard(|| (ops[op].1)(i, &mut out)).is_err();
        (out, r)
    };
    for j in &far {
        call(op, j);
    }
    let due = call(op, &i);
    s.nontrivial_if(!due.1);
    for j in &near {
        call(op, j);
        let got = call(op, &i);
        ensure!(got == due, "{} gives {got:?} after a call with {j:?}, and {due:?} otherwise", ops[op].0);
    }
    call(other, &near[0]);
    let got = call(op, &i);
    ensure!(got == due, "{} gives {got:?} after {} of {:?}, and {due:?} otherwise", ops[op].0, ops[other].0, near[0]);
    for k in 0..times {
        let got = call(op, &i);
        ensure!(got == due, "{} gives {got:?} in call {k}, and {due:?} before", ops[op].0);
    }
    Ok(())
}

/// The same call in four threads at once, between calls alike.
fn threads(s: &mut Src) -> R {
    let ops = table();
    let op = s.idx(ops.len());
    let i = if s.flip() { arbitrary(s) } else { alike(s, &IN_ONE) };
    let ins = [alike(s, &i), arbitrary(s), i];
    let calls = 500 + s.upto(1000);
    s.desc(|| format!("{} in four threads, {calls} calls each, of {ins:?}", ops[op].0));
    let call = |i: &In| {
        let mut out = Out::default();
        let r = guard(|| (ops[op].1)(i, &mut out)).is_err();
        (out, r)
    };
    let due: Vec<_> = ins.iter().map(call).collect();
    s.nontrivial_if(due.iter().any(|d| !d.1));
    // a panic costs a thousand times as much as a call
    let calls = if due.iter().any(|d| d.1) { calls / 50 } else { calls };
    let go = std::sync::Barrier::new(4);
    let bad = std::thread::scope(|scope| {
        let (go, due, ins, call) = (&go, &due, &ins, &call);
        let all: Vec<_> = (0..4)
            .map(|t| {
                scope.spawn(move || {
                    go.wait();
                    let mut x = 0x9e37_79b9u32.wrapping_mul(t + 1);
                    for _ in 0..calls {
                        x ^= x << 13;
                        x ^= x >> 17;
                        x ^= x << 5;
                        let k = x as usize % 3;
                        let got = call(&ins[k]);
                        if got != due[k] {
                            return Some(format!("{:?} gives {got:?} while other threads make calls alike, and {:?} otherwise", ins[k], due[k]));
                        }
                    }
                    None
                })
            })
            .collect();
        all.into_iter().filter_map(|t| t.join().unwrap_or_else(|_| Some("a thread died".into()))).next()
    });
    match bad {
        Some(b) => Err(b),
        None => Ok(()),
    }
}

const IN_ONE: In = In { a: 1.0, b: 2.0, c: -0.5, n: 3, k: 1, v: [1.0, 2.0, 3.0], w: [-2.0, 0.5, 4.0], p: [0.5, 0.5, -0.5, 0.5], q: [1.0, -2.0, 3.0, 4.0], s: vec![] };

/// Every bit pattern through every function of one float.
fn sweep1(b: u32, sw: &mut Sw) -> R {
    use crate::floats::x;
    let v = f32::from_bits(b);
    sw.nontrivial += 1;
    let mut acc = 0u32;
    macro_rules! call { ($($n:ident)*) => { $( acc ^= x::$n(v).to_bits(); )* } }
    call!(abs acos asin atan atan_norm ceil cos cosh exp floor fract inv invsqrt ln log2 log10 recip round signum sin sqrt tan trunc);
    for n in [2, 3, -1, i32::MIN, i32::MAX, 127, -128] {
        acc ^= x::powi(v, n).to_bits();
    }
    for w in [1.0f32, -2.5, 3.0, 1e-40, f32::INFINITY, v] {
        macro_rules! call { ($($n:ident)*) => { $( acc ^= x::$n(v, w).to_bits() ^ x::$n(w, v).to_bits(); )* } }
        call!(atan2 atan2_norm copysign div_euclid hypot log powf rem_euclid);
    }
    std::hint::black_box(acc);
    Ok(())
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        rule: "Programs of 1 to 40 operations (the whole public API on floats, vectors, quaternions and samples) over a pool of up to ten generated floats; results join the pool. Each is run twice, and one in four also step by step in reverse. Non-trivial: at least two steps consumed earlier results. Single calls on arbitrary operands (non-trivial: it returned); the same call after calls of the same operation with operands that agree in sign, exponent, significand, most bits or order, after another operation, and up to 300 times over (non-trivial: it returned); the same three calls in random order in four threads at once (non-trivial: one returned), and bit patterns on a stride through every function of one float, powi with seven exponents and functions of two floats with six partners (all non-trivial: a panic is the failure). Overflow checks and debug assertions are on.",
        tasks: vec![
            random("programs", 3_000_000, program),
            random("single calls", 12_000_000, single),
            random("history", 4_000_000, history),
            random("threads", 8_000, threads),
            sweep("functions of one float", crate::floats::ALL, 61, sweep1),
        ],
        assumptions: &["the release profile with overflow-checks and debug-assertions panics where a debug build does (C34 also compares with an unoptimised build)"],
    }
}
