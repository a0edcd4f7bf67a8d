//! C34: the crate of ../digest, built with every subset of the features and in several profiles,
//! prints hashes of the results of every operation on generated operands; they must agree.

use crate::engine::{Ctx, Failure, Property, Report, Task, R};
use std::collections::BTreeMap;
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

const FEATURES: [&str; 5] = ["quaternion", "statistics", "vector", "num-traits", "defmt"];
const PROFILES: [&str; 4] = ["release", "dev", "checked", "small"];

fn verif() -> String {
    // the directory of the harness, wherever it is
    env!("CARGO_MANIFEST_DIR").strip_suffix("/harness").unwrap().to_string()
}
fn base() -> String {
    std::env::var("MMV_TARGET").unwrap_or_else(|_| format!("{}/target", verif()))
}

fn features(mask: u64) -> String {
    let v: Vec<_> = (0..5).filter(|i| mask >> i & 1 == 1).map(|i| FEATURES[i]).collect();
    v.join(",")
}
pub fn config_name(mask: u64, profile: u64) -> String {
    let f = features(mask);
    format!("[{}] in the {} profile", if f.is_empty() { "no features" } else { &f }, PROFILES[profile as usize])
}

pub enum Built {
    /// path of the program
    Bin(String),
    /// the crate, or the use of its API, does not compile
    Broken(String),
}

fn build(mask: u64, profile: u64, worker: usize) -> Built {
    let dir = format!("{}/cfg{worker}", base());
    let pr = PROFILES[profile as usize];
    let out = Command::new("cargo")
        .args(["build", "--offline", "--quiet", "--no-default-features"])
        .args(["--manifest-path", &format!("{}/digest/Cargo.toml", verif())])
        .args(["--profile", pr, "--features", &features(mask), "--target-dir", &dir])
        .args(["-j", "2"])
        .env_remove("RUSTFLAGS")
        .output()
        .expect("run cargo");
    if !out.status.success() {
        let e = String::from_utf8_lossy(&out.stderr).to_string();
        if e.contains("could not compile `micromath`") || e.contains("could not compile `digest`") {
            let lines: Vec<&str> = e.lines().filter(|l| l.starts_with("error") || l.trim_start().starts_with("-->")).take(6).collect();
            return Built::Broken(lines.join(" "));
        }
        eprintln!("{e}");
        std::process::exit(2);
    }
    let bins = format!("{}/cfg-bin", base());
    std::fs::create_dir_all(&bins).expect("create directory");
    let bin = format!("{bins}/digest-{mask}-{pr}");
    let from = format!("{dir}/{}/digest", if pr == "dev" { "debug" } else { pr });
    let _ = std::fs::remove_file(&bin);
    std::fs::copy(from, &bin).expect("copy program");
    Built::Bin(bin)
}

fn call(bin: &str, seed: u64, count: u64, op: Option<&str>) -> Result<String, String> {
    // a call that does not return is a difference too
    let mut c = Command::new("timeout");
    c.args(["150", bin]);
    c.args([seed.to_string(), count.to_string()]);
    c.args(op);
    let o = c.output().expect("run digest");
    if !o.status.success() {
        return Err(format!("the program ended with {}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    Ok(String::from_utf8_lossy(&o.stdout).to_string())
}

type Digest = BTreeMap<String, (u64, String)>;

fn parse(text: &str) -> Digest {
    text.lines()
        .filter_map(|l| {
            let mut p = l.split('\t');
            Some((p.next()?.to_string(), (p.next()?.parse().ok()?, p.next()?.to_string())))
        })
        .collect()
}

/// The first difference between two programs, in the operands with the shortest description.
fn difference(a: &str, b: &str, an: &str, bn: &str, seed: u64, count: u64) -> Result<Option<(String, u64)>, String> {
    let (da, db) = (parse(&call(a, seed, count, None)?), parse(&call(b, seed, count, None)?));
    for (op, x) in &da {
        let Some(y) = db.get(op) else { continue };
        if x == y {
            continue;
        }
        let (ta, tb) = (call(a, seed, count, Some(op))?, call(b, seed, count, Some(op))?);
        let best = ta.lines().zip(tb.lines()).filter(|(x, y)| x != y).min_by_key(|(x, _)| x.len());
        if let Some((x, y)) = best {
            let f: Vec<&str> = x.split('\t').collect();
            let g: Vec<&str> = y.split('\t').collect();
            let n = f[0].parse::<u64>().unwrap_or(0) + 1;
            return Ok(Some((format!("{op} of {}: {} {} with {an}, {} {} with {bn}", f[3], f[1], f[2], g[1], g[2]), n)));
        }
        return Err(format!("{op}: two runs of the same program differ"));
    }
    Ok(None)
}

const ALL: u64 = 31;

fn jobs(thorough: bool) -> Vec<(u64, u64)> {
    let mut v = vec![];
    for mask in (0..32).rev() {
        for profile in 0..4 {
            if profile == 0 || thorough || mask == ALL || mask == 0 || mask == 15 {
                v.push((mask, profile));
            }
        }
    }
    v
}

fn run(ctx: &Ctx) -> Report {
    let t0 = std::time::Instant::now();
    let count = if ctx.thorough { 60_000 } else { (20_000.0 * ctx.scale) as u64 };
    let all = jobs(ctx.thorough);
    // one half of the workers has the jobs with defmt (and its dependencies to build)
    let queues: [Vec<(u64, u64)>; 2] = [
        all.iter().copied().filter(|j| j.0 & 16 != 0).collect(),
        all.iter().copied().filter(|j| j.0 & 16 == 0).collect(),
    ];
    let next = [AtomicUsize::new(0), AtomicUsize::new(0)];
    let done: Mutex<BTreeMap<(u64, u64), (Built, Result<Digest, String>)>> = Mutex::new(BTreeMap::new());
    let workers = ctx.threads.clamp(2, 8);
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (queues, next, done) = (&queues, &next, &done);
            sc.spawn(move || {
                for q in [w % 2, 1 - w % 2] {
                    // helping out with the other half is worth it only in long runs
                    if q != w % 2 && !ctx.thorough {
                        continue;
                    }
                    while let Some(&(mask, profile)) = queues[q].get(next[q].fetch_add(1, Relaxed)) {
                        let b = build(mask, profile, w);
                        let d = match &b {
                            Built::Bin(p) => call(p, ctx.seed, count, None).map(|t| parse(&t)),
                            Built::Broken(_) => Ok(Digest::new()),
                        };
                        done.lock().unwrap().insert((mask, profile), (b, d));
                    }
                }
            });
        }
    });
    let done = done.into_inner().unwrap();
    let mut rep = Report {
        name: "configurations".into(),
        kind: "generated",
        ..Default::default()
    };
    let fail = |data: Vec<u64>, message: String| {
        Some(Failure {
            task: "configurations".into(),
            kind: "config",
            case: config_name(data[0], data[1]),
            data,
            message,
            shrinks: 0,
        })
    };
    for (&(mask, profile), (b, d)) in &done {
        if let Built::Broken(e) = b {
            rep.failure = fail(vec![mask, profile, ctx.seed, 0], format!("does not compile: {e}"));
            break;
        }
        if let Err(e) = d {
            rep.failure = fail(vec![mask, profile, ctx.seed, count], e.clone());
            break;
        }
    }
    if rep.failure.is_none() {
        let reference = done[&(ALL, 0)].1.as_ref().unwrap();
        for (&(mask, profile), (b, d)) in &done {
            let d = d.as_ref().unwrap();
            rep.evaluations += d.len() as u64 * count;
            rep.nontrivial += d.values().map(|x| x.0).sum::<u64>();
            *rep.classes.entry(format!("{} operations", d.len())).or_default() += 1;
            *rep.classes.entry(format!("profile {}", PROFILES[profile as usize])).or_default() += 1;
            let same = d.iter().all(|(k, v)| reference.get(k) == Some(v));
            if !same && rep.failure.is_none() {
                let (Built::Bin(x), Built::Bin(y)) = (b, &done[&(ALL, 0)].0) else { unreachable!() };
                let (m, n) = match difference(x, y, &config_name(mask, profile), &config_name(ALL, 0), ctx.seed, count) {
                    Ok(Some(x)) => x,
                    Ok(None) => ("the hashes differed once and not again".into(), count),
                    Err(e) => (e, count),
                };
                rep.failure = fail(vec![mask, profile, ctx.seed, n], m);
            }
        }
        rep.distinct = rep.nontrivial;
        let Built::Bin(x) = &done[&(ALL, 0)].0 else { unreachable!() };
        for op in ["powf", "quaternion rotate", "trim_at"] {
            if let Ok(t) = call(x, ctx.seed, 40, Some(op)) {
                if let Some(l) = t.lines().last() {
                    rep.samples.push(format!("{op} on operand {l}"));
                }
            }
        }
        rep.samples.push(format!("{} configurations, such as {}", done.len(), config_name(5, 0)));
    }
    rep.exhaustive = false;
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

fn replay(_: &str, d: &[u64]) -> (R, String) {
    let g = |i: usize| d.get(i).copied().unwrap_or(0);
    let (mask, profile, seed, count) = (g(0) & 31, g(1) & 3, g(2), g(3));
    let name = config_name(mask, profile);
    let r = match build(mask, profile, 0) {
        Built::Broken(e) => Err(format!("does not compile: {e}")),
        Built::Bin(x) => match build(ALL, 0, 0) {
            Built::Broken(e) => Err(format!("does not compile: {e}")),
            Built::Bin(y) => match difference(&x, &y, &name, &config_name(ALL, 0), seed, count) {
                Ok(None) => Ok(()),
                Ok(Some(x)) => Err(x.0),
                Err(e) => Err(e),
            },
        },
    };
    (r, name)
}

/// A program part without the standard library and without an allocator, with a subset of the features.
fn bare(mask: u64) -> R {
    let o = Command::new("cargo")
        .args(["build", "--offline", "--quiet", "--release"])
        .args(["--manifest-path", &format!("{}/bare/Cargo.toml", verif())])
        .args(["--features", &features(mask), "--target-dir", &format!("{}/bare", base())])
        .env_remove("RUSTFLAGS")
        .output()
        .expect("run cargo");
    if o.status.success() {
        return Ok(());
    }
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    let lines: Vec<&str> = e.lines().filter(|l| l.starts_with("error") || l.trim_start().starts_with("-->")).take(6).collect();
    if e.contains("could not compile") {
        return Err(format!("does not build without the standard library and an allocator: {}", lines.join(" ")));
    }
    eprintln!("{e}");
    std::process::exit(2);
}

fn run_bare(ctx: &Ctx) -> Report {
    let t0 = std::time::Instant::now();
    let mut rep = Report {
        name: "bare".into(),
        kind: "generated",
        ..Default::default()
    };
    for mask in (0..16).rev() {
        // each feature alone, none and all
        if !ctx.thorough && !matches!(mask, 0 | 1 | 2 | 4 | 8 | 15) {
            continue;
        }
        rep.evaluations += 1;
        rep.nontrivial += 1;
        rep.distinct += 1;
        let name = format!("[{}] without std and alloc", features(mask));
        rep.samples.push(name.clone());
        if let Err(message) = bare(mask) {
            rep.failure = Some(Failure {
                task: "bare".into(),
                kind: "config",
                case: name,
                data: vec![mask],
                message,
                shrinks: 0,
            });
            break;
        }
    }
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

pub fn c34() -> Property {
    Property {
        id: "C34",
        rule: "All 32 subsets of the features in the release profile, and the full, empty and no-defmt subsets also in the dev (no optimisation, overflow checks), checked (optimised, overflow checks) and small (opt-level z, lto) profiles (thorough: every subset in every profile). In each, every operation available is evaluated on the same generated operands; a case is one operation on one operand in one configuration, non-trivial when it gave something other than NaN. A static library without std and without an allocator is built with six subsets (thorough: 16).",
        tasks: vec![
            Task {
                name: "configurations".into(),
                run: Box::new(run),
                replay: Box::new(replay),
            },
            Task {
                name: "bare".into(),
                run: Box::new(run_bare),
                replay: Box::new(|_, d| {
                    let mask = d.first().copied().unwrap_or(0) & 15;
                    (bare(mask), features(mask))
                }),
            },
        ],
        assumptions: &["one compiler version and one target"],
    }
}
