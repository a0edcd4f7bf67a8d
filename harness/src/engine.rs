//! Generation, shrinking, sweeping, evidence. Knows nothing about the crate under test.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

pub type R = Result<(), String>;

// ---------------------------------------------------------------- random numbers

#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(key: u64) -> Self {
        let mut s = key;
        Rng([
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ])
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}

fn hash_choices(salt: u64, c: &[u64]) -> u64 {
    let mut h = salt ^ 0x51_7c_c1_b7_27_22_0a_95;
    for &x in c {
        h = (h.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    h ^ (h >> 29)
}

// ---------------------------------------------------------------- the source of choices

enum Mode<'a> {
    Gen(&'a mut Rng),
    Replay(&'a [u64]),
}

/// Where a case draws its choices from, and what it reports about itself.
pub struct Src<'a> {
    mode: Mode<'a>,
    pub rec: Vec<u64>,
    pos: usize,
    labels: Option<&'a mut Vec<(&'static str, u64)>>,
    want_desc: bool,
    desc: String,
    nontrivial: bool,
    skipped: bool,
    ratio: f64,
}

impl<'a> Src<'a> {
    fn new(mode: Mode<'a>, rec: Vec<u64>) -> Self {
        Src {
            mode,
            rec,
            pos: 0,
            labels: None,
            want_desc: false,
            desc: String::new(),
            nontrivial: false,
            skipped: false,
            ratio: 0.0,
        }
    }

    /// A choice in `0..=max`.
    #[inline]
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Gen(rng) => {
                if max == u64::MAX {
                    rng.next()
                } else {
                    // multiply-shift; the bias is of no consequence here
                    ((rng.next() as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                v.min(max)
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if self.want_desc {
            trace(|t| t.0.push(v));
        }
        v
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        self.upto(n - 1)
    }
    #[inline]
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    #[inline]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.upto((hi - lo) as u64) as i64
    }
    /// True once in `n`; shrinks to false.
    #[inline]
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == n - 1
    }
    #[inline]
    pub fn flip(&mut self) -> bool {
        self.upto(1) == 1
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut v = self.below(w.iter().sum());
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.idx(s.len())]
    }

    /// Count the case in a class.
    #[inline]
    pub fn label(&mut self, l: &'static str) {
        if let Some(ls) = &mut self.labels {
            for e in ls.iter_mut() {
                if std::ptr::eq(e.0, l) || e.0 == l {
                    e.1 += 1;
                    return;
                }
            }
            ls.push((l, 1));
        }
    }
    /// The case reaches what the property is about.
    #[inline]
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    #[inline]
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// The case is outside of the property's domain: not counted as non-trivial.
    pub fn skip(&mut self) -> R {
        self.skipped = true;
        Ok(())
    }
    /// Describe the case (only evaluated for samples and failures).
    #[inline]
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&s);
            trace(|t| t.1 = self.desc.clone());
        }
    }
    /// Observed error as a fraction of the bound.
    #[inline]
    pub fn ratio(&mut self, r: f64) {
        if r > self.ratio {
            self.ratio = r;
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
        } else {
            default(info);
        }
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------- calls that do not return

/// What one worker is doing, for the watchdog.
struct Slot {
    /// milliseconds since the start of the program, plus one; 0 when idle
    since: AtomicU64,
    task: AtomicUsize,
    /// 0: a generated case, 1: a block of a sweep, 2: shrinking
    kind: AtomicUsize,
    /// the state of the generator before the case, or the first index, the stride and the current index
    data: [AtomicU64; 4],
}

#[allow(clippy::declare_interior_mutable_const)]
const IDLE: Slot = Slot {
    since: AtomicU64::new(0),
    task: AtomicUsize::new(0),
    kind: AtomicUsize::new(0),
    data: [const { AtomicU64::new(0) }; 4],
};
static SLOTS: [Slot; 256] = [IDLE; 256];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(1);
static TASK: AtomicUsize = AtomicUsize::new(0);
static PENDING: Mutex<Option<(Vec<u64>, String)>> = Mutex::new(None);
/// A case takes microseconds; the longest, a second or two.
const LIMIT_S: u64 = 60;
const SWEEP_STEP: u64 = 4096;

thread_local! {
    static SLOT: &'static Slot = &SLOTS[NEXT_SLOT.fetch_add(1, Relaxed) % SLOTS.len()];
}

#[inline]
fn busy(slot: &Slot, kind: usize, data: [u64; 4]) {
    for (a, d) in slot.data.iter().zip(data) {
        a.store(d, Relaxed);
    }
    slot.kind.store(kind, Relaxed);
    slot.task.store(TASK.load(Relaxed), Relaxed);
    slot.since.store(CLOCK.load(Relaxed), Relaxed);
}
#[inline]
fn idle(slot: &Slot) {
    slot.since.store(0, Relaxed);
}

/// Choices and description of a case that may not return, when asked for.
static TRACING: AtomicBool = AtomicBool::new(false);
static TRACE: Mutex<(Vec<u64>, String)> = Mutex::new((vec![], String::new()));

fn trace(f: impl FnOnce(&mut (Vec<u64>, String))) {
    if TRACING.load(Relaxed) {
        f(&mut TRACE.lock().unwrap());
    }
}

/// Replays a case in another process, which may die or be stopped.
/// Gives the choices and the description when the case fails.
fn elsewhere(id: &str, task: &str, kind: &'static str, data: &[u64], verif: &str, limit_s: u64) -> Option<(Vec<u64>, String)> {
    let dir = format!("{verif}/evidence/replay");
    std::fs::create_dir_all(&dir).ok()?;
    let path = format!("{dir}/{id}-trial-{}.json", std::process::id());
    let f = Failure { task: task.into(), kind, data: data.to_vec(), message: String::new(), case: String::new(), shrinks: 0 };
    std::fs::write(&path, replay_json(id, &f, 0)).ok()?;
    let out = std::process::Command::new(std::env::current_exe().ok()?)
        .args(["replay", &path])
        .env("MMV_TRIAL_S", limit_s.to_string())
        .output();
    let _ = std::fs::remove_file(&path);
    let out = out.ok()?;
    if out.status.code() != Some(1) {
        return None;
    }
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    let line = |p: &str| text.lines().find_map(|l| l.strip_prefix(p)).map(str::to_string);
    let choices = line("choices: ")?.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    Some((choices, line("case: ").unwrap_or_default()))
}

/// The slot of a thread that ran out of stack, as an address; 0 while none has.
static CRASHED: AtomicUsize = AtomicUsize::new(0);
const OVERFLOW: &str = "a call overflowed the stack";

/// A stack overflow would end the program without an answer: park the thread instead, and leave the rest to the watchdog.
extern "C" fn crashed(_: i32) {
    let slot = SLOT.try_with(|s| *s as *const Slot as usize).unwrap_or(1);
    let _ = CRASHED.compare_exchange(0, slot, Relaxed, Relaxed);
    loop {
        unsafe { pause() };
    }
}

extern "C" {
    fn pause() -> i32;
    fn sigaction(signal: i32, new: *const SigAction, old: *mut SigAction) -> i32;
}

/// As in the C library on x86-64 and AArch64.
#[repr(C)]
struct SigAction {
    handler: extern "C" fn(i32),
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

fn catch_overflows() {
    const SA_ONSTACK: i32 = 0x0800_0000;
    let a = SigAction { handler: crashed, mask: [0; 16], flags: SA_ONSTACK, restorer: 0 };
    // SIGABRT, SIGBUS, SIGSEGV
    for signal in [6, 7, 11] {
        unsafe { sigaction(signal, &a, std::ptr::null_mut()) };
    }
}

/// True when `f` does not return in time.
fn hangs(f: impl FnOnce() + Send + 'static, limit: std::time::Duration) -> bool {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        f();
        let _ = tx.send(());
    });
    matches!(rx.recv_timeout(limit), Err(std::sync::mpsc::RecvTimeoutError::Timeout))
}

fn watchdog(p: &'static Property, verif: String, seed: u64, thorough: bool) {
    let t0 = std::time::Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        let now = t0.elapsed().as_millis() as u64 + 1;
        CLOCK.store(now, Relaxed);
        let crashed = CRASHED.load(Relaxed);
        // a thread started by a case has no slot of its own: take any that is busy
        let known = crashed != 0 && SLOTS.iter().any(|s| s as *const Slot as usize == crashed && s.since.load(Relaxed) != 0);
        for slot in &SLOTS {
            let since = slot.since.load(Relaxed);
            if since == 0 {
                continue;
            }
            if crashed != 0 {
                if known && slot as *const Slot as usize != crashed {
                    continue;
                }
            } else if now.saturating_sub(since) < LIMIT_S * 1000 * if p.tasks[slot.task.load(Relaxed)].name == crate::stats::HUGE { 5 } else { 1 } {
                continue;
            }
            let task = &p.tasks[slot.task.load(Relaxed)];
            let d: Vec<u64> = slot.data.iter().map(|a| a.load(Relaxed)).collect();
            let message = if crashed != 0 { OVERFLOW.into() } else { format!("a call did not return within {LIMIT_S} s") };
            let f = match slot.kind.load(Relaxed) {
                0 => {
                    let mut f = Failure {
                        task: task.name.clone(),
                        kind: "generator",
                        data: d,
                        message,
                        case: "the case this generator state makes".into(),
                        shrinks: 0,
                    };
                    // name the choices and shrink them, in processes of their own
                    let (limit, tries) = if crashed != 0 { (20, 2000) } else { (3, 25) };
                    let until = std::time::Instant::now() + std::time::Duration::from_secs(45);
                    if let Some((choices, case)) = elsewhere(p.id, &f.task, f.kind, &f.data, &verif, 20) {
                        let run = |c: &[u64]| {
                            if std::time::Instant::now() > until {
                                return None;
                            }
                            elsewhere(p.id, &task.name, "choices", c, &verif, limit).map(|x| x.0)
                        };
                        let (best, steps) = shrink_by(choices, tries, run);
                        f.case = elsewhere(p.id, &f.task, "choices", &best, &verif, 20).map_or(case, |x| x.1);
                        (f.kind, f.data, f.shrinks) = ("choices", best, steps);
                    }
                    f
                }
                1 => {
                    let i = d[2];
                    if crashed == 0 && !hangs(move || drop((task.replay)("index", &[i])), std::time::Duration::from_secs(5)) {
                        eprintln!("a block of {} took too long, but no single index does", task.name);
                        std::process::exit(2);
                    }
                    Failure {
                        task: task.name.clone(),
                        kind: "index",
                        data: vec![i],
                        message,
                        case: describe_bits(i as u32),
                        shrinks: 0,
                    }
                }
                _ => {
                    let (data, message) = PENDING.lock().unwrap().clone().unwrap_or_default();
                    Failure {
                        task: task.name.clone(),
                        kind: "choices",
                        data,
                        message: format!("{message} (shrinking met a call that did not return or overflowed the stack)"),
                        case: String::new(),
                        shrinks: 0,
                    }
                }
            };
            let rep = Report {
                name: task.name.clone(),
                kind: "interrupted",
                evaluations: 1,
                failure: Some(f),
                ..Default::default()
            };
            let wall = t0.elapsed().as_secs_f64();
            let code = finish(p.id, p.rule, p.assumptions, vec![rep], &verif, seed, thorough, wall);
            std::process::exit(code);
        }
        if crashed != 0 {
            eprintln!("{OVERFLOW}, but not one of a case");
            std::process::exit(2);
        }
    });
}

// ---------------------------------------------------------------- tasks

pub struct Failure {
    pub task: String,
    pub kind: &'static str,
    pub data: Vec<u64>,
    pub message: String,
    pub case: String,
    /// smaller is preferred when several tasks fail
    pub shrinks: u64,
}

#[derive(Default)]
pub struct Report {
    pub name: String,
    pub kind: &'static str,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub skipped: u64,
    pub ratio: f64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub wall: f64,
    pub exhaustive: bool,
}

pub struct Ctx {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub scale: f64,
    /// this is the build without checks, which repeats a part of the search
    pub plain: bool,
    bitmap: Vec<AtomicU64>,
}

/// Built without overflow checks and debug assertions?
pub fn plain() -> bool {
    !cfg!(debug_assertions)
}

const BITMAP_BITS: u64 = 1 << 28;
const SHARDS: usize = 64;

impl Ctx {
    pub fn new(property: &str, seed: u64, thorough: bool) -> Self {
        Ctx {
            property: property.into(),
            seed,
            thorough,
            threads: std::thread::available_parallelism().map_or(8, |n| n.get()),
            scale: std::env::var("MMV_SCALE")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1.0)
                * if plain() { 0.25 } else { 1.0 },
            plain: plain(),
            bitmap: (0..BITMAP_BITS / 64).map(|_| AtomicU64::new(0)).collect(),
        }
    }
    #[inline]
    fn fresh(&self, h: u64) -> bool {
        let b = h % BITMAP_BITS;
        let m = 1u64 << (b % 64);
        self.bitmap[(b / 64) as usize].fetch_or(m, Relaxed) & m == 0
    }
}

pub struct Task {
    pub name: String,
    pub run: Box<dyn Fn(&Ctx) -> Report + Sync + Send>,
    /// (kind, data) of a replay file
    pub replay: Box<dyn Fn(&str, &[u64]) -> (R, String) + Sync + Send>,
}

struct Outcome {
    res: R,
    rec: Vec<u64>,
    desc: String,
}

fn exec(f: &(dyn Fn(&mut Src) -> R + Sync), choices: &[u64], want_desc: bool) -> Outcome {
    let mut s = Src::new(Mode::Replay(choices), Vec::with_capacity(choices.len()));
    s.want_desc = want_desc;
    let res = match guard(|| f(&mut s)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    };
    Outcome {
        res,
        rec: std::mem::take(&mut s.rec),
        desc: std::mem::take(&mut s.desc),
    }
}

/// Shrinks a failing choice sequence; every attempt is a whole run of the case.
fn shrink(f: &(dyn Fn(&mut Src) -> R + Sync), start: Vec<u64>) -> (Vec<u64>, u64) {
    shrink_by(start, 20_000, |c| {
        busy(SLOT.with(|s| *s), 2, [0; 4]);
        let o = exec(f, c, false);
        o.res.is_err().then_some(o.rec)
    })
}

/// `run` gives the choices taken when the case fails.
fn shrink_by(start: Vec<u64>, max: u64, mut run: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> (Vec<u64>, u64) {
    let mut best = start;
    let mut steps = 0u64;
    let mut tries = 0u64;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, steps: &mut u64, tries: &mut u64| -> bool {
        if *tries >= max {
            return false;
        }
        *tries += 1;
        match run(cand) {
            Some(rec) if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) => {
                *best = rec;
                *steps += 1;
                true
            }
            _ => false,
        }
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = best.len();
            while i > 0 {
                i = i.saturating_sub(1);
                if i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    // also try with the choice before (a length) lowered
                    if !attempt(&c, &mut best, &mut steps, &mut tries) && i > 0 && c[i - 1] > 0 {
                        c[i - 1] -= 1;
                        attempt(&c, &mut best, &mut steps, &mut tries);
                    }
                }
                if best.len() > 400 {
                    i = i.saturating_sub(k);
                }
            }
            k /= 2;
        }
        // zero blocks
        let mut k = 8;
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|x| *x = 0);
                    attempt(&c, &mut best, &mut steps, &mut tries);
                }
                i += 1;
            }
            k /= 2;
        }
        // lower single choices
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(&c, &mut best, &mut steps, &mut tries) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            for d in [1u64, 2, 3] {
                if i < best.len() && best[i] >= d {
                    let mut c = best.clone();
                    c[i] -= d;
                    attempt(&c, &mut best, &mut steps, &mut tries);
                }
            }
            // round big numbers (bit patterns) down to fewer set bits
            let mut b = 0;
            while i < best.len() && b < 40 {
                if best[i] >> b & 1 == 1 {
                    let mut c = best.clone();
                    c[i] &= !(1 << b);
                    attempt(&c, &mut best, &mut steps, &mut tries);
                }
                b += 1;
            }
        }
        if best == before || tries >= max {
            return (best, steps);
        }
    }
}

/// `n` generated cases.
pub fn random(name: &str, n: u64, f: impl Fn(&mut Src) -> R + Sync + Send + Clone + 'static) -> Task {
    let g = f.clone();
    let tname = name.to_string();
    Task {
        name: name.to_string(),
        replay: Box::new(move |kind, c| {
            if kind == "generator" && c.len() == 4 {
                let mut rng = Rng([c[0], c[1], c[2], c[3]]);
                let mut s = Src::new(Mode::Gen(&mut rng), vec![]);
                s.want_desc = true;
                let r = guard(|| g(&mut s)).unwrap_or_else(|p| Err(format!("panic: {p}")));
                return (r, s.desc);
            }
            let o = exec(&g, c, true);
            (o.res, o.desc)
        }),
        run: Box::new(move |ctx| run_random(ctx, &tname, n, &f)),
    }
}

fn run_random(ctx: &Ctx, name: &str, n: u64, f: &(impl Fn(&mut Src) -> R + Sync)) -> Report {
    let t0 = std::time::Instant::now();
    let n = ((n as f64 * ctx.scale) as u64).max(SHARDS as u64) * if ctx.thorough { 12 } else { 1 };
    let per = n.div_ceil(SHARDS as u64);
    let next = AtomicUsize::new(0);
    let failed = AtomicUsize::new(usize::MAX);
    struct Sh {
        evals: u64,
        nontrivial: u64,
        distinct: u64,
        skipped: u64,
        ratio: f64,
        labels: Vec<(&'static str, u64)>,
        samples: Vec<Vec<u64>>,
        fail: Option<(usize, Vec<u64>)>,
    }
    let all: Mutex<Vec<Sh>> = Mutex::new(vec![]);
    let salt = hash_str(name);
    std::thread::scope(|sc| {
        for _ in 0..ctx.threads {
            sc.spawn(|| loop {
                let slot = SLOT.with(|s| *s);
                let shard = next.fetch_add(1, Relaxed);
                if shard >= SHARDS {
                    return;
                }
                let key = hash_str(&ctx.property)
                    ^ salt.rotate_left(17)
                    ^ ctx.seed.wrapping_mul(0x9e37_79b9_7f4a_7c15)
                    ^ (shard as u64).wrapping_mul(0xd1b5_4a32_d192_ed03);
                let mut rng = Rng::new(key);
                let mut sh = Sh {
                    evals: 0,
                    nontrivial: 0,
                    distinct: 0,
                    skipped: 0,
                    ratio: 0.0,
                    labels: vec![],
                    samples: vec![],
                    fail: None,
                };
                let mut buf = Vec::with_capacity(64);
                for i in 0..per {
                    if i % 1024 == 0 && failed.load(Relaxed) < shard {
                        break;
                    }
                    buf.clear();
                    busy(slot, 0, rng.0);
                    let mut s = Src::new(Mode::Gen(&mut rng), std::mem::take(&mut buf));
                    s.labels = Some(&mut sh.labels);
                    let r = guard(|| f(&mut s));
                    idle(slot);
                    let (nontriv, skipped, ratio) = (s.nontrivial && !s.skipped, s.skipped, s.ratio);
                    let rec = std::mem::take(&mut s.rec);
                    drop(s);
                    sh.evals += 1;
                    sh.skipped += skipped as u64;
                    if ratio > sh.ratio {
                        sh.ratio = ratio;
                    }
                    if !matches!(r, Ok(Ok(()))) {
                        failed.fetch_min(shard, Relaxed);
                        sh.fail = Some((shard, rec));
                        break;
                    }
                    if nontriv {
                        sh.nontrivial += 1;
                        if ctx.fresh(hash_choices(salt, &rec)) {
                            sh.distinct += 1;
                        }
                        if shard == 0 && sh.samples.len() < 3 && (i < 2 || i > per / 2) {
                            sh.samples.push(rec.clone());
                        }
                    }
                    buf = rec;
                }
                all.lock().unwrap().push(sh);
            });
        }
    });
    let mut rep = Report {
        name: name.into(),
        kind: "generated",
        ..Default::default()
    };
    let mut shs = all.into_inner().unwrap();
    let mut first: Option<(usize, Vec<u64>)> = None;
    for sh in &mut shs {
        rep.evaluations += sh.evals;
        rep.nontrivial += sh.nontrivial;
        rep.distinct += sh.distinct;
        rep.skipped += sh.skipped;
        rep.ratio = rep.ratio.max(sh.ratio);
        for (l, c) in &sh.labels {
            *rep.classes.entry(l.to_string()).or_default() += c;
        }
        for s in &sh.samples {
            let mut d = exec(f, s, true).desc;
            if d.chars().count() > 300 {
                d = d.chars().take(300).collect::<String>() + " ...";
            }
            rep.samples.push(format!("{name}: {d}"));
        }
        if let Some(x) = sh.fail.take() {
            if first.as_ref().map_or(true, |y| x.0 < y.0) {
                first = Some(x);
            }
        }
    }
    if let Some((_, rec)) = first {
        // the recorded choices must fail again: a case is a function of its choices
        let o = exec(f, &rec, false);
        let slot = SLOT.with(|s| *s);
        let message = o.res.as_ref().err().cloned().unwrap_or_default();
        *PENDING.lock().unwrap() = Some((rec.clone(), message));
        let (best, steps) = if o.res.is_err() { shrink(f, rec) } else { (rec, 0) };
        idle(slot);
        let o = exec(f, &best, true);
        rep.failure = Some(Failure {
            task: name.into(),
            kind: "choices",
            data: best,
            message: match o.res {
                Err(m) => m,
                Ok(()) => "the case failed once and not when run again: the result depends on history".into(),
            },
            case: o.desc,
            shrinks: steps,
        });
    }
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

#[derive(Default)]
pub struct Sw {
    pub nontrivial: u64,
    pub ratio: f64,
}

impl Sw {
    #[inline]
    pub fn ratio(&mut self, r: f64) {
        if r > self.ratio {
            self.ratio = r;
        }
    }
}

/// How complicated an f32 bit pattern looks to a reader.
fn bits_key(b: u32) -> (u32, u32, u32, u32) {
    let e = (b >> 23) & 0xff;
    let m = b & 0x7f_ffff;
    let sig = if m == 0 { 0 } else { 23 - m.trailing_zeros() };
    ((e == 255) as u32, sig, e.abs_diff(127), b >> 31)
}

/// Every index below `count` (times `stride`, thinned in the quick tier when `stride > 1`).
pub fn sweep(
    name: &str,
    count: u64,
    stride: u64,
    f: impl Fn(u32, &mut Sw) -> R + Sync + Send + Clone + 'static,
) -> Task {
    let g = f.clone();
    let tname = name.to_string();
    Task {
        name: name.to_string(),
        replay: Box::new(move |_, c| {
            let b = c.first().copied().unwrap_or(0) as u32;
            let r = match guard(|| g(b, &mut Sw::default())) {
                Ok(r) => r,
                Err(p) => Err(format!("panic: {p}")),
            };
            (r, describe_bits(b))
        }),
        run: Box::new(move |ctx| run_sweep(ctx, &tname, count, stride, &f)),
    }
}

fn describe_bits(b: u32) -> String {
    format!("index {b} = bits {b:#010x} = f32 {:?}", f32::from_bits(b))
}

fn run_sweep(ctx: &Ctx, name: &str, count: u64, stride: u64, f: &(impl Fn(u32, &mut Sw) -> R + Sync)) -> Report {
    let t0 = std::time::Instant::now();
    let stride = if ctx.plain && count >= 1 << 31 {
        stride.max(1) * 7
    } else if ctx.thorough {
        1
    } else {
        stride
    };
    // only for tools/mutate.py
    let stride = match std::env::var("MMV_STRIDE") {
        Ok(k) if count >= 1 << 31 => stride.max(1) * k.parse::<u64>().unwrap_or(1),
        _ => stride,
    };
    let off = if stride > 1 { Rng::new(ctx.seed ^ hash_str(name)).next() % stride } else { 0 };
    let strided = (count - off).div_ceil(stride);
    // a stride passes over the values that code treats apart: visit those too, with their neighbours
    let landmarks: &[u32] = if stride > 1 && count >= 1 << 31 { crate::gen::landmarks() } else { &[] };
    let landmarks = &landmarks[..landmarks.partition_point(|&b| (b as u64) < count)];
    let total = strided + landmarks.len() as u64;
    let at = |i: u64| if i < strided { (off + i * stride) as u32 } else { landmarks[(i - strided) as usize] };
    const BLOCK: u64 = 1 << 18;
    let blocks = total.div_ceil(BLOCK);
    // not in order, so that values of all sizes come early: some may not return
    let gcd = |mut a: u64, mut b: u64| {
        while b > 0 {
            (a, b) = (b, a % b);
        }
        a
    };
    let step = (blocks * 5 / 8 + 1..).find(|&k| gcd(k, blocks) == 1).unwrap_or(1);
    let next = AtomicU64::new(0);
    let out: Mutex<(Sw, u64, Option<(u32, String)>, u64)> = Mutex::new((Sw::default(), 0, None, 0));
    std::thread::scope(|sc| {
        for _ in 0..ctx.threads {
            sc.spawn(|| {
                let mut sw = Sw::default();
                let mut evals = 0u64;
                let mut best: Option<(u32, String)> = None;
                let mut fails = 0u64;
                let slot = SLOT.with(|s| *s);
                loop {
                    idle(slot);
                    let blk = next.fetch_add(1, Relaxed);
                    if blk >= blocks {
                        break;
                    }
                    let blk = blk * step % blocks;
                    let (mut i, end) = (blk * BLOCK, ((blk + 1) * BLOCK).min(total));
                    let mut bad = 0;
                    while i < end && bad < 16 {
                        let pos = Cell::new(i);
                        let r = guard(|| {
                            while pos.get() < end {
                                let b = at(pos.get());
                                if pos.get() >= strided {
                                    busy(slot, 1, [b as u64, 0, 0, 0]);
                                } else if pos.get() % SWEEP_STEP == 0 {
                                    busy(slot, 1, [b as u64, stride, 0, 0]);
                                }
                                slot.data[2].store(b as u64, Relaxed);
                                if let Err(m) = f(b, &mut sw) {
                                    return Some(m);
                                }
                                pos.set(pos.get() + 1);
                            }
                            None
                        });
                        let m = match r {
                            Ok(None) => {
                                evals += pos.get() - i;
                                break;
                            }
                            Ok(Some(m)) => m,
                            Err(p) => format!("panic: {p}"),
                        };
                        evals += pos.get() - i + 1;
                        bad += 1;
                        fails += 1;
                        let b = at(pos.get());
                        if best.as_ref().map_or(true, |x| bits_key(b) < bits_key(x.0)) {
                            best = Some((b, m));
                        }
                        i = pos.get() + 1;
                    }
                }
                let mut o = out.lock().unwrap();
                o.0.nontrivial += sw.nontrivial;
                o.0.ratio(sw.ratio);
                o.1 += evals;
                o.3 += fails;
                if let Some(b) = best {
                    if o.2.as_ref().map_or(true, |x| (bits_key(b.0), b.0) < (bits_key(x.0), x.0)) {
                        o.2 = Some(b);
                    }
                }
            });
        }
    });
    let (sw, evals, best, fails) = out.into_inner().unwrap();
    let mut rep = Report {
        name: name.into(),
        kind: if stride == 1 { "enumerated" } else { "enumerated with a stride, and around landmarks" },
        evaluations: evals,
        nontrivial: sw.nontrivial,
        distinct: sw.nontrivial,
        ratio: sw.ratio,
        exhaustive: stride == 1,
        ..Default::default()
    };
    let mut r = Rng::new(ctx.seed ^ hash_str(name));
    for _ in 0..2 {
        let b = at(r.next() % total);
        rep.samples.push(format!("{name}: {}", describe_bits(b)));
    }
    if let Some((b, m)) = best {
        rep.failure = Some(Failure {
            task: name.into(),
            kind: "index",
            data: vec![b as u64],
            message: m,
            case: describe_bits(b),
            shrinks: fails.saturating_sub(1),
        });
    }
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

// ---------------------------------------------------------------- running a property

pub struct Property {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub tasks: Vec<Task>,
    pub assumptions: &'static [&'static str],
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn join(v: impl IntoIterator<Item = String>) -> String {
    v.into_iter().collect::<Vec<_>>().join(", ")
}

/// Runs the check, writes the evidence and replay files, returns the exit status.
pub fn run_property(p: &'static Property, verif: &str, seed: u64, thorough: bool, only: Option<&str>) -> i32 {
    let t0 = std::time::Instant::now();
    let ctx = Ctx::new(p.id, seed, thorough);
    let mut reps = vec![];
    watchdog(p, verif.into(), seed, thorough);
    for (i, t) in p.tasks.iter().enumerate() {
        TASK.store(i, Relaxed);
        if only.is_some_and(|o| !t.name.contains(o)) || (plain() && t.name == crate::stats::HUGE) {
            continue;
        }
        let rep = (t.run)(&ctx);
        println!(
            "  {:<28} {:<10} cases {:>11}  non-trivial {:>11}  distinct {:>11}  max error/bound {:.4}  {:.1}s{}",
            rep.name,
            rep.kind,
            rep.evaluations,
            rep.nontrivial,
            rep.distinct,
            rep.ratio,
            rep.wall,
            if rep.failure.is_some() { "  FAILED" } else { "" }
        );
        reps.push(rep);
    }
    if plain() {
        for t in &reps {
            println!("TASK {}", task_json(t));
        }
    } else if !reps.iter().any(|r| r.failure.is_some()) {
        if let Ok(bin) = std::env::var("MMV_PLAIN_BIN") {
            if let Err(code) = plain_build(&bin, p.id, only) {
                return code;
            }
        }
    }
    finish(p.id, p.rule, p.assumptions, reps, verif, seed, thorough, t0.elapsed().as_secs_f64())
}

static PLAIN_TASKS: Mutex<Vec<String>> = Mutex::new(vec![]);

/// Repeats a part of the search in the build without checks, where `debug_assert!` does nothing and
/// integer overflow wraps.
fn plain_build(bin: &str, id: &str, only: Option<&str>) -> Result<(), i32> {
    println!("  in a build without overflow checks and debug assertions:");
    let out = std::process::Command::new(bin)
        .args(["check", id])
        .args(only)
        .output()
        .expect("run the build without checks");
    let text = String::from_utf8_lossy(&out.stdout);
    for l in text.lines() {
        match l.strip_prefix("TASK ") {
            Some(t) => PLAIN_TASKS.lock().unwrap().push(t.to_string()),
            None => println!("{l}"),
        }
    }
    eprint!("{}", String::from_utf8_lossy(&out.stderr));
    match out.status.code() {
        Some(0) => Ok(()),
        // that run has written the evidence
        Some(1) => Err(1),
        _ => Err(2),
    }
}

fn task_json(r: &Report) -> String {
    format!(
        "{{\"name\": {}, \"how\": {}, \"cases\": {}, \"non_trivial\": {}, \"distinct_non_trivial\": {}, \"outside_domain\": {}, \"max_error_over_bound\": {:.6}, \"wall_s\": {:.2}, \"classes\": {{{}}}}}",
        json_str(&r.name),
        json_str(r.kind),
        r.evaluations,
        r.nontrivial,
        r.distinct,
        r.skipped,
        if r.ratio.is_finite() { r.ratio } else { -1.0 },
        r.wall,
        join(r.classes.iter().map(|(k, v)| format!("{}: {v}", json_str(k))))
    )
}

fn replay_json(id: &str, f: &Failure, seed: u64) -> String {
    format!(
        "{{\"property\": {}, \"task\": {}, \"build\": {}, \"seed\": {seed}, \"kind\": {}, \"data\": [{}],\n \"case\": {},\n \"message\": {},\n \"shrink_steps\": {}}}\n",
        json_str(id),
        json_str(&f.task),
        json_str(if plain() { "plain" } else { "checked" }),
        json_str(f.kind),
        join(f.data.iter().map(|x| x.to_string())),
        json_str(&f.case),
        json_str(&f.message),
        f.shrinks
    )
}

#[allow(clippy::too_many_arguments)]
pub fn finish(
    id: &str,
    rule: &str,
    assumptions: &[&str],
    mut reps: Vec<Report>,
    verif: &str,
    seed: u64,
    thorough: bool,
    wall: f64,
) -> i32 {
    let dir = format!("{verif}/evidence");
    let rdir = format!("{dir}/replay");
    std::fs::create_dir_all(&rdir).expect("create evidence directory");
    let mut violations = 0;
    let mut first = None;
    for r in &mut reps {
        if let Some(f) = r.failure.take() {
            violations += 1;
            let name: String = f.task.chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
            let path = format!("{rdir}/{id}-{name}.json");
            let body = replay_json(id, &f, seed);
            std::fs::write(&path, body).expect("write replay file");
            println!("  {}: {}", f.task, f.message);
            println!("    case: {}", f.case);
            if first.is_none() {
                first = Some(path);
            }
        }
    }
    let samples: BTreeSet<String> = reps.iter().flat_map(|r| r.samples.iter().cloned()).collect();
    let exhaustive = !reps.is_empty() && reps.iter().all(|r| r.exhaustive);
    let tasks = join(reps.iter().map(|r| format!("\n   {}", task_json(r))));
    let plain_tasks = join(PLAIN_TASKS.lock().unwrap().iter().map(|t| format!("\n   {t}")));
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": \"{}\", \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {exhaustive},\n  \"samples\": [{}],\n  \"tasks\": [{}],\n  \"tasks_without_overflow_checks\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        json_str(id),
        if thorough { "thorough" } else { "quick" },
        reps.iter().map(|r| r.evaluations).sum::<u64>(),
        reps.iter().map(|r| r.distinct).sum::<u64>(),
        json_str(rule),
        join(samples.iter().take(24).map(|s| format!("\n   {}", json_str(s)))),
        tasks,
        plain_tasks,
        join(assumptions.iter().map(|s| json_str(s))),
    );
    if violations > 0 || !plain() {
        std::fs::write(format!("{dir}/{id}.json"), ev).expect("write evidence");
    }
    match first {
        Some(path) => {
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None if plain() => 0,
        None => {
            println!("OK {id}: no violation in {} cases ({wall:.1}s)", reps.iter().map(|r| r.evaluations).sum::<u64>());
            0
        }
    }
}

/// (property, task, kind, data) of a replay file.
pub fn read_replay(path: &str) -> Option<(String, String, String, Vec<u64>)> {
    let s = std::fs::read_to_string(path).ok()?;
    let field = |k: &str| -> Option<String> {
        let i = s.find(&format!("\"{k}\": \""))? + k.len() + 5;
        Some(s[i..].split('"').next()?.to_string())
    };
    let i = s.find("\"data\": [")? + 9;
    let data = s[i..].split(']').next()?;
    let data = data.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    Some((field("property")?, field("task")?, field("kind")?, data))
}

/// Exit status 0 (held), 1 (violation) or 2 (usage).
pub fn cli(props: &[(&'static str, fn() -> Property)], cmd: Option<&str>, a: Option<&str>, b: Option<&str>) -> i32 {
    catch_overflows();
    let find = |id: &str| props.iter().find(|p| p.0 == id).map(|p| &*Box::leak(Box::new((p.1)())));
    match (cmd, a) {
        (Some("list"), _) => {
            for p in props {
                println!("{}", p.0);
            }
            0
        }
        (Some("check"), Some(id)) => {
            let Some(p) = find(id) else {
                eprintln!("no property {id} here");
                return 2;
            };
            let env = |k: &str| std::env::var(k).ok();
            let verif = env("MMV_VERIF").unwrap_or_else(|| "/verif".into());
            let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
            run_property(p, &verif, seed, thorough, b)
        }
        (Some("replay"), Some(file)) => {
            let Some((id, task, kind, data)) = read_replay(file) else {
                eprintln!("cannot read {file}");
                return 2;
            };
            let Some(p) = find(&id) else {
                eprintln!("no property {id} here");
                return 2;
            };
            let Some(t) = p.tasks.iter().find(|t| t.name == task) else {
                eprintln!("no task {task} in {id}");
                return 2;
            };
            let limit_s = std::env::var("MMV_TRIAL_S").ok().and_then(|s| s.parse().ok()).unwrap_or(LIMIT_S);
            TRACING.store(true, Relaxed);
            let t0 = std::time::Instant::now();
            let (tx, rx) = std::sync::mpsc::channel();
            std::thread::spawn(move || tx.send((t.replay)(&kind, &data)));
            let (r, desc) = loop {
                if let Ok(x) = rx.recv_timeout(std::time::Duration::from_millis(if limit_s == LIMIT_S { 100 } else { 1 })) {
                    break x;
                }
                let known = |m: String| (Err(m), TRACE.lock().unwrap().1.clone());
                if CRASHED.load(Relaxed) != 0 {
                    break known(OVERFLOW.into());
                }
                if t0.elapsed().as_secs() >= limit_s {
                    break known(format!("a call did not return within {limit_s} s"));
                }
            };
            if limit_s != LIMIT_S {
                println!("choices: {}", TRACE.lock().unwrap().0.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
            }
            println!("case: {desc}");
            match r {
                Ok(()) => {
                    println!("the property holds in this case");
                    0
                }
                Err(m) => {
                    println!("{m}");
                    println!("VIOLATION property={id} replay={file}");
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: check <ID> [task] | replay <file> | list");
            2
        }
    }
}
