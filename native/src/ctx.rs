use crate::Rng;
use std::collections::HashSet;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static TICK: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<String> = Mutex::new(String::new());
static BUSY: AtomicU64 = AtomicU64::new(0);

pub enum Exp<T> {
    /// Must return exactly this value
    Is(T),
    /// Must panic
    Panics,
}
pub use Exp::*;

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub thorough: bool,
    pub debug: bool,
    pub end: Instant,
    pub cases: u64,
    pub fails: Vec<(String, String, String, String)>,
    pub failed_ops: HashSet<String>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub ops: std::collections::BTreeMap<&'static str, u64>,
    trace: bool,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}

impl Ctx {
    /// Check that `f` returns/panics as expected. `input` is only rendered on a failure or a sample.
    pub fn check<T: PartialEq + Debug>(
        &mut self,
        op: &'static str,
        input: impl Fn() -> String,
        exp: Exp<T>,
        f: impl FnOnce() -> T,
    ) {
        self.cases += 1;
        let n = self.ops.entry(op).or_insert(0);
        *n += 1;
        if self.trace { eprintln!("CASE {} {}", op, input()); }
        let nth = *n;
        if nth <= 2 || (nth < 4096 && nth % 64 == 0) || nth % 1024 == 0 {
            let s = input();
            self.distinct.insert(hash(op) ^ hash(&s));
            if nth == 2 && self.samples.len() < 40 { self.samples.push(format!("{} {}", op, s)); }
        }
        if self.failed_ops.contains(op) { return; }
        TICK.store(self.cases, Ordering::Relaxed);
        BUSY.store(1, Ordering::Relaxed);
        if nth <= 4 || nth % 16 == 0 {
            if let Ok(mut c) = CUR.lock() { c.clear(); c.push_str(op); }
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        BUSY.store(0, Ordering::Relaxed);
        let (want, got) = match (&exp, &r) {
            (Is(w), Ok(g)) if w == g => return,
            (Panics, Err(_)) => return,
            (Is(w), Ok(g)) => (format!("{:?}", w), format!("{:?}", g)),
            (Is(w), Err(_)) => (format!("{:?}", w), "panicked".to_string()),
            (Panics, Ok(g)) => ("a panic".to_string(), format!("{:?}", g)),
        };
        self.failed_ops.insert(op.to_string());
        self.fails.push((op.to_string(), input(), want, got));
    }
    pub fn time_left(&self) -> bool { Instant::now() < self.end && self.fails.len() < 8 }
    pub fn fresh(&mut self, tag: &str) { self.rng = Rng::new(self.seed, tag); }
    /// Run `f` repeatedly for an equal share of the remaining time
    pub fn spend(&mut self, parts: u32, min: usize, mut f: impl FnMut(&mut Ctx)) {
        let now = Instant::now();
        let slice = if self.end > now { (self.end - now) / parts } else { Duration::from_millis(1) };
        let stop = now + slice;
        let mut n = 0;
        while n < min || Instant::now() < stop {
            f(self);
            n += 1;
            if self.fails.len() >= 8 { break; }
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// usage: BIN PROPERTY SEED TIER OUT.json [trace]
pub fn run(suites: &[(&str, &dyn Fn(&mut Ctx))]) {
    let a: Vec<String> = std::env::args().collect();
    let (pid, seed, tier, out) = (a[1].clone(), a[2].parse::<u64>().unwrap_or(1), a[3].clone(), a[4].clone());
    let trace = a.get(5).map_or(false, |s| s == "trace");
    std::panic::set_hook(Box::new(|_| {}));
    let thorough = tier == "thorough";
    let secs = std::env::var("NATIVE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 60.0 } else { 4.0 });
    let debug = cfg!(debug_assertions);
    {
        let out = out.clone();
        std::thread::spawn(move || {
            let (mut last, mut stuck) = (0, 0);
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let t = TICK.load(Ordering::Relaxed);
                if t == last && BUSY.load(Ordering::Relaxed) == 1 { stuck += 1 } else { stuck = 0 }
                last = t;
                if stuck > 30 {
                    let op = CUR.lock().map(|c| c.clone()).unwrap_or_default();
                    let s = format!("{{\"cases\":{},\"hang\":true,\"fails\":[{{\"op\":{},\"input\":{},\"want\":\"termination\",\"got\":\"no answer after 30 s\"}}]}}", t, esc(&op), esc(&format!("case {} of this seed", t)));
                    let _ = std::fs::write(&out, s);
                    std::process::exit(1);
                }
            }
        });
    }
    let mut c = Ctx {
        rng: Rng::new(seed, &pid),
        seed,
        thorough,
        debug,
        end: Instant::now() + Duration::from_secs_f64(secs),
        cases: 0,
        fails: vec![],
        failed_ops: HashSet::new(),
        distinct: HashSet::new(),
        samples: vec![],
        ops: Default::default(),
        trace,
    };
    let f = suites.iter().find(|s| s.0 == pid).expect("unknown property").1;
    f(&mut c);
    let fails: Vec<String> = c.fails.iter().map(|(o, i, w, g)| format!("{{\"op\":{},\"input\":{},\"want\":{},\"got\":{}}}", esc(o), esc(i), esc(w), esc(g))).collect();
    let ops: Vec<String> = c.ops.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let samples: Vec<String> = c.samples.iter().take(12).map(|s| esc(s)).collect();
    let s = format!(
        "{{\"cases\":{},\"distinct_sampled\":{},\"debug_assertions\":{},\"ops\":{{{}}},\"samples\":[{}],\"fails\":[{}]}}",
        c.cases, c.distinct.len(), debug, ops.join(","), samples.join(","), fails.join(",")
    );
    std::fs::write(&out, s).unwrap();
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}
