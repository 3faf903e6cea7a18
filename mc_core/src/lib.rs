//! Shared machinery of the checks: counters, samples, violations, known findings, evidence files,
//! bounded enumeration helpers and a small work-sharing pool.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|v| v == "thorough").unwrap_or(false)
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

/// `q` in the quick tier, `t` in the thorough one.
pub fn tier<T>(q: T, t: T) -> T {
    if thorough() {
        t
    } else {
        q
    }
}

struct Violation {
    key: String,
    text: String,
}

/// What one check covered and found. Shared between threads.
pub struct Report {
    pub id: String,
    start: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    validated: AtomicU64,
    n_viol: AtomicU64,
    samples: Mutex<Vec<String>>,
    offered: AtomicU64,
    violations: Mutex<BTreeMap<String, Violation>>,
    notes: Mutex<BTreeMap<String, u64>>,
    texts: Mutex<BTreeMap<String, String>>,
    assumptions: Mutex<Vec<String>>,
    exhaustive: Mutex<bool>,
    busy: Mutex<BTreeMap<usize, String>>,
    late: std::sync::atomic::AtomicBool,
}

/// The watchdog ticks once a second (a tick, not the clock, so that a suspended machine counts as
/// one): after this many ticks without any progress the code under test is taken not to terminate,
/// and after that many in total the exploration ends with what it has covered.
const IDLE_TICKS: u64 = 200;
fn total_ticks() -> u64 {
    tier(660, 12_000)
}

pub const MAX_VIOLATIONS: u64 = 200;

impl Report {
    pub fn new(id: &str) -> Self {
        Report {
            id: id.to_string(),
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            n_viol: AtomicU64::new(0),
            samples: Mutex::new(Vec::new()),
            offered: AtomicU64::new(0),
            violations: Mutex::new(BTreeMap::new()),
            notes: Mutex::new(BTreeMap::new()),
            texts: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(Vec::new()),
            exhaustive: Mutex::new(true),
            busy: Mutex::new(BTreeMap::new()),
            late: std::sync::atomic::AtomicBool::new(false),
        }
    }
    /// Distinct states (programs, configurations, histories) visited.
    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
    }
    /// Steps taken (operations executed, choices resolved, schedules' decisions).
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    /// Reference behaviours compared with the implementation's.
    pub fn valid(&self, n: u64) {
        self.validated.fetch_add(n, Ordering::Relaxed);
    }
    pub fn note(&self, k: &str, n: u64) {
        *self.notes.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn note_max(&self, k: &str, n: u64) {
        let mut m = self.notes.lock().unwrap();
        let e = m.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn text(&self, k: &str, v: impl Into<String>) {
        self.texts.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn assume(&self, s: &str) {
        let mut a = self.assumptions.lock().unwrap();
        if !a.iter().any(|x| x == s) {
            a.push(s.to_string());
        }
    }
    pub fn not_exhaustive(&self) {
        *self.exhaustive.lock().unwrap() = false;
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        // The 1st, 2nd, 4th, 8th, ... case offered, so that samples spread over the run.
        if (self.offered.fetch_add(1, Ordering::Relaxed) + 1).is_power_of_two() {
            let text = f();
            let mut s = self.samples.lock().unwrap();
            s.push(text);
            if s.len() > 16 {
                s.remove(0);
            }
        }
    }
    pub fn stop(&self) -> bool {
        self.n_viol.load(Ordering::Relaxed) >= MAX_VIOLATIONS || self.late.load(Ordering::Relaxed)
    }
    fn progress(&self) -> [u64; 4] {
        [&self.states, &self.transitions, &self.validated, &self.n_viol].map(|c| c.load(Ordering::Relaxed))
    }
    /// Runs beside the check until it has finished.
    fn watchdog(&self, done: &std::sync::atomic::AtomicBool) {
        let (mut last, mut idle, mut total) = (self.progress(), 0, 0);
        while !done.load(Ordering::Relaxed) {
            std::thread::park_timeout(std::time::Duration::from_secs(1));
            total += 1;
            if total > total_ticks() && !self.late.swap(true, Ordering::Relaxed) {
                self.not_exhaustive();
                self.note("ended at the time limit", 1);
            }
            let now = self.progress();
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle >= IDLE_TICKS && !done.load(Ordering::Relaxed) {
                let busy: Vec<String> = self.busy.lock().unwrap().iter().map(|(i, t)| format!("{i} ({t})")).collect();
                self.violation("does-not-terminate", format!("no progress for {IDLE_TICKS} s; work items in progress: {}", busy.join(", ")));
                std::process::exit(self.finish());
            }
        }
    }
    /// Record a violation. `key` names the failing case stably (it is what known findings match).
    pub fn violation(&self, key: impl Into<String>, text: impl Into<String>) {
        self.n_viol.fetch_add(1, Ordering::Relaxed);
        let key = key.into();
        let mut v = self.violations.lock().unwrap();
        if (v.len() as u64) < MAX_VIOLATIONS || v.contains_key(&key) {
            v.entry(key.clone()).or_insert(Violation { key, text: text.into() });
        }
    }
    pub fn check(&self, ok: bool, key: impl FnOnce() -> String, text: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violation(key(), text());
        }
        ok
    }

    /// Write evidence, print findings and violations, and return the process exit code.
    pub fn finish(&self) -> i32 {
        let dir = verif_dir();
        let known = load_known(&dir, &self.id);
        let viol = self.violations.lock().unwrap();
        let mut fresh: Vec<&Violation> = Vec::new();
        let mut seen_known: BTreeMap<String, String> = BTreeMap::new();
        for v in viol.values() {
            match known.iter().find(|(k, _)| k == &v.key) {
                Some((k, what)) => {
                    seen_known.insert(k.clone(), what.clone());
                }
                None => fresh.push(v),
            }
        }
        for (k, what) in &known {
            // A listed finding is announced whether or not this tier's bounds reach it.
            let _ = seen_known.get(k);
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, what, k);
        }
        let mut code = 0;
        if !fresh.is_empty() {
            code = 1;
            let rdir = dir.join("replays");
            let _ = std::fs::create_dir_all(&rdir);
            let path = rdir.join(format!("{}.txt", self.id));
            let mut out = String::new();
            for v in fresh.iter().take(50) {
                let _ = writeln!(out, "key: {}\n{}\n", v.key, v.text);
            }
            let _ = std::fs::write(&path, &out);
            for v in fresh.iter().take(8) {
                let first = v.text.lines().next().unwrap_or("");
                println!("  {}: {}", v.key, first);
            }
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        self.write_evidence(&dir, fresh.len());
        code
    }

    fn write_evidence(&self, dir: &std::path::Path, violations: usize) {
        let mut cov = String::new();
        let st = self.states.load(Ordering::Relaxed);
        let tr = self.transitions.load(Ordering::Relaxed);
        let va = self.validated.load(Ordering::Relaxed);
        let _ = write!(cov, "\"states\": {st}, \"transitions\": {tr}, \"traces_validated_against_impl\": {va}");
        let _ = write!(cov, ", \"exhaustive\": {}", *self.exhaustive.lock().unwrap());
        for (k, v) in self.notes.lock().unwrap().iter() {
            let _ = write!(cov, ", {}: {}", js(k), v);
        }
        for (k, v) in self.texts.lock().unwrap().iter() {
            let _ = write!(cov, ", {}: {}", js(k), js(v));
        }
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|s| js(s)).collect();
        let _ = write!(cov, ", \"samples\": [{}]", samples.join(", "));
        let ass: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect();
        let body = format!(
            "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
            js(&self.id),
            js(if thorough() { "thorough" } else { "quick" }),
            seed(),
            cov,
            ass.join(", "),
            self.start.elapsed().as_secs_f64(),
            violations
        );
        let edir = dir.join("evidence");
        let _ = std::fs::create_dir_all(&edir);
        std::fs::write(edir.join(format!("{}.json", self.id)), body).expect("write evidence");
        println!(
            "{}: states={} transitions={} validated={} wall={:.1}s violations={}",
            self.id,
            st,
            tr,
            va,
            self.start.elapsed().as_secs_f64(),
            violations
        );
    }
}

/// JSON string literal.
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Lines `known: property=<id> key=<key> :: <what fails>` of /verif/known_findings.txt.
fn load_known(dir: &std::path::Path, id: &str) -> Vec<(String, String)> {
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(dir.join("known_findings.txt")) {
        for l in s.lines() {
            let Some(r) = l.strip_prefix("known: property=") else { continue };
            let Some((pid, r)) = r.split_once(" key=") else { continue };
            if pid != id {
                continue;
            }
            let Some((key, what)) = r.split_once(" :: ") else { continue };
            out.push((key.trim().to_string(), what.trim().to_string()));
        }
    }
    out
}

/// Run `f` on every item, items shared among the available cores. A panic that escapes `f` is a
/// violation of the property under check.
pub fn par_for<T: Sync>(rep: &Report, items: &[T], f: impl Fn(usize, &T) + Sync) {
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(items.len().max(1));
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() || rep.stop() {
                        break;
                    }
                    rep.busy.lock().unwrap().insert(i, std::any::type_name::<T>().chars().take(60).collect());
                    let r = catching(|| f(i, &items[i]));
                    rep.busy.lock().unwrap().remove(&i);
                    if let Err(e) = r {
                        rep.violation(format!("panic:{}", short(&e)), format!("unexpected panic (work item {i}): {e}"));
                    }
                })
                .unwrap();
        }
    });
}

std::thread_local! {
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

static QUIET_ALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// From here on, no thread's panics are printed.
pub fn quiet_all() {
    QUIET_ALL.store(true, Ordering::Relaxed);
}

/// Silence the panic hook on threads that expect panics.
pub fn install_quiet_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) && !QUIET_ALL.load(Ordering::Relaxed) {
            prev(i)
        }
    }));
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn catching<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(panic_text);
    QUIET.with(|q| q.set(old));
    r
}

/// Equal up to rounding: same NaN-ness, same infinities, relative/absolute tolerance otherwise.
pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

/// Every vector of `len` values below `base`, in lexicographic order.
pub fn for_each_tuple(base: usize, len: usize, mut f: impl FnMut(&[usize])) {
    let mut v = vec![0usize; len];
    if base == 0 && len > 0 {
        return;
    }
    loop {
        f(&v);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < base {
                break;
            }
            v[i] = 0;
        }
    }
}

/// Every permutation of `0..n`.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, used: &mut Vec<bool>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(cur, used, n, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = Vec::new();
    rec(&mut Vec::new(), &mut vec![false; n], n, &mut out);
    out
}

pub fn short(s: &str) -> String {
    s.chars().filter(|c| !c.is_control()).take(80).collect()
}

/// Entry point of a check binary: `<bin> <property>`.
pub fn run_main(table: &[(&str, fn(&Report))]) -> ! {
    install_quiet_hook();
    let id = std::env::args().nth(1).unwrap_or_default();
    let Some((_, f)) = table.iter().find(|(k, _)| *k == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let rep = Report::new(&id);
    let f = *f;
    let done = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        let dog = s.spawn(|| rep.watchdog(&done));
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
            if let Err(e) = catching(|| f(&rep)) {
                rep.violation(format!("panic:{}", short(&e)), format!("unexpected panic: {e}"));
            }
        });
        let _ = h.unwrap().join();
        done.store(true, Ordering::Relaxed);
        dog.thread().unpark();
    });
    let code = rep.finish();
    std::process::exit(code);
}
