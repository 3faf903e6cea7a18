//! Stateless exhaustive exploration of random choices.
//!
//! `explore(cfg, body)` runs `body` repeatedly. Every draw that `body` makes on any `Rng` on this
//! thread becomes a choice point; the successive runs visit, depth first, every combination of
//! choices (up to `cfg.max_depth` choice points per run; deeper draws fall back on wyrand and the
//! run is counted as truncated).
use std::cell::RefCell;
use std::vec::Vec;

/// Bounds of an exploration.
#[derive(Clone, Debug)]
pub struct Config {
    /// Values `f64()`/`f32()` may return.
    pub f64_menu: Vec<f64>,
    /// Largest integer range enumerated in full; larger ranges use {0, mid, last}.
    pub int_cap: usize,
    /// Choice points per run that are enumerated.
    pub max_depth: usize,
    /// Upper bound on runs (0: none).
    pub max_runs: u64,
}

impl Default for Config {
    fn default() -> Self {
        Config { f64_menu: std::vec![0.0, 0.5, 0.999999], int_cap: 64, max_depth: 64, max_runs: 0 }
    }
}

/// What an exploration covered.
#[derive(Clone, Debug, Default)]
pub struct Stats {
    /// Complete executions.
    pub runs: u64,
    /// Choice points resolved over all runs.
    pub choices: u64,
    /// Runs that went past `max_depth`.
    pub truncated: u64,
    /// Whether `max_runs` cut the exploration short.
    pub capped: bool,
}

#[derive(Debug)]
struct State {
    cfg: Config,
    path: Vec<(usize, usize)>,
    pos: usize,
    truncated: bool,
    choices: u64,
    fallback: u64,
    /// Draws still to be resolved by the background generator before enumeration begins.
    skip: usize,
}

std::thread_local! {
    static EX: RefCell<Option<State>> = const { RefCell::new(None) };
}

/// Whether draws on this thread are being enumerated.
#[inline]
pub fn active() -> bool {
    EX.with(|e| e.borrow().is_some())
}

/// A draw that is not enumerated: 53 uniform bits of the background generator, or None.
fn background() -> Option<u64> {
    EX.with(|e| {
        let mut e = e.borrow_mut();
        let st = e.as_mut().expect("exploration active");
        if st.skip > 0 {
            st.skip -= 1;
        } else if st.pos >= st.path.len() && st.pos >= st.cfg.max_depth {
            st.truncated = true;
        } else {
            return None;
        }
        st.choices += 1;
        st.fallback = st.fallback.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        Some(st.fallback >> 11)
    })
}

/// Resolve a choice among `n` alternatives.
pub fn choose(n: usize) -> usize {
    EX.with(|e| {
        let mut e = e.borrow_mut();
        let st = e.as_mut().expect("exploration active");
        if n <= 1 {
            return 0;
        }
        st.choices += 1;
        if st.pos < st.path.len() {
            let (c, m) = st.path[st.pos];
            assert!(m == n, "nondeterministic body: choice point had {} alternatives, now {}", m, n);
            st.pos += 1;
            return c;
        }
        if st.pos >= st.cfg.max_depth {
            st.truncated = true;
            st.fallback = st.fallback.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            return ((st.fallback >> 33) as usize) % n;
        }
        st.path.push((0, n));
        st.pos += 1;
        0
    })
}

/// Resolve a draw from `0..n`.
pub fn choose_int(n: u64) -> u64 {
    if n > 1 {
        if let Some(v) = background() {
            return (v >> 12) % n;
        }
    }
    let cap = EX.with(|e| e.borrow().as_ref().map(|s| s.cfg.int_cap).unwrap_or(0)) as u64;
    if n <= cap {
        choose(n as usize) as u64
    } else {
        [0, n / 2, n - 1][choose(3)]
    }
}

/// Resolve a draw from `[0, 1)`.
pub fn choose_f64() -> f64 {
    if let Some(v) = background() {
        return v as f64 / (1u64 << 53) as f64;
    }
    let n = EX.with(|e| e.borrow().as_ref().map(|s| s.cfg.f64_menu.len()).unwrap_or(1));
    let i = choose(n);
    EX.with(|e| e.borrow().as_ref().map(|s| s.cfg.f64_menu[i]).unwrap_or(0.0))
}

/// The choices made so far in the current run.
pub fn trace() -> Vec<usize> {
    EX.with(|e| e.borrow().as_ref().map(|s| s.path[..s.pos].iter().map(|p| p.0).collect()).unwrap_or_default())
}

/// Probability of the current run so far when every choice is uniform.
pub fn weight() -> f64 {
    EX.with(|e| e.borrow().as_ref().map(|s| s.path[..s.pos].iter().map(|p| 1.0 / p.1 as f64).product()).unwrap_or(1.0))
}

/// Whether the current run went past the enumerated depth.
pub fn truncated() -> bool {
    EX.with(|e| e.borrow().as_ref().map(|s| s.truncated).unwrap_or(false))
}

/// Suspend enumeration while `f` runs (its draws use wyrand).
pub fn suspended<R>(f: impl FnOnce() -> R) -> R {
    let st = EX.with(|e| e.borrow_mut().take());
    let r = f();
    EX.with(|e| *e.borrow_mut() = st);
    r
}

struct Restore;
impl Drop for Restore {
    fn drop(&mut self) {
        EX.with(|e| *e.borrow_mut() = None);
    }
}

/// Run `body` once under every combination of choices. `body` returns false to stop early.
pub fn explore(cfg: &Config, body: impl FnMut() -> bool) -> Stats {
    explore_window(cfg, 0, 0, body)
}

/// Like `explore`, but the first `skip` draws of every run come from a background generator
/// (seeded by `salt`), which also resolves the draws after the window of `max_depth` choices.
pub fn explore_window(cfg: &Config, skip: usize, salt: u64, mut body: impl FnMut() -> bool) -> Stats {
    assert!(!active(), "nested exploration");
    let mut stats = Stats::default();
    let mut path: Vec<(usize, usize)> = Vec::new();
    loop {
        EX.with(|e| {
            *e.borrow_mut() = Some(State {
                cfg: cfg.clone(),
                path: std::mem::take(&mut path),
                pos: 0,
                truncated: false,
                choices: 0,
                fallback: 0x9e3779b97f4a7c15 ^ salt.wrapping_mul(0xd1342543de82ef95),
                skip,
            })
        });
        let guard = Restore;
        let go_on = body();
        let st = EX.with(|e| e.borrow_mut().take()).expect("exploration active");
        drop(guard);
        assert!(st.pos == st.path.len(), "nondeterministic body: fewer choices than replayed");
        stats.runs += 1;
        stats.choices += st.choices;
        if st.truncated {
            stats.truncated += 1;
        }
        path = st.path;
        if !go_on {
            stats.capped = true;
            return stats;
        }
        loop {
            match path.pop() {
                None => return stats,
                Some((c, n)) if c + 1 < n => {
                    path.push((c + 1, n));
                    break;
                }
                _ => {}
            }
        }
        if cfg.max_runs > 0 && stats.runs >= cfg.max_runs {
            stats.capped = true;
            return stats;
        }
    }
}
