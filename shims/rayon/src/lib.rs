//! `rayon::scope` under a controlled scheduler.
//!
//! Controlled mode (`mc::run`): the thread that calls `scope` (the orchestrator) runs freely until
//! it blocks or leaves the scope body. Only then does the scheduler release exactly one of the
//! spawned tasks, chosen by the caller's strategy, lets it run to completion on a persistent
//! worker thread, and waits for the orchestrator to block again. Thus every order in which tasks
//! can complete (and their results be received) is a sequence of strategy choices. If the
//! orchestrator is blocked while no task is pending, the run is reported as a deadlock.
pub use rayon_core::{join, ThreadPool, ThreadPoolBuilder};

use std::any::Any;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

type Job = Box<dyn FnOnce() + Send + 'static>;

struct Pending {
    seq: usize,
    job: Job,
}

struct Shared {
    pending: Vec<Pending>,
    next_seq: usize,
    running: usize,
    body_done: bool,
    panic: Option<Box<dyn Any + Send>>,
    max_pending: usize,
}

struct ScopeInner {
    sh: Mutex<Shared>,
    cv: Condvar,
    controlled: bool,
}

pub struct Scope<'scope> {
    inner: Arc<ScopeInner>,
    _m: PhantomData<std::cell::Cell<&'scope ()>>,
}

unsafe impl<'scope> Send for Scope<'scope> {}
unsafe impl<'scope> Sync for Scope<'scope> {}

impl<'scope> Scope<'scope> {
    pub fn spawn<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        let inner = self.inner.clone();
        let inner2 = self.inner.clone();
        let job: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
            let sc = Scope { inner: inner2.clone(), _m: PhantomData };
            let r = catch_unwind(AssertUnwindSafe(move || body(&sc)));
            if let Err(p) = r {
                let mut sh = inner2.sh.lock().unwrap_or_else(|e| e.into_inner());
                if sh.panic.is_none() {
                    sh.panic = Some(p);
                }
            }
        });
        // SAFETY: `scope` does not return before every job has run and been dropped.
        let job: Job = unsafe { std::mem::transmute(job) };
        let mut sh = inner.sh.lock().unwrap_or_else(|e| e.into_inner());
        let seq = sh.next_seq;
        sh.next_seq += 1;
        if inner.controlled {
            sh.pending.push(Pending { seq, job });
            let n = sh.pending.len();
            sh.max_pending = sh.max_pending.max(n);
        } else {
            sh.running += 1;
            drop(sh);
            let inner3 = inner.clone();
            std::thread::spawn(move || {
                INDEX.with(|i| i.set(Some(seq)));
                job();
                let mut sh = inner3.sh.lock().unwrap_or_else(|e| e.into_inner());
                sh.running -= 1;
                inner3.cv.notify_all();
            });
            return;
        }
        inner.cv.notify_all();
    }

    pub fn spawn_broadcast<B>(&self, body: B)
    where
        B: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        self.spawn(body)
    }
}

std::thread_local! {
    static INDEX: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
    static ON_WORKER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static CONTROL: std::cell::RefCell<Option<Arc<mc::Control>>> = const { std::cell::RefCell::new(None) };
}

/// Threads the pool is said to have.
pub fn current_num_threads() -> usize {
    if let Some(n) = CONTROL.with(|c| c.borrow().as_ref().map(|c| c.threads)) {
        return n;
    }
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1)
}

pub fn max_num_threads() -> usize {
    1 << 16
}

pub fn current_thread_index() -> Option<usize> {
    if let Some(v) = CONTROL.with(|c| c.borrow().as_ref().map(|c| c.in_pool)) {
        return if v || ON_WORKER.with(|w| w.get()) { Some(0) } else { None };
    }
    INDEX.with(|i| i.get())
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    // Called from outside the pool, rayon runs the body on one of the pool's workers.
    controlled_scope(op, true)
}

pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    controlled_scope(op, false)
}

fn controlled_scope<'scope, OP, R>(op: OP, takes_worker: bool) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let control = CONTROL.with(|c| c.borrow().clone());
    let inner = Arc::new(ScopeInner {
        sh: Mutex::new(Shared {
            pending: Vec::new(),
            next_seq: 0,
            running: 0,
            body_done: false,
            panic: None,
            max_pending: 0,
        }),
        cv: Condvar::new(),
        controlled: control.is_some(),
    });
    let sched = control.map(|c| {
        // A worker that is busy with the body runs no tasks while the body blocks.
        let free = c.threads - usize::from(takes_worker || c.in_pool || ON_WORKER.with(|w| w.get()));
        mc::start_scheduler(c, inner.clone(), free)
    });
    let sc = Scope { inner: inner.clone(), _m: PhantomData };
    let was = ON_WORKER.with(|w| w.replace(w.get() || takes_worker));
    let r = catch_unwind(AssertUnwindSafe(|| op(&sc)));
    ON_WORKER.with(|w| w.set(was));
    {
        let mut sh = inner.sh.lock().unwrap_or_else(|e| e.into_inner());
        sh.body_done = true;
        inner.cv.notify_all();
        if !inner.controlled {
            while sh.running > 0 {
                sh = inner.cv.wait(sh).unwrap_or_else(|e| e.into_inner());
            }
        }
    }
    if let Some(h) = sched {
        let _ = h.join();
    }
    let p = inner.sh.lock().unwrap_or_else(|e| e.into_inner()).panic.take();
    match r {
        Err(p) => resume_unwind(p),
        Ok(v) => {
            if let Some(p) = p {
                resume_unwind(p);
            }
            v
        }
    }
}

pub mod mc {
    use super::*;
    use std::io::Read;
    use std::io::Seek;
    use std::sync::mpsc::{channel, Sender};
    use std::thread::JoinHandle;

    /// A strategy: given the spawn sequence numbers of the pending tasks, which to run next.
    pub type Strategy = Box<dyn FnMut(&[usize]) -> usize + Send>;

    pub struct Control {
        pub threads: usize,
        pub in_pool: bool,
        pub strategy: Mutex<Strategy>,
        pub report: Mutex<Report>,
    }

    #[derive(Default, Clone, Debug)]
    pub struct Report {
        /// Spawn sequence numbers in completion order.
        pub order: Vec<usize>,
        /// Number of pending tasks at each decision.
        pub pending: Vec<usize>,
        /// Largest number of tasks pending at once.
        pub max_pending: usize,
        /// Orchestrator blocked with nothing to run.
        pub deadlock: bool,
        /// Tasks still pending when the scope body returned.
        pub left_at_body_end: usize,
    }

    /// What came of a controlled run.
    pub enum Outcome<R> {
        Done(R),
        Panicked(String),
        Deadlock,
    }

    fn tid() -> u32 {
        let s = std::fs::read_link("/proc/thread-self").expect("/proc/thread-self");
        s.file_name().unwrap().to_str().unwrap().parse().unwrap()
    }

    /// True when the thread behind `f` (its /proc stat file) is asleep.
    fn asleep(f: &mut std::fs::File) -> bool {
        let mut buf = [0u8; 256];
        if f.rewind().is_err() {
            return false;
        }
        let n = match f.read(&mut buf) {
            Ok(n) => n,
            Err(_) => return false,
        };
        let s = &buf[..n];
        match s.iter().rposition(|&b| b == b')') {
            Some(p) if p + 2 < n => s[p + 2] == b'S',
            _ => false,
        }
    }

    /// Runs jobs on worker threads that live as long as the scheduler of the scope, so that
    /// thread-local state carries over from one task to the next as it would in a real pool.
    fn run_on_worker(slot: usize, job: Job) {
        std::thread_local! {
            static WORKERS: std::cell::RefCell<Vec<Sender<(Job, Sender<()>)>>> = const { std::cell::RefCell::new(Vec::new()) };
        }
        WORKERS.with(|w| {
            let mut w = w.borrow_mut();
            while w.len() <= slot {
                let (tx, rx) = channel::<(Job, Sender<()>)>();
                let idx = w.len();
                std::thread::spawn(move || {
                    INDEX.with(|i| i.set(Some(idx)));
                    while let Ok((job, done)) = rx.recv() {
                        job();
                        let _ = done.send(());
                    }
                });
                w.push(tx);
            }
            let (dtx, drx) = channel();
            w[slot].send((job, dtx)).expect("worker alive");
            let _ = drx.recv();
        });
    }

    pub(super) fn start_scheduler(c: Arc<Control>, inner: Arc<ScopeInner>, free: usize) -> JoinHandle<()> {
        let me = tid();
        std::thread::spawn(move || {
            let mut stat = std::fs::File::open(format!("/proc/self/task/{me}/stat")).expect("stat");
            loop {
                // Wait until the orchestrator is blocked or has left the scope body.
                let mut quiet = 0;
                let mut spins = 0u32;
                let mut body_done;
                loop {
                    body_done = inner.sh.lock().unwrap_or_else(|e| e.into_inner()).body_done;
                    if body_done {
                        break;
                    }
                    if asleep(&mut stat) {
                        quiet += 1;
                        if quiet >= 3 {
                            break;
                        }
                    } else {
                        quiet = 0;
                    }
                    spins += 1;
                    if spins < 64 {
                        std::thread::yield_now();
                    } else {
                        std::thread::sleep(std::time::Duration::from_micros(30));
                    }
                }
                let (pick, slot) = {
                    let mut sh = inner.sh.lock().unwrap_or_else(|e| e.into_inner());
                    let mut rep = c.report.lock().unwrap();
                    rep.max_pending = rep.max_pending.max(sh.max_pending);
                    if body_done {
                        rep.left_at_body_end = rep.left_at_body_end.max(sh.pending.len());
                    }
                    if body_done && sh.pending.is_empty() {
                        return;
                    }
                    // Once the body has returned its thread helps with what is left.
                    let workers = if body_done { free.max(1) } else { free };
                    if sh.pending.is_empty() || workers == 0 {
                        // Blocked for good? Give a spurious sleep the chance to end.
                        drop(sh);
                        drop(rep);
                        let mut still = 0;
                        while still < 400 {
                            std::thread::sleep(std::time::Duration::from_micros(250));
                            let sh = inner.sh.lock().unwrap_or_else(|e| e.into_inner());
                            if sh.body_done || (free > 0 && !sh.pending.is_empty()) {
                                break;
                            }
                            drop(sh);
                            if !asleep(&mut stat) {
                                break;
                            }
                            still += 1;
                        }
                        if still >= 400 {
                            c.report.lock().unwrap().deadlock = true;
                            return;
                        }
                        continue;
                    }
                    // Only `workers` tasks can be executing; the oldest ones have started.
                    let n = sh.pending.len().min(workers);
                    let seqs: Vec<usize> = sh.pending[..n].iter().map(|p| p.seq).collect();
                    let i = (c.strategy.lock().unwrap())(&seqs).min(n - 1);
                    let p = sh.pending.remove(i);
                    rep.order.push(p.seq);
                    rep.pending.push(n);
                    (p, rep.order.len() % workers)
                };
                run_on_worker(slot, pick.job);
            }
        })
    }

    /// Run `f` on a fresh orchestrator thread under `control`. On a deadlock that thread is leaked.
    pub fn run<R: Send + 'static>(
        threads: usize,
        in_pool: bool,
        strategy: Strategy,
        f: impl FnOnce() -> R + Send + 'static,
    ) -> (Outcome<R>, Report) {
        let control = Arc::new(Control {
            threads,
            in_pool,
            strategy: Mutex::new(strategy),
            report: Mutex::new(Report::default()),
        });
        let c2 = control.clone();
        let (tx, rx) = channel::<Result<R, String>>();
        let h = std::thread::spawn(move || {
            CONTROL.with(|c| *c.borrow_mut() = Some(c2));
            let r = catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
                if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".to_string()
                }
            });
            CONTROL.with(|c| *c.borrow_mut() = None);
            let _ = tx.send(r);
        });
        loop {
            match rx.recv_timeout(std::time::Duration::from_millis(50)) {
                Ok(r) => {
                    let _ = h.join();
                    let rep = control.report.lock().unwrap().clone();
                    return match r {
                        Ok(v) => (Outcome::Done(v), rep),
                        Err(s) => (Outcome::Panicked(s), rep),
                    };
                }
                Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                    let rep = control.report.lock().unwrap().clone();
                    if rep.deadlock {
                        return (Outcome::Deadlock, rep);
                    }
                }
                Err(_) => return (Outcome::Panicked("orchestrator died".into()), control.report.lock().unwrap().clone()),
            }
        }
    }
}

/// Where rayon itself runs the body of a scope started outside its pool: (`scope`, `in_place_scope`),
/// true for a worker of the pool. What the scheduler above takes for granted.
pub fn real_bodies_on_workers() -> (bool, bool) {
    (
        rayon_core::scope(|_| rayon_core::current_thread_index().is_some()),
        rayon_core::in_place_scope(|_| rayon_core::current_thread_index().is_some()),
    )
}
