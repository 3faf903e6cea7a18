//! C45-C47, C49: what one cycle of the search does, and how tasks are merged.
use super::c_eng::*;
use super::common::*;
use rayon::mc as sched;
use std::sync::Arc;
use symbolic_regression::equation_search;

// ---------------------------------------------------------------- reference model

/// A population with everything its next cycle depends on.
#[derive(Clone)]
pub struct RPop {
    pub members: Vec<Member>,
    pub seed: u64,
    pub next_id: u64,
    pub next_birth: u64,
}

pub fn states(e: &Engine) -> Vec<RPop> {
    e.verif_states().into_iter().map(|(m, seed, next_id, next_birth)| RPop { members: m.to_vec(), seed, next_id, next_birth }).collect()
}

#[derive(Clone)]
pub struct Job {
    pub pop: usize,
    limit: usize,
    stats: RunningSearchStatistics,
    state: RPop,
}

/// What a task hands back.
#[derive(Clone)]
pub struct Done {
    pub pop: usize,
    limit: usize,
    seen: Vec<Member>,
    pub state: RPop,
}

/// The search, written down from its description: tasks evolve one population each with the
/// statistics and the limit of the moment they are handed out, and are merged one after another.
#[derive(Clone)]
pub struct Model<'a> {
    c: &'a Cfg,
    base: Option<f64>,
    pub pops: Vec<Option<RPop>>,
    top: Vec<Vec<Member>>,
    pub hall: Vec<Option<Member>>,
    pub best: Member,
    pub stats: RunningSearchStatistics,
    started: usize,
}

fn top_of(members: &[Member], n: usize) -> Vec<Member> {
    let mut v: Vec<&Member> = members.iter().collect();
    v.sort_by(|a, b| a.cost.partial_cmp(&b.cost).expect("costs are ordered"));
    v.into_iter().take(n).cloned().collect()
}

impl<'a> Model<'a> {
    pub fn new(c: &'a Cfg, e: &Engine) -> Self {
        let pops = states(e);
        let mut m = Model {
            c,
            base: baseline(c),
            top: pops.iter().map(|p| top_of(&p.members, c.o.topn)).collect(),
            hall: vec![None; c.o.maxsize + 1],
            best: pops[0].members[0].clone(),
            stats: RunningSearchStatistics::new(c.o.maxsize, 100_000),
            started: 0,
            pops: pops.into_iter().map(Some).collect(),
        };
        let all: Vec<Member> = m.pops.iter().flatten().flat_map(|p| p.members.iter().cloned()).collect();
        all.iter().for_each(|x| m.consider(x, c.o.maxsize));
        m
    }

    fn admits(&self, x: &Member, limit: usize) -> bool {
        ref_constraints(&parse(&x.expr).expect("well-formed"), &self.c.o, limit)
    }

    fn consider(&mut self, x: &Member, limit: usize) {
        if !self.admits(x, limit) {
            return;
        }
        if x.complexity > 0 && x.complexity < self.hall.len() {
            let h = &mut self.hall[x.complexity];
            if h.as_ref().is_none_or(|h| x.cost < h.cost) {
                *h = Some(x.clone());
            }
        }
        if x.loss < self.best.loss || !self.admits(&self.best, self.c.o.maxsize) {
            self.best = x.clone();
        }
    }

    fn total(&self) -> usize {
        self.c.o.niterations * self.c.o.populations
    }

    pub fn job(&mut self, pop: usize) -> Job {
        let limit = get_cur_maxsize(&self.c.o, self.total(), self.total() - self.started);
        self.started += 1;
        let mut stats = self.stats.clone();
        stats.normalize();
        Job { pop, limit, stats, state: self.pops[pop].take().expect("population at rest") }
    }

    pub fn run(&self, j: &Job) -> Done {
        let (o, ds) = (&self.c.o, &self.c.ds);
        let full = TaggedDataset::new(ds, self.base);
        let mut s = j.state.clone();
        let mut rng = Rng::with_seed(s.seed);
        let mut ev = Evaluator::new(ds.n_rows);
        let mut gc = dynamic_expressions::GradContext::new(ds.n_rows);
        let mut pop = Pop::new(s.members.clone());
        let mut seen = Vec::new();
        for phase in 0..2 {
            let batch = o.batching.then(|| {
                let mut b = Dataset::make_batch_buffer(ds, o.batch_size.max(1));
                b.resample_from(ds, &mut rng);
                b
            });
            let part = match &batch {
                Some(b) => TaggedDataset::new(b, self.base),
                None => full,
            };
            let mut ctx = IterationCtx {
                rng: &mut rng,
                full_dataset: full,
                curmaxsize: j.limit,
                stats: &j.stats,
                options: o,
                evaluator: &mut ev,
                grad_ctx: &mut gc,
                next_id: &mut s.next_id,
                next_birth: &mut s.next_birth,
                _ops: core::marker::PhantomData,
            };
            if phase == 0 {
                let (_, h) = s_r_cycle::<f64, B, D>(&mut pop, &mut ctx, part);
                seen = h.members().cloned().collect();
                for m in &mut seen {
                    if o.batching {
                        let _ = m.evaluate(&full, o, &mut ev);
                    }
                }
            } else {
                let _ = optimize_and_simplify_population::<f64, B, D>(&mut pop, &mut ctx, part);
            }
        }
        s.seed = rng.get_seed();
        s.members = pop.members.clone();
        Done { pop: j.pop, limit: j.limit, seen, state: s }
    }

    pub fn merge(&mut self, d: Done) {
        let o = &self.c.o;
        let Done { pop, limit, seen, state: mut s } = d;
        self.top[pop] = top_of(&s.members, o.topn);
        self.stats.update_from_population(s.members.iter().map(|m| m.complexity));
        self.stats.move_window();
        for m in seen.iter().chain(&s.members) {
            self.consider(m, limit);
        }
        let mut rng = Rng::with_seed(s.seed);
        let mut p = Pop::new(std::mem::take(&mut s.members));
        if o.migration {
            let others: Vec<Member> = (0..self.top.len()).filter(|i| *i != pop).flat_map(|i| self.top[i].iter().cloned()).collect();
            migrate_into(&mut p, &others, o.fraction_replaced, &mut rng, &mut s.next_id, &mut s.next_birth);
        }
        if o.hof_migration {
            let front = self.front();
            migrate_into(&mut p, &front, o.fraction_replaced_hof, &mut rng, &mut s.next_id, &mut s.next_birth);
        }
        s.members = p.members.clone();
        s.seed = rng.get_seed();
        self.pops[pop] = Some(s);
    }

    fn front(&self) -> Vec<Member> {
        let mut out: Vec<Member> = Vec::new();
        for m in self.hall.iter().flatten() {
            if m.loss < out.last().map_or(f64::INFINITY, |l| l.loss) {
                out.push(m.clone());
            }
        }
        out
    }

    pub fn outcome(&self) -> String {
        let h: Vec<String> = self.hall.iter().map(|m| m.as_ref().map(fingerprint).unwrap_or_default()).collect();
        format!("{}\nbest {}", h.join("\n"), fingerprint(&self.best))
    }

    /// First difference from the engine, if any.
    fn differs(&self, e: &Engine) -> Option<String> {
        let real = states(e);
        for (i, (m, r)) in self.pops.iter().zip(&real).enumerate() {
            let m = m.as_ref().expect("at rest");
            for (k, (a, b)) in m.members.iter().zip(&r.members).enumerate() {
                if fingerprint(a) != fingerprint(b) {
                    return Some(format!("population {i}, member {k} is {} ({}), expected {} ({})", fingerprint(b), show(&b.expr), fingerprint(a), show(&a.expr)));
                }
            }
            if (m.seed, m.next_id, m.next_birth) != (r.seed, r.next_id, r.next_birth) {
                return Some(format!("population {i}: generator and counters are {:?}, expected {:?}", (r.seed, r.next_id, r.next_birth), (m.seed, m.next_id, m.next_birth)));
            }
        }
        let h = e.hall_of_fame();
        for (k, (a, b)) in self.hall.iter().zip(&h.best_by_complexity).enumerate() {
            if a.as_ref().map(fingerprint) != b.as_ref().map(fingerprint) {
                return Some(format!("hall of fame, complexity {k}: {:?}, expected {:?}", b.as_ref().map(|m| show(&m.expr)), a.as_ref().map(|m| show(&m.expr))));
            }
        }
        if fingerprint(e.best()) != fingerprint(&self.best) {
            return Some(format!("best is {} (loss {}), expected {} (loss {})", show(&e.best().expr), e.best().loss, show(&self.best.expr), self.best.loss));
        }
        let (a, b) = (&self.stats.frequencies, &e.verif_stats().frequencies);
        if a != b {
            return Some(format!("frequencies of complexities are {b:?}, expected {a:?}"));
        }
        None
    }
}

// ---------------------------------------------------------------- C47

pub fn c47(rep: &Report) {
    rep.assume("the phases of an iteration (evolution, end of iteration, migration, statistics) are those checked on their own by C16-C26, C31, C33 and C46");
    let mut cfgs = grid(true, tier(6, 60));
    for (pops, iters) in [(1usize, 4usize), (4, 2), (6, 1), (5, 3), (33, 2), (70, 1)] {
        for (warm, batch) in [(0.0, false), (0.7, false), (0.0, true)] {
            let mut c = base();
            c.o.populations = pops;
            c.o.niterations = iters;
            c.o.warmup_maxsize_by = warm;
            c.o.batching = batch;
            c.o.batch_size = 3;
            c.name = format!("{pops} populations, {iters} iterations, warmup {warm}, batches {batch}");
            cfgs.insert(0, c);
        }
    }
    par_for(rep, &cfgs, |_, c| {
        let mut e = engine(c);
        let mut m = Model::new(c, &e);
        let n = c.o.populations;
        let mut todo: Vec<usize> = Vec::new();
        let mut order = Vec::new();
        for step in 0..=c.o.niterations * n {
            rep.state(1);
            rep.valid(1);
            if step > 0 {
                if todo.is_empty() {
                    todo = (0..n).collect();
                }
                // One population not evolved yet in this iteration went through exactly one cycle.
                let before = states(&e);
                match catching(|| e.step(1)) {
                    Ok(1) => rep.trans(1),
                    Ok(k) => {
                        rep.violation("cycle", format!("{}: cycle {step}: step(1) did {k} cycles", c.name));
                        return;
                    }
                    Err(p) => {
                        rep.violation(format!("panic:{}", short(&p)), format!("{}: cycle {step}: {p}", c.name));
                        return;
                    }
                }
                let after = states(&e);
                let same = |i: usize| before[i].seed == after[i].seed && before[i].members.iter().map(fingerprint).eq(after[i].members.iter().map(fingerprint));
                let changed: Vec<usize> = (0..n).filter(|&i| !same(i)).collect();
                let bad = match changed[..] {
                    [i] => match todo.iter().position(|&t| t == i) {
                        Some(k) => {
                            todo.remove(k);
                            order.push(i);
                            let j = m.job(i);
                            let d = m.run(&j);
                            m.merge(d);
                            None
                        }
                        None => Some(format!("population {i} evolved twice in one iteration (order so far {order:?})")),
                    },
                    _ => Some(format!("populations {changed:?} changed")),
                };
                if let Some(bad) = bad {
                    rep.violation("order", format!("{}: cycle {step}: {bad}", c.name));
                    return;
                }
            }
            if let Some(bad) = m.differs(&e) {
                rep.violation("cycle", format!("{}: after cycle {step} (order {order:?}): {bad}", c.name));
                return;
            }
        }
        rep.sample(|| format!("{}: populations evolved in the order {order:?}, every cycle as modelled, best {} of loss {}", c.name, show(&e.best().expr), e.best().loss));
    });
    rep.note("configurations", cfgs.len() as u64);
    // Every order of the populations is possible, and all are equally likely, in every iteration.
    let mut work = Vec::new();
    for pops in 1..=tier(5usize, 6) {
        for iter in 0..2usize {
            for salt in 0..tier(2u64, 6) {
                work.push((pops, iter, salt));
            }
        }
    }
    par_for(rep, &work, |_, &(pops, iter, salt)| {
        let mut c = base();
        c.o.populations = pops;
        c.o.population_size = 2;
        c.o.niterations = 2;
        c.o.ncycles_per_iteration = 1;
        c.o.migration = false;
        c.o.hof_migration = false;
        c.o.skip_mutation_failures = false;
        c.o.should_optimize_constants = false;
        // A failed crossover makes no new member, every mutation does.
        c.o.crossover_probability = 0.0;
        let step_changed = |e: &mut Engine, k: usize| {
            let before = states(e);
            e.step(1);
            let after = states(e);
            let ch: Vec<usize> = (0..pops).filter(|&i| before[i].next_birth != after[i].next_birth).collect();
            if ch.len() == 1 { Ok(ch[0]) } else { Err(format!("cycle {k}: populations {ch:?} made new members")) }
        };
        let mut skip = 0;
        if iter == 1 {
            let cfg = mc::Config { f64_menu: vec![0.5], int_cap: 64, max_depth: 0, max_runs: 1 };
            let s = mc::explore_window(&cfg, usize::MAX, salt, || {
                let mut e = mc::suspended(|| engine(&c));
                e.step(pops);
                true
            });
            skip = s.choices as usize;
        }
        let mut seen: BTreeMap<Vec<usize>, u64> = BTreeMap::new();
        let cfg = mc::Config { f64_menu: vec![0.5], int_cap: 64, max_depth: pops - 1, max_runs: 0 };
        let s = mc::explore_window(&cfg, skip, salt, || {
            let mut e = mc::suspended(|| engine(&c));
            e.step(iter * pops);
            let order: Result<Vec<usize>, String> = (0..pops).map(|k| step_changed(&mut e, k)).collect();
            match order {
                Ok(o) => *seen.entry(o).or_insert(0) += 1,
                Err(x) => rep.violation("order", format!("{pops} populations, iteration {iter}: {x}")),
            }
            !rep.stop()
        });
        rep.state(seen.len() as u64);
        rep.trans(s.runs);
        rep.valid(1);
        let fact: usize = (1..=pops).product();
        let perms = seen.keys().all(|o| o.iter().collect::<BTreeSet<_>>().len() == pops);
        let counts: BTreeSet<u64> = seen.values().copied().collect();
        rep.check(rep.stop() || (seen.len() == fact && perms && counts.len() == 1), || "orders".into(), || format!("{pops} populations, iteration {iter}: the random choices give {} orders out of {fact} permutations, each as often as {counts:?}: {:?}", seen.len(), seen.iter().take(6).collect::<Vec<_>>()));
        rep.note("orders of populations", seen.len() as u64);
    });
    // Of many populations: every outcome of a draw of the order makes an order of its own.
    let mut work = Vec::new();
    for pops in tier(vec![9usize, 17, 33, 70], vec![9usize, 17, 33, 70, 130]) {
        for skip in [0, 1, pops / 2, pops - 2] {
            work.push((pops, skip));
        }
    }
    par_for(rep, &work, |_, &(pops, skip)| {
        let mut c = base();
        c.o.populations = pops;
        c.o.population_size = 2;
        c.o.niterations = 1;
        c.o.ncycles_per_iteration = 1;
        c.o.migration = false;
        c.o.hof_migration = false;
        c.o.skip_mutation_failures = false;
        c.o.should_optimize_constants = false;
        // A failed crossover makes no new member, every mutation does.
        c.o.crossover_probability = 0.0;
        let mut seen: BTreeSet<Vec<usize>> = BTreeSet::new();
        let cfg = mc::Config { f64_menu: vec![0.5], int_cap: pops, max_depth: 1, max_runs: 0 };
        let s = mc::explore_window(&cfg, skip, pops as u64, || {
            let mut e = mc::suspended(|| engine(&c));
            let births = |e: &Engine| -> Vec<u64> { states(e).iter().map(|s| s.next_birth).collect() };
            let mut before = births(&e);
            let mut order = Vec::new();
            for _ in 0..pops {
                e.step(1);
                let after = births(&e);
                order.extend((0..pops).filter(|&i| before[i] != after[i]));
                before = after;
            }
            rep.check(order.iter().collect::<BTreeSet<_>>().len() == pops && order.len() == pops, || "order".into(), || format!("{pops} populations evolve in the order {order:?}"));
            seen.insert(order);
            !rep.stop()
        });
        rep.state(seen.len() as u64);
        rep.trans(s.runs);
        rep.valid(1);
        rep.check(rep.stop() || (s.runs > 1 && seen.len() as u64 == s.runs), || "orders".into(), || format!("{pops} populations: {} outcomes of draw {skip} of the order make {} orders", s.runs, seen.len()));
    });
}

// ---------------------------------------------------------------- C49

pub fn c49(rep: &Report) {
    rep.assume("tasks share no mutable state (the compiler enforces it), so a schedule is the order in which tasks complete");
    let singles = grid(false, tier(1, 3));
    let shapes: &[(usize, usize, usize, bool)] = tier(
        &[(2, 2, 2, false), (3, 2, 2, false), (3, 2, 3, false), (3, 1, 4, true), (4, 1, 3, false), (2, 3, 1, false), (3, 2, 3, true), (2, 2, 8, false)][..],
        &[(2, 3, 2, false), (2, 4, 2, false), (3, 2, 3, false), (3, 2, 2, false), (3, 3, 2, false), (3, 3, 4, true), (4, 2, 3, false), (4, 1, 4, false), (5, 1, 5, true), (5, 1, 3, false), (6, 1, 2, false), (2, 3, 1, false), (2, 2, 8, true)][..],
    );
    let mut work: Vec<(Cfg, usize, bool)> = Vec::new();
    for (k, c) in singles.iter().enumerate() {
        if c.name.contains("population") && !c.name.contains("base") {
            continue;
        }
        for (j, &(pops, iters, threads, in_pool)) in shapes.iter().enumerate() {
            if !thorough() && (k + j) % 2 != 0 && k > 0 {
                continue;
            }
            let mut c = c.clone();
            c.o.populations = pops;
            c.o.niterations = iters;
            c.o.population_size = 3;
            c.o.ncycles_per_iteration = 1;
            work.push((c, threads, in_pool));
        }
    }
    let cap = tier(2000, 20_000);
    par_for(rep, &work, |_, (c, threads, in_pool)| {
        let (n, iters) = (c.o.populations, c.o.niterations);
        let what = format!("{}, {n} populations, {iters} iterations, {threads} threads{}", c.name, if *in_pool { " (called inside the pool)" } else { "" });
        // The order in which tasks are handed out does not depend on their results.
        let order: Vec<usize> = {
            let mut e = engine(c);
            (0..n * iters)
                .map(|_| {
                    let before: Vec<u64> = states(&e).iter().map(|s| s.seed).collect();
                    e.step(1);
                    states(&e).iter().zip(&before).position(|(a, b)| a.seed != *b).unwrap_or(0)
                })
                .collect()
        };
        let start = Model::new(c, &engine(c));
        let usable = if *in_pool { threads - 1 } else { *threads };
        let workers = usable.min(n).max(1);
        // Reference results by the order of completion so far, in task numbers.
        let mut expected: BTreeMap<Vec<usize>, String> = BTreeMap::new();
        let c2 = Arc::new(c.clone());
        let (runs, complete) = schedules(
            *threads,
            *in_pool,
            cap,
            move || result_print(&equation_search::<f64, B, D>(&c2.ds, &c2.o)),
            |out, srep, choices| {
                rep.trans(srep.order.len() as u64);
                rep.valid(1);
                rep.note_max("most tasks in flight", srep.max_pending as u64);
                let bad = match out {
                    sched::Outcome::Panicked(p) => format!("panicked: {p}"),
                    sched::Outcome::Deadlock => "deadlocked".into(),
                    sched::Outcome::Done(real) => {
                        if srep.order.len() != n * iters {
                            format!("{} tasks for {n} populations and {iters} iterations", srep.order.len())
                        } else {
                            let want = expected.entry(srep.order.clone()).or_insert_with(|| replay(&start, &order, workers, n, &srep.order));
                            if *want == real { String::new() } else { format!("the result differs from merging the tasks in this order: {}", first_difference(&real, want)) }
                        }
                    }
                };
                rep.check(bad.is_empty(), || "merge".into(), || format!("{what}: completion order {choices:?} (tasks {:?}): {bad}", srep.order));
                !rep.stop()
            },
        );
        rep.state(expected.values().collect::<BTreeSet<_>>().len() as u64);
        rep.sample(|| format!("{what}: {runs} completion orders, {} different results, each as modelled", expected.values().collect::<BTreeSet<_>>().len()));
        if !complete {
            rep.note("searches with more schedules than explored", 1);
            rep.not_exhaustive();
        }
    });
    rep.note("searches", work.len() as u64);
}

/// The model under a schedule: hand out tasks while workers are free, merge in completion order.
fn replay(start: &Model, order: &[usize], workers: usize, n: usize, completed: &[usize]) -> String {
    let mut m = start.clone();
    let mut flying: BTreeMap<usize, Job> = BTreeMap::new();
    let mut next = 0;
    for (k, done) in completed.iter().enumerate() {
        // The tasks of an iteration all end before the next iteration begins.
        let end = (k / n + 1) * n;
        while flying.len() < workers && next < end {
            flying.insert(next, m.job(order[next]));
            next += 1;
        }
        let Some(j) = flying.remove(done) else {
            return format!("task {done} completed when it was not handed out");
        };
        let d = m.run(&j);
        m.merge(d);
    }
    m.outcome()
}

// ---------------------------------------------------------------- C45

pub fn c45(rep: &Report) {
    rep.assume("the number, places and sources of one migration are those checked by C23");
    let mut work = Vec::new();
    for (pops, size, topn) in tier(&[(1usize, 2usize, 2usize), (2, 2, 1), (2, 3, 2), (3, 3, 1), (3, 2, 3), (4, 2, 2)][..], &[(1usize, 2usize, 2usize), (2, 2, 1), (2, 3, 2), (2, 3, 5), (3, 3, 1), (3, 2, 3), (3, 4, 2), (4, 2, 2), (4, 3, 1)][..]) {
        for variant in 0..tier(5u64, 12) {
            let mut c = base();
            c.o.populations = *pops;
            c.o.population_size = *size;
            c.o.topn = *topn;
            c.o.niterations = 2;
            c.o.ncycles_per_iteration = 2;
            c.o.seed = 5 + variant * 3;
            c.o.batching = variant % 3 == 1;
            c.o.batch_size = 2;
            c.o.tournament_selection_n = 1;
            // Costs and losses order members differently.
            c.o.parsimony = [0.0, 0.3, 3.0][variant as usize % 3];
            if variant % 4 == 3 {
                c.o.warmup_maxsize_by = 0.6;
            }
            c.name = format!("{pops} populations of {size}, top {topn}, variant {variant}");
            for step in 0..2 * pops {
                for kind in 0..KINDS.len() {
                    work.push((c.clone(), step, kind));
                }
            }
        }
    }
    par_for(rep, &work, |_, (c, step, kind)| migration(rep, c, *step, *kind));
    rep.note("cycles of searches", work.len() as u64);
}

/// Which migrations are on in the cycle under study, with which rates.
const KINDS: [(&str, bool, f64, bool, f64); 9] = [
    ("migration", true, 0.4, false, 0.4),
    ("migration, hall rate huge but off", true, 0.4, false, 1e6),
    ("hall migration", false, 0.4, true, 0.4),
    ("hall migration, rate of migration huge but off", false, 1e6, true, 0.4),
    ("both off", false, 1e6, false, 1e6),
    ("migration at rate 0, hall migration", true, 0.0, true, 0.4),
    ("migration, hall migration at rate 0", true, 0.4, true, 0.0),
    ("both at rate 0", true, 0.0, true, 0.0),
    ("both", true, 0.1, true, 0.1),
];

fn migration(rep: &Report, c: &Cfg, step: usize, kind: usize) {
    let (kname, on, frac, hof_on, hof_frac) = KINDS[kind];
    let off = |e: &mut Engine| {
        let o = e.verif_options_mut();
        o.migration = false;
        o.hof_migration = false;
    };
    // Cycles before the one under study run without migration in two thirds of the cases.
    let prelude_migrates = c.o.seed % 3 == 0;
    // The members offered by each population: the best of it as it was last evolved.
    let mut offers: Vec<Vec<Member>> = Vec::new();
    let mut turn = 0;
    let mut evolved: Vec<Member> = Vec::new();
    let mut untouched: Vec<Vec<String>> = Vec::new();
    let mut front: Vec<Member> = Vec::new();
    let mut born = 0;
    let mut draws = 0;
    let advance = |e: &mut Engine, upto: usize, see: &mut dyn FnMut(usize, &Engine, &Engine)| {
        // Each cycle is run twice from the start: without migration to see what evolved, then as configured.
        for k in 0..upto {
            if prelude_migrates {
                let mut shadow = engine(c);
                shadow.step(k);
                let before: Vec<u64> = states(&shadow).iter().map(|s| s.seed).collect();
                off(&mut shadow);
                shadow.step(1);
                let i = states(&shadow).iter().zip(&before).position(|(a, b)| a.seed != *b).unwrap_or(0);
                e.step(1);
                see(i, &shadow, e);
            } else {
                let before: Vec<u64> = states(e).iter().map(|s| s.seed).collect();
                off(e);
                e.step(1);
                let i = states(e).iter().zip(&before).position(|(a, b)| a.seed != *b).unwrap_or(0);
                see(i, e, e);
            }
        }
    };
    {
        let mut e = engine(c);
        offers.extend(states(&e).iter().map(|s| top_of(&s.members, c.o.topn)));
        advance(&mut e, step, &mut |i, shadow, _| offers[i] = top_of(&states(shadow)[i].members, c.o.topn));
    }
    // The cycle under study without migration: what evolved, and how many choices it takes.
    let window = mc::Config { f64_menu: vec![0.1, if kname == "both" { 0.9 } else { 0.8 }], int_cap: 64, max_depth: usize::MAX >> 1, max_runs: tier(20_000, 200_000) };
    let prepare = || {
        mc::suspended(|| {
            let mut e = engine(c);
            advance(&mut e, step, &mut |_, _, _| {});
            e
        })
    };
    let s = mc::explore_window(&window, usize::MAX >> 1, c.o.seed, || {
        let mut e = prepare();
        off(&mut e);
        let before = states(&e);
        e.step(1);
        let after = states(&e);
        turn = (0..after.len()).find(|&i| before[i].next_birth != after[i].next_birth || !before[i].members.iter().map(fingerprint).eq(after[i].members.iter().map(fingerprint))).unwrap_or(usize::MAX);
        if turn == usize::MAX {
            return false;
        }
        evolved = after[turn].members.clone();
        untouched = after.iter().map(|p| p.members.iter().map(fingerprint).collect()).collect();
        born = after[turn].next_birth;
        front = e.hall_of_fame().pareto_front();
        offers[turn] = top_of(&evolved, c.o.topn);
        false
    });
    if turn == usize::MAX {
        return;
    }
    draws += s.choices;
    let others: Vec<Member> = (0..offers.len()).filter(|i| *i != turn).flat_map(|i| offers[i].iter().cloned()).collect();
    let migrants: Vec<&Member> = if on && frac > 0.0 { others.iter().collect() } else { Vec::new() };
    let heroes: Vec<&Member> = if hof_on && hof_frac > 0.0 { front.iter().collect() } else { Vec::new() };
    let what = format!("{}, cycle {step} (population {turn}), {kname}", c.name);
    let mut used: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut most = 0;
    let s = mc::explore_window(&window, draws as usize, c.o.seed, || {
        let mut e = prepare();
        let o = e.verif_options_mut();
        (o.migration, o.fraction_replaced, o.hof_migration, o.fraction_replaced_hof) = (on, frac, hof_on, hof_frac);
        let r = catching(|| {
            e.step(1);
        });
        rep.valid(1);
        if let Err(p) = r {
            rep.violation(format!("panic:{}", short(&p)), format!("{what}: {p}"));
            return false;
        }
        let after = states(&e);
        let mut bad = String::new();
        let mut births = BTreeSet::new();
        let mut replaced = 0;
        for (i, p) in after.iter().enumerate() {
            if i != turn && !p.members.iter().map(fingerprint).eq(untouched[i].iter().cloned()) {
                bad = format!("population {i} changed as well");
            }
        }
        if after[turn].members.len() != evolved.len() {
            bad = format!("the population has {} members", after[turn].members.len());
        }
        for (k, m) in after[turn].members.iter().enumerate() {
            if fingerprint(m) == untouched[turn][k] {
                continue;
            }
            replaced += 1;
            let copy_of = |s: &Member| {
                m.parent == Some(s.id) && expr_key(&m.expr) == expr_key(&s.expr) && m.complexity == s.complexity && m.loss.to_bits() == s.loss.to_bits() && m.cost.to_bits() == s.cost.to_bits()
            };
            let from = migrants.iter().chain(&heroes).position(|s| copy_of(s));
            match from {
                Some(f) => {
                    used.insert((k, f));
                }
                None => bad = format!("place {k} holds {} (parent {:?}), which is no copy of a migrant", show(&m.expr), m.parent),
            }
            if m.birth < born || !births.insert(m.birth) || m.id.0 == m.parent.map_or(u64::MAX, |p| p.0) {
                bad = format!("the migrant at {k} has birth {} and id {}", m.birth, m.id.0);
            }
        }
        most = most.max(replaced);
        rep.check(bad.is_empty(), || "migration".into(), || format!("{what}: choices {:?} after {draws}: {bad}", mc::trace()));
        bad.is_empty() && !rep.stop()
    });
    rep.state(used.len() as u64 + 1);
    rep.trans(s.choices);
    if s.capped {
        rep.not_exhaustive();
        rep.note("cycles with more outcomes than explored", 1);
        return;
    }
    if rep.stop() {
        return;
    }
    rep.sample(|| format!("{what}: {} outcomes, {} (place, source) pairs seen", s.runs, used.len()));
    // Every source reaches every place.
    let sources: Vec<&&Member> = migrants.iter().chain(&heroes).collect();
    for place in 0..evolved.len() {
        for (f, s) in sources.iter().enumerate() {
            // Sources equal to an earlier one count as that one.
            let first = sources.iter().position(|t| t.id == s.id).unwrap_or(f);
            if !used.contains(&(place, first)) {
                rep.violation("migrants", format!("{what}: no choice brings {} (from {}) to place {place}", show(&s.expr), if f < migrants.len() { "another population" } else { "the hall of fame" }));
                return;
            }
        }
    }
    rep.check(sources.is_empty() == (most == 0), || "migrants".into(), || format!("{what}: {} sources, {most} replaced", sources.len()));
}

// ---------------------------------------------------------------- C46

pub fn c46(rep: &Report) {
    let operators = ops(&[("neg", 1), ("cos", 1), ("log", 1), ("add", 2), ("mul", 2)]);
    let (neg, add, mul, cos, log) = (op("neg", 1), op("add", 2), op("mul", 2), op("cos", 1), op("log", 1));
    let o2 = |o: OpId, a: Tr, b: Tr| Tr::O(o.arity, o.id, vec![a, b]);
    let o1 = |o: OpId, a: Tr| Tr::O(o.arity, o.id, vec![a]);
    // Members that simplify, that improve when optimised, both, or neither.
    let pool: Vec<Tr> = vec![
        Tr::V(0),
        o2(add, Tr::V(1), c(2.5)),
        o2(mul, c(2.0), c(0.75)),
        o2(add, o2(add, Tr::V(0), c(1.0)), c(3.0)),
        o1(cos, Tr::V(1)),
        o1(neg, o2(mul, c(-1.5), Tr::V(0))),
        o2(add, o2(mul, c(0.1), Tr::V(1)), o2(mul, c(4.0), Tr::V(1))),
        o1(cos, o2(mul, c(3.0), Tr::V(1))),
        o1(neg, o1(neg, Tr::V(0))),
        // No finite loss.
        o2(mul, o2(add, c(1.0), c(2.0)), o1(log, o1(neg, o2(mul, Tr::V(0), Tr::V(0))))),
    ];
    let n = pool.len();
    let mut lists: Vec<Vec<usize>> = Vec::new();
    for a in 0..n {
        lists.push(vec![a]);
        for b in 0..n {
            lists.push(vec![a, b]);
            for d in 0..n {
                lists.push(vec![a, b, d]);
                if thorough() {
                    for g in 0..n {
                        lists.push(vec![a, b, d, g]);
                    }
                }
            }
        }
    }
    let mut work = Vec::new();
    for simplify in [false, true] {
        for (opt, prob) in [(false, 1.0), (true, 0.0), (true, 0.3), (true, 0.5), (true, 1.0)] {
            for batch in [0usize, 2, 6, 9] {
                for setup in 0..tier(3usize, 6) {
                    work.push((simplify, opt, prob, batch, setup));
                }
            }
        }
    }
    let items: Vec<(usize, &[Vec<usize>])> = (0..work.len()).flat_map(|w| lists.chunks(64).map(move |l| (w, l))).collect();
    par_for(rep, &items, |_, &(w, lists)| {
        let (simplify, opt, prob, batch, setup) = work[w];
        let mut o = quiet_options(operators.clone());
        o.should_simplify = simplify;
        o.should_optimize_constants = opt;
        o.optimizer_probability = prob;
        o.optimizer_nrestarts = 0;
        o.optimizer_iterations = 6;
        o.parsimony = 0.02;
        o.maxsize = 12;
        let kind = [LossKind::Mse, LossKind::Mae, LossKind::Huber { delta: 0.4 }][setup % 3];
        o.loss = make_loss(kind);
        let ds = if setup % 2 == 0 { dataset(2, 6) } else { wdataset(2, 6) };
        o.use_baseline = setup < 3;
        let base = o.use_baseline.then(|| baseline_loss_from_zero_expression::<f64, B, D>(&ds, o.loss.as_ref())).flatten();
        let full = TaggedDataset::new(&ds, base);
        let part_ds = (batch > 0).then(|| {
            let mut b = Dataset::make_batch_buffer(&ds, batch);
            b.resample_from(&ds, &mut Rng::with_seed(77));
            b
        });
        let part = part_ds.as_ref().map_or(full, |b| TaggedDataset::new(b, base));
        let what = |l: &[usize]| {
            format!(
                "simplify {simplify}, optimise {opt} with probability {prob}, batch {batch}, setup {setup}, members {}",
                l.iter().map(|&i| pool[i].show()).collect::<Vec<_>>().join(", ")
            )
        };
        let stats = RunningSearchStatistics::new(o.maxsize, 1000);
        for list in lists {
            // Metrics as they are after evolution: on the batch.
            let start: Vec<Member> = list.iter().enumerate().map(|(k, &i)| evaluated(100 + k as u64, 40 + k as u64, pool[i].expr(false), &part, &o)).collect();
            // What can become of each member: simplified or not, then optimised or not.
            let alone = |m: &Member, optimise: bool| -> (Member, bool) {
                let mut m = m.clone();
                let mut ev = Evaluator::new(ds.n_rows);
                let mut changed = false;
                if simplify && dynamic_expressions::simplify_in_place(&mut m.expr, &ev.eval_opts) {
                    changed = true;
                    m.rebuild_plan(ds.n_features);
                }
                if optimise {
                    let mut gc = dynamic_expressions::GradContext::new(part.n_rows);
                    ev.ensure_n_rows(part.n_rows);
                    let (better, _) = optimize_constants::<f64, B, D>(
                        &mut Rng::with_seed(1),
                        &mut m,
                        OptimizeConstantsCtx { dataset: part, options: &o, evaluator: &mut ev, grad_ctx: &mut gc, next_birth: &mut 0 },
                    );
                    changed |= better;
                }
                (m, changed)
            };
            let outcomes: Vec<[(Member, bool); 2]> = start.iter().map(|m| [alone(m, false), alone(m, true)]).collect();
            // Draws around the probability, its value included.
            let menu = vec![0.0, (prob - 0.05f64).max(0.0), prob.min(0.9999), (prob + 0.05).min(0.9999)];
            let below = menu.iter().filter(|v| **v < prob).count() as f64 / menu.len() as f64;
            let mut seen: BTreeMap<Vec<bool>, f64> = BTreeMap::new();
            let cfg = mc::Config { f64_menu: menu.clone(), int_cap: 16, max_depth: 64, max_runs: 0 };
            let s = mc::explore(&cfg, || {
                let mut rng = Rng::with_seed(0);
                let mut ev = Evaluator::new(ds.n_rows);
                let mut gc = dynamic_expressions::GradContext::new(ds.n_rows);
                let (mut id, mut birth) = (5_000u64, 7_000u64);
                let mut pop = Pop::new(start.clone());
                let mut ctx = IterationCtx { rng: &mut rng, full_dataset: full, curmaxsize: o.maxsize, stats: &stats, options: &o, evaluator: &mut ev, grad_ctx: &mut gc, next_id: &mut id, next_birth: &mut birth, _ops: core::marker::PhantomData };
                let r = catching(|| optimize_and_simplify_population::<f64, B, D>(&mut pop, &mut ctx, part));
                rep.valid(1);
                let mut bad = r.err().unwrap_or_default();
                let mut which = Vec::new();
                let mut ids = BTreeSet::new();
                if pop.members.len() != start.len() {
                    bad = format!("{} members", pop.members.len());
                }
                for (k, m) in pop.members.iter().enumerate() {
                    if !bad.is_empty() {
                        break;
                    }
                    let fits = |x: &(Member, bool)| expr_key(&x.0.expr) == expr_key(&m.expr);
                    let (a, b) = (&outcomes[k][0], &outcomes[k][1]);
                    let hit = match (fits(a), fits(b)) {
                        (false, false) => {
                            bad = format!("member {k} became {}; expected {} or, optimised, {}", show(&m.expr), show(&a.0.expr), show(&b.0.expr));
                            break;
                        }
                        (true, false) => a,
                        _ => b,
                    };
                    if !(fits(a) && fits(b)) {
                        which.push(fits(b));
                    }
                    if let Err(e) = truthful(m, &ds, base, &o, kind, 1e-9) {
                        bad = format!("member {k}: {e}");
                    }
                    let was = &start[k];
                    let old = expr_key(&m.expr) == expr_key(&was.expr);
                    if old && !hit.1 && (m.id, m.parent, m.birth) != (was.id, was.parent, was.birth) {
                        bad = format!("member {k} is as it was, but its id, parent and birth are {:?} {:?} {}", m.id, m.parent, m.birth);
                    }
                    if !old && (m.id.0 < 5_000 || m.parent.is_none_or(|p| p == m.id)) {
                        bad = format!("member {k} changed, but its id and parent are {:?} {:?}", m.id, m.parent);
                    }
                    if !ids.insert(m.id.0) {
                        bad = format!("two members have the id {}", m.id.0);
                    }
                }
                *seen.entry(which).or_insert(0.0) += mc::weight();
                rep.check(bad.is_empty(), || "end of iteration".into(), || format!("{}: choices {:?} of {menu:?}: {bad}", what(list), mc::trace()));
                !rep.stop()
            });
            rep.state(seen.len() as u64);
            rep.trans(s.choices);
            // Each member that optimisation improves is improved with the probability given, on its own.
            let p = if opt && prob > 0.0 { below } else { 0.0 };
            for (which, weight) in &seen {
                let want: f64 = which.iter().map(|b| if *b { p } else { 1.0 - p }).product();
                rep.check(rep.stop() || (want - weight).abs() < 1e-9, || "probability".into(), || format!("{}: of the improvable members {which:?} are optimised with probability {weight}, expected {want}", what(list)));
            }
            rep.sample(|| format!("{}: {} executions, optimised subsets {:?}", what(list), s.runs, seen.keys().collect::<Vec<_>>()));
        }
    });
    rep.note("lists of members", lists.len() as u64);
}
