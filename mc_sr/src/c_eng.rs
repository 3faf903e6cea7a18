//! C27-C31, C35, C36, C41: the search as a whole.
use super::c_f32;
use super::common::*;
use rayon::mc as sched;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use symbolic_regression::{equation_search, SearchResult as SR};

pub type Res = SR<f64, B, D>;

/// A search: options, data, and the loss the options hold.
#[derive(Clone)]
pub struct Cfg {
    pub name: String,
    pub o: Opts,
    pub ds: Dataset<f64>,
    pub kind: LossKind,
}

type Vary = (&'static str, Box<dyn Fn(&mut Cfg) + Send + Sync>);

pub fn base() -> Cfg {
    let mut o = quiet_options(ops(&[("neg", 1), ("cos", 1), ("add", 2), ("mul", 2)]));
    if OWN {
        o.operators.push(op("join", 4));
    }
    o.populations = 2;
    o.population_size = 4;
    o.niterations = 2;
    o.ncycles_per_iteration = 3;
    o.maxsize = 7;
    o.maxdepth = 7;
    o.tournament_selection_n = 2;
    o.crossover_probability = 0.3;
    o.optimizer_probability = 0.4;
    o.optimizer_nrestarts = 1;
    o.optimizer_iterations = 3;
    o.fraction_replaced = 0.5;
    o.fraction_replaced_hof = 0.4;
    o.topn = 2;
    o.parsimony = 0.01;
    o.use_frequency = true;
    o.use_frequency_in_tournament = true;
    o.annealing = true;
    o.mutation_weights.mutate_constant = 1.0;
    o.mutation_weights.mutate_operator = 1.0;
    o.mutation_weights.insert_node = 1.0;
    Cfg { name: "base".into(), o, ds: dataset(2, 5), kind: LossKind::Mse }
}

fn set_loss(c: &mut Cfg, k: LossKind) {
    c.kind = k;
    c.o.loss = make_loss(k);
}

pub fn variations() -> Vec<Vary> {
    let mut v: Vec<Vary> = Vec::new();
    macro_rules! vary {
        ($($n:literal => |$c:ident| $b:expr;)*) => { $( v.push(($n, Box::new(|$c: &mut Cfg| { $b; }))); )* };
    }
    vary! {
        "1 population" => |c| c.o.populations = 1;
        "3 populations" => |c| c.o.populations = 3;
        "2 members" => |c| c.o.population_size = 2;
        "7 members" => |c| c.o.population_size = 7;
        "1 iteration" => |c| c.o.niterations = 1;
        "3 iterations" => |c| c.o.niterations = 3;
        "1 cycle" => |c| c.o.ncycles_per_iteration = 1;
        "8 cycles" => |c| c.o.ncycles_per_iteration = 8;
        "batches of 2" => |c| { c.o.batching = true; c.o.batch_size = 2 };
        "batches of 9" => |c| { c.o.batching = true; c.o.batch_size = 9 };
        "weights" => |c| { let n = c.ds.n_rows; c.ds = Dataset::with_weights_and_names(c.ds.x.clone(), c.ds.y.clone(), Some(weights(n)), Vec::new()) };
        "absolute loss" => |c| set_loss(c, LossKind::Mae);
        "root mean square" => |c| set_loss(c, LossKind::Rmse);
        "log-cosh" => |c| set_loss(c, LossKind::LogCosh);
        "huber" => |c| set_loss(c, LossKind::Huber { delta: 0.5 });
        "no annealing" => |c| c.o.annealing = false;
        "no frequency" => |c| c.o.use_frequency = false;
        "no frequency in tournaments" => |c| c.o.use_frequency_in_tournament = false;
        "warmup 0.4" => |c| c.o.warmup_maxsize_by = 0.4;
        "warmup 1" => |c| c.o.warmup_maxsize_by = 1.0;
        "no migration" => |c| c.o.migration = false;
        "no hall migration" => |c| c.o.hof_migration = false;
        "heavy migration" => |c| { c.o.fraction_replaced = 2.0; c.o.fraction_replaced_hof = 2.0 };
        "crossover only" => |c| c.o.crossover_probability = 1.0;
        "mutation only" => |c| c.o.crossover_probability = 0.0;
        "no constant optimisation" => |c| c.o.should_optimize_constants = false;
        "constants always optimised" => |c| { c.o.optimizer_probability = 1.0; c.o.optimizer_iterations = 8 };
        "no simplification" => |c| c.o.should_simplify = false;
        "failures replace" => |c| c.o.skip_mutation_failures = false;
        "no parsimony" => |c| c.o.parsimony = 0.0;
        "strong parsimony" => |c| c.o.parsimony = 1.0;
        "no baseline" => |c| c.o.use_baseline = false;
        "maximum size 1" => |c| c.o.maxsize = 1;
        "maximum size 3" => |c| c.o.maxsize = 3;
        "maximum size 12" => |c| c.o.maxsize = 12;
        "maximum depth 2" => |c| c.o.maxdepth = 2;
        "tournaments of 1" => |c| c.o.tournament_selection_n = 1;
        "tournaments of 4, p 0.5" => |c| { c.o.tournament_selection_n = 4; c.o.tournament_selection_p = 0.5 };
        "argument limits" => |c| { c.o.op_constraints.set_op_arg_constraint(op("mul", 2), 0, 1); c.o.op_constraints.set_op_arg_constraint(op("mul", 2), 1, 3); };
        "nesting limits" => |c| { c.o.nested_constraints.limits.insert(op("cos", 1), vec![(op("cos", 1), 0), (op("neg", 1), 1)].into_iter().collect()); };
        "costly constants" => |c| { c.o.complexity_of_constants = 2; c.o.operator_complexity_overrides.insert(op("cos", 1), 3); };
        "free variables" => |c| c.o.variable_complexities = Some(vec![0, 2]);
        "unary operators" => |c| c.o.operators = ops(&[("neg", 1), ("cos", 1)]);
        "binary operators" => |c| c.o.operators = ops(&[("add", 2), ("sub", 2)]);
        "ternary operator" => |c| c.o.operators.push(op("fma", 3));
        "partial operators" => |c| c.o.operators = ops(&[("log", 1), ("sqrt", 1), ("div", 2), ("exp", 1)]);
        "simplifying mutations" => |c| c.o.mutation_weights.simplify = 20.0;
        "optimising mutations" => |c| c.o.mutation_weights.optimize = 10.0;
        "randomising mutations" => |c| c.o.mutation_weights.randomize = 20.0;
        "constant mutations" => |c| { c.o.mutation_weights.mutate_constant = 30.0; c.o.perturbation_factor = 2.0 };
        "1 feature" => |c| { let n = c.ds.n_rows; c.ds = dataset(1, n) };
        "1 row" => |c| { let n = c.ds.n_features; c.ds = dataset(n, 1) };
        "exact fit" => |c| { let y = c.ds.x.row(0).mapv(|v: f64| v.cos()); c.ds.y = y };
        "zero targets" => |c| c.ds.y.fill(0.0);
        "large targets" => |c| c.ds.y.mapv_inplace(|v| v * 1e160);
        "top 1" => |c| c.o.topn = 1;
    }
    if OWN {
        // Operators whose set declares their complexity.
        vary! {
            "declared complexities" => |c| { c.o.operators.push(op("half", 1)); c.o.operators.push(op("mean", 2)) };
            "declared complexities, one overridden" => |c| { c.o.operators.push(op("half", 1)); c.o.operators.push(op("mean", 2)); c.o.operator_complexity_overrides.insert(op("mean", 2), 1); };
            "declared complexities, costly constants" => |c| { c.o.operators = ops(&[("half", 1), ("mean", 2), ("join", 4)]); c.o.complexity_of_constants = 2; c.o.maxsize = 12 };
            "declared complexities, argument limits" => |c| { c.o.operators = ops(&[("half", 1), ("mean", 2)]); c.o.op_constraints.set_op_arg_constraint(op("mean", 2), 0, 3); c.o.maxsize = 12 };
        }
    }
    v
}

/// Base, every single variation and (optionally) every pair, each with every seed.
pub fn grid(pairs: bool, seeds: u64) -> Vec<Cfg> {
    let vs = variations();
    let mut out = vec![base()];
    for (n, f) in &vs {
        let mut c = base();
        f(&mut c);
        c.name = n.to_string();
        out.push(c);
    }
    if pairs && (!OWN || thorough()) {
        for i in 0..vs.len() {
            for j in i + 1..vs.len() {
                let mut c = base();
                (vs[i].1)(&mut c);
                (vs[j].1)(&mut c);
                c.name = format!("{}, {}", vs[i].0, vs[j].0);
                out.push(c);
            }
        }
    }
    out.into_iter()
        .flat_map(|c| {
            (0..seeds).map(move |s| {
                let mut c = c.clone();
                c.o.seed = s * 7 + 1;
                c.name = format!("{} (seed {})", c.name, c.o.seed);
                c
            })
        })
        .collect()
}

pub fn engine(c: &Cfg) -> Engine {
    Engine::new(c.ds.clone(), c.o.clone())
}

pub fn baseline(c: &Cfg) -> Option<f64> {
    c.o.use_baseline.then(|| baseline_loss_from_zero_expression::<f64, B, D>(&c.ds, c.o.loss.as_ref())).flatten()
}

fn hall_print(h: &Hall) -> String {
    h.best_by_complexity.iter().map(|m| m.as_ref().map(fingerprint).unwrap_or_default()).collect::<Vec<_>>().join("\n")
}

pub fn result_print(r: &Res) -> String {
    format!("{}\nbest {}", hall_print(&r.hall_of_fame), fingerprint(&r.best))
}

fn engine_print(e: &Engine) -> String {
    format!("{}\nbest {}", hall_print(e.hall_of_fame()), fingerprint(e.best()))
}

fn full_print(e: &Engine) -> String {
    let pops: Vec<String> = e.verif_populations().iter().map(|p| p.iter().map(fingerprint).collect::<Vec<_>>().join("\n")).collect();
    format!("{}\n{} evaluations, {} of {} cycles\n{}", engine_print(e), e.total_evals(), e.cycles_completed(), e.total_cycles(), pops.join("\n--\n"))
}

// ---------------------------------------------------------------- monitors

pub const TRUTH: u8 = 1;
pub const MONOTONE: u8 = 2;
pub const IDS: u8 = 4;
pub const LIMITS: u8 = 8;

/// What a search shows of itself.
pub struct View<'v> {
    pub pops: Vec<Vec<&'v Member>>,
    pub hall: Vec<Option<&'v Member>>,
    pub best: &'v Member,
    pub front: Vec<&'v Member>,
}

pub struct Monitor<'a> {
    c: &'a Cfg,
    what: u8,
    baseline: Option<f64>,
    ids: BTreeMap<u64, (Vec<PNode>, Vec<u64>)>,
    hall: Vec<Option<(u64, f64)>>,
    best: Option<(f64, bool)>,
    steps: usize,
    pub seen: u64,
}

impl<'a> Monitor<'a> {
    pub fn new(c: &'a Cfg, what: u8) -> Self {
        Monitor { c, what, baseline: baseline(c), ids: BTreeMap::new(), hall: Vec::new(), best: None, steps: 0, seen: 0 }
    }

    /// Size limit in force during the step that has just completed.
    fn limit(&self) -> usize {
        let o = &self.c.o;
        if self.steps == 0 || !(o.warmup_maxsize_by > 0.0) {
            return o.maxsize;
        }
        let total = o.niterations * o.populations;
        get_cur_maxsize(o, total, total + 1 - self.steps)
    }

    pub fn wants_truth(&self) -> bool {
        self.what & TRUTH != 0
    }

    pub fn look(&mut self, e: &Engine) -> Result<(), String> {
        let front = e.hall_of_fame().pareto_front();
        let view = View {
            pops: e.verif_populations().iter().map(|p| p.iter().collect()).collect(),
            hall: e.hall_of_fame().best_by_complexity.iter().map(|m| m.as_ref()).collect(),
            best: e.best(),
            front: front.iter().collect(),
        };
        let (c, b) = (self.c, self.baseline);
        self.look_at(&view, &|m| truthful(m, &c.ds, b, &c.o, c.kind, 1e-9))
    }

    pub fn look_at(&mut self, view: &View, truth: &dyn Fn(&Member) -> Result<(), String>) -> Result<(), String> {
        let View { pops, hall, best, front } = view;
        let best: &Member = best;
        let (o, ds) = (&self.c.o, &self.c.ds);
        let entries = || hall.iter().enumerate().filter_map(|(c, m)| m.map(|m| (c, m)));
        let everyone = || pops.iter().flat_map(|p| p.iter().copied()).chain(hall.iter().copied().flatten()).chain(std::iter::once(best));
        if self.what & TRUTH != 0 {
            for m in everyone() {
                self.seen += 1;
                truth(m)?;
            }
            for (c, m) in entries() {
                if m.complexity != c {
                    return Err(format!("hall of fame: {} of complexity {} listed under {c}", show(&m.expr), m.complexity));
                }
            }
            if hall.len() != o.maxsize + 1 {
                return Err(format!("hall of fame for sizes up to {}", hall.len()));
            }
        }
        if self.what & IDS != 0 {
            for m in everyone() {
                self.seen += 1;
                let k = expr_key(&m.expr);
                if let Some(old) = self.ids.get(&m.id.0) {
                    if *old != k {
                        return Err(format!("id {} names {:?} {:?} and {:?} {:?}", m.id.0, old.0, old.1, k.0, k.1));
                    }
                } else {
                    self.ids.insert(m.id.0, k);
                }
                if m.parent == Some(m.id) {
                    return Err(format!("id {} is its own parent", m.id.0));
                }
            }
            for (i, p) in pops.iter().enumerate() {
                if p.len() != o.population_size {
                    return Err(format!("population {i} has {} members", p.len()));
                }
                let b: BTreeSet<u64> = p.iter().map(|m| m.birth).collect();
                if self.steps == 0 && b.len() != p.len() {
                    return Err(format!("population {i}: births {b:?}"));
                }
            }
        }
        let limit = self.limit();
        if self.what & LIMITS != 0 {
            let cheap = |m: &Member| -> Result<bool, String> {
                let t = parse(&m.expr)?;
                Ok(ref_constraints(&t, o, o.maxsize))
            };
            for (c, m) in entries() {
                self.seen += 1;
                let t = well_formed(&m.expr, &o.operators, ds.n_features)?;
                if !ref_constraints(&t, o, o.maxsize) {
                    return Err(format!("hall of fame: {} violates the constraints", t.show()));
                }
                let new = self.hall.get(c).copied().flatten().map(|p| p.0) != Some(m.id.0);
                if new && !ref_constraints(&t, o, limit) {
                    return Err(format!("hall of fame: {} entered while the size limit was {limit}", t.show()));
                }
            }
            well_formed(&best.expr, &o.operators, ds.n_features)?;
            if !cheap(best)? && entries().next().is_some() {
                return Err(format!("best is {}, which violates the constraints; the hall of fame has members that satisfy them", show(&best.expr)));
            }
            for p in pops.iter() {
                for m in p.iter() {
                    well_formed(&m.expr, &o.operators, ds.n_features)?;
                }
            }
        }
        if self.what & MONOTONE != 0 {
            for (c, old) in self.hall.iter().enumerate() {
                let Some((id, cost)) = old else { continue };
                match hall.get(c).copied().flatten() {
                    None => return Err(format!("hall of fame: the entry of complexity {c} is gone")),
                    Some(m) if m.id.0 != *id && !(m.cost < *cost) => {
                        return Err(format!("hall of fame: complexity {c}: cost {cost} replaced by {}", m.cost))
                    }
                    Some(m) if m.id.0 == *id && m.cost.to_bits() != cost.to_bits() => {
                        return Err(format!("hall of fame: complexity {c}: the same entry, but its cost changed from {cost} to {}", m.cost))
                    }
                    _ => {}
                }
            }
            let ok = ref_constraints(&parse(&best.expr)?, o, o.maxsize);
            if let Some((loss, was_ok)) = self.best {
                if was_ok && (!ok || best.loss > loss) {
                    return Err(format!("best went from loss {loss} to {} ({})", best.loss, show(&best.expr)));
                }
            }
            for (c, m) in entries() {
                self.seen += 1;
                if ok && m.loss < best.loss {
                    return Err(format!("best has loss {}, the hall of fame's {} of complexity {c} has {}", best.loss, show(&m.expr), m.loss));
                }
            }
            // Nothing that lives and satisfies the constraints is better than the hall's entry of its size.
            for m in pops.iter().flat_map(|p| p.iter()) {
                self.seen += 1;
                let t = parse(&m.expr)?;
                // (During warmup, what the first limit admits; later ones apply when its population is next evolved.)
                let first = if o.warmup_maxsize_by > 0.0 { o.maxsize.min(3) } else { o.maxsize };
                if m.complexity == 0 || !ref_constraints(&t, o, first) {
                    continue;
                }
                match &hall[m.complexity] {
                    None => return Err(format!("{} is alive, but the hall of fame has nothing of complexity {}", t.show(), m.complexity)),
                    Some(h) if m.cost < h.cost => {
                        return Err(format!("{} of cost {} is alive, the hall of fame's {} costs {}", t.show(), m.cost, show(&h.expr), h.cost))
                    }
                    _ => {}
                }
            }
            let mut last = f64::INFINITY;
            let mut at = 0;
            for m in front {
                if m.complexity < at || !(m.loss < last) {
                    return Err("the Pareto front is not a front".into());
                }
                at = m.complexity;
                last = m.loss;
            }
            for (c, m) in entries() {
                let covered = m.loss == f64::INFINITY || m.loss.is_nan() || front.iter().any(|f| f.complexity <= c && f.loss <= m.loss);
                if !covered {
                    return Err(format!("{} is not covered by the Pareto front", show(&m.expr)));
                }
            }
            self.best = Some((best.loss, ok));
        }
        self.hall = hall.iter().map(|m| m.map(|m| (m.id.0, m.cost))).collect();
        self.steps += 1;
        Ok(())
    }
}

/// Every configuration, cycle by cycle, and every resolution of a window of random choices.
fn watch(rep: &Report, what: u8) {
    rep.assume("finite data, at least one feature and one row, populations of at least two members, the do-nothing mutation has a positive weight");
    let mut cfgs = grid(true, tier(3, 24));
    if what & IDS != 0 && !OWN {
        // Long searches and large populations: every counter runs far.
        for (pops, size, iters, cycles) in [(3usize, 4usize, 2usize, 40_000usize), (2, 700, 2, 60), (5, 30, 6, 400), (12, 5, 3, 300), (40, 5, 3, 3), (300, 4, 2, 2)] {
            for crossover in [0.0, 0.5, 1.0] {
                let mut c = base();
                c.o.populations = pops;
                c.o.population_size = size;
                c.o.niterations = iters;
                c.o.ncycles_per_iteration = cycles;
                c.o.crossover_probability = crossover;
                c.o.optimizer_probability = 0.02;
                c.name = format!("long search: {pops} populations of {size}, {iters} iterations of {cycles} cycles, crossover {crossover}");
                cfgs.insert(0, c);
            }
        }
        // Every member that ever lived is seen, through more than 2^16 of them in each population.
        let mut c = base();
        (c.o.populations, c.o.population_size, c.o.niterations, c.o.ncycles_per_iteration) = (2, 2, 45_000, 1);
        c.o.crossover_probability = 1.0;
        c.o.maxsize = 12;
        (c.o.should_optimize_constants, c.o.should_simplify, c.o.migration, c.o.hof_migration) = (false, false, false, false);
        c.name = "45000 iterations of one crossover".into();
        cfgs.insert(0, c);
    }
    par_for(rep, &cfgs, |_, c| {
        let mut mon = Monitor::new(c, what);
        let mut e = match catching(|| engine(c)) {
            Ok(e) => e,
            Err(p) => {
                rep.violation(format!("panic:{}", short(&p)), format!("{}: starting: {p}", c.name));
                return;
            }
        };
        loop {
            rep.state(1);
            if let Err(t) = mon.look(&e) {
                rep.violation("search", format!("{}: after {} of {} cycles: {t}", c.name, e.cycles_completed(), e.total_cycles()));
                return;
            }
            match catching(|| e.step(1)) {
                Ok(1) => rep.trans(1),
                Ok(_) => break,
                Err(p) => {
                    rep.violation(format!("panic:{}", short(&p)), format!("{}: after {} cycles: {p}", c.name, e.cycles_completed()));
                    return;
                }
            }
        }
        rep.valid(mon.seen);
        if c.name.contains("batch") || c.name.contains("weights") || c.o.populations > 1 {
            rep.sample(|| format!("{}: {} of {} cycles, {} members inspected, best {} of loss {}", c.name, e.cycles_completed(), e.total_cycles(), mon.seen, show(&e.best().expr), e.best().loss));
        }
    });
    rep.note("configurations", cfgs.len() as u64);
    // The same in single precision.
    let narrow: Vec<Cfg> = grid(thorough(), tier(6, 2)).into_iter().filter(c_f32::fits32).collect();
    par_for(rep, &narrow, |_, c| {
        let mut mon = Monitor::new(c, what);
        let d = c_f32::ds32(&c.ds);
        let b = c_f32::baseline32(&d, &c_f32::opts32(&c.o, c.kind));
        let r = catching(|| {
            let mut e = c_f32::engine32(c);
            loop {
                rep.state(1);
                if let Err(t) = c_f32::look32(&mut mon, c, &e, &d, b) {
                    return Some((e.cycles_completed(), t));
                }
                if e.step(1) == 0 {
                    return None;
                }
                rep.trans(1);
            }
        });
        rep.valid(mon.seen);
        match r {
            Ok(None) => {}
            Ok(Some((k, t))) => rep.violation("search32", format!("{} in single precision: after {k} cycles: {t}", c.name)),
            Err(p) => rep.violation(format!("panic32:{}", short(&p)), format!("{} in single precision: {p}", c.name)),
        }
    });
    rep.note("configurations in single precision", narrow.len() as u64);
    // All resolutions of the random choices in a window of the search.
    let tiny = tiny_cfgs();
    let window = tier(8usize, 10);
    let mut work = Vec::new();
    for c in &tiny {
        for salt in 0..if OWN { 1 } else { tier(2u64, 4) } {
            for skip in (0..if OWN { 40 } else { tier(60usize, 120) }).step_by(window) {
                work.push((c, salt, skip));
            }
        }
    }
    par_for(rep, &work, |_, &(c, salt, skip)| {
        let cfg = mc::Config { f64_menu: vec![0.02, 0.6], int_cap: 6, max_depth: window, max_runs: 0 };
        let s = mc::explore_window(&cfg, skip, salt, || {
            let mut mon = Monitor::new(c, what);
            let r = catching(|| {
                // The initial population is the same in every run of this window.
                let mut e = mc::suspended(|| engine(c));
                loop {
                    if let Err(t) = mc::suspended(|| mon.look(&e)) {
                        return Some(t);
                    }
                    if e.step(1) == 0 {
                        return None;
                    }
                }
            });
            rep.valid(1);
            match r {
                Ok(None) => {}
                Ok(Some(t)) => rep.violation("search", format!("{}: background {salt}, choices {:?} from draw {skip} on: {t}", c.name, mc::trace())),
                Err(p) => rep.violation(format!("panic:{}", short(&p)), format!("{}: background {salt}, choices {:?} from draw {skip} on: {p}", c.name, mc::trace())),
            }
            !rep.stop()
        });
        rep.state(s.runs);
        rep.trans(s.choices);
        rep.note("executions with enumerated choices", s.runs);
    });
}

fn tiny_cfgs() -> Vec<Cfg> {
    let mut out = Vec::new();
    for (i, batch) in [(0u64, false), (1, true)] {
        let mut c = base();
        c.o.seed = 3 + i;
        c.o.populations = 2;
        c.o.population_size = 3;
        c.o.niterations = 1;
        c.o.ncycles_per_iteration = 1;
        c.o.maxsize = 5;
        c.o.operators = if OWN { ops(&[("cos", 1), ("join", 4)]) } else { ops(&[("cos", 1), ("add", 2)]) };
        c.o.optimizer_iterations = 2;
        c.o.batching = batch;
        c.o.batch_size = 2;
        c.ds = dataset(1, 3);
        c.name = format!("tiny search{}", if batch { ", batches" } else { "" });
        let mut d = c.clone();
        out.push(c);
        d.o.mutation_weights = zero_weights();
        d.o.mutation_weights.do_nothing = 0.5;
        d.o.mutation_weights.simplify = 1.0;
        d.o.mutation_weights.add_node = 1.0;
        d.o.mutation_weights.delete_node = 1.0;
        d.o.mutation_weights.optimize = 1.0;
        d.o.warmup_maxsize_by = 0.5;
        d.name = format!("{}, few mutations, warmup", d.name);
        out.push(d);
    }
    out
}

pub fn c30(rep: &Report) {
    watch(rep, TRUTH);
}

pub fn c31(rep: &Report) {
    watch(rep, MONOTONE);
    iterations(rep);
}

/// An iteration against its cycles taken one by one: their number, their temperatures, and the
/// best of every generation.
pub fn iterations(rep: &Report) {
    // What lived only in the middle of an iteration counts too: the cycle reports the best of
    // every generation, whichever way it steps through them.
    let cfgs = grid(true, tier(1, 6));
    par_for(rep, &cfgs, |_, c| {
        let o = &effective(&c.o);
        let tagged = TaggedDataset::new(&c.ds, baseline(c));
        let e = engine(c);
        let mut stats = RunningSearchStatistics::new(o.maxsize, 100_000);
        stats.normalize();
        for (pi, p) in e.verif_populations().iter().enumerate() {
            let limit = [o.maxsize, o.maxsize.min(3)][pi % 2];
            let mk = || (Pop::new(p.to_vec()), Rng::with_seed(o.seed + pi as u64), Evaluator::new(c.ds.n_rows), dynamic_expressions::GradContext::new(c.ds.n_rows), 5_000u64, 7_000u64);
            // Real: one iteration.
            let (mut a, mut rng, mut ev, mut gc, mut id, mut birth) = mk();
            let mut ctx = IterationCtx { rng: &mut rng, full_dataset: tagged, curmaxsize: limit, stats: &stats, options: o, evaluator: &mut ev, grad_ctx: &mut gc, next_id: &mut id, next_birth: &mut birth, _ops: core::marker::PhantomData };
            let (_, seen) = s_r_cycle::<f64, B, D>(&mut a, &mut ctx, tagged);
            // Reference: cycle by cycle with the annealing schedule; every generation considered.
            let (mut b, mut rng, mut ev, _gc, mut id, mut birth) = mk();
            let n = o.ncycles_per_iteration.max(1);
            let mut best: BTreeMap<usize, (f64, f64)> = BTreeMap::new();
            let mut consider = |p: &Pop| {
                for m in &p.members {
                    let t = parse(&m.expr).unwrap();
                    if m.complexity == 0 || m.complexity > o.maxsize || !ref_constraints(&t, o, limit) {
                        continue;
                    }
                    let b = best.entry(m.complexity).or_insert((m.cost, m.loss));
                    if m.cost < b.0 {
                        *b = (m.cost, m.loss);
                    }
                }
            };
            consider(&b);
            for i in 0..n {
                let temperature = if !o.annealing || n == 1 { 1.0 } else { 1.0 - i as f64 / (n - 1) as f64 };
                let _ = reg_evol_cycle(
                    &mut b,
                    RegEvolCtx { rng: &mut rng, dataset: tagged, temperature, curmaxsize: limit, stats: &stats, options: o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: core::marker::PhantomData },
                );
                consider(&b);
                rep.trans(1);
            }
            rep.state(1);
            rep.valid(a.members.len() as u64);
            let same = a.members.iter().map(fingerprint).eq(b.members.iter().map(fingerprint));
            rep.check(same, || "iteration".into(), || format!("{}: an iteration is not its {n} cycles with temperatures falling from 1", c.name));
            for (k, m) in seen.best_by_complexity.iter().enumerate() {
                let want = best.get(&k).copied();
                let got = m.as_ref().map(|m| (m.cost, m.loss));
                rep.check(got.map(|g| g.0.to_bits()) == want.map(|w| w.0.to_bits()), || "generations".into(), || format!("{}: best of complexity {k} over all generations is {want:?}, reported {got:?}", c.name));
            }
        }
    });
}

pub fn c35(rep: &Report) {
    watch(rep, IDS);
}

pub fn c41(rep: &Report) {
    watch(rep, LIMITS);
}

// ---------------------------------------------------------------- C27, C28

/// The parallel search with one worker.
fn serial_search(c: &Cfg) -> Result<String, String> {
    let c2 = c.clone();
    match sched::run(1, false, Box::new(|_| 0), move || result_print(&equation_search::<f64, B, D>(&c2.ds, &c2.o))) {
        (sched::Outcome::Done(r), _) => Ok(r),
        (sched::Outcome::Panicked(p), _) => Err(format!("panicked: {p}")),
        (sched::Outcome::Deadlock, _) => Err("deadlocked".into()),
    }
}

pub fn c27(rep: &Report) {
    let mut cfgs = grid(true, tier(1, 4));
    for (pops, iters, cycles) in [(5usize, 1usize, 1usize), (8, 1, 1), (6, 2, 2), (4, 3, 1), (1, 10, 1), (11, 1, 2), (2, 5, 1)] {
        for warm in [0.0, 0.5] {
            let mut c = base();
            c.o.populations = pops;
            c.o.niterations = iters;
            c.o.ncycles_per_iteration = cycles;
            c.o.warmup_maxsize_by = warm;
            c.name = format!("{pops} populations, {iters} iterations of {cycles} cycles, warmup {warm}");
            cfgs.insert(0, c);
        }
    }
    par_for(rep, &cfgs, |i, c| {
        let total = c.o.niterations * c.o.populations;
        let reference = {
            let mut e = engine(c);
            while e.step(1) == 1 {}
            (full_print(&e), engine_print(&e), e.total_evals())
        };
        // Every composition of the cycles into calls of step(), with overshoot at the end.
        for mask in 0..1u32 << (total - 1) {
            let mut e = engine(c);
            let mut calls = Vec::new();
            let mut run = 1;
            for k in 0..total {
                if k + 1 == total || mask >> k & 1 == 1 {
                    calls.push(run);
                    run = 1;
                } else {
                    run += 1;
                }
            }
            let mut done = 0;
            let mut bad = String::new();
            for (j, n) in calls.iter().enumerate() {
                let evals = e.total_evals();
                // Asking for none changes nothing.
                if mask % 3 == 1 && e.step(0) != 0 {
                    bad = "step(0) did something".into();
                }
                let ask = if j + 1 == calls.len() && mask % 2 == 1 { n + 5 } else { *n };
                let got = e.step(ask);
                done += n;
                rep.trans(*n as u64);
                if got != *n || e.cycles_completed() != done || e.total_cycles() != total || e.is_finished() != (done == total) || e.total_evals() < evals {
                    bad = format!("step({ask}) returned {got}; {} of {} cycles completed, finished: {}", e.cycles_completed(), e.total_cycles(), e.is_finished());
                }
            }
            let before = full_print(&e);
            if e.step(3) != 0 || full_print(&e) != before {
                bad = "a finished search went on".into();
            }
            if bad.is_empty() && before != reference.0 {
                bad = "the outcome differs from stepping one by one".into();
            }
            rep.state(calls.len() as u64 + 1);
            rep.valid(1);
            if calls.len() > 2 && total > 4 && mask % 7 == 3 {
                rep.sample(|| format!("{}: stepped by {calls:?}, same outcome as one by one", c.name));
            }
            rep.check(bad.is_empty(), || "steps".into(), || format!("{}: step sizes {calls:?}: {bad}", c.name));
        }
        // Partly stepped, then run to completion.
        for k in 0..=total {
            let mut e = engine(c);
            e.step(k);
            let r = e.run_to_completion();
            rep.state(1);
            rep.valid(1);
            rep.check(result_print(&r) == reference.1, || "completion".into(), || format!("{}: {k} steps and run_to_completion differ from stepping", c.name));
        }
        // The parallel search with one worker is the same search.
        if i % tier(4, 1) == 0 || i < 80 {
            let r = serial_search(c);
            rep.state(1);
            rep.valid(1);
            rep.check(r.as_ref() == Ok(&reference.1), || "serial".into(), || format!("{}: the parallel search with one worker differs from the engine{}", c.name, r.as_ref().err().map(|e| format!(": {e}")).unwrap_or_default()));
        }
    });
    // Long searches in portions of any length.
    for (pops, iters) in [(31usize, 12usize), (3, 130), (300, 1)] {
        let mut c = base();
        c.o.populations = pops;
        c.o.population_size = 3;
        c.o.niterations = iters;
        c.o.ncycles_per_iteration = 1;
        let total = pops * iters;
        let portions: Vec<usize> = [1, 2, 7, 63, 65, 100, 128, 255, 257, total - 1, total, total + 1, usize::MAX].into();
        let ends = Mutex::new(BTreeMap::new());
        par_for(rep, &portions, |_, &n| {
            let mut e = engine(&c);
            let mut done = 0;
            while done < total {
                let got = e.step(n);
                rep.trans(got as u64);
                let want = n.min(total - done);
                rep.check(got == want, || "portion".into(), || format!("{pops} populations, {iters} iterations: step({n}) after {done} cycles did {got}"));
                if got == 0 {
                    break;
                }
                done += got;
            }
            rep.state(1);
            rep.valid(1);
            rep.check(e.is_finished() && e.cycles_completed() == total, || "portion".into(), || format!("{pops} populations, {iters} iterations in portions of {n}: {} of {total} cycles", e.cycles_completed()));
            ends.lock().unwrap().insert(n, full_print(&e));
        });
        let ends = ends.into_inner().unwrap();
        rep.check(ends.values().collect::<BTreeSet<_>>().len() <= 1, || "portion".into(), || format!("{pops} populations, {iters} iterations: portions of {portions:?} end differently"));
    }
    rep.note("configurations", cfgs.len() as u64);
    let narrow: Vec<Cfg> = grid(thorough(), tier(2, 1)).into_iter().filter(c_f32::fits32).collect();
    par_for(rep, &narrow, |_, c| c_f32::portions32(rep, c));
    rep.note("configurations in single precision", narrow.len() as u64);
}

pub fn c28(rep: &Report) {
    let mut cfgs = grid(true, tier(2, 12));
    // Seeds at the ends of the range, where populations' seeds wrap around.
    for seed in [0u64, 2, 3, 1 << 31, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX] {
        for mut c in grid(false, 1) {
            c.name = format!("{} (seed {seed})", c.name.split(" (seed").next().unwrap());
            c.o.seed = seed;
            c.o.populations = c.o.populations.max(3);
            c.o.population_size = c.o.population_size.max(4);
            cfgs.push(c);
        }
    }
    let outcomes: Mutex<BTreeMap<String, BTreeMap<u64, String>>> = Mutex::new(BTreeMap::new());
    par_for(rep, &cfgs, |_, c| {
        let run = |c: &Cfg| {
            let mut e = engine(c);
            let init = full_print(&e);
            while e.step(1) == 1 {}
            (init, full_print(&e))
        };
        let a = run(c);
        // Something else in between, on this thread and with the same generator seeds.
        let mut other = c.clone();
        other.o.seed ^= 0x55;
        other.o.population_size += 1;
        let _ = run(&other);
        let b = run(c);
        let c2 = c.clone();
        let d = std::thread::spawn(move || run_in_thread(&c2)).join();
        rep.state(1);
        rep.trans(3 * (c.o.niterations * c.o.populations) as u64);
        rep.valid(2);
        rep.sample(|| format!("{}: {} cycles, twice and on another thread", c.name, c.o.niterations * c.o.populations));
        rep.check(a == b, || "repeat".into(), || format!("{}: two runs differ", c.name));
        rep.check(d.as_ref().ok() == Some(&a.1), || "thread".into(), || format!("{}: a run on another thread differs", c.name));
        // Populations draw from streams of their own.
        let e = engine(c);
        let pops = e.verif_populations();
        for i in 0..pops.len() {
            for j in i + 1..pops.len() {
                let same = pops[i].iter().map(|m| expr_key(&m.expr)).eq(pops[j].iter().map(|m| expr_key(&m.expr)));
                if same && c.o.population_size > 3 && c.o.maxsize > 3 {
                    rep.violation("streams", format!("{}: populations {i} and {j} start out equal", c.name));
                }
            }
        }
        let key = c.name.split(" (seed").next().unwrap().to_string();
        outcomes.lock().unwrap().entry(key).or_default().insert(c.o.seed, a.0);
    });
    for (k, m) in outcomes.lock().unwrap().iter() {
        let kinds: BTreeSet<&String> = m.values().collect();
        rep.check(m.len() < 2 || kinds.len() > 1 || k.contains("maximum size 1") || k.contains("maximum size 3"), || "seed".into(), || format!("{k}: {} seeds, one outcome", m.len()));
    }
    // So do many populations.
    for (seed, many) in [(0u64, 40usize), (7, 300), (u64::MAX - 20, 100)] {
        let mut c = grid(false, 1).into_iter().next().expect("a configuration");
        c.o.seed = seed;
        c.o.populations = many;
        c.o.population_size = 16;
        c.o.maxsize = 12;
        let e = engine(&c);
        let mut starts: BTreeMap<String, usize> = BTreeMap::new();
        for (i, p) in e.verif_populations().iter().enumerate() {
            let key: Vec<_> = p.iter().map(|m| expr_key(&m.expr)).collect();
            rep.state(1);
            rep.valid(1);
            if let Some(j) = starts.insert(format!("{key:?}"), i) {
                rep.violation("streams", format!("{many} populations, seed {seed}: populations {j} and {i} start out equal"));
            }
        }
    }
    // Every bit of the seed counts.
    let mut starts: BTreeMap<String, u64> = BTreeMap::new();
    for seed in std::iter::once(0u64).chain((0..64).map(|b| 1 << b)) {
        let mut c = grid(false, 1).into_iter().next().expect("a configuration");
        c.o.seed = seed;
        c.o.populations = 1;
        c.o.population_size = 16;
        c.o.maxsize = 12;
        let e = engine(&c);
        let key: Vec<_> = e.verif_populations()[0].iter().map(|m| expr_key(&m.expr)).collect();
        rep.state(1);
        rep.valid(1);
        if let Some(other) = starts.insert(format!("{key:?}"), seed) {
            rep.violation("seed-bits", format!("seeds {other} and {seed} start from the same population"));
        }
    }
    // The parallel search under a given schedule is a function of the seed as well.
    let few: Vec<Cfg> = grid(false, tier(1, 6));
    par_for(rep, &few, |_, c| {
        let mut c = c.clone();
        c.o.populations = 3;
        for script in [vec![0usize], vec![1, 0], vec![2, 1, 0, 1]] {
            let run = || {
                let (c2, s) = (c.clone(), script.clone());
                let mut k = 0;
                let strategy = Box::new(move |p: &[usize]| {
                    k += 1;
                    s[(k - 1) % s.len()] % p.len()
                });
                match sched::run(3, false, strategy, move || result_print(&equation_search::<f64, B, D>(&c2.ds, &c2.o))) {
                    (sched::Outcome::Done(r), _) => r,
                    (sched::Outcome::Panicked(p), _) => format!("panic {p}"),
                    (sched::Outcome::Deadlock, _) => "deadlock".into(),
                }
            };
            let (a, b) = (run(), run());
            rep.state(1);
            rep.valid(1);
            rep.check(a == b && a.contains("best"), || "schedule".into(), || format!("{}, schedule {script:?}: two runs differ: {}", c.name, first_difference(&a, &b)));
        }
    });
}

fn run_in_thread(c: &Cfg) -> String {
    let mut e = engine(c);
    while e.step(1) == 1 {}
    full_print(&e)
}

pub fn first_difference(a: &str, b: &str) -> String {
    a.lines().zip(b.lines()).find(|(x, y)| x != y).map(|(x, y)| format!("{x} / {y}")).unwrap_or_else(|| a.lines().last().unwrap_or("").into())
}

// ---------------------------------------------------------------- C29, C36

/// Run `f` under every schedule of its tasks. Returns the number of schedules.
pub fn schedules<R: Send + 'static>(
    threads: usize,
    in_pool: bool,
    cap: usize,
    f: impl Fn() -> R + Clone + Send + 'static,
    mut see: impl FnMut(sched::Outcome<R>, &sched::Report, &[usize]) -> bool,
) -> (usize, bool) {
    let mut path: Vec<(usize, usize)> = Vec::new();
    let mut n = 0;
    loop {
        let shared = Arc::new(Mutex::new((path.clone(), 0usize)));
        let s2 = shared.clone();
        let strategy = Box::new(move |p: &[usize]| {
            let mut g = s2.lock().unwrap();
            let at = g.1;
            g.1 += 1;
            if at < g.0.len() {
                g.0[at].1 = p.len();
                return g.0[at].0.min(p.len() - 1);
            }
            g.0.push((0, p.len()));
            0
        });
        let (out, rep) = sched::run(threads, in_pool, strategy, f.clone());
        let taken: Vec<(usize, usize)> = {
            let g = shared.lock().unwrap();
            g.0[..g.1.min(g.0.len())].to_vec()
        };
        n += 1;
        let choices: Vec<usize> = taken.iter().map(|p| p.0).collect();
        if !see(out, &rep, &choices) {
            return (n, false);
        }
        path = taken;
        loop {
            match path.pop() {
                None => return (n, true),
                Some((c, k)) if c + 1 < k => {
                    path.push((c + 1, k));
                    break;
                }
                _ => {}
            }
        }
        if n >= cap {
            return (n, false);
        }
    }
}

/// A loss that counts its evaluations and panics at the chosen one.
struct Counting {
    inner: LossObject<f64>,
    calls: Arc<AtomicUsize>,
    fail_at: usize,
    payload: u8,
}

impl LossFn<f64> for Counting {
    fn loss(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 {
        let k = self.calls.fetch_add(1, Ordering::SeqCst);
        if k == self.fail_at {
            match self.payload {
                0 => panic!("planned failure {k}"),
                1 => panic!("planned failure"),
                _ => std::panic::panic_any(17u32),
            }
        }
        self.inner.loss(yhat, y, w)
    }
    fn dloss_dyhat(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>, out: &mut [f64]) {
        self.inner.dloss_dyhat(yhat, y, w, out)
    }
}

fn counting(c: &Cfg, fail_at: usize, payload: u8) -> (Cfg, Arc<AtomicUsize>) {
    let calls = Arc::new(AtomicUsize::new(0));
    let mut c = c.clone();
    c.o.loss = Arc::new(Counting { inner: make_loss(c.kind), calls: calls.clone(), fail_at, payload });
    (c, calls)
}

pub fn independent(mut c: Cfg) -> Cfg {
    c.o.migration = false;
    c.o.hof_migration = false;
    c.o.use_frequency = false;
    c.o.use_frequency_in_tournament = false;
    c.o.warmup_maxsize_by = 0.0;
    c.name = format!("{}, populations independent", c.name);
    c
}

/// Costs by complexity, and the best loss. (Of members of equal cost the first one stays.)
fn outcome(h: &Hall, best: &Member) -> Vec<(usize, u64)> {
    let mut v: Vec<_> = h.best_by_complexity.iter().enumerate().filter_map(|(c, m)| m.as_ref().map(|m| (c, m.cost.to_bits()))).collect();
    v.push((usize::MAX, best.loss.to_bits()));
    v
}

pub fn c29(rep: &Report) {
    let facts = rayon::real_bodies_on_workers();
    assert_eq!(facts, (true, false), "the controlled scheduler misrepresents rayon");
    rep.assume("tasks share no mutable state (the compiler enforces it), so a schedule is the order in which tasks complete");
    let mut work: Vec<(Cfg, usize, bool)> = Vec::new();
    let singles = grid(false, 1);
    let shapes: &[(usize, usize, usize, bool)] = tier(
        &[(2, 3, 2, false), (3, 2, 3, false), (3, 2, 2, false), (3, 3, 2, false), (4, 1, 4, false), (2, 3, 3, true), (2, 2, 8, false), (3, 2, 1, false), (4, 1, 5, true), (5, 1, 3, false)][..],
        &[(2, 5, 2, false), (3, 3, 3, false), (3, 4, 2, false), (4, 2, 2, false), (4, 2, 4, false), (2, 4, 3, true), (2, 3, 8, false), (3, 3, 1, false), (5, 1, 6, true), (6, 1, 3, false)][..],
    );
    for (k, c) in singles.iter().enumerate() {
        if c.name.contains("population") {
            continue;
        }
        for (j, &(pops, iters, threads, in_pool)) in shapes.iter().enumerate() {
            if !thorough() && (k + j) % 4 != 0 && k > 0 {
                continue;
            }
            let mut c = c.clone();
            c.o.populations = pops;
            c.o.niterations = iters;
            c.o.ncycles_per_iteration = c.o.ncycles_per_iteration.min(2);
            work.push((c.clone(), threads, in_pool));
            work.push((independent(c), threads, in_pool));
        }
    }
    let cap = tier(4000, 40_000);
    par_for(rep, &work, |_, (c, threads, in_pool)| {
        let what = format!("{}, {} populations, {} iterations, {threads} threads{}", c.name, c.o.populations, c.o.niterations, if *in_pool { " (called inside the pool)" } else { "" });
        let free = c.name.ends_with("independent");
        let (refc, ref_calls) = counting(c, usize::MAX, 0);
        let reference = {
            let mut e = engine(&refc);
            while e.step(1) == 1 {}
            outcome(e.hall_of_fame(), e.best())
        };
        let ref_calls = ref_calls.load(Ordering::SeqCst);
        let start = {
            let e = engine(c);
            (hall_costs(e.hall_of_fame()), e.best().loss, ref_constraints(&parse(&e.best().expr).unwrap(), &c.o, c.o.maxsize))
        };
        let base = baseline(c);
        let (cc, calls) = counting(c, usize::MAX, 0);
        let c2 = Arc::new(cc);
        let distinct: std::cell::RefCell<BTreeSet<String>> = Default::default();
        let (n, complete) = schedules(
            *threads,
            *in_pool,
            cap,
            move || {
                let r = equation_search::<f64, B, D>(&c2.ds, &c2.o);
                let n = calls.swap(0, Ordering::SeqCst);
                (r, n)
            },
            |out, srep, choices| {
                rep.trans(srep.order.len() as u64);
                rep.valid(1);
                rep.note_max("most tasks in flight", srep.max_pending as u64);
                let bad = match out {
                    sched::Outcome::Panicked(p) => format!("panicked: {p}"),
                    sched::Outcome::Deadlock => "deadlocked".into(),
                    sched::Outcome::Done((r, n)) => {
                        distinct.borrow_mut().insert(result_print(&r));
                        let mut bad = String::new();
                        for m in r.hall_of_fame.members().chain(std::iter::once(&r.best)) {
                            if let Err(e) = truthful(m, &c.ds, base, &c.o, c.kind, 1e-9) {
                                bad = e;
                            }
                        }
                        let best_ok = ref_constraints(&parse(&r.best.expr).unwrap(), &c.o, c.o.maxsize);
                        for (k, m) in r.hall_of_fame.best_by_complexity.iter().enumerate() {
                            let Some(m) = m else { continue };
                            if m.complexity != k || !ref_constraints(&parse(&m.expr).unwrap(), &c.o, c.o.maxsize) {
                                bad = format!("hall of fame: {} under {k}", show(&m.expr));
                            }
                            if m.loss < r.best.loss || !best_ok {
                                bad = format!("best is {} of loss {}, the hall of fame has {} of loss {}", show(&r.best.expr), r.best.loss, show(&m.expr), m.loss);
                            }
                        }
                        for (k, cost) in &start.0 {
                            if r.hall_of_fame.best_by_complexity[*k].as_ref().is_none_or(|m| m.cost > *cost) {
                                bad = format!("the initial entry of complexity {k} got worse");
                            }
                        }
                        if start.2 && r.best.loss > start.1 {
                            bad = "the best is worse than the initial one".into();
                        }
                        if free {
                            if outcome(&r.hall_of_fame, &r.best) != reference {
                                bad = format!("the outcome depends on the schedule: {}", hall_lines(&r.hall_of_fame));
                            } else if n != ref_calls {
                                bad = format!("{n} evaluations, {ref_calls} when run cycle by cycle");
                            }
                        }
                        bad
                    }
                };
                rep.check(bad.is_empty(), || "parallel".into(), || format!("{what}: completion order {choices:?}: {bad}"));
                !rep.stop()
            },
        );
        rep.state(distinct.borrow().len() as u64);
        if n > 4 {
            rep.sample(|| format!("{what}: {n} completion orders, {} different results, all sound", distinct.borrow().len()));
        }
        if !complete {
            rep.note("searches with more schedules than explored", 1);
            rep.not_exhaustive();
        }
    });
}

fn hall_costs(h: &Hall) -> Vec<(usize, f64)> {
    h.best_by_complexity.iter().enumerate().filter_map(|(c, m)| m.as_ref().map(|m| (c, m.cost))).collect()
}

fn hall_lines(h: &Hall) -> String {
    h.members().map(|m| format!("{}:{}", m.complexity, show(&m.expr))).collect::<Vec<_>>().join(" ")
}

pub fn c36(rep: &Report) {
    mc_core::quiet_all();
    let mut cfgs: Vec<(Cfg, usize, bool)> = Vec::new();
    for (pops, iters, threads, in_pool) in [(1usize, 2usize, 1usize, false), (2, 2, 2, false), (3, 1, 2, false), (3, 1, 4, true), (2, 1, 1, false)] {
        let mut c = base();
        c.o.populations = pops;
        c.o.niterations = iters;
        c.o.population_size = 3;
        c.o.ncycles_per_iteration = 1;
        c.o.optimizer_iterations = 1;
        c.o.optimizer_nrestarts = 0;
        c.name = format!("{pops} populations, {iters} iterations, {threads} threads");
        cfgs.push((c.clone(), threads, in_pool));
        c.o.batching = true;
        c.o.batch_size = 2;
        c.name += ", batches";
        cfgs.push((c, threads, in_pool));
    }
    let mut work = Vec::new();
    for (i, (c, _, _)) in cfgs.iter().enumerate() {
        let (cc, calls) = counting(c, usize::MAX, 0);
        let mut e = engine(&cc);
        while e.step(1) == 1 {}
        let total = calls.load(Ordering::SeqCst);
        for k in 0..total {
            work.push((i, k, 0u8));
        }
        work.push((i, total - 1, 1));
        work.push((i, total / 2, 2));
    }
    par_for(rep, &work, |_, &(i, k, payload)| {
        let (c, threads, in_pool) = &cfgs[i];
        let (cc, calls) = counting(c, k, payload);
        let want = match payload {
            0 => format!("planned failure {k}"),
            1 => "planned failure".into(),
            _ => "panic".into(),
        };
        // The engine passes the panic on.
        let r = catching(|| {
            let mut e = engine(&cc);
            while e.step(1) == 1 {}
        });
        rep.valid(1);
        rep.check(r.as_ref().err() == Some(&want), || "engine".into(), || format!("{}: loss panics at evaluation {k}: stepping gives {r:?}", c.name));
        calls.store(0, Ordering::SeqCst);
        let shared = Arc::new(cc);
        let (n, complete) = schedules(
            *threads,
            *in_pool,
            tier(120, 2000),
            move || {
                calls.store(0, Ordering::SeqCst);
                let r = equation_search::<f64, B, D>(&shared.ds, &shared.o);
                let n = calls.load(Ordering::SeqCst);
                (r.best.loss, n)
            },
            |out, srep, choices| {
                rep.trans(srep.order.len() as u64);
                rep.valid(1);
                let bad = match out {
                    sched::Outcome::Panicked(p) if p == want => String::new(),
                    sched::Outcome::Panicked(p) => format!("another panic: {p:?}"),
                    sched::Outcome::Deadlock => "the search hangs".into(),
                    // Under this schedule the search may do with fewer evaluations.
                    sched::Outcome::Done((_, n)) if n <= k => String::new(),
                    sched::Outcome::Done((l, _)) => format!("the panic was lost; result with loss {l}"),
                };
                rep.check(bad.is_empty(), || "panic-lost".into(), || format!("{}: loss panics at evaluation {k} (payload kind {payload}), completion order {choices:?}: {bad}", c.name));
                !rep.stop()
            },
        );
        rep.state(1);
        if n > 1 {
            rep.sample(|| format!("{}: loss panics at evaluation {k} (payload kind {payload}): {n} completion orders, each ends with that panic or needs fewer evaluations", c.name));
        }
        if !complete {
            rep.note("cases with more schedules than explored", 1);
        }
    });
}
