//! The same search in single precision, seen through its members widened to double precision.
use super::c_eng::{Cfg, Monitor, View};
use super::common::*;
use super::set::B32;
use rayon::mc as sched;
use symbolic_regression::equation_search;

pub type Expr32 = dynamic_expressions::PostfixExpr<f32, B32, D>;
pub type Member32 = PopMember<f32, B32, D>;
pub type Opts32 = Options<f32, D>;
pub type Engine32 = SearchEngine<f32, B32, D>;

/// Options, field by field; operators have the same ids in both precisions.
pub fn opts32(o: &Opts, kind: LossKind) -> Opts32 {
    for id in op_list(&o.operators) {
        assert_eq!(B::name(id), B32::name(id), "operator ids differ between precisions");
    }
    macro_rules! copy {
        ($($f:ident)*) => { Options { $($f: o.$f.clone(),)* loss: make_loss::<f32>(kind), ..Default::default() } };
    }
    copy! {
        seed niterations populations population_size ncycles_per_iteration batch_size complexity_of_constants
        complexity_of_variables maxsize maxdepth warmup_maxsize_by parsimony adaptive_parsimony_scaling
        crossover_probability perturbation_factor probability_negate_constant tournament_selection_n
        tournament_selection_p alpha optimizer_nrestarts optimizer_probability optimizer_iterations
        optimizer_f_calls_limit fraction_replaced fraction_replaced_hof fraction_replaced_guesses topn
        use_frequency use_frequency_in_tournament skip_mutation_failures annealing should_optimize_constants
        should_simplify batching use_baseline progress migration hof_migration operators mutation_weights
        variable_complexities operator_complexity_overrides op_constraints nested_constraints
    }
}

pub fn ds32(d: &Dataset<f64>) -> Dataset<f32> {
    let x = d.x.mapv(|v| v as f32);
    let y = d.y.mapv(|v| v as f32);
    match &d.weights {
        Some(w) => Dataset::with_weights_and_names(x, y, Some(w.mapv(|v| v as f32)), Vec::new()),
        None => Dataset::new(x, y),
    }
}

pub fn baseline32(d: &Dataset<f32>, o: &Opts32) -> Option<f32> {
    o.use_baseline.then(|| baseline_loss_from_zero_expression::<f32, B32, D>(d, o.loss.as_ref())).flatten()
}

pub fn widen_expr(e: &Expr32) -> Expr {
    Expr::new(e.nodes.clone(), e.consts.iter().map(|&v| v as f64).collect(), Default::default())
}

pub fn narrow_expr(e: &Expr) -> Expr32 {
    Expr32::new(e.nodes.clone(), e.consts.iter().map(|&v| v as f32).collect(), Default::default())
}

/// The member in double precision (exact); its plan is made anew.
pub fn widen(m: &Member32, n_features: usize) -> Member {
    let mut w = Member::from_expr(m.id, m.parent, m.birth, widen_expr(&m.expr), n_features);
    w.complexity = m.complexity;
    w.loss = m.loss as f64;
    w.cost = m.cost as f64;
    w
}

fn op32(a: u8, o: u16, v: &[f32]) -> f32 {
    match B32::name(OpId { arity: a, id: o }) {
        "neg" => -v[0],
        "sin" => v[0].sin(),
        "cos" => v[0].cos(),
        "exp" => v[0].exp(),
        "log" => v[0].ln(),
        "sqrt" => v[0].sqrt(),
        "add" => v[0] + v[1],
        "sub" => v[0] - v[1],
        "mul" => v[0] * v[1],
        "div" => v[0] / v[1],
        "fma" => v[0] * v[1] + v[2],
        "half" => 0.5 * v[0] + 1.0,
        "mean" => 0.5 * (v[0] + v[1]),
        "join" => v[0] * v[1] - v[2] + 0.5 * v[3],
        n => panic!("harness does not define {n}"),
    }
}

/// Value at one row, and how far a computation with other roundings may be from it.
fn eval32(t: &Tr, x: &[f32], fin: &mut bool) -> (f32, f64) {
    let e = f32::EPSILON as f64;
    let (v, err) = match t {
        Tr::V(f) => (x[*f as usize], 0.0),
        Tr::C(b) => (f64::from_bits(*b) as f32, 0.0),
        Tr::O(a, o, ch) => {
            let v: Vec<(f32, f64)> = ch.iter().map(|t| eval32(t, x, fin)).collect();
            let args: Vec<f32> = v.iter().map(|p| p.0).collect();
            let y = op32(*a, *o, &args);
            // The operator's sensitivity to each argument, by moving it by its error.
            let mut err = 2.0 * e * (y.abs() as f64);
            match B32::name(OpId { arity: *a, id: *o }) {
                "fma" => err += 2.0 * e * (args[0] * args[1]).abs() as f64,
                "half" | "mean" => err += 2.0 * e * (1.0 + args.iter().map(|v| v.abs()).sum::<f32>()) as f64,
                "join" => err += 4.0 * e * ((args[0] * args[1]).abs() + args[2].abs() + args[3].abs()) as f64,
                _ => {}
            }
            for (j, p) in v.iter().enumerate() {
                if p.1 > 0.0 {
                    let mut worst = 0.0f64;
                    for s in [-1.0, 1.0] {
                        let mut moved = args.clone();
                        moved[j] = (p.0 as f64 + s * p.1) as f32;
                        let d = (op32(*a, *o, &moved) as f64 - y as f64).abs();
                        worst = if d.is_nan() { f64::INFINITY } else { worst.max(d) };
                    }
                    err += worst;
                }
            }
            (y, err)
        }
    };
    if !v.is_finite() {
        *fin = false;
    }
    (v, err)
}

/// The widened member's complexity, loss and cost are those of its expression.
pub fn truthful32(m: &Member, d: &Dataset<f32>, baseline: Option<f32>, o: &Opts, kind: LossKind) -> Result<(), String> {
    let t = well_formed(&m.expr, &o.operators, d.n_features)?;
    let s = t.show();
    let cx = ref_complexity(&t, o);
    if m.complexity != cx {
        return Err(format!("{s}: recorded complexity {} but it is {cx}", m.complexity));
    }
    let (mut fin, mut worst) = (true, 0.0f64);
    let mut yh = Vec::new();
    for r in 0..d.n_rows {
        let x: Vec<f32> = (0..d.n_features).map(|f| d.x[(f, r)]).collect();
        let (v, e) = eval32(&t, &x, &mut fin);
        worst = worst.max(e);
        yh.push(v as f64);
    }
    // What rounding alone may decide is left open.
    if !worst.is_finite() || worst > 1e-2 {
        return Ok(());
    }
    let y: Vec<f64> = d.y.iter().map(|&v| v as f64).collect();
    let w: Option<Vec<f64>> = d.weights.as_ref().map(|w| w.iter().map(|&v| v as f64).collect());
    let loss = if fin { ref_loss(kind, &yh, &y, w.as_deref()) } else { f64::INFINITY };
    let (loss, cost) = if loss.is_finite() && loss < 1e37 {
        (loss, ref_cost(loss, cx, o.parsimony, o.use_baseline, baseline.map(|b| b as f64)))
    } else if fin {
        return Ok(()); // near the largest number
    } else {
        (f64::INFINITY, f64::INFINITY)
    };
    // A loss moves with its residuals.
    let slack = 1e-5 + worst * (1.0 + 4.0 * yh.iter().zip(&y).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max));
    let slack = if kind == LossKind::Rmse { slack.sqrt().max(slack) } else { slack };
    if !close(m.loss, loss, 1e-4, slack) {
        return Err(format!("{s}: recorded loss {:?} but it is {loss:?}", m.loss));
    }
    if !close(m.cost, cost, 1e-3, 100.0 * slack) {
        return Err(format!("{s}: recorded cost {:?} but it is {cost:?}", m.cost));
    }
    Ok(())
}

pub fn engine32(c: &Cfg) -> Engine32 {
    Engine32::new(ds32(&c.ds), opts32(&c.o, c.kind))
}

/// Look at an engine in single precision.
pub fn look32(mon: &mut Monitor, c: &Cfg, e: &Engine32, d: &Dataset<f32>, b: Option<f32>) -> Result<(), String> {
    let n = d.n_features;
    let w = |m: &Member32| widen(m, n);
    let pops: Vec<Vec<Member>> = e.verif_populations().iter().map(|p| p.iter().map(w).collect()).collect();
    let hall: Vec<Option<Member>> = e.hall_of_fame().best_by_complexity.iter().map(|m| m.as_ref().map(w)).collect();
    let best = w(e.best());
    let front: Vec<Member> = e.hall_of_fame().pareto_front().iter().map(w).collect();
    // Evaluating anything again, with the plan it carries, changes nothing.
    if mon.wants_truth() {
        let o = opts32(&effective(&c.o), c.kind);
        let tagged = TaggedDataset::new(d, b);
        for m in e.verif_populations().iter().flat_map(|p| p.iter()).chain(e.hall_of_fame().best_by_complexity.iter().flatten()).chain(std::iter::once(e.best())) {
            let mut again = m.clone();
            let mut ev = Evaluator::new(d.n_rows);
            let _ = again.evaluate(&tagged, &o, &mut ev);
            let tol = |a: f32, b: f32| a.to_bits() == b.to_bits() || (a as f64 - b as f64).abs() <= 1e-5 * (1.0 + (a as f64).abs());
            if again.complexity != m.complexity || !tol(again.loss, m.loss) || !tol(again.cost / 100.0, m.cost / 100.0) {
                return Err(format!("{}: holds complexity {}, loss {:?}, cost {:?}; evaluated again: {}, {:?}, {:?}", show(&widen_expr(&m.expr)), m.complexity, m.loss, m.cost, again.complexity, again.loss, again.cost));
            }
        }
    }
    let view = View {
        pops: pops.iter().map(|p| p.iter().collect()).collect(),
        hall: hall.iter().map(|m| m.as_ref()).collect(),
        best: &best,
        front: front.iter().collect(),
    };
    mon.look_at(&view, &|m| truthful32(m, d, b, &c.o, c.kind))
}

fn print32(m: &Member32) -> String {
    fingerprint(&widen(m, 99))
}

pub fn result32(hall: &HallOfFame<f32, B32, D>, best: &Member32) -> String {
    let h: Vec<String> = hall.best_by_complexity.iter().map(|m| m.as_ref().map(print32).unwrap_or_default()).collect();
    format!("{}\nbest {}", h.join("\n"), print32(best))
}

/// A configuration whose quantities stay within single precision.
pub fn fits32(c: &Cfg) -> bool {
    !c.name.contains("large targets")
}

/// Step by step, all at once, and by the parallel search with one worker: the same.
pub fn portions32(rep: &Report, c: &Cfg) {
    let mut e = engine32(c);
    while e.step(1) == 1 {}
    let want = result32(e.hall_of_fame(), e.best());
    let total = e.total_cycles();
    for k in 0..=total {
        let mut e = engine32(c);
        e.step(k);
        let r = e.run_to_completion();
        rep.state(1);
        rep.valid(1);
        rep.check(result32(&r.hall_of_fame, &r.best) == want, || "completion32".into(), || format!("{} in single precision: {k} steps and run_to_completion differ from stepping", c.name));
    }
    let (d, o) = (ds32(&c.ds), opts32(&c.o, c.kind));
    let r = sched::run(1, false, Box::new(|_| 0), move || {
        let r = equation_search::<f32, B32, D>(&d, &o);
        result32(&r.hall_of_fame, &r.best)
    });
    rep.state(1);
    rep.valid(1);
    let same = matches!(&r.0, sched::Outcome::Done(s) if *s == want);
    rep.check(same, || "serial32".into(), || format!("{} in single precision: the parallel search with one worker differs from the engine", c.name));
}
