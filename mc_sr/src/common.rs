//! Expressions, members and environments shared by the checks of the search engine.
pub use dynamic_expressions::{OpId, OperatorSet, PNode};
pub use fastrand::mc;
pub use fastrand::Rng;
pub use mc_core::*;
use ndarray::{Array1, Array2};
pub use super::set::{B, D, OWN};
pub use std::collections::{BTreeMap, BTreeSet};
pub use symbolic_regression::verif::*;
pub use symbolic_regression::{
    compute_complexity, make_loss, Dataset, HallOfFame, LossKind, MemberId, MutationWeights, Operators, Options,
    PopMember, SearchEngine, SearchResult, TaggedDataset,
};

pub type Expr = dynamic_expressions::PostfixExpr<f64, B, D>;
pub type Member = PopMember<f64, B, D>;
pub type Opts = Options<f64, D>;
pub type Engine = SearchEngine<f64, B, D>;
pub type Hall = HallOfFame<f64, B, D>;
pub type Pop = Population<f64, B, D>;

/// A tree with its constants' values.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Tr {
    V(u16),
    C(u64),
    O(u8, u16, Vec<Tr>),
}

pub const FRESH: u64 = u64::MAX;

pub fn c(v: f64) -> Tr {
    Tr::C(v.to_bits())
}

impl Tr {
    pub fn size(&self) -> usize {
        match self {
            Tr::O(_, _, ch) => 1 + ch.iter().map(|t| t.size()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Tr::O(_, _, ch) => 1 + ch.iter().map(|t| t.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }
    pub fn is_leaf(&self) -> bool {
        !matches!(self, Tr::O(..))
    }
    /// Paths to every node.
    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn rec(t: &Tr, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(cur.clone());
            if let Tr::O(_, _, ch) = t {
                for (i, x) in ch.iter().enumerate() {
                    cur.push(i);
                    rec(x, cur, out);
                    cur.pop();
                }
            }
        }
        let mut out = Vec::new();
        rec(self, &mut Vec::new(), &mut out);
        out
    }
    pub fn at(&self, p: &[usize]) -> &Tr {
        match (p.split_first(), self) {
            (None, _) => self,
            (Some((i, r)), Tr::O(_, _, ch)) => ch[*i].at(r),
            _ => unreachable!(),
        }
    }
    pub fn with(&self, p: &[usize], new: &Tr) -> Tr {
        match (p.split_first(), self) {
            (None, _) => new.clone(),
            (Some((i, r)), Tr::O(a, o, ch)) => {
                let mut ch = ch.clone();
                ch[*i] = ch[*i].with(r, new);
                Tr::O(*a, *o, ch)
            }
            _ => unreachable!(),
        }
    }
    /// Replace constants that are not in `keep` by the fresh marker.
    pub fn mask(&self, keep: &[f64]) -> Tr {
        match self {
            Tr::C(b) if keep.iter().any(|k| k.to_bits() == *b) => self.clone(),
            Tr::C(_) => Tr::C(FRESH),
            Tr::V(f) => Tr::V(*f),
            Tr::O(a, o, ch) => Tr::O(*a, *o, ch.iter().map(|t| t.mask(keep)).collect()),
        }
    }
    pub fn consts(&self, out: &mut Vec<f64>) {
        match self {
            Tr::C(b) => out.push(f64::from_bits(*b)),
            Tr::V(_) => {}
            Tr::O(_, _, ch) => ch.iter().for_each(|t| t.consts(out)),
        }
    }
    /// As an expression; equal constants of one value share an entry only if `share`.
    pub fn expr(&self, share: bool) -> Expr {
        fn rec(t: &Tr, share: bool, nodes: &mut Vec<PNode>, consts: &mut Vec<f64>) {
            match t {
                Tr::V(f) => nodes.push(PNode::Var { feature: *f }),
                Tr::C(b) => {
                    let v = f64::from_bits(*b);
                    let idx = match consts.iter().position(|c| c.to_bits() == *b) {
                        Some(i) if share => i,
                        _ => {
                            consts.push(v);
                            consts.len() - 1
                        }
                    };
                    nodes.push(PNode::Const { idx: idx as u16 });
                }
                Tr::O(a, o, ch) => {
                    ch.iter().for_each(|x| rec(x, share, nodes, consts));
                    nodes.push(PNode::Op { arity: *a, op: *o });
                }
            }
        }
        let (mut n, mut k) = (Vec::new(), Vec::new());
        rec(self, share, &mut n, &mut k);
        Expr::new(n, k, Default::default())
    }
    pub fn eval(&self, x: &[f64]) -> f64 {
        match self {
            Tr::V(f) => x[*f as usize],
            Tr::C(b) => f64::from_bits(*b),
            Tr::O(a, o, ch) => {
                let v: Vec<f64> = ch.iter().map(|t| t.eval(x)).collect();
                op_eval(*a, *o, &v)
            }
        }
    }
    pub fn show(&self) -> String {
        match self {
            Tr::V(f) => format!("x{f}"),
            Tr::C(FRESH) => "?".into(),
            Tr::C(b) => format!("{:?}", f64::from_bits(*b)),
            Tr::O(a, o, ch) => format!(
                "{}({})",
                B::name(OpId { arity: *a, id: *o }),
                ch.iter().map(|t| t.show()).collect::<Vec<_>>().join(",")
            ),
        }
    }
}

/// Independent definition of the operators that the harness uses.
pub fn op_eval(a: u8, o: u16, v: &[f64]) -> f64 {
    match B::name(OpId { arity: a, id: o }) {
        "neg" => -v[0],
        "abs2" => v[0] * v[0],
        "sin" => v[0].sin(),
        "cos" => v[0].cos(),
        "exp" => v[0].exp(),
        "log" => v[0].ln(),
        "sqrt" => v[0].sqrt(),
        "inv" => 1.0 / v[0],
        "add" => v[0] + v[1],
        "sub" => v[0] - v[1],
        "mul" => v[0] * v[1],
        "div" => v[0] / v[1],
        "fma" => v[0] * v[1] + v[2],
        "half" => 0.5 * v[0] + 1.0,
        "mean" => 0.5 * (v[0] + v[1]),
        "join" => v[0] * v[1] - v[2] + 0.5 * v[3],
        n => panic!("harness does not define {n}"),
    }
}

pub fn op(name: &str, arity: u8) -> OpId {
    B::lookup_with_arity(name, arity).expect("builtin operator")
}

pub fn ops(names: &[(&str, u8)]) -> Operators<D> {
    let mut o = Operators::new();
    for (n, a) in names {
        o.push(op(n, *a));
    }
    o
}

/// What a search makes of its options: operators count as their set declares, unless overridden.
pub fn effective(o: &Opts) -> Opts {
    let mut o = o.clone();
    for id in op_list(&o.operators) {
        if B::complexity(id) != 1 {
            o.operator_complexity_overrides.entry(id).or_insert(B::complexity(id));
        }
    }
    o
}

pub fn op_list(o: &Operators<D>) -> Vec<OpId> {
    o.ops_by_arity.iter().flatten().copied().collect()
}

/// Parse an expression, refusing anything that is not one well-formed tree over valid constants.
pub fn parse(e: &Expr) -> Result<Tr, String> {
    let mut st: Vec<Tr> = Vec::new();
    for n in &e.nodes {
        match *n {
            PNode::Var { feature } => st.push(Tr::V(feature)),
            PNode::Const { idx } => match e.consts.get(idx as usize) {
                Some(v) => st.push(Tr::C(v.to_bits())),
                None => return Err(format!("constant {idx} of {} does not exist", e.consts.len())),
            },
            PNode::Op { arity, op } => {
                let a = arity as usize;
                if a == 0 || st.len() < a {
                    return Err("operator without its operands".into());
                }
                let ch = st.split_off(st.len() - a);
                st.push(Tr::O(arity, op, ch));
            }
        }
    }
    if st.len() != 1 {
        return Err(format!("{} trees instead of one", st.len()));
    }
    Ok(st.pop().unwrap())
}

/// Everything required of an expression that the engine holds.
pub fn well_formed(e: &Expr, operators: &Operators<D>, n_features: usize) -> Result<Tr, String> {
    let t = parse(e)?;
    for n in &e.nodes {
        match *n {
            PNode::Var { feature } if feature as usize >= n_features => {
                return Err(format!("variable {feature} of {n_features}"))
            }
            PNode::Op { arity, op } if !op_list(operators).contains(&OpId { arity, id: op }) => {
                return Err(format!("operator {arity}/{op} is not in the operator set"))
            }
            _ => {}
        }
    }
    Ok(t)
}

/// The constants table holds exactly the referenced constants.
pub fn compact(e: &Expr) -> bool {
    let mut used = vec![false; e.consts.len()];
    for n in &e.nodes {
        if let PNode::Const { idx } = *n {
            used[idx as usize] = true;
        }
    }
    used.iter().all(|&u| u)
}

pub fn show(e: &Expr) -> String {
    match parse(e) {
        Ok(t) => t.show(),
        Err(x) => format!("<malformed: {x}: {:?} {:?}>", e.nodes, e.consts),
    }
}

/// All trees with at most `n` nodes.
pub fn trees(leaves: &[Tr], ops: &[OpId], n: usize) -> Vec<Tr> {
    let mut by: Vec<Vec<Tr>> = vec![Vec::new(); n + 1];
    for s in 1..=n {
        let mut out = Vec::new();
        if s == 1 {
            out.extend_from_slice(leaves);
        }
        for o in ops {
            tuples(&by, s - 1, o.arity as usize, &mut Vec::new(), &mut |ch| out.push(Tr::O(o.arity, o.id, ch.to_vec())));
        }
        by[s] = out;
    }
    by.concat()
}

fn tuples(by: &[Vec<Tr>], total: usize, parts: usize, cur: &mut Vec<Tr>, f: &mut dyn FnMut(&[Tr])) {
    if parts == 0 {
        if total == 0 {
            f(cur);
        }
        return;
    }
    if total < parts {
        return;
    }
    for first in 1..=total - (parts - 1) {
        for t in &by[first] {
            cur.push(t.clone());
            tuples(by, total - first, parts - 1, cur, f);
            cur.pop();
        }
    }
}

/// Generic finite data.
pub fn data(n_features: usize, n_rows: usize) -> Array2<f64> {
    Array2::from_shape_fn((n_features, n_rows), |(f, r)| {
        let t = (f as f64 * 0.737 + r as f64 * 0.3819 + 0.173).fract();
        let s = ((f * 31 + r * 17) % 7) as f64 / 7.0;
        3.0 * (0.7 * t + 0.3 * s) - 1.5
    })
}

pub fn target(n_rows: usize) -> Array1<f64> {
    Array1::from_shape_fn(n_rows, |r| 1.7 * ((r as f64 * 0.617 + 0.29).fract()) - 0.4)
}

pub fn weights(n_rows: usize) -> Array1<f64> {
    Array1::from_shape_fn(n_rows, |r| 0.25 + ((r * 5 + 2) % 7) as f64 * 0.31)
}

pub fn dataset(n_features: usize, n_rows: usize) -> Dataset<f64> {
    Dataset::new(data(n_features, n_rows), target(n_rows))
}

pub fn wdataset(n_features: usize, n_rows: usize) -> Dataset<f64> {
    Dataset::with_weights_and_names(data(n_features, n_rows), target(n_rows), Some(weights(n_rows)), Vec::new())
}

/// Options with everything stochastic or optional turned off.
pub fn quiet_options(operators: Operators<D>) -> Opts {
    Options {
        operators,
        progress: false,
        annealing: false,
        use_frequency: false,
        use_frequency_in_tournament: false,
        ..Default::default()
    }
}

pub fn zero_weights() -> MutationWeights {
    MutationWeights {
        mutate_constant: 0.0,
        mutate_operator: 0.0,
        mutate_feature: 0.0,
        swap_operands: 0.0,
        rotate_tree: 0.0,
        add_node: 0.0,
        insert_node: 0.0,
        delete_node: 0.0,
        simplify: 0.0,
        randomize: 0.0,
        do_nothing: 0.0,
        optimize: 0.0,
        form_connection: 0.0,
        break_connection: 0.0,
    }
}

/// Independent reference for a loss over complete vectors.
pub fn ref_loss(k: LossKind, yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 {
    let n = y.len();
    let (mut num, mut den) = (0.0, 0.0);
    for i in 0..n {
        let r = yhat[i] - y[i];
        let p = match k {
            LossKind::Mse | LossKind::Rmse => r * r,
            LossKind::Mae => r.abs(),
            LossKind::Huber { delta } => {
                if r.abs() <= delta {
                    0.5 * r * r
                } else {
                    delta * (r.abs() - 0.5 * delta)
                }
            }
            LossKind::LogCosh => {
                // log(cosh r) = |r| + log1p(exp(-2|r|)) - log 2
                r.abs() + (-2.0 * r.abs()).exp().ln_1p() - std::f64::consts::LN_2
            }
            LossKind::Lp { p } => r.abs().powf(p),
            LossKind::Quantile { tau } => {
                let u = -r;
                if u >= 0.0 {
                    tau * u
                } else {
                    (tau - 1.0) * u
                }
            }
            LossKind::EpsilonInsensitive { eps } => (r.abs() - eps).max(0.0),
        };
        let wi = w.map(|w| w[i]).unwrap_or(1.0);
        num += wi * p;
        den += wi;
    }
    let m = if den == 0.0 { 0.0 } else { num / den };
    if matches!(k, LossKind::Rmse) {
        m.sqrt()
    } else {
        m
    }
}

pub fn ref_cost(loss: f64, complexity: usize, parsimony: f64, use_baseline: bool, baseline: Option<f64>) -> f64 {
    let d = match baseline {
        Some(b) if use_baseline && b.is_finite() && b >= 0.01 => b,
        _ => 0.01,
    };
    loss / d + parsimony * complexity as f64
}

/// Reference complexity of a tree.
pub fn ref_complexity(t: &Tr, o: &Opts) -> usize {
    match t {
        Tr::V(f) => o
            .variable_complexities
            .as_ref()
            .and_then(|v| v.get(*f as usize).copied())
            .unwrap_or(o.complexity_of_variables) as usize,
        Tr::C(_) => o.complexity_of_constants as usize,
        Tr::O(a, id, ch) => {
            let id = OpId { arity: *a, id: *id };
            let own = o.operator_complexity_overrides.get(&id).copied().unwrap_or(B::complexity(id)) as usize;
            own + ch.iter().map(|t| ref_complexity(t, o)).sum::<usize>()
        }
    }
}

/// Reference constraint checker: size, depth, per-argument limits and nesting limits.
pub fn ref_constraints(t: &Tr, o: &Opts, curmaxsize: usize) -> bool {
    fn args_ok(t: &Tr, o: &Opts) -> bool {
        let Tr::O(a, id, ch) = t else { return true };
        if let Some(l) = o.op_constraints.limits.get(&OpId { arity: *a, id: *id }) {
            for (j, x) in ch.iter().enumerate() {
                if let Some(m) = l[j] {
                    if ref_complexity(x, o) > m as usize {
                        return false;
                    }
                }
            }
        }
        ch.iter().all(|x| args_ok(x, o))
    }
    /// Largest number of `n` operators on any path from this node down, this node included.
    fn nest(t: &Tr, n: OpId) -> usize {
        let Tr::O(a, id, ch) = t else { return 0 };
        let own = (OpId { arity: *a, id: *id } == n) as usize;
        own + ch.iter().map(|x| nest(x, n)).max().unwrap_or(0)
    }
    fn nested_ok(t: &Tr, o: &Opts) -> bool {
        let Tr::O(a, id, ch) = t else { return true };
        if let Some(rules) = o.nested_constraints.limits.get(&OpId { arity: *a, id: *id }) {
            for (n, max) in rules {
                let deepest = ch.iter().map(|x| nest(x, *n)).max().unwrap_or(0);
                if deepest > *max as usize {
                    return false;
                }
            }
        }
        ch.iter().all(|x| nested_ok(x, o))
    }
    ref_complexity(t, o) <= curmaxsize && t.depth() <= o.maxdepth && args_ok(t, o) && nested_ok(t, o)
}

/// Reference metrics of an expression on a data set: `None` when it cannot be evaluated finitely.
pub fn ref_metrics(t: &Tr, ds: &Dataset<f64>, baseline: Option<f64>, o: &Opts, kind: LossKind) -> (usize, f64, f64) {
    let cx = ref_complexity(t, o);
    let n = ds.n_rows;
    let mut yhat = Vec::with_capacity(n);
    for r in 0..n {
        let x: Vec<f64> = (0..ds.n_features).map(|f| ds.x[(f, r)]).collect();
        let mut fin = true;
        let v = eval_fin(t, &x, &mut fin);
        if !fin {
            return (cx, f64::INFINITY, f64::INFINITY);
        }
        yhat.push(v);
    }
    let w: Option<Vec<f64>> = ds.weights.as_ref().map(|w| w.to_vec());
    let loss = ref_loss(kind, &yhat, &ds.y.to_vec(), w.as_deref());
    if !loss.is_finite() {
        return (cx, f64::INFINITY, f64::INFINITY);
    }
    (cx, loss, ref_cost(loss, cx, o.parsimony, o.use_baseline, baseline))
}

fn eval_fin(t: &Tr, x: &[f64], fin: &mut bool) -> f64 {
    let v = match t {
        Tr::V(f) => x[*f as usize],
        Tr::C(b) => f64::from_bits(*b),
        Tr::O(a, o, ch) => {
            let v: Vec<f64> = ch.iter().map(|t| eval_fin(t, x, fin)).collect();
            op_eval(*a, *o, &v)
        }
    };
    if !v.is_finite() {
        *fin = false;
    }
    v
}

/// Does the member's record of itself (complexity, loss, cost, plan) agree with the reference?
pub fn truthful(
    m: &Member,
    ds: &Dataset<f64>,
    baseline: Option<f64>,
    o: &Opts,
    kind: LossKind,
    rel: f64,
) -> Result<(), String> {
    let t = well_formed(&m.expr, &o.operators, ds.n_features)?;
    let (cx, loss, cost) = ref_metrics(&t, ds, baseline, o, kind);
    let e = t.show();
    if m.complexity != cx {
        return Err(format!("{e}: recorded complexity {} but it is {cx}", m.complexity));
    }
    if !close(m.loss, loss, rel, rel) {
        return Err(format!("{e}: recorded loss {:?} but it is {loss:?}", m.loss));
    }
    if !close(m.cost, cost, rel, rel * 100.0) {
        return Err(format!("{e}: recorded cost {:?} but it is {cost:?}", m.cost));
    }
    plan_fits(m, ds)
}

/// The member's compiled plan evaluates its own expression.
pub fn plan_fits(m: &Member, ds: &Dataset<f64>) -> Result<(), String> {
    let fresh = dynamic_expressions::compile_plan::<D>(&m.expr.nodes, ds.n_features, m.expr.consts.len());
    if format!("{fresh:?}") == format!("{:?}", m.plan) {
        return Ok(());
    }
    // Another encoding of the same plan is fine as long as it evaluates the expression.
    let run = |p| {
        let mut y = vec![0.0; ds.n_rows];
        let mut s = Array2::zeros((0, 0));
        let o = dynamic_expressions::EvalOptions { check_finite: true, early_exit: false };
        let ok = dynamic_expressions::eval_plan_array_into(&mut y, p, &m.expr, ds.x.view(), &mut s, &o);
        (ok, y.iter().map(|v| v.to_bits()).collect::<Vec<_>>())
    };
    match catching(|| (run(&fresh), run(&m.plan))) {
        Ok((a, b)) if a == b || (!a.0 && !b.0) => Ok(()),
        Ok(_) => Err(format!("{}: its plan evaluates another expression", show(&m.expr))),
        Err(e) => Err(format!("{}: its plan does not fit: {e}", show(&m.expr))),
    }
}

/// Bits of everything a member holds, for exact comparisons.
pub fn fingerprint(m: &Member) -> String {
    format!(
        "{:?} {:?} {} {:?} {:?} {} {:x} {:x}",
        m.id,
        m.parent,
        m.birth,
        m.expr.nodes,
        m.expr.consts.iter().map(|v| v.to_bits()).collect::<Vec<_>>(),
        m.complexity,
        m.loss.to_bits(),
        m.cost.to_bits()
    )
}

pub fn expr_key(e: &Expr) -> (Vec<PNode>, Vec<u64>) {
    (e.nodes.clone(), e.consts.iter().map(|v| v.to_bits()).collect())
}

pub fn evaluated(
    id: u64,
    birth: u64,
    e: Expr,
    ds: &TaggedDataset<'_, f64>,
    o: &Opts,
) -> Member {
    let mut m = Member::from_expr(MemberId(id), None, birth, e, ds.n_features);
    let mut ev = Evaluator::new(ds.n_rows);
    let _ = m.evaluate(ds, o, &mut ev);
    m
}

pub fn menu(k: usize) -> Vec<f64> {
    (0..k).map(|i| (i as f64 + 0.5) / k as f64).collect()
}
