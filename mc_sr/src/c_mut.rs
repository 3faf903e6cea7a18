//! C14-C18 and C44: mutations, crossover, random expressions, acceptance.
use super::common::*;
use std::marker::PhantomData;

pub const KINDS: [&str; 12] = [
    "mutate_constant", "mutate_operator", "mutate_feature", "swap_operands", "rotate_tree", "add_node", "insert_node",
    "delete_node", "simplify", "randomize", "do_nothing", "optimize",
];

pub fn only(kind: &str) -> MutationWeights {
    let mut w = zero_weights();
    w.do_nothing = 1e-9;
    *field(&mut w, kind) = 1.0;
    w
}

pub fn field<'a>(w: &'a mut MutationWeights, kind: &str) -> &'a mut f64 {
    match kind {
        "mutate_constant" => &mut w.mutate_constant,
        "mutate_operator" => &mut w.mutate_operator,
        "mutate_feature" => &mut w.mutate_feature,
        "swap_operands" => &mut w.swap_operands,
        "rotate_tree" => &mut w.rotate_tree,
        "add_node" => &mut w.add_node,
        "insert_node" => &mut w.insert_node,
        "delete_node" => &mut w.delete_node,
        "simplify" => &mut w.simplify,
        "randomize" => &mut w.randomize,
        "do_nothing" => &mut w.do_nothing,
        "optimize" => &mut w.optimize,
        _ => unreachable!(),
    }
}

pub struct Step {
    pub baby: Member,
    pub accepted: bool,
    pub evals: f64,
    pub next_id: u64,
    pub next_birth: u64,
}

pub const ID0: u64 = 1000;
pub const BIRTH0: u64 = 500;

pub fn step(
    m: &Member,
    ds: TaggedDataset<'_, f64>,
    o: &Opts,
    temperature: f64,
    curmaxsize: usize,
    stats: &RunningSearchStatistics,
) -> Step {
    let mut rng = Rng::with_seed(7);
    let mut ev = Evaluator::new(ds.n_rows);
    let (mut next_id, mut next_birth) = (ID0, BIRTH0);
    let (baby, accepted, evals) = next_generation(
        m,
        NextGenerationCtx {
            rng: &mut rng,
            dataset: ds,
            temperature,
            curmaxsize,
            stats,
            options: o,
            evaluator: &mut ev,
            next_id: &mut next_id,
            next_birth: &mut next_birth,
            _ops: PhantomData::<B>,
        },
    );
    Step { baby, accepted, evals, next_id, next_birth }
}

fn fresh_leaves(nf: usize) -> Vec<Tr> {
    let mut v: Vec<Tr> = (0..nf).map(|f| Tr::V(f as u16)).collect();
    v.push(Tr::C(FRESH));
    v
}

/// Every way to apply `o` with the given operands and how likely it is, `None` standing for a fresh
/// leaf: half of them constants, the rest features, each as likely as the others.
fn fill(o: OpId, slots: &[Option<&Tr>], leaves: &[Tr], f: &mut dyn FnMut(Tr, f64)) {
    fn rec(o: OpId, slots: &[Option<&Tr>], leaves: &[Tr], p: f64, cur: &mut Vec<Tr>, f: &mut dyn FnMut(Tr, f64)) {
        if cur.len() == slots.len() {
            f(Tr::O(o.arity, o.id, cur.clone()), p);
            return;
        }
        match slots[cur.len()] {
            Some(t) => {
                cur.push(t.clone());
                rec(o, slots, leaves, p, cur, f);
                cur.pop();
            }
            None => {
                for l in leaves {
                    cur.push(l.clone());
                    rec(o, slots, leaves, p * leaf_chance(l, leaves.len() - 1), cur, f);
                    cur.pop();
                }
            }
        }
    }
    rec(o, slots, leaves, 1.0, &mut Vec::new(), f)
}

fn leaf_chance(l: &Tr, nf: usize) -> f64 {
    match l {
        Tr::C(_) => 0.5,
        _ => 0.5 / nf as f64,
    }
}

/// Outcomes and their probabilities.
pub type Law = BTreeMap<Tr, f64>;

fn give(law: &mut Law, t: Tr, p: f64) {
    *law.entry(t).or_insert(0.0) += p;
}

/// The outcomes a structural mutation may and must be able to produce (fresh constants masked), and
/// how likely each is: every eligible place equally often, and there every operator, feature, operand.
pub fn relation(kind: &str, t: &Tr, opl: &[OpId], nf: usize, max_size: usize) -> Law {
    let mut out = Law::new();
    let leaves = fresh_leaves(nf);
    let paths = t.paths();
    let count = |f: &dyn Fn(&Tr) -> bool| paths.iter().filter(|p| f(t.at(p))).count() as f64;
    match kind {
        "mutate_operator" => {
            let places = count(&|x| !x.is_leaf());
            for p in &paths {
                if let Tr::O(a, _, ch) = t.at(p) {
                    let same: Vec<&OpId> = opl.iter().filter(|o| o.arity == *a).collect();
                    for o in &same {
                        give(&mut out, t.with(p, &Tr::O(*a, o.id, ch.clone())), 1.0 / places / same.len() as f64);
                    }
                }
            }
        }
        "mutate_feature" => {
            let places = count(&|x| matches!(x, Tr::V(_)));
            for p in &paths {
                if let Tr::V(f) = t.at(p) {
                    for g in (0..nf as u16).filter(|g| g != f) {
                        give(&mut out, t.with(p, &Tr::V(g)), 1.0 / places / (nf - 1) as f64);
                    }
                }
            }
        }
        "swap_operands" => {
            let places = count(&|x| matches!(x, Tr::O(2, _, _)));
            for p in &paths {
                if let Tr::O(2, o, ch) = t.at(p) {
                    give(&mut out, t.with(p, &Tr::O(2, *o, vec![ch[1].clone(), ch[0].clone()])), 1.0 / places);
                }
            }
        }
        "rotate_tree" => {
            let inner = |x: &Tr| if let Tr::O(_, _, ch) = x { ch.iter().filter(|c| !c.is_leaf()).count() } else { 0 };
            let places = count(&|x| inner(x) > 0);
            for p in &paths {
                let Tr::O(a, o, ch) = t.at(p) else { continue };
                let pivots = inner(t.at(p)) as f64;
                for (j, c) in ch.iter().enumerate() {
                    let Tr::O(pa, po, gch) = c else { continue };
                    for (k, g) in gch.iter().enumerate() {
                        let mut root_ch = ch.clone();
                        root_ch[j] = g.clone();
                        let mut pivot_ch = gch.clone();
                        pivot_ch[k] = Tr::O(*a, *o, root_ch);
                        give(&mut out, t.with(p, &Tr::O(*pa, *po, pivot_ch)), 1.0 / places / pivots / *pa as f64);
                    }
                }
            }
        }
        "add_node" | "insert_node" => {
            let add = kind == "add_node";
            let leaf_places = count(&|x| x.is_leaf());
            // Adding a node grows a leaf or puts a node on top, one as often as the other.
            let above = if add { 0.5 } else { 1.0 / paths.len() as f64 };
            for p in &paths {
                let sub = t.at(p);
                for o in opl {
                    let each = 1.0 / opl.len() as f64;
                    if add && sub.is_leaf() {
                        fill(*o, &vec![None; o.arity as usize], &leaves, &mut |n, w| give(&mut out, t.with(p, &n), 0.5 / leaf_places * each * w));
                    }
                    if !add || p.is_empty() {
                        for k in 0..o.arity as usize {
                            let mut slots = vec![None; o.arity as usize];
                            slots[k] = Some(sub);
                            fill(*o, &slots, &leaves, &mut |n, w| give(&mut out, t.with(p, &n), above * each / o.arity as f64 * w));
                        }
                    }
                }
            }
        }
        "delete_node" => {
            let places = count(&|x| !x.is_leaf());
            for p in &paths {
                if let Tr::O(_, _, ch) = t.at(p) {
                    for c in ch {
                        give(&mut out, t.with(p, c), 1.0 / places / ch.len() as f64);
                    }
                }
            }
        }
        "randomize" => {
            for n in 1..=max_size {
                for (x, p) in random_law(opl, nf, n) {
                    give(&mut out, x, p / max_size as f64);
                }
            }
        }
        _ => {}
    }
    // A mutation that does not apply leaves the expression alone.
    if out.is_empty() {
        out.insert(t.clone(), 1.0);
    }
    out
}

/// Trees `random_expr` can produce: as large as the operators allow without exceeding the target.
fn random_ref(opl: &[OpId], nf: usize, target: usize) -> BTreeSet<Tr> {
    let leaves = fresh_leaves(nf);
    trees(&leaves, opl, target)
        .into_iter()
        .filter(|t| !opl.iter().any(|o| o.arity as usize <= target - t.size()))
        .collect()
}

/// One growth step: a leaf, equally likely each, becomes an operator, equally likely each that fits.
fn grow(law: &Law, opl: &[OpId], leaves: &[Tr], max: usize) -> Law {
    let mut next = Law::new();
    for (t, pr) in law {
        let fit: Vec<OpId> = opl.iter().copied().filter(|o| o.arity as usize <= max.saturating_sub(t.size())).collect();
        let places: Vec<_> = t.paths().into_iter().filter(|p| t.at(p).is_leaf()).collect();
        if fit.is_empty() {
            give(&mut next, t.clone(), *pr);
        }
        for o in &fit {
            for p in &places {
                let each = pr / (fit.len() * places.len()) as f64;
                fill(*o, &vec![None; o.arity as usize], leaves, &mut |x, w| give(&mut next, t.with(p, &x), each * w));
            }
        }
    }
    next
}

/// How likely each expression of a given size is.
fn random_law(opl: &[OpId], nf: usize, target: usize) -> Law {
    let leaves = fresh_leaves(nf);
    let mut cur: Law = leaves.iter().map(|l| (l.clone(), leaf_chance(l, nf))).collect();
    for _ in 0..target {
        cur = grow(&cur, opl, &leaves, target);
    }
    cur
}

/// How likely each expression grown by a number of operators is.
fn append_law(opl: &[OpId], nf: usize, n: usize, max: usize) -> Law {
    let leaves = fresh_leaves(nf);
    let mut cur: Law = [(c(0.0), 1.0)].into();
    for _ in 0..n {
        cur = grow(&cur, opl, &leaves, max.max(1));
    }
    cur
}

/// Outcomes that are impossible, never reached, or not as likely as they should be.
fn compare_laws(rep: &Report, tag: &str, what: &dyn Fn() -> String, got: &Law, want: &Law) {
    for t in got.keys().filter(|t| !want.contains_key(t)) {
        rep.violation(format!("outcome:{tag}"), format!("{} {}, which is not one of the outcomes", what(), t.show()));
    }
    for t in want.keys().filter(|t| !got.contains_key(t)) {
        rep.violation(format!("missing:{tag}"), format!("{} {}: never happens", what(), t.show()));
    }
    let mass: f64 = got.values().sum();
    for (t, p) in got {
        let (p, q) = (p / mass, want.get(t).copied().unwrap_or(0.0));
        rep.check((p - q).abs() < 1e-9, || format!("law:{tag}"), || format!("{} {} with probability {p} instead of {q}", what(), t.show()));
    }
}

pub const MARKS: [f64; 3] = [1.25, 2.5, -0.75];

/// Markers in the order of their appearance, so that constants are distinguishable.
fn mark(t: &Tr) -> Tr {
    fn rec(t: &Tr, k: &mut usize) -> Tr {
        match t {
            Tr::C(_) => {
                *k += 1;
                c(MARKS[(*k - 1) % MARKS.len()] + ((*k - 1) / MARKS.len()) as f64 * 8.0)
            }
            Tr::V(f) => Tr::V(*f),
            Tr::O(a, o, ch) => Tr::O(*a, *o, ch.iter().map(|x| rec(x, k)).collect()),
        }
    }
    rec(t, &mut 0)
}

pub struct OpSet {
    pub name: &'static str,
    pub ops: Vec<(&'static str, u8)>,
    pub nf: usize,
}

/// Operator sets with every combination of arities; all operators finite on finite data.
pub fn opsets() -> Vec<OpSet> {
    let s = |name, ops: &[(&'static str, u8)], nf| OpSet { name, ops: ops.to_vec(), nf };
    if OWN {
        return vec![
            s("own, up to four operands", &[("abs2", 1), ("sub", 2), ("fma", 3), ("join", 4)], 2),
            s("own, unary+quaternary", &[("neg", 1), ("join", 4)], 1),
            s("own, quaternary", &[("join", 4)], 2),
            s("own, ternary+quaternary", &[("join", 4), ("fma", 3)], 1),
            s("own, binary", &[("mul", 2), ("add", 2)], 2),
        ];
    }
    let mut v = vec![
        s("unary+binary", &[("neg", 1), ("abs2", 1), ("add", 2), ("mul", 2)], 2),
        s("all-arities", &[("abs2", 1), ("sub", 2), ("fma", 3)], 2),
        s("binary", &[("add", 2), ("sub", 2)], 2),
        s("unary", &[("neg", 1), ("abs2", 1)], 2),
        s("ternary", &[("fma", 3)], 1),
        s("one-feature", &[("abs2", 1), ("mul", 2)], 1),
        s("three-features", &[("neg", 1), ("sub", 2)], 3),
    ];
    v.retain(|o| o.ops.iter().all(|x| x.1 as usize <= D));
    v
}

fn start_trees(os: &OpSet, n: usize) -> Vec<Tr> {
    let opl: Vec<OpId> = os.ops.iter().map(|(n, a)| op(n, *a)).collect();
    let mut leaves: Vec<Tr> = (0..os.nf).map(|f| Tr::V(f as u16)).collect();
    leaves.push(c(1.0));
    trees(&leaves, &opl, n).iter().map(mark).collect()
}

/// Fewer labellings of larger shapes: leaves cycle through features and constants.
fn start_shapes(os: &OpSet, n: usize) -> Vec<Tr> {
    let opl: Vec<OpId> = os.ops.iter().map(|(n, a)| op(n, *a)).collect();
    let shapes = trees(&[Tr::V(0)], &opl, n);
    fn rec(t: &Tr, k: &mut usize, off: usize, nf: usize) -> Tr {
        match t {
            Tr::O(a, o, ch) => Tr::O(*a, *o, ch.iter().map(|x| rec(x, k, off, nf)).collect()),
            _ => {
                *k += 1;
                let v = (*k - 1 + off) % (nf + 1);
                if v == nf {
                    c(0.0)
                } else {
                    Tr::V(v as u16)
                }
            }
        }
    }
    let mut out = Vec::new();
    for s in &shapes {
        for off in 0..=os.nf {
            out.push(mark(&rec(s, &mut 0, off, os.nf)));
        }
    }
    out.sort();
    out.dedup();
    out
}

fn with_unused_const(t: &Tr) -> Expr {
    let mut e = t.expr(false);
    e.consts.insert(0, 99.5);
    for n in e.nodes.iter_mut() {
        if let PNode::Const { idx } = n {
            *idx += 1;
        }
    }
    e
}

fn menu_for(kind: &str) -> Vec<f64> {
    match kind {
        "mutate_constant" => vec![0.1, 0.5, 0.9],
        "optimize" => vec![0.3, 0.7],
        _ => vec![0.5],
    }
}

struct MutCase<'a> {
    os: &'a OpSet,
    kind: &'static str,
    start: Tr,
    share: u8,
}

fn cases<'a>(sets: &'a [OpSet], full: usize, shapes: usize) -> Vec<MutCase<'a>> {
    let mut v = Vec::new();
    for os in sets {
        let mut st = start_trees(os, full);
        st.extend(start_shapes(os, shapes));
        st.sort();
        st.dedup();
        for t in st {
            for kind in KINDS {
                v.push(MutCase { os, kind, start: t.clone(), share: 0 });
            }
        }
    }
    v
}

/// Expressions with more constants, nodes and levels than fit in eight bits.
fn vast(bushy: bool) -> Tr {
    let o = op("sub", 2);
    let node = |a: Tr, b: Tr| Tr::O(o.arity, o.id, vec![a, b]);
    let mut row: Vec<Tr> = (0..270).map(|i| if i % 40 == 7 { Tr::V(0) } else { c(0.0) }).collect();
    while row.len() > 1 {
        if bushy {
            row = row.chunks(2).map(|p| if p.len() == 2 { node(p[0].clone(), p[1].clone()) } else { p[0].clone() }).collect();
        } else {
            let b = row.pop().unwrap();
            let a = row.pop().unwrap();
            row.push(node(a, b));
        }
    }
    mark(&row.pop().unwrap())
}

fn vast_cases<'a>(set: &'a [OpSet], relational: bool) -> Vec<MutCase<'a>> {
    let mut v = Vec::new();
    for os in set {
        for (i, kind) in KINDS.iter().enumerate() {
            if D < 2 || matches!(*kind, "optimize" | "randomize") {
                continue;
            }
            for bushy in [true, false] {
                if !relational && bushy == (i % 2 == 0) && !thorough() {
                    continue;
                }
                v.push(MutCase { os, kind, start: vast(bushy), share: (!relational && bushy) as u8 });
            }
        }
    }
    v
}

fn vast_set() -> Vec<OpSet> {
    vec![OpSet { name: "vast", ops: vec![("sub", 2)], nf: 2 }]
}

fn run_case(rep: &Report, cs: &MutCase, relational: bool) {
    let mut o = quiet_options(ops(&cs.os.ops));
    let opl = op_list(&o.operators);
    o.maxsize = 40.max(2 * cs.start.size());
    o.maxdepth = o.maxsize;
    o.optimizer_nrestarts = 1;
    o.optimizer_probability = 1.0;
    o.mutation_weights = only(cs.kind);
    if !relational && cs.kind != "randomize" && (cs.start.size() + cs.share as usize) % 2 == 1 {
        o.complexity_of_constants = 2;
        o.variable_complexities = Some((0..cs.os.nf).map(|f| 1 + (f % 2) as u16 * 2).collect());
    }
    // For randomize the bound is the current maximum size.
    let curmax = if cs.kind == "randomize" { cs.start.size().clamp(3, 4) } else { o.maxsize };
    if cs.kind == "randomize" && cs.start.size() > curmax {
        return;
    }
    let data = if cs.start.size() % 2 == 0 { dataset(cs.os.nf, 5) } else { wdataset(cs.os.nf, 5) };
    let ds = TaggedDataset::new(&data, Some(0.7));
    let expr = match cs.share {
        0 => cs.start.expr(false),
        1 => cs.start.expr(true),
        _ => with_unused_const(&cs.start),
    };
    let m = evaluated(3, 2, expr, &ds, &o);
    let mut keep = Vec::new();
    cs.start.consts(&mut keep);
    let stats = RunningSearchStatistics::new(o.maxsize, 1000);
    let cfg = mc::Config { f64_menu: menu_for(cs.kind), int_cap: if relational { 64.max(cs.start.size()) } else { 64 }, max_depth: if matches!(cs.kind, "mutate_feature" | "optimize") { tier(9, 11) } else { 200 }, max_runs: 0 };
    let mut got = Law::new();
    let mut raw: BTreeSet<Tr> = BTreeSet::new();
    let mut stay = 0.0;
    let tag = format!("{}:{}", cs.kind, cs.os.name);
    let st = mc::explore(&cfg, || {
        let r = catching(|| step(&m, ds, &o, 1.0, curmax, &stats));
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                rep.violation(format!("panic:{tag}"), format!("{} of {}: panic {e}; choices {:?}", cs.kind, cs.start.show(), mc::trace()));
                return !rep.stop();
            }
        };
        rep.valid(1);
        match well_formed(&r.baby.expr, &o.operators, cs.os.nf) {
            Err(e) => {
                rep.violation(format!("malformed:{tag}"), format!("{} of {}: {e}; {:?} {:?}; choices {:?}", cs.kind, cs.start.show(), r.baby.expr.nodes, r.baby.expr.consts, mc::trace()));
                return !rep.stop();
            }
            Ok(t) => {
                if !relational {
                    if r.accepted && !compact(&r.baby.expr) {
                        rep.violation(format!("unused-constant:{tag}"), format!("{} of {}: result {} keeps unused constants {:?}", cs.kind, cs.start.show(), t.show(), r.baby.expr.consts));
                    }
                    if let Err(e) = plan_fits(&r.baby, &data) {
                        rep.violation(format!("plan:{tag}"), format!("{} of {}: {e}", cs.kind, cs.start.show()));
                    }
                    if r.accepted {
                        if let Err(e) = truthful(&r.baby, &data, Some(0.7), &o, LossKind::Mse, 1e-9) {
                            rep.violation(format!("metrics:{tag}"), format!("{} of {}: {e}", cs.kind, cs.start.show()));
                        }
                    }
                }
                if r.accepted || !m.loss.is_finite() {
                    raw.insert(t.clone());
                    if !mc::truncated() {
                        give(&mut got, t.mask(&keep), mc::weight());
                    }
                } else if t != cs.start {
                    rep.violation(format!("rejected:{tag}"), format!("{} of {}: not accepted, yet returns {}", cs.kind, cs.start.show(), t.show()));
                } else {
                    // Nothing to mutate, or out of attempts: the expression stays as it was.
                    stay += mc::weight();
                    raw.insert(t);
                }
            }
        }
        !rep.stop()
    });
    rep.state(raw.len() as u64);
    rep.trans(st.choices);
    rep.note("runs_past_depth_bound", st.truncated);
    if raw.len() > 3 && cs.start.size() > 2 && st.runs % 7 < 2 {
        rep.sample(|| format!("{} of {} ({} features): {} RNG outcomes, {} different results, among them {}", cs.kind, cs.start.show(), cs.os.nf, st.runs, raw.len(), raw.iter().step_by(raw.len() / 3).map(Tr::show).collect::<Vec<_>>().join("; ")));
    }
    if !relational {
        return;
    }
    match cs.kind {
        "mutate_constant" => constant_relation(rep, cs, &raw, &o),
        "optimize" => {
            for t in &raw {
                let same_shape = t.mask(&[]) == cs.start.mask(&[]);
                let (_, l1, _) = ref_metrics(t, &data, Some(0.7), &o, LossKind::Mse);
                let (_, l0, _) = ref_metrics(&cs.start, &data, Some(0.7), &o, LossKind::Mse);
                rep.check(same_shape && l1 <= l0 * (1.0 + 1e-9), || format!("optimize:{}", cs.os.name), || format!("optimize turned {} (loss {l0}) into {} (loss {l1})", cs.start.show(), t.show()));
            }
        }
        "simplify" => {
            for t in &raw {
                let ok = t.size() <= cs.start.size()
                    && (0..data.n_rows).all(|r| {
                        let x: Vec<f64> = (0..data.n_features).map(|f| data.x[(f, r)]).collect();
                        close(t.eval(&x), cs.start.eval(&x), 1e-9, 1e-9)
                    });
                rep.check(ok, || format!("simplify:{}", cs.os.name), || format!("simplify turned {} into {}", cs.start.show(), t.show()));
            }
        }
        _ => {
            let want = relation(cs.kind, &cs.start, &opl, cs.os.nf, curmax);
            // A mutation that finds nothing to change leaves the expression as it was; one that draws
            // until something changes may run out of attempts (here: of the enumerated depth).
            if want.contains_key(&cs.start) || cs.kind != "mutate_feature" {
                if stay > 0.0 {
                    give(&mut got, cs.start.clone(), stay);
                }
            }
            compare_laws(rep, &tag, &|| format!("{} turns {} into", cs.kind, cs.start.show()), &got, &want);
            rep.note("relation_pairs", want.len() as u64);
        }
    }
}

fn constant_relation(rep: &Report, cs: &MutCase, raw: &BTreeSet<Tr>, o: &Opts) {
    let mut k0 = Vec::new();
    cs.start.consts(&mut k0);
    if k0.is_empty() {
        rep.check(raw.len() == 1 && raw.contains(&cs.start), || "constant:none".into(), || format!("mutate_constant changed {} which has none", cs.start.show()));
        return;
    }
    let bound = o.perturbation_factor + 1.1 + 1e-9;
    let mut touched = vec![[false; 2]; k0.len()];
    for t in raw {
        if t.mask(&[]) != cs.start.mask(&[]) {
            rep.violation("constant:structure", format!("mutate_constant turned {} into {}", cs.start.show(), t.show()));
            continue;
        }
        let mut k1 = Vec::new();
        t.consts(&mut k1);
        let changed: Vec<usize> = (0..k0.len()).filter(|&i| k0[i].to_bits() != k1[i].to_bits()).collect();
        let one = changed.iter().all(|&i| k0[i] == k0[changed[0]]);
        let f = changed.first().map(|&i| (k1[i] / k0[i]).abs()).unwrap_or(1.0);
        let ok = one && f <= bound && f >= 1.0 / bound && (cs.share == 1 || changed.len() <= 1);
        rep.check(ok, || format!("constant:{}", cs.os.name), || format!("mutate_constant turned {} into {}: more than one constant, or a factor {f} outside [1/{bound}, {bound}]", cs.start.show(), t.show()));
        for i in changed {
            touched[i][(f > 1.0) as usize] = true;
        }
    }
    for (i, t) in touched.iter().enumerate() {
        rep.check(t[0] && t[1], || format!("constant-reach:{}", cs.os.name), || format!("mutate_constant never {} constant {i} of {}", if t[0] { "enlarges" } else { "shrinks" }, cs.start.show()));
    }
}

pub fn c14(rep: &Report) {
    rep.assume("the constraints are wide enough for every outcome (tight ones: C18)");
    let sets = opsets();
    let mut v = cases(&sets, tier(3, 4), tier(5, 6));
    let n = v.len();
    for i in 0..n {
        let mut k = Vec::new();
        v[i].start.consts(&mut k);
        if k.is_empty() {
            continue;
        }
        let (os, kind, start) = (v[i].os, v[i].kind, v[i].start.clone());
        v.push(MutCase { os, kind, start: start.clone(), share: 2 });
        // Equal constants sharing one entry of the table.
        fn same(t: &Tr) -> Tr {
            match t {
                Tr::C(_) => c(1.25),
                Tr::V(f) => Tr::V(*f),
                Tr::O(a, o, ch) => Tr::O(*a, *o, ch.iter().map(same).collect()),
            }
        }
        v.push(MutCase { os, kind, start: same(&start), share: 1 });
    }
    let vs = vast_set();
    let mut all = vast_cases(&vs, false);
    all.append(&mut v);
    rep.note("cases", all.len() as u64);
    par_for(rep, &all, |_, cs| run_case(rep, cs, false));
}

pub fn c15(rep: &Report) {
    rep.assume("the constraints are wide enough for every outcome (tight ones: C18)");
    let sets = opsets();
    let vs = vast_set();
    let mut v = vast_cases(&vs, true);
    v.append(&mut cases(&sets, tier(5, 6), tier(7, 8)));
    rep.note("cases", v.len() as u64);
    par_for(rep, &v, |_, cs| run_case(rep, cs, true));
    if D == 3 && !OWN {
        constant_law(rep);
    }
}

/// A rescaled constant: every constant equally often, larger or smaller equally often, and the
/// factor a power of (perturbation factor x temperature + 1.1) whose exponent is uniform on [0, 1].
fn constant_law(rep: &Report) {
    let k = tier(24, 60);
    let mut work = Vec::new();
    let minus = |a, b| if D >= 2 { let o = op("sub", 2); Tr::O(o.arity, o.id, vec![a, b]) } else { let o = op("neg", 1); Tr::O(o.arity, o.id, vec![a]) };
    for start in [c(1.25), minus(c(1.25), Tr::V(0)), minus(minus(c(1.25), c(2.5)), c(-0.75))] {
        for temperature in [0.0, 0.3, 1.0] {
            for pf in [0.0, 0.076, 2.0] {
                work.push((start.clone(), temperature, pf));
            }
        }
    }
    par_for(rep, &work, |_, (start, temperature, pf)| {
        let mut o = quiet_options(if D >= 2 { ops(&[("sub", 2)]) } else { ops(&[("neg", 1)]) });
        o.mutation_weights = only("mutate_constant");
        o.perturbation_factor = *pf;
        let data = dataset(1, 4);
        let ds = TaggedDataset::new(&data, Some(0.7));
        let m = evaluated(3, 2, start.expr(false), &ds, &o);
        let stats = RunningSearchStatistics::new(o.maxsize, 1000);
        let mut k0 = Vec::new();
        start.consts(&mut k0);
        // Exponents, signed by direction, and the number of times each constant changes.
        let mut exps: Vec<(f64, f64)> = Vec::new();
        let mut each = vec![0.0; k0.len()];
        let max = pf * temperature + 1.1;
        let cfg = mc::Config { f64_menu: menu(k), int_cap: 16, max_depth: 6, max_runs: 0 };
        let s = mc::explore(&cfg, || {
            let r = step(&m, ds, &o, *temperature, o.maxsize, &stats);
            let mut k1 = Vec::new();
            if let Ok(t) = parse(&r.baby.expr) {
                t.consts(&mut k1);
            }
            let w = mc::weight();
            let changed: Vec<usize> = (0..k0.len()).filter(|&i| k1.len() == k0.len() && k0[i].to_bits() != k1[i].to_bits()).collect();
            match changed[..] {
                [i] => {
                    each[i] += w;
                    exps.push(((k1[i] / k0[i]).abs().ln() / f64::ln(max), w));
                }
                // A factor of one.
                _ => {
                    rep.check(changed.is_empty(), || "constant-law:places".into(), || format!("{} constants of {} changed at once", changed.len(), start.show()));
                }
            }
            !rep.stop()
        });
        rep.state(1);
        rep.trans(s.choices);
        rep.valid(s.runs);
        let mass: f64 = exps.iter().map(|e| e.1).sum();
        let what = || format!("mutate_constant of {} at temperature {temperature}, perturbation factor {pf}", start.show());
        let fine = 2.0 / k as f64;
        rep.check(mass > 1.0 - fine, || "constant-law:mass".into(), || format!("{} changes nothing with probability {}", what(), 1.0 - mass));
        for (i, p) in each.iter().enumerate() {
            rep.check((p / mass - 1.0 / k0.len() as f64).abs() < 1e-9, || "constant-law:place".into(), || format!("{} changes constant {i} with probability {}", what(), p / mass));
        }
        for q in -10..=10 {
            let q = q as f64 / 10.0;
            let below: f64 = exps.iter().filter(|e| e.0 < q - 1e-9).map(|e| e.1).sum::<f64>() / mass;
            rep.check((below - (q + 1.0) / 2.0).abs() < fine, || "constant-law:factor".into(), || format!("{}: the factor is below {max}^{q} with probability {below}", what()));
        }
    });
}

fn run_crossover(a: &Member, b: &Member, ds: TaggedDataset<'_, f64>, o: &Opts, curmaxsize: usize) -> (Member, Member, bool, u64, u64) {
    let mut rng = Rng::with_seed(7);
    let mut ev = Evaluator::new(ds.n_rows);
    let (mut next_id, mut next_birth) = (ID0, BIRTH0);
    let (x, y, acc, _) = crossover_generation(
        a,
        b,
        CrossoverCtx {
            rng: &mut rng,
            dataset: ds,
            curmaxsize,
            options: o,
            evaluator: &mut ev,
            next_id: &mut next_id,
            next_birth: &mut next_birth,
            _ops: PhantomData::<B>,
        },
    );
    (x, y, acc, next_id, next_birth)
}

pub fn c16(rep: &Report) {
    let mut set = OpSet { name: "x", ops: vec![("neg", 1), ("sub", 2), ("fma", 3)], nf: 2 };
    if OWN {
        set.ops = vec![("neg", 1), ("sub", 2), ("join", 4)];
    }
    set.ops.retain(|o| o.1 as usize <= D);
    let mut st = start_trees(&set, 3);
    st.extend(start_shapes(&set, tier(5, 6)));
    st.sort();
    st.dedup();
    // The second parent's constants are different ones, so that provenance shows.
    fn shift(t: &Tr) -> Tr {
        match t {
            Tr::C(b) => c(f64::from_bits(*b) + 100.0),
            Tr::V(f) => Tr::V(*f),
            Tr::O(a, o, ch) => Tr::O(*a, *o, ch.iter().map(shift).collect()),
        }
    }
    let mut pairs = Vec::new();
    for a in &st {
        for b in &st {
            pairs.push((a.clone(), shift(b)));
        }
    }
    if D >= 2 {
        // Parents with hundreds of nodes and constants.
        let small = st.iter().filter(|t| t.size() == 3 && { let mut k = Vec::new(); t.consts(&mut k); k.len() > 1 }).next().unwrap();
        for bushy in [true, false] {
            pairs.push((vast(bushy), shift(small)));
            pairs.push((small.clone(), shift(&vast(bushy))));
        }
    }
    pairs.reverse();
    rep.note("parent_pairs", pairs.len() as u64);
    let (big, rest) = pairs.split_at(if D >= 2 { 4 } else { 0 });
    let chunks: Vec<&[(Tr, Tr)]> = big.chunks(1).chain(rest.chunks(64)).collect();
    let data = wdataset(2, 4);
    par_for(rep, &chunks, |_, ch| {
        let ds = TaggedDataset::new(&data, None);
        for (a, b) in ch.iter() {
            for share in [false, true] {
                let vast = a.size().max(b.size()) > 100;
                if vast && share {
                    continue;
                }
                let room = if vast { 1000 } else { 40 };
                let mut o = quiet_options(ops(&set.ops));
                o.maxsize = room;
                o.maxdepth = room;
                let (ma, mb) = (evaluated(3, 2, a.expr(share), &ds, &o), evaluated(4, 1, b.expr(share), &ds, &o));
                let (fa, fb) = (fingerprint(&ma), fingerprint(&mb));
                // All swaps.
                let mut law: BTreeMap<(Tr, Tr), f64> = BTreeMap::new();
                for p in a.paths() {
                    for q in b.paths() {
                        *law.entry((a.with(&p, b.at(&q)), b.with(&q, a.at(&p)))).or_insert(0.0) += 1.0 / (a.size() * b.size()) as f64;
                    }
                }
                let all: BTreeSet<(Tr, Tr)> = law.keys().cloned().collect();
                let mut seen: BTreeMap<(Tr, Tr), f64> = BTreeMap::new();
                let s = mc::explore(&mc::Config { int_cap: mc::Config::default().int_cap.max(2 * room), ..Default::default() }, || {
                    let (x, y, acc, id, birth) = run_crossover(&ma, &mb, ds, &o, room);
                    rep.valid(1);
                    let (tx, ty) = (well_formed(&x.expr, &o.operators, 2), well_formed(&y.expr, &o.operators, 2));
                    match (tx, ty) {
                        (Ok(tx), Ok(ty)) => {
                            *seen.entry((tx, ty)).or_insert(0.0) += mc::weight();
                        }
                        (x1, y1) => rep.violation("malformed", format!("crossover of {} and {}: {x1:?} {y1:?}", a.show(), b.show())),
                    }
                    let mut bad = Vec::new();
                    if !acc {
                        bad.push("not accepted although unconstrained".into());
                    }
                    if !compact(&x.expr) || !compact(&y.expr) {
                        bad.push("unused constants in a child".into());
                    }
                    for (m, p) in [(&x, &ma), (&y, &mb)] {
                        if let Err(e) = truthful(m, &data, None, &o, LossKind::Mse, 1e-9) {
                            bad.push(e);
                        }
                        if m.parent != Some(p.id) {
                            bad.push(format!("parent {:?} instead of {:?}", m.parent, p.id));
                        }
                    }
                    let ids = [x.id.0, y.id.0];
                    if x.id == y.id || ids.iter().any(|i| *i < ID0 || *i >= id) || x.birth == y.birth || x.birth < BIRTH0 || y.birth < BIRTH0 || x.birth >= birth || y.birth >= birth {
                        bad.push(format!("ids {ids:?} births {} {} counters {id} {birth}", x.birth, y.birth));
                    }
                    if fingerprint(&ma) != fa || fingerprint(&mb) != fb {
                        bad.push("a parent changed".into());
                    }
                    for e in bad {
                        rep.violation("child", format!("crossover of {} and {}: {e}", a.show(), b.show()));
                    }
                    !rep.stop()
                });
                for (d, w) in &seen {
                    let q = law.get(d).copied().unwrap_or(0.0);
                    rep.check((w - q).abs() < 1e-9, || "law".into(), || format!("crossover of {} and {} gives {} and {} with probability {w} instead of {q}", a.show(), b.show(), d.0.show(), d.1.show()));
                }
                let got: BTreeSet<(Tr, Tr)> = seen.into_keys().collect();
                rep.state(got.len() as u64);
                rep.trans(s.choices);
                if got.len() > 6 {
                    let (x, y) = got.iter().nth(got.len() / 2).unwrap();
                    rep.sample(|| format!("crossover of {} and {}: {} RNG outcomes, {} different pairs of children, one of them {} and {}", a.show(), b.show(), s.runs, got.len(), x.show(), y.show()));
                }
                for d in got.difference(&all) {
                    rep.violation("outcome", format!("crossover of {} and {} gave {} and {}: not a swap of subtrees", a.show(), b.show(), d.0.show(), d.1.show()));
                }
                for d in all.difference(&got) {
                    rep.violation("missing", format!("crossover of {} and {} never gives {} and {}", a.show(), b.show(), d.0.show(), d.1.show()));
                }
                // Constrained: either an admissible swap, or the parents unchanged and unaccepted.
                if share || vast {
                    continue;
                }
                let top = a.size().max(b.size());
                for (maxsize, final_size, maxdepth, k) in [(top, top, 40, 0), (40, 40, a.depth().max(b.depth()), 0), (top, 40, 40, 0), (40, 40, 40, 1), (40, 40, 40, 2)] {
                    let mut o2 = quiet_options(ops(&set.ops));
                    o2.maxsize = final_size;
                    o2.maxdepth = maxdepth;
                    if k == 1 {
                        o2.op_constraints.set_op_arg_constraint(op("sub", 2), 0, 1);
                        o2.op_constraints.set_op_arg_constraint(op("neg", 1), 0, 2);
                    }
                    if k == 2 {
                        o2.nested_constraints.limits.insert(op("neg", 1), vec![(op("neg", 1), 0)].into_iter().collect());
                    }
                    let mut got = BTreeSet::new();
                    let cfg = mc::Config { max_depth: 4, max_runs: tier(1000, 8000), ..Default::default() };
                    let s = mc::explore(&cfg, || {
                        let (x, y, acc, _, _) = run_crossover(&ma, &mb, ds, &o2, maxsize);
                        rep.valid(1);
                        let (Ok(tx), Ok(ty)) = (parse(&x.expr), parse(&y.expr)) else {
                            rep.violation("malformed", format!("crossover of {} and {}", a.show(), b.show()));
                            return false;
                        };
                        if acc {
                            let fine = ref_constraints(&tx, &o2, maxsize) && ref_constraints(&ty, &o2, maxsize) && all.contains(&(tx.clone(), ty.clone()));
                            rep.check(fine, || "constrained".into(), || format!("crossover of {} and {} under size {maxsize} depth {maxdepth} gave {} and {}", a.show(), b.show(), tx.show(), ty.show()));
                            got.insert((tx, ty));
                        } else {
                            let fine = expr_key(&x.expr) == expr_key(&ma.expr) && expr_key(&y.expr) == expr_key(&mb.expr) && x.loss == ma.loss && y.loss == mb.loss && x.cost == ma.cost && y.cost == mb.cost;
                            rep.check(fine, || "failed-crossover".into(), || format!("failed crossover of {} and {} returned {} and {}", a.show(), b.show(), tx.show(), ty.show()));
                        }
                        !rep.stop()
                    });
                    rep.trans(s.choices);
                    rep.note("constrained_runs", s.runs);
                    if s.capped {
                        rep.note("constrained_runs_capped", 1);
                        continue;
                    }
                    let want: BTreeSet<_> = all.iter().filter(|(x, y)| ref_constraints(x, &o2, maxsize) && ref_constraints(y, &o2, maxsize)).cloned().collect();
                    for d in want.difference(&got) {
                        rep.violation("missing-constrained", format!("crossover of {} and {} never gives {} and {} under size {maxsize} depth {maxdepth}", a.show(), b.show(), d.0.show(), d.1.show()));
                    }
                }
            }
        }
    });
}

pub fn c17(rep: &Report) {
    let mut sets = opsets();
    sets.push(OpSet { name: "none", ops: vec![], nf: 2 });
    let mut work: Vec<(usize, bool, usize, usize)> = Vec::new();
    for i in 0..sets.len() {
        for n in 1..=tier(5, 6) {
            work.push((i, false, n, n));
        }
        for n in 0..=tier(3, 4) {
            for max in 0..=tier(7, 8) {
                work.push((i, true, n, max));
            }
        }
    }
    rep.note("generator_calls", work.len() as u64);
    par_for(rep, &work, |_, &(i, append, n, max)| {
        let os = &sets[i];
        let opers = ops(&os.ops);
        let opl = op_list(&opers);
        let mut got = Law::new();
        let mut mass = 0.0;
        let cfg = mc::Config { f64_menu: vec![0.5], int_cap: 256, max_depth: 200, max_runs: 0 };
        let tag = format!("{}:{}", if append { "append" } else { "random" }, os.name);
        let s = mc::explore(&cfg, || {
            let mut rng = Rng::with_seed(3);
            let e: Expr = if append {
                random_expr_append_ops(&mut rng, &opers, os.nf, n, max)
            } else {
                random_expr(&mut rng, &opers, os.nf, n)
            };
            let w = mc::weight();
            mass += w;
            rep.valid(1);
            match well_formed(&e, &opers, os.nf) {
                Err(x) => rep.violation(format!("malformed:{tag}"), format!("n={n} max={max}: {x}")),
                Ok(t) => {
                    if append && !compact(&e) {
                        rep.violation(format!("unused:{tag}"), format!("n={n} max={max}: {} has constants {:?}", t.show(), e.consts));
                    }
                    let t = t.mask(&[0.0]);
                    give(&mut got, t, w);
                }
            }
            !rep.stop()
        });
        rep.state(got.len() as u64);
        rep.trans(s.choices);
        if got.len() > 8 {
            rep.sample(|| format!("{tag}, n={n}, at most {max} nodes: {} RNG outcomes, {} different expressions, one of them {}", s.runs, got.len(), got.keys().nth(got.len() / 2).unwrap().show()));
        }
        let want = if append { append_law(&opl, os.nf, n, max) } else { random_law(&opl, os.nf, n) };
        compare_laws(rep, &tag, &|| format!("n={n} max={max}: generates"), &got, &want);
        if !append {
            let all = random_ref(&opl, os.nf, n);
            rep.check(all.iter().eq(want.keys()), || "reference".into(), || format!("n={n}: the two descriptions of the expressions disagree"));
        }
        rep.check((mass - 1.0).abs() < 1e-9, || format!("mass:{tag}"), || format!("probabilities sum to {mass}"));
    });
    // A randomising mutation asks for every size up to the limit equally often; over unary operators
    // the expression has just that size.
    for cur in 1..=tier(7usize, 9) {
        for mx in [cur, cur + 3] {
            let mut o = quiet_options(ops(&[("neg", 1)]));
            o.maxsize = mx;
            o.maxdepth = mx;
            o.mutation_weights = only("randomize");
            let data = dataset(1, 3);
            let ds = TaggedDataset::new(&data, Some(0.9));
            let m = evaluated(3, 2, Tr::V(0).expr(false), &ds, &o);
            let stats = RunningSearchStatistics::new(mx, 1000);
            let mut p = vec![0.0; mx + 2];
            let s = mc::explore(&mc::Config { f64_menu: vec![0.5], int_cap: 64, max_depth: 400, max_runs: 0 }, || {
                let r = step(&m, ds, &o, 1.0, cur, &stats);
                p[if r.accepted { r.baby.expr.nodes.len().min(mx + 1) } else { 0 }] += mc::weight();
                true
            });
            rep.state(1);
            rep.trans(s.choices);
            rep.valid(s.runs);
            let ok = (0..mx + 2).all(|k| (p[k] - if (1..=cur).contains(&k) { 1.0 / cur as f64 } else { 0.0 }).abs() < 1e-9);
            rep.check(ok, || "randomize-size".into(), || format!("randomising under a limit of {cur} (maximum {mx}) gives sizes 0.. with probabilities {p:?}"));
        }
    }
    // Expressions of hundreds of nodes: the early draws are explored, the later ones fixed by several
    // backgrounds. Every constant must be an entry of its own.
    let big: Vec<(usize, bool, usize)> = (0..sets.len() - 1).flat_map(|i| [(i, false, 700), (i, true, 300), (i, false, 300)]).filter(|w| w.0 % 3 == 0 || thorough()).collect();
    par_for(rep, &big, |_, &(i, append, n)| {
        let os = &sets[i];
        let opers = ops(&os.ops);
        for salt in 0..tier(4, 16) {
            let cfg = mc::Config { f64_menu: vec![0.5], int_cap: 16, max_depth: 4, max_runs: tier(60, 400) };
            let s = mc::explore_window(&cfg, 0, salt, || {
                let mut rng = Rng::with_seed(3);
                let e: Expr = if append {
                    random_expr_append_ops(&mut rng, &opers, os.nf, n, 10_000)
                } else {
                    random_expr(&mut rng, &opers, os.nf, n)
                };
                rep.valid(1);
                match well_formed(&e, &opers, os.nf) {
                    Err(x) => rep.violation(format!("malformed:large:{}", os.name), format!("append={append} n={n}: {x}")),
                    Ok(t) => {
                        rep.check(append || t.size() == n || !os.ops.iter().any(|o| o.1 == 1), || format!("size:large:{}", os.name), || format!("random expression of {n} nodes has {}", t.size()));
                        let used: Vec<u16> = e.nodes.iter().filter_map(|m| if let PNode::Const { idx } = m { Some(*idx) } else { None }).collect();
                        let each: BTreeSet<u16> = used.iter().copied().collect();
                        rep.note("large_constants", used.len() as u64);
                        rep.check(each.len() == used.len(), || format!("shared:large:{}", os.name), || format!("append={append} n={n}: {} constants in the expression share {} entries", used.len(), each.len()));
                    }
                }
                !rep.stop()
            });
            rep.state(s.runs);
            rep.trans(s.choices);
        }
    });
    // Fresh constants are standard normal: their distribution over a grid of the underlying draws.
    let k = tier(400, 1000);
    let cfg = mc::Config { f64_menu: menu(k), int_cap: 16, max_depth: 64, max_runs: 0 };
    let opers = Operators::<D>::new();
    let mut vals: Vec<f64> = Vec::new();
    let s = mc::explore(&cfg, || {
        let mut rng = Rng::with_seed(3);
        let e: Expr = random_expr(&mut rng, &opers, 1, 1);
        if let Ok(Tr::C(b)) = parse(&e) {
            vals.push(f64::from_bits(b));
        }
        true
    });
    rep.trans(s.choices);
    let n = vals.len() as f64;
    vals.sort_by(f64::total_cmp);
    for (q, z) in [(0.05, -1.6449), (0.1587, -1.0), (0.3085, -0.5), (0.5, 0.0), (0.6915, 0.5), (0.8413, 1.0), (0.95, 1.6449)] {
        let p = vals.iter().filter(|v| **v <= z).count() as f64 / n;
        rep.check((p - q).abs() < 0.02, || "normal".into(), || format!("fresh constants: P(c <= {z}) = {p} instead of {q}"));
    }
}

pub fn c18(rep: &Report) {
    rep.assume("temperatures and alpha are non-negative, as the schedule makes them");
    let data = dataset(2, 5);
    let kmenu = menu(40);
    let mut work = Vec::new();
    for annealing in [false, true] {
        for freq in [false, true] {
            for (ti, temp) in [0.0, 1e-3, 0.3, 1.0].into_iter().enumerate() {
                for alpha in [0.1, 3.17] {
                    work.push((annealing, freq, ti, temp, alpha));
                }
            }
        }
    }
    let opers = [("neg", 1u8), ("add", 2)];
    let add = op("add", 2);
    let t = Tr::O(2, add.id, vec![Tr::V(0), c(0.5)]);
    let t5 = Tr::O(2, add.id, vec![t.clone(), Tr::V(1)]);
    par_for(rep, &work, |_, &(annealing, freq, ti, temp, alpha)| {
        let ds = TaggedDataset::new(&data, Some(0.9));
        for start in [&t, &t5] {
            for delta in [-1.0, -1e-3, 0.0, 1e-4, 0.02, 0.05, 0.3, 1.5, 1e3, f64::NEG_INFINITY] {
                for old_size in [0usize, 1, 2, 3, 5, 8, 9, 20] {
                    if !freq && old_size > 1 {
                        continue;
                    }
                    for (fset, mx) in (0..if freq { 4 } else { 1 }).flat_map(|f| [(f, 8), (f, start.size())]) {
                        let mut o = quiet_options(ops(&opers));
                        o.maxsize = mx;
                        o.annealing = annealing;
                        o.use_frequency = freq;
                        o.alpha = alpha;
                        o.mutation_weights = zero_weights();
                        o.mutation_weights.do_nothing = 1.0;
                        let mut stats = RunningSearchStatistics::new(mx, 1000);
                        match fset {
                            0 => {}
                            1 => (0..40).for_each(|_| stats.update_frequencies(start.size())),
                            2 => (0..40).for_each(|_| stats.update_frequencies(1)),
                            _ => (0..8).for_each(|s| (0..s * 3).for_each(|_| stats.update_frequencies(s))),
                        }
                        stats.normalize();
                        let mut m = evaluated(3, 2, start.expr(false), &ds, &o);
                        let new_cost = m.cost;
                        m.cost = new_cost - delta;
                        m.complexity = old_size;
                        let d = new_cost - m.cost;
                        let mut want = 1.0f64;
                        if annealing {
                            // Not worse: no reason to reject, whatever the temperature.
                            want = if d == 0.0 { 1.0 } else { (-d / (temp * alpha)).exp() };
                        }
                        let f = |s: usize| if (1..=mx).contains(&s) { stats.normalized_frequencies[s - 1].max(1e-6) } else { 1e-6 };
                        let exempt = annealing && freq && d == 0.0 && temp == 0.0; // 0/0: unspecified
                        if freq {
                            want *= f(old_size) / f(start.size());
                        }
                        let (mut acc, mut all) = (0.0, 0.0);
                        let cfg = mc::Config { f64_menu: kmenu.clone(), ..Default::default() };
                        let s = mc::explore(&cfg, || {
                            let r = step(&m, ds, &o, temp, mx, &stats);
                            let w = mc::weight();
                            all += w;
                            if r.accepted {
                                acc += w;
                            }
                            lineage(rep, &m, &r, start, &data, &o, Some(0.9));
                            true
                        });
                        rep.state(1);
                        rep.trans(s.choices);
                        rep.valid(s.runs);
                        let grid = kmenu.iter().filter(|u| want >= **u).count() as f64 / 40.0;
                        let near = kmenu.iter().any(|u| (want - u).abs() < 1e-9);
                        let got: f64 = acc / all;
                        if 0.0 < got && got < 1.0 && fset == 3 {
                            rep.sample(|| format!("{}: cost change {d}, temperature {temp}, alpha {alpha}, sizes {old_size}->{}: accepted with probability {got} of the grid, {want} exactly", start.show(), start.size()));
                        }
                        rep.check(near || exempt || (got - grid).abs() < 1e-9, || format!("accept:annealing={annealing}:freq={freq}:T{ti}"), || {
                            format!("{}: cost change {d}, temperature {temp}, alpha {alpha}, sizes {old_size}->{} of {mx}, frequencies {:?}: accepted with probability {got}, should be {grid} (acceptance probability {want})", start.show(), start.size(), stats.normalized_frequencies)
                        });
                    }
                }
            }
        }
    });
    // How often a mutation is tried: the operator drawn is admissible once in two.
    {
        let cos = op("cos", 1);
        let mut o = quiet_options(ops(&[("neg", 1), ("cos", 1)]));
        o.maxsize = 5;
        o.operator_complexity_overrides.insert(cos, 9);
        o.mutation_weights = only("mutate_operator");
        let ds = TaggedDataset::new(&data, Some(0.9));
        let m = evaluated(3, 2, Tr::O(1, op("neg", 1).id, vec![Tr::V(0)]).expr(false), &ds, &o);
        let stats = RunningSearchStatistics::new(5, 1000);
        let (mut acc, mut all) = (0.0, 0.0);
        let s = mc::explore(&mc::Config { f64_menu: vec![0.5], int_cap: 64, max_depth: 200, max_runs: 0 }, || {
            let r = step(&m, ds, &o, 1.0, 5, &stats);
            all += mc::weight();
            acc += if r.accepted { mc::weight() } else { 0.0 };
            true
        });
        rep.state(1);
        rep.trans(s.choices);
        rep.valid(s.runs);
        let (got, want) = (1.0 - acc / all, 0.5f64.powi(10));
        rep.check((got - want).abs() < 1e-9, || "attempts".into(), || format!("a mutation that is admissible once in two fails with probability {got}, ten attempts fail with {want}"));
    }
    // Real mutations under tight constraints and with operators that overflow: what is accepted is
    // admissible and finite; what is not accepted is the parent again.
    let mut sets = vec![
        OpSet { name: "finite", ops: vec![("neg", 1), ("add", 2), ("mul", 2)], nf: 2 },
        OpSet { name: "partial", ops: vec![("log", 1), ("div", 2), ("exp", 1)], nf: 2 },
    ];
    if OWN {
        sets = vec![OpSet { name: "own", ops: vec![("log", 1), ("join", 4), ("sub", 2)], nf: 2 }];
    }
    let mut work = Vec::new();
    for (si, os) in sets.iter().enumerate() {
        for t in start_trees(os, tier(3, 4)).into_iter().chain(start_shapes(os, tier(5, 6))) {
            for kind in KINDS {
                for limit in 0..9 {
                    work.push((si, t.clone(), kind, limit));
                }
            }
        }
    }
    rep.note("constrained_cases", work.len() as u64);
    let weighted = wdataset(2, 5);
    par_for(rep, &work, |_, (si, t, kind, limit)| {
        let os = &sets[*si];
        let data = if *limit % 2 == 0 { &data } else { &weighted };
        let ds = TaggedDataset::new(data, Some(0.9));
        let mut o = quiet_options(ops(&os.ops));
        o.optimizer_probability = 1.0;
        o.optimizer_nrestarts = 0;
        o.parsimony = 0.01;
        o.mutation_weights = only(kind);
        o.maxsize = 12;
        let (o1, o2) = (op(os.ops[1].0, os.ops[1].1), op(os.ops[0].0, os.ops[0].1));
        let mut cur = 12;
        match limit {
            0 => cur = t.size().max(2),
            1 => {
                o.maxdepth = t.depth().max(2);
                o.maxsize = t.size() + 2;
                cur = t.size() + 2;
            }
            2 => o.op_constraints.set_op_arg_constraint(o1, 0, 1),
            3 => o.nested_constraints.add_nested_constraint(o2, o1, 0),
            4 => {
                o.complexity_of_variables = 2;
                o.operator_complexity_overrides.insert(o1, 3);
                cur = 7;
            }
            5 => {
                o.nested_constraints.add_nested_constraint(o2, o2, 0);
                cur = 5;
            }
            // Parents beyond the limits, as a search has them while its size limit warms up.
            6 => cur = 1,
            7 => cur = (t.size() / 2).max(1),
            _ => o.maxdepth = 1,
        }
        let m = evaluated(3, 2, t.expr(false), &ds, &o);
        let stats = RunningSearchStatistics::new(o.maxsize, 1000);
        let cfg = mc::Config { f64_menu: vec![0.3, 0.8], int_cap: 64, max_depth: tier(6, 7), max_runs: tier(600, 6000) };
        let mut seen = BTreeSet::new();
        let s = mc::explore(&cfg, || {
            let r = match catching(|| step(&m, ds, &o, 1.0, cur, &stats)) {
                Ok(r) => r,
                Err(e) => {
                    rep.violation(format!("panic:{kind}"), format!("{kind} of {} under limit {limit}: {e}", t.show()));
                    return false;
                }
            };
            rep.valid(1);
            lineage(rep, &m, &r, t, data, &o, Some(0.9));
            if r.accepted {
                match well_formed(&r.baby.expr, &o.operators, 2) {
                    Ok(x) => {
                        rep.check(ref_constraints(&x, &o, cur), || format!("constraints:{kind}:{limit}"), || format!("{kind} of {} accepted {}, which breaks the constraints (case {limit}, size limit {cur})", t.show(), x.show()));
                        seen.insert(x);
                    }
                    Err(e) => rep.violation(format!("malformed:{kind}"), format!("{kind} of {}: {e}", t.show())),
                }
                if *kind != "simplify" {
                    rep.check(r.baby.cost.is_finite() && r.baby.loss.is_finite(), || format!("infinite:{kind}"), || format!("{kind} of {} accepted {} with loss {} cost {}", t.show(), show(&r.baby.expr), r.baby.loss, r.baby.cost));
                }
                let rel = if *kind == "simplify" { 1e-6 } else { 1e-9 };
                if *kind != "simplify" || m.loss.is_finite() {
                    if let Err(e) = truthful(&r.baby, data, Some(0.9), &o, LossKind::Mse, rel) {
                        // The simplified form of an expression may be finite where the original is not.
                        rep.violation(format!("metrics:{kind}:{limit}"), format!("{kind} of {}: {e}", t.show()));
                    }
                }
            }
            !rep.stop()
        });
        rep.state(seen.len() as u64 + 1);
        rep.trans(s.choices);
        rep.note("constrained_runs", s.runs);
        rep.note("constrained_runs_capped", s.capped as u64);
    });
}

/// Ids, births, parents; a rejected child is its parent again.
fn lineage(rep: &Report, m: &Member, r: &Step, start: &Tr, data: &Dataset<f64>, o: &Opts, base: Option<f64>) {
    let _ = (o, base);
    let fresh_id = r.baby.id.0 >= ID0 && r.baby.id.0 < r.next_id;
    let fresh_birth = r.baby.birth >= BIRTH0 && r.baby.birth < r.next_birth;
    rep.check(fresh_id && fresh_birth && r.baby.parent == Some(m.id), || "lineage".into(), || {
        format!("{}: child id {:?} parent {:?} birth {}, counters {} {}", start.show(), r.baby.id, r.baby.parent, r.baby.birth, r.next_id, r.next_birth)
    });
    if !r.accepted {
        let same = expr_key(&r.baby.expr) == expr_key(&m.expr) && r.baby.loss.to_bits() == m.loss.to_bits() && r.baby.cost.to_bits() == m.cost.to_bits() && r.baby.complexity == m.complexity;
        rep.check(same, || "rejected-differs".into(), || format!("{}: rejected child is {} loss {} cost {} complexity {}, parent loss {} cost {} complexity {}", start.show(), show(&r.baby.expr), r.baby.loss, r.baby.cost, r.baby.complexity, m.loss, m.cost, m.complexity));
        if let Err(e) = plan_fits(&r.baby, data) {
            rep.violation("rejected-plan", e);
        }
    }
}

/// Which mutations can be drawn for an expression, and how often.
pub fn c44(rep: &Report) {
    use MutationChoice as M;
    let all = [
        (M::MutateConstant, "mutate_constant"),
        (M::MutateOperator, "mutate_operator"),
        (M::MutateFeature, "mutate_feature"),
        (M::SwapOperands, "swap_operands"),
        (M::RotateTree, "rotate_tree"),
        (M::AddNode, "add_node"),
        (M::InsertNode, "insert_node"),
        (M::DeleteNode, "delete_node"),
        (M::Simplify, "simplify"),
        (M::Randomize, "randomize"),
        (M::DoNothing, "do_nothing"),
        (M::Optimize, "optimize"),
    ];
    let k = tier(4096, 65536);
    let grid = menu(k);
    // Distribution of the draw for weight vectors: every single, every pair, and a full one.
    let mut vectors: Vec<Vec<f64>> = Vec::new();
    for i in 0..12 {
        for j in i..12 {
            for (a, b) in [(1.0, 1.0), (0.25, 3.0), (1e-3, 1.0)] {
                let mut w = vec![0.0; 12];
                w[i] += a;
                w[j] += b;
                vectors.push(w);
            }
        }
    }
    vectors.push((0..12).map(|i| 0.1 + i as f64).collect());
    vectors.push((0..12).map(|i| 1.0 / (1.0 + i as f64 * i as f64)).collect());
    let dflt = MutationWeights::default();
    let mut dw = dflt.clone();
    let dv: Vec<f64> = all.iter().map(|(_, n)| *field(&mut dw, n)).collect();
    vectors.push(dv.clone());
    let proportional = vectors.len();
    // The default weights with every subset of mutations switched off.
    for mask in 1..1u32 << 12 {
        let w: Vec<f64> = (0..12).map(|i| if mask >> i & 1 == 1 { dv[i] } else { 0.0 }).collect();
        if w.iter().sum::<f64>() > 0.0 {
            vectors.push(w);
        }
    }
    par_for(rep, &vectors, |vi, v| {
        let mut w = zero_weights();
        for (i, (_, n)) in all.iter().enumerate() {
            *field(&mut w, n) = v[i];
        }
        let total: f64 = v.iter().sum();
        let mut mass = vec![0.0; 12];
        let mut edges = Vec::new();
        for menu in [grid.clone(), vec![0.0, f64::MIN_POSITIVE, 1.0 - f64::EPSILON / 2.0, 1.0 - f64::EPSILON]] {
            let edge = menu.len() == 4;
            if !edge && vi >= proportional {
                continue;
            }
            let cfg = mc::Config { f64_menu: menu, ..Default::default() };
            let s = mc::explore(&cfg, || {
                let c = sample_mutation(&mut Rng::with_seed(1), &w);
                let i = all.iter().position(|(m, _)| *m == c).unwrap();
                if edge {
                    edges.push(i);
                } else {
                    mass[i] += mc::weight();
                }
                true
            });
            rep.trans(s.choices);
            rep.valid(s.runs);
        }
        rep.state(mass.iter().filter(|m| **m > 0.0).count() as u64);
        if vi % 31 == 3 && vi < proportional {
            rep.sample(|| format!("weights {v:?}: drawn with probabilities {mass:?}"));
        }
        for i in edges {
            rep.check(v[i] > 0.0, || "zero-weight".into(), || format!("{} is drawn although its weight is zero; weights {v:?}", all[i].1));
        }
        for i in 0..12 {
            if vi >= proportional {
                break;
            }
            rep.check((mass[i] - v[i] / total).abs() <= 2.0 / k as f64, || "proportion".into(), || format!("{} is drawn with probability {} instead of {}; weights {v:?}", all[i].1, mass[i], v[i] / total));
        }
    });
    // Conditioning: a mutation that cannot do anything to an expression is not drawn for it, the
    // others keep their weights (constants: scaled with their number up to eight).
    let mut work = Vec::new();
    for os in opsets() {
        for t in start_trees(&os, tier(4, 5)).into_iter().chain(start_shapes(&os, tier(7, 8))) {
            work.push((os.ops.clone(), os.nf, t));
        }
    }
    // Many constants.
    let add = op("add", 2);
    for n in if D > 1 { vec![7usize, 8, 9, 12] } else { vec![] } {
        let mut t = c(1.0);
        for i in 1..n {
            t = Tr::O(2, add.id, vec![t, c(1.0 + i as f64)]);
        }
        work.push((vec![("add", 2)], 2, t));
    }
    rep.note("conditioned_expressions", work.len() as u64);
    par_for(rep, &work, |_, (on, nf, t)| {
        let data = dataset(*nf, 3);
        let ds = TaggedDataset::new(&data, None);
        let mut consts = Vec::new();
        t.consts(&mut consts);
        let n_consts = consts.len();
        let has_var = t.paths().iter().any(|p| matches!(t.at(p), Tr::V(_)));
        let has_op = !t.is_leaf();
        let has_bin = t.paths().iter().any(|p| matches!(t.at(p), Tr::O(2, ..)));
        let rotatable = t.paths().iter().any(|p| matches!(t.at(p), Tr::O(_, _, ch) if ch.iter().any(|x| !x.is_leaf())));
        for cur in [1, t.size().saturating_sub(1), t.size(), t.size() + 1, 30] {
            for (simp, opt, prob) in [(true, true, 0.5), (false, true, 0.5), (true, false, 0.5), (true, true, 0.0)] {
                let mut o = quiet_options(ops(on));
                o.should_simplify = simp;
                o.should_optimize_constants = opt;
                o.optimizer_probability = prob;
                let m = evaluated(0, 0, t.expr(false), &ds, &o);
                let mut w0 = zero_weights();
                for (i, (_, n)) in all.iter().enumerate() {
                    *field(&mut w0, n) = 1.0 + 0.5 * i as f64;
                }
                let mut w = w0.clone();
                condition_mutation_weights(&mut w, &m, &o, cur, *nf);
                rep.state(1);
                rep.valid(12);
                let full = |n: &str| *field(&mut w0.clone(), n);
                let now = |n: &str| *field(&mut w.clone(), n);
                let mut bad = Vec::new();
                // never drawn when they cannot apply
                let impossible = [
                    ("mutate_constant", n_consts == 0),
                    ("mutate_operator", !has_op),
                    ("swap_operands", !has_bin),
                    ("delete_node", !has_op),
                    ("simplify", !has_op || !simp),
                    ("optimize", n_consts == 0),
                ];
                for (n, imp) in impossible {
                    if imp && now(n) != 0.0 {
                        bad.push(format!("{n} keeps weight {} although it cannot apply", now(n)));
                    }
                }
                if has_op {
                    if *nf <= 1 && now("mutate_feature") != 0.0 {
                        bad.push("mutate_feature with a single feature".into());
                    }
                    if (!opt || prob == 0.0) && now("optimize") != 0.0 {
                        bad.push("optimize although switched off".into());
                    }
                    if t.size() >= cur && (now("add_node") != 0.0 || now("insert_node") != 0.0) {
                        bad.push(format!("growing an expression of {} nodes at limit {cur}", t.size()));
                    }
                }
                // drawn with their own weight when they can
                let mut keep = vec![("randomize", true), ("do_nothing", true)];
                keep.push(("mutate_operator", has_op));
                keep.push(("mutate_feature", has_var && *nf > 1 && has_op));
                keep.push(("mutate_feature", has_var && *nf > 1 && n_consts == 0));
                keep.push(("swap_operands", has_bin));
                keep.push(("rotate_tree", rotatable));
                keep.push(("add_node", t.size() < cur));
                keep.push(("insert_node", t.size() < cur));
                keep.push(("delete_node", has_op));
                keep.push(("simplify", has_op && simp));
                keep.push(("optimize", n_consts > 0 && opt && prob > 0.0 && has_op));
                for (n, can) in keep {
                    if can && now(n) != full(n) {
                        bad.push(format!("{n} has weight {} instead of {}", now(n), full(n)));
                    }
                }
                if has_op && n_consts > 0 {
                    let want = full("mutate_constant") * n_consts.min(8) as f64 / 8.0;
                    if (now("mutate_constant") - want).abs() > 1e-12 {
                        bad.push(format!("mutate_constant has weight {} for {n_consts} constants instead of {want}", now("mutate_constant")));
                    }
                }
                for b in bad {
                    rep.violation("condition", format!("{} ({} features, limit {cur}, simplify {simp}, optimise {opt} p {prob}): {b}", t.show(), nf));
                }
            }
        }
    });
}
