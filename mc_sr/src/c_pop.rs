//! C19-C23, C26, C32-C34: constraints, complexity, hall of fame, populations, migration, selection,
//! warmup, adaptive parsimony, data sets.
use super::c_mut::{field, only};
use super::common::*;
use ndarray::{Array1, Array2, Axis};
use std::marker::PhantomData;

// ---------------------------------------------------------------- C19, C20

const U: [OpId; 2] = [OpId { arity: 1, id: 0 }, OpId { arity: 1, id: 1 }];
const W: [OpId; 2] = [OpId { arity: 2, id: 0 }, OpId { arity: 2, id: 1 }];
const T3: OpId = OpId { arity: 3, id: 0 };
const Q4: OpId = OpId { arity: 4, id: 0 };

fn some_ops() -> Vec<OpId> {
    if OWN {
        vec![U[0], W[0], T3, Q4]
    } else {
        vec![U[0], U[1], W[0], W[1], T3]
    }
}

fn raw(t: &Tr) -> String {
    match t {
        Tr::V(f) => format!("x{f}"),
        Tr::C(_) => "c".into(),
        Tr::O(a, o, ch) => format!("op{a}_{o}({})", ch.iter().map(raw).collect::<Vec<_>>().join(",")),
    }
}

#[derive(Clone)]
struct Cfg {
    what: String,
    o: Opts,
    cur: usize,
}

fn base_opts() -> Opts {
    let mut o = quiet_options(Operators::new());
    o.maxsize = 30;
    o.maxdepth = 30;
    o
}

fn complexity_variants() -> Vec<(String, Opts)> {
    let mut v = Vec::new();
    v.push(("default".into(), base_opts()));
    for (cc, cv) in [(2u16, 1u16), (1, 3), (0, 1), (3, 2), (1, 0)] {
        let mut o = base_opts();
        o.complexity_of_constants = cc;
        o.complexity_of_variables = cv;
        v.push((format!("const {cc} var {cv}"), o));
    }
    for list in [vec![2u16], vec![1, 4], vec![1, 1], vec![0, 2, 9], vec![]] {
        let mut o = base_opts();
        o.complexity_of_variables = 3;
        o.variable_complexities = Some(list.clone());
        v.push((format!("variables {list:?}, others 3"), o));
    }
    for (a, k) in [(U[0], 3u16), (W[0], 2), (W[1], 0), (if OWN { Q4 } else { T3 }, 5)] {
        let mut o = base_opts();
        o.operator_complexity_overrides.insert(a, k);
        v.push((format!("op{}_{} costs {k}", a.arity, a.id), o.clone()));
        o.operator_complexity_overrides.insert(U[1], 2);
        o.complexity_of_constants = 2;
        o.variable_complexities = Some(vec![1, 2]);
        v.push((format!("op{}_{} costs {k} and more", a.arity, a.id), o));
    }
    v
}

fn constraint_trees(n: usize) -> Vec<Tr> {
    trees(&[Tr::V(0), Tr::V(1), c(1.0)], &some_ops(), n)
}

fn shapes(n: usize) -> Vec<Tr> {
    fn rec(t: &Tr, k: &mut usize) -> Tr {
        match t {
            Tr::O(a, o, ch) => Tr::O(*a, *o, ch.iter().map(|x| rec(x, k)).collect()),
            _ => {
                *k += 1;
                [Tr::V(0), c(1.0), Tr::V(1), Tr::V(2)][(*k * 7 / 3) % 4].clone()
            }
        }
    }
    trees(&[Tr::V(0)], &some_ops(), n).iter().map(|t| rec(t, &mut 0)).collect()
}

pub fn c19(rep: &Report) {
    c19_vast(rep);
    let all_ops = some_ops();
    let mut cfgs: Vec<Cfg> = Vec::new();
    for (what, o) in complexity_variants() {
        for cur in 1..=tier(9, 12) {
            for depth in 1..=tier(5, 6) {
                let mut o = o.clone();
                o.maxdepth = depth;
                cfgs.push(Cfg { what: format!("{what}, size {cur}, depth {depth}"), o, cur });
            }
            cfgs.push(Cfg { what: format!("{what}, size {cur}"), o: o.clone(), cur });
        }
    }
    // Per-argument limits.
    for custom in [0, 1] {
        for &a in &all_ops {
            for j in 0..a.arity as usize {
                for lim in 0..=4u16 {
                    let mut o = base_opts();
                    if custom == 1 {
                        o.complexity_of_variables = 2;
                    }
                    o.op_constraints.set_op_arg_constraint(a, j, lim);
                    cfgs.push(Cfg { what: format!("argument {j} of op{}_{} at most {lim}, custom {custom}", a.arity, a.id), o: o.clone(), cur: 30 });
                    for &b in &all_ops {
                        for k in 0..b.arity as usize {
                            if lim < 3 && (a, j) != (b, k) {
                                let mut o2 = o.clone();
                                o2.op_constraints.set_op_arg_constraint(b, k, 2);
                                cfgs.push(Cfg { what: format!("argument {j} of op{}_{} at most {lim}, {k} of op{}_{} at most 2, custom {custom}", a.arity, a.id, b.arity, b.id), o: o2, cur: 30 });
                            }
                        }
                    }
                }
            }
        }
    }
    // Nesting limits.
    for &a in &all_ops {
        for &b in &all_ops {
            for lim in 0..=2u8 {
                let mut o = base_opts();
                o.nested_constraints.add_nested_constraint(a, b, lim);
                cfgs.push(Cfg { what: format!("op{}_{} in op{}_{} at most {lim}", b.arity, b.id, a.arity, a.id), o: o.clone(), cur: 30 });
                if lim < 2 {
                    for &a2 in &all_ops {
                        for b2 in [U[0], W[0], W[1]] {
                            let mut o2 = o.clone();
                            o2.nested_constraints.add_nested_constraint(a2, b2, 0);
                            cfgs.push(Cfg { what: format!("op{}_{} in op{}_{} at most {lim}, op{}_{} in op{}_{} never", b.arity, b.id, a.arity, a.id, b2.arity, b2.id, a2.arity, a2.id), o: o2, cur: 30 });
                        }
                    }
                }
            }
        }
    }
    let mut ts = constraint_trees(tier(if OWN { 5 } else { 4 }, 5));
    ts.extend(shapes(tier(8, 9)));
    ts.sort();
    ts.dedup();
    rep.note("configurations", cfgs.len() as u64);
    rep.note("expressions", ts.len() as u64);
    let nodes: u64 = ts.iter().map(|t| t.size() as u64).sum();
    let exprs: Vec<Expr> = ts.iter().map(|t| t.expr(false)).collect();
    par_for(rep, &cfgs, |_, cf| {
        let (mut yes, mut no) = (0u64, 0u64);
        for (t, e) in ts.iter().zip(&exprs) {
            let got = check_constraints(e, &cf.o, cf.cur);
            let want = ref_constraints(t, &cf.o, cf.cur);
            if want {
                yes += 1
            } else {
                no += 1
            }
            rep.check(got == want, || format!("constraint:{}", if want { "refused" } else { "admitted" }), || format!("{} is {} under: {}", raw(t), if want { "refused although it satisfies the limits" } else { "admitted although it breaks a limit" }, cf.what));
        }
        rep.state(ts.len() as u64);
        rep.trans(nodes);
        rep.valid(yes + no);
        rep.note("admissible", yes);
        rep.sample(|| format!("{} under: {}: {}; {yes} of {} expressions admitted", raw(&ts[ts.len() / 2]), cf.what, if ref_constraints(&ts[ts.len() / 2], &cf.o, cf.cur) { "admitted" } else { "refused" }, ts.len()));
    });
}

/// Expressions around and beyond the sizes, depths and nestings that a byte counts.
fn vast_trees() -> Vec<Tr> {
    let (u, w) = (U[0], W[0]);
    let un = |t: Tr| Tr::O(1, u.id, vec![t]);
    let bi = |a: Tr, b: Tr| Tr::O(2, w.id, vec![a, b]);
    let leaf = |k: usize| match k % 3 {
        0 => Tr::V(k as u16),
        1 => c(0.0),
        _ => Tr::V(0),
    };
    let mut out = Vec::new();
    for n in [43usize, 44, 45, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 299, 300, 301, 511, 512, 513] {
        let chain = (0..n).fold(Tr::V(0), |t, _| un(t));
        out.push(bi(chain.clone(), c(0.0)));
        out.push(bi(Tr::V(300), chain.clone()));
        out.push(un(bi(chain.clone(), un(c(0.0)))));
        out.push(chain);
        let m = n / 2;
        out.push(un((1..=m).fold(leaf(0), |t, k| bi(t, leaf(k)))));
        out.push(bi(c(0.0), (1..=m).fold(leaf(0), |t, k| bi(leaf(k), t))));
        out.push((1..=m).fold(leaf(2), |t, k| if k % 2 == 0 { un(t) } else { bi(t, leaf(k)) }));
    }
    out
}

const EDGES: [u16; 15] = [0, 1, 43, 44, 45, 127, 128, 254, 255, 256, 257, 258, 300, 512, 65535];

fn c19_vast(rep: &Report) {
    let ts = vast_trees();
    let mut cfgs: Vec<Cfg> = Vec::new();
    let roomy = || {
        let mut o = base_opts();
        o.maxsize = 10_000_000;
        o.maxdepth = 100_000;
        o
    };
    let cur = 10_000_000;
    for e in EDGES {
        for cost in [1u16, 300, 40_000] {
            let mut o = roomy();
            o.complexity_of_constants = cost;
            cfgs.push(Cfg { what: format!("size {e}, constants cost {cost}"), o: o.clone(), cur: e as usize });
            cfgs.push(Cfg { what: format!("size {e}000, constants cost {cost}"), o: o.clone(), cur: e as usize * 1000 });
            o.operator_complexity_overrides.insert(U[0], cost);
            cfgs.push(Cfg { what: format!("size {e}, constants and op1_0 cost {cost}"), o: o.clone(), cur: e as usize });
            cfgs.push(Cfg { what: format!("size {e}000, constants and op1_0 cost {cost}"), o: o.clone(), cur: e as usize * 1000 });
            for (a, j) in [(U[0], 0), (W[0], 0), (W[0], 1)] {
                let mut o = o.clone();
                o.op_constraints.set_op_arg_constraint(a, j, e);
                cfgs.push(Cfg { what: format!("argument {j} of op{}_{} at most {e}, constants and op1_0 cost {cost}", a.arity, a.id), o, cur });
                let mut o = roomy();
                o.op_constraints.set_op_arg_constraint(a, j, e);
                cfgs.push(Cfg { what: format!("argument {j} of op{}_{} at most {e}", a.arity, a.id), o, cur });
            }
        }
        let mut o = roomy();
        o.maxdepth = e as usize;
        cfgs.push(Cfg { what: format!("depth {e}"), o, cur });
        if e <= 255 {
            for a in [U[0], W[0]] {
                for b in [U[0], W[0]] {
                    let mut o = roomy();
                    o.nested_constraints.add_nested_constraint(a, b, e as u8);
                    cfgs.push(Cfg { what: format!("op{}_{} in op{}_{} at most {e}", b.arity, b.id, a.arity, a.id), o, cur });
                }
            }
        }
    }
    rep.note("configurations_large", cfgs.len() as u64);
    rep.note("expressions_large", ts.len() as u64);
    let exprs: Vec<Expr> = ts.iter().map(|t| t.expr(false)).collect();
    par_for(rep, &cfgs, |_, cf| {
        let mut yes = 0;
        for (t, e) in ts.iter().zip(&exprs) {
            let (got, want) = (check_constraints(e, &cf.o, cf.cur), ref_constraints(t, &cf.o, cf.cur));
            yes += want as u64;
            rep.check(got == want, || format!("constraint:large:{}", if want { "refused" } else { "admitted" }), || format!("an expression of {} nodes, depth {}, is {} under: {}", t.size(), t.depth(), if got { "admitted" } else { "refused" }, cf.what));
        }
        rep.state(ts.len() as u64);
        rep.valid(ts.len() as u64);
        rep.note("admissible_large", yes);
    });
}

fn c20_vast(rep: &Report) {
    let ts = vast_trees();
    let mut vs = complexity_variants();
    for (a, k) in [(300u16, 2u16), (65_535, 65_535), (40_000, 30_000), (1, 65_535)] {
        let mut o = base_opts();
        o.complexity_of_constants = a;
        o.complexity_of_variables = k;
        o.operator_complexity_overrides.insert(W[0], a);
        vs.push((format!("constants and op2_0 {a}, variables {k}"), o.clone()));
        o.operator_complexity_overrides.insert(U[0], k);
        o.variable_complexities = Some((0..301).map(|f| 65_535 - 200 * f).collect());
        vs.push((format!("constants and op2_0 {a}, op1_0 {k}, one complexity for each of 301 variables"), o));
    }
    par_for(rep, &vs, |_, (what, o)| {
        for t in &ts {
            let e = t.expr(false);
            let (got, want) = (compute_complexity(&e.nodes, o), ref_complexity(t, o));
            rep.state(1);
            rep.trans(t.size() as u64);
            rep.valid(1);
            rep.check(got == want, || format!("complexity:large:{what}"), || format!("complexity of an expression of {} nodes is {got} instead of {want}; {what}", t.size()));
        }
    });
}

pub fn c20(rep: &Report) {
    declared(rep);
    c20_vast(rep);
    let mut ts = constraint_trees(tier(5, 6));
    ts.extend(shapes(tier(8, 9)));
    ts.sort();
    ts.dedup();
    rep.note("expressions", ts.len() as u64);
    let vs = complexity_variants();
    let chunks: Vec<&[Tr]> = ts.chunks(256).collect();
    par_for(rep, &chunks, |_, ch| {
        for t in ch.iter() {
            let e = t.expr(false);
            for (what, o) in &vs {
                let (got, want) = (compute_complexity(&e.nodes, o), ref_complexity(t, o));
                rep.state(1);
                rep.trans(t.size() as u64);
                rep.valid(1);
                if t.size() > 4 {
                    rep.sample(|| format!("{}, {what}: {got}", raw(t)));
                }
                rep.check(got == want, || format!("complexity:{what}"), || format!("complexity of {} is {got} instead of {want}; {what}", raw(t)));
            }
        }
    });
    // The member records the complexity, whatever the outcome of the evaluation.
    let data = dataset(3, 4);
    let ds = TaggedDataset::new(&data, None);
    let real = [op("neg", 1), op("log", 1), op("sub", 2), op("div", 2), if OWN { op("join", 4) } else { op("fma", 3) }];
    for t in trees(&[Tr::V(0), Tr::V(2), c(-1.0)], &real, if OWN { 5 } else { 4 }) {
        for k in 0..4 {
            let mut o = base_opts();
            match k {
                1 => o.complexity_of_constants = 3,
                2 => o.variable_complexities = Some(vec![2, 1, 4]),
                3 => {
                    o.operator_complexity_overrides.insert(real[1], 4);
                }
                _ => {}
            }
            let m = evaluated(0, 0, t.expr(false), &ds, &o);
            rep.valid(1);
            let want = ref_complexity(&t, &o);
            rep.check(m.complexity == want, || "member".into(), || format!("{} records complexity {} instead of {want} (case {k})", t.show(), m.complexity));
        }
    }
}

/// A search counts an operator at the complexity that its set declares, unless the options say otherwise.
fn declared(rep: &Report) {
    if !OWN {
        return;
    }
    for pick in 0..8u32 {
        for over in 0..5 {
            for seed in 0..tier(4u64, 16) {
                let mut c = super::c_eng::base();
                c.o.operators = ops(&[("neg", 1), ("add", 2)]);
                for (k, (n, a)) in [("half", 1), ("mean", 2), ("join", 4)].into_iter().enumerate() {
                    if pick >> k & 1 == 1 {
                        c.o.operators.push(op(n, a));
                    }
                }
                match over {
                    1 => drop(c.o.operator_complexity_overrides.insert(op("half", 1), 1)),
                    2 => drop(c.o.operator_complexity_overrides.insert(op("mean", 2), 4)),
                    3 => drop(c.o.operator_complexity_overrides.insert(op("neg", 1), 2)),
                    4 => c.o.complexity_of_variables = 2,
                    _ => {}
                }
                c.o.maxsize = 10;
                c.o.seed = seed;
                let what = format!("operators {pick:03b}, overrides {over}, seed {seed}");
                let mut look = |how: &str, ms: Vec<&Member>| {
                    for m in ms {
                        rep.valid(1);
                        match parse(&m.expr) {
                            Ok(t) => {
                                let want = ref_complexity(&t, &c.o);
                                rep.check(m.complexity == want, || format!("declared:{how}"), || format!("{how} ({what}): {} has complexity {} instead of {want}", t.show(), m.complexity));
                            }
                            Err(e) => rep.violation("malformed", e),
                        }
                    }
                };
                let mut e = super::c_eng::engine(&c);
                while e.step(1) == 1 {
                    rep.trans(1);
                    look("stepping", e.verif_populations().into_iter().flatten().chain(e.hall_of_fame().members()).chain([e.best()]).collect());
                }
                rep.state(1);
                let r = symbolic_regression::equation_search::<f64, B, D>(&c.ds, &c.o);
                look("the parallel search", r.hall_of_fame.members().chain([&r.best]).collect());
            }
        }
    }
}

// ---------------------------------------------------------------- C21

fn sized(n: usize) -> Tr {
    let neg = op("neg", 1);
    let mut t = Tr::V(0);
    for _ in 1..n {
        t = Tr::O(1, neg.id, vec![t]);
    }
    t
}

fn member(id: u64, birth: u64, t: &Tr, complexity: usize, loss: f64, cost: f64) -> Member {
    let mut m = Member::from_expr(MemberId(id), None, birth, t.expr(false), 2);
    m.complexity = complexity;
    m.loss = loss;
    m.cost = cost;
    m
}

pub fn c21(rep: &Report) {
    let inf = f64::INFINITY;
    let mut o = quiet_options(ops(&[("neg", 1)]));
    o.maxsize = 4;
    o.maxdepth = 30;
    // (size of the expression, recorded complexity, loss, cost)
    let small: Vec<(usize, usize, f64, f64)> = vec![
        (1, 1, 3.0, 3.0),
        (1, 1, 2.0, 2.5),
        (2, 2, 2.0, 2.0),
        (2, 2, 1.0, 3.0),
        (2, 2, 2.5, 1.0),
        (3, 3, 2.0, 2.0),
        (3, 3, 0.5, 1.0),
        (4, 4, 0.1, 0.1), // beyond the current maximum size 3
        (5, 5, 0.0, 0.0), // beyond the hall
        (3, 3, inf, inf),
        (1, 1, 3.0, 3.0),
        (3, 0, 0.5, 0.5), // complexity zero has no entry
    ];
    let lens = tier(5, 6);
    let mut heads: Vec<Vec<usize>> = Vec::new();
    for_each_tuple(small.len(), 2, |v| heads.push(v.to_vec()));
    rep.sample(|| format!("all sequences of up to {lens} members of {:?}", &small[..4]));
    par_for(rep, &heads, |_, h| {
        for cur in [3usize, 4] {
            for extra in 0..=lens - 2 {
                for_each_tuple(small.len(), extra, |v| {
                    let seq: Vec<usize> = h.iter().chain(v).copied().collect();
                    hall_case(rep, &o, cur, &small, &seq);
                });
            }
        }
    });
    for i in 0..small.len() {
        hall_case(rep, &o, 3, &small, &[i]);
    }
    hall_case(rep, &o, 3, &small, &[]);
    // Halls of hundreds of entries: every complexity has its own, filled in any of these orders.
    for n in [40usize, 70, 130, 260, 300] {
        for cur in [n, n - 7] {
            let mut o = o.clone();
            o.maxsize = n;
            o.maxdepth = 1000;
            let many: Vec<(usize, usize, f64, f64)> = (1..=n + 2).flat_map(|k| [(k, k, 2.0 / k as f64, 3.0), (k, k, 1.0 / k as f64, if k % 2 == 0 { 2.0 } else { 4.0 })]).collect();
            let up: Vec<usize> = (0..many.len()).collect();
            let down: Vec<usize> = (0..many.len()).rev().collect();
            let far: Vec<usize> = (0..many.len()).map(|i| i * 101 % many.len()).collect();
            for seq in [up, down, far] {
                hall_case(rep, &o, cur, &many, &seq);
            }
        }
    }
    // Every pareto pattern: losses per complexity from a small set, absent entries included.
    let vals = [0.0, 1.0, 2.0, inf];
    for_each_tuple(5, tier(6, 8), |v| {
        let n = v.len();
        let mut o = o.clone();
        o.maxsize = n;
        let mut hall = Hall::new(n);
        let mut want: Vec<(usize, f64)> = Vec::new();
        let mut best = inf;
        for (i, &k) in v.iter().enumerate() {
            if k == 4 {
                continue;
            }
            hall.consider(&member(i as u64, 0, &sized(i + 1), i + 1, vals[k], vals[k]), &o, n);
            if vals[k] < best {
                best = vals[k];
                want.push((i + 1, vals[k]));
            }
        }
        let got: Vec<(usize, f64)> = hall.pareto_front().iter().map(|m| (m.complexity, m.loss)).collect();
        rep.state(1);
        rep.valid(1);
        rep.check(got == want, || "pareto".into(), || format!("losses by complexity {:?}: front {got:?} instead of {want:?}", v.iter().map(|&k| vals.get(k)).collect::<Vec<_>>()));
    });
}

fn hall_case(rep: &Report, o: &Opts, cur: usize, small: &[(usize, usize, f64, f64)], seq: &[usize]) {
    let mut halls = [Hall::new(o.maxsize), Hall::new(o.maxsize)];
    let mut model: BTreeMap<usize, (usize, f64)> = BTreeMap::new();
    let ms: Vec<Member> = seq
        .iter()
        .enumerate()
        .map(|(i, &s)| {
            let (n, cx, l, k) = small[s];
            member(i as u64, i as u64, &sized(n), cx, l, k)
        })
        .collect();
    for (i, m) in ms.iter().enumerate() {
        halls[0].consider(m, o, cur);
        let n = m.expr.nodes.len();
        if n <= cur && m.complexity >= 1 && m.complexity <= o.maxsize {
            let e = model.entry(m.complexity);
            match e {
                std::collections::btree_map::Entry::Vacant(v) => {
                    v.insert((i, m.cost));
                }
                std::collections::btree_map::Entry::Occupied(mut e) => {
                    if m.cost < e.get().1 {
                        e.insert((i, m.cost));
                    }
                }
            }
        }
    }
    halls[1].update_from_members(&ms, o, cur);
    rep.state(1);
    rep.trans(seq.len() as u64);
    for h in &halls {
        rep.valid(1);
        let got: Vec<String> = h.members().map(fingerprint).collect();
        let want: Vec<String> = model.values().map(|(i, _)| fingerprint(&ms[*i])).collect();
        rep.check(got == want, || "hall".into(), || format!("members (size, complexity, loss, cost) {:?} at size limit {cur}: hall {got:?} instead of {want:?}", seq.iter().map(|s| small[*s]).collect::<Vec<_>>()));
        let slots_ok = h.best_by_complexity.iter().enumerate().all(|(i, s)| s.as_ref().map_or(true, |m| m.complexity == i));
        rep.check(slots_ok, || "slot".into(), || "an entry sits at another complexity than its own".to_string());
        let front = h.pareto_front();
        let mut want = Vec::new();
        let mut best = f64::INFINITY;
        for (i, _) in model.values() {
            if ms[*i].loss < best {
                best = ms[*i].loss;
                want.push(fingerprint(&ms[*i]));
            }
        }
        let got: Vec<String> = front.iter().map(fingerprint).collect();
        rep.check(got == want, || "pareto".into(), || format!("front {got:?} instead of {want:?}"));
    }
}

// ---------------------------------------------------------------- C22

pub fn c22(rep: &Report) {
    for n in 1..=tier(7, 8) {
        let mut firsts: Vec<usize> = (0..n).collect();
        firsts.dedup();
        par_for(rep, &firsts, |_, &b0| {
            for_each_tuple(n, n - 1, |rest| {
                let births: Vec<u64> = std::iter::once(b0).chain(rest.iter().copied()).map(|b| 10 + b as u64).collect();
                let ms: Vec<Member> = births.iter().enumerate().map(|(i, b)| member(i as u64, *b, &Tr::V((i % 2) as u16), 1, i as f64, i as f64)).collect();
                let fp: Vec<String> = ms.iter().map(fingerprint).collect();
                rep.state(1);
                let child = member(100, 100, &c(1.0), 1, 0.0, 0.0);
                let child2 = member(101, 101, &c(2.0), 1, 0.0, 0.0);
                let mut p = Pop::new(ms.clone());
                p.replace_oldest(child.clone());
                rep.trans(1);
                rep.valid(1);
                let changed: Vec<usize> = (0..n).filter(|&i| fingerprint(&p.members[i]) != fp[i]).collect();
                let min = *births.iter().min().unwrap();
                let ok = p.len() == n && changed.len() == 1 && births[changed[0]] == min && fingerprint(&p.members[changed[0]]) == fingerprint(&child);
                rep.check(ok, || "oldest".into(), || format!("births {births:?}: replaced {changed:?}"));
                if n >= 2 {
                    let mut p = Pop::new(ms);
                    p.replace_two_oldest(child.clone(), child2.clone());
                    rep.trans(1);
                    rep.valid(1);
                    let changed: Vec<usize> = (0..n).filter(|&i| fingerprint(&p.members[i]) != fp[i]).collect();
                    let mut sorted = births.clone();
                    sorted.sort();
                    let mut gone: Vec<u64> = changed.iter().map(|&i| births[i]).collect();
                    gone.sort();
                    let kids: BTreeSet<String> = changed.iter().map(|&i| fingerprint(&p.members[i])).collect();
                    let want: BTreeSet<String> = [fingerprint(&child), fingerprint(&child2)].into();
                    let ok = p.len() == n && changed.len() == 2 && gone == sorted[..2] && kids == want;
                    rep.check(ok, || "two-oldest".into(), || format!("births {births:?}: replaced {changed:?}"));
                }
            });
        });
    }
    large_populations(rep);
    cycle_law(rep);
    // Whole evolution cycles: the population keeps its size and only its oldest members go.
    let mut work = Vec::new();
    for n in 2..=4usize {
        for tn in 1..=4usize {
            for cross in [0.0, 0.5, 1.0] {
                for skip in [true, false] {
                    for cur in [2, 30] {
                        work.push((n, tn, cross, skip, cur));
                    }
                }
            }
        }
    }
    for n in [17usize, 40, 100] {
        for tn in [1usize, 2, 10] {
            for cross in [0.0, 0.5, 1.0] {
                work.push((n, tn, cross, true, 30));
            }
        }
    }
    let data = dataset(2, 4);
    par_for(rep, &work, |_, &(n, tn, cross, skip, cur)| {
        let ds = TaggedDataset::new(&data, None);
        let mut o = quiet_options(ops(&[("neg", 1), ("add", 2)]));
        o.maxsize = 30;
        o.tournament_selection_n = tn;
        o.tournament_selection_p = 1.0;
        o.crossover_probability = cross;
        o.skip_mutation_failures = skip;
        o.mutation_weights = only("insert_node");
        let src = [Tr::V(0), sized(2), Tr::V(1), c(0.5)];
        // Births decrease with the position, so position and age disagree.
        let ms: Vec<Member> = (0..n).map(|i| evaluated(i as u64, 990 - 7 * i as u64, src[i % 4].expr(false), &ds, &o)).collect();
        let stats = RunningSearchStatistics::new(30, 1000);
        let cfg = mc::Config { f64_menu: vec![0.25, 0.75], int_cap: 64, max_depth: if n > 4 { 3 } else { tier(12, 14) }, max_runs: tier(60_000, 1_000_000) };
        let events = n.div_ceil(tn);
        let s = mc::explore(&cfg, || {
            let mut p = Pop::new(ms.clone());
            let mut rng = Rng::with_seed(5);
            let mut ev = Evaluator::new(4);
            let (mut id, mut birth) = (1000u64, 1000u64);
            reg_evol_cycle(
                &mut p,
                RegEvolCtx { rng: &mut rng, dataset: ds, temperature: 1.0, curmaxsize: cur, stats: &stats, options: &o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: PhantomData::<B> },
            );
            rep.valid(1);
            if p.len() != n {
                rep.violation("cycle-size", format!("population of {n} has {} members after a cycle", p.len()));
                return false;
            }
            // Old members left are unchanged and younger than those gone.
            let old: BTreeMap<u64, &Member> = ms.iter().map(|m| (m.id.0, m)).collect();
            let left: Vec<&Member> = p.members.iter().filter(|m| m.birth < 1000).collect();
            let gone: Vec<u64> = ms.iter().filter(|m| !left.iter().any(|l| l.birth == m.birth)).map(|m| m.birth).collect();
            let failed_crossover = p.members.iter().any(|m| m.birth < 1000 && left.iter().filter(|l| l.id == m.id).count() > 1);
            let ok = failed_crossover
                || left.iter().all(|l| old.get(&l.id.0).is_some_and(|m| fingerprint(m) == fingerprint(l)) && gone.iter().all(|g| *g < l.birth));
            rep.check(ok, || "cycle-age".into(), || format!("population of {n}, tournament {tn}, crossover {cross}: kept births {:?}, dropped {gone:?}", left.iter().map(|l| l.birth).collect::<Vec<_>>()));
            let fresh = p.members.iter().filter(|m| m.birth >= 1000).count();
            let limit = events * if cross > 0.0 { 2 } else { 1 };
            rep.check(fresh <= limit, || "cycle-count".into(), || format!("population of {n}, tournament {tn}: {fresh} new members from {events} events"));
            if cross == 0.0 && cur == 30 {
                rep.check(fresh == events.min(n), || "cycle-count".into(), || format!("population of {n}, tournament {tn}: {fresh} new members from {events} mutations"));
            }
            let births: BTreeSet<u64> = p.members.iter().filter(|m| m.birth >= 1000).map(|m| m.birth).collect();
            rep.check(births.len() == fresh, || "cycle-birth".into(), || "two new members share a birth".to_string());
            !rep.stop()
        });
        rep.state(s.runs);
        rep.trans(s.choices);
        rep.note("cycle_runs_capped", s.capped as u64);
        rep.sample(|| format!("population of {n}, tournaments of {tn}, crossover {cross}, size limit {cur}: {} outcomes of a cycle of {events} events", s.runs));
    });
}

/// Populations of up to a thousand: the oldest, and the second, at every place.
fn large_populations(rep: &Report) {
    let mut work = Vec::new();
    for n in [9usize, 30, 66, 130, 260, 1030] {
        let step = if n > 300 { tier(17, 1) } else { 1 };
        for k in (0..n).step_by(step).chain([n - 1]) {
            for away in [1, n / 2, n - 1] {
                work.push((n, k, away));
            }
        }
    }
    par_for(rep, &work, |_, &(n, k, away)| {
        // Place k is the oldest, place k + away the second; the others in the order of the places.
        let second = (k + away) % n;
        let births: Vec<u64> = (0..n).map(|i| if i == k { 5 } else if i == second { 6 } else { 10 + (n - i) as u64 }).collect();
        let ms: Vec<Member> = births.iter().enumerate().map(|(i, b)| member(i as u64, *b, &Tr::V((i % 2) as u16), 1, i as f64, i as f64)).collect();
        let child = member(5000, 5000, &c(1.0), 1, 0.0, 0.0);
        let child2 = member(5001, 5001, &c(2.0), 1, 0.0, 0.0);
        let changed = |p: &Pop| -> Vec<usize> { (0..n).filter(|&i| p.members[i].id.0 != i as u64 || p.members[i].birth != births[i]).collect() };
        let mut p = Pop::new(ms.clone());
        p.replace_oldest(child.clone());
        rep.state(1);
        rep.trans(2);
        rep.valid(2);
        rep.check(p.len() == n && changed(&p) == [k], || "oldest".into(), || format!("population of {n}, oldest at {k}: replaced {:?}", changed(&p)));
        let mut p = Pop::new(ms);
        p.replace_two_oldest(child, child2);
        let mut want = vec![k, second];
        want.sort();
        rep.check(p.len() == n && changed(&p) == want, || "two-oldest".into(), || format!("population of {n}, oldest at {k} and {second}: replaced {:?}", changed(&p)));
    });
}

/// How likely each population is after a cycle, against a model of it.
fn cycle_law(rep: &Report) {
    /// Oldest first: birth and constant of each member.
    type State = Vec<(u64, usize)>;
    struct Model {
        tn: usize,
        cross: f64,
        /// Whether children fit the limit, and what happens if not.
        fits: bool,
        skip: bool,
        /// Constants from the best to the worst.
        rank: Vec<usize>,
    }
    impl Model {
        /// The best of a random sample, by position.
        fn parents(&self, st: &State) -> Vec<(usize, f64)> {
            let n = st.len();
            let mut out = vec![0.0; n];
            let samples: Vec<usize> = (0..1usize << n).filter(|s| s.count_ones() as usize == self.tn.min(n)).collect();
            for s in &samples {
                let best = (0..n).filter(|i| s >> i & 1 == 1).min_by_key(|&i| self.rank.iter().position(|&r| r == st[i].1)).unwrap();
                out[best] += 1.0 / samples.len() as f64;
            }
            out.into_iter().enumerate().filter(|p| p.1 > 0.0).collect()
        }
        fn event(&self, st: &State, next: u64) -> Vec<(State, f64)> {
            let mut out = Vec::new();
            let mut put = |mut kept: State, new: &[(u64, usize)], p: f64| {
                kept.extend_from_slice(new);
                kept.sort();
                out.push((kept, p));
            };
            let ps = self.parents(st);
            for &(i, p) in &ps {
                if self.cross < 1.0 {
                    put(st[1..].to_vec(), &[(next, st[i].1)], p * (1.0 - self.cross));
                }
                for &(j, q) in &ps {
                    if self.cross > 0.0 {
                        let p = p * q * self.cross;
                        if self.fits {
                            put(st[2..].to_vec(), &[(next, st[j].1), (next + 1, st[i].1)], p);
                        } else if self.skip {
                            put(st.clone(), &[], p);
                        } else {
                            put(st[2..].to_vec(), &[st[i], st[j]], p);
                        }
                    }
                }
            }
            out
        }
    }
    let mut work = Vec::new();
    for (n, tn) in [(2, 1), (2, 2), (2, 5), (3, 1), (3, 2), (3, 3), (4, 3), (4, 4), (5, 4)] {
        for cross in [0.0, 0.25, 0.5, 1.0] {
            if (n, tn) != (5, 4) || cross == 0.0 || thorough() {
                work.push((n, tn, cross, true, false));
            }
        }
        if n < 5 {
            work.push((n, tn, 1.0, false, false));
            work.push((n, tn, 1.0, false, true));
        }
    }
    let data = dataset(2, 4);
    par_for(rep, &work, |_, &(n, tn, cross, fits, skip)| {
        let ds = TaggedDataset::new(&data, None);
        let mut o = quiet_options(ops(&[("neg", 1), ("add", 2)]));
        o.tournament_selection_n = tn;
        o.tournament_selection_p = 1.0;
        o.crossover_probability = cross;
        o.skip_mutation_failures = skip;
        o.mutation_weights = only("do_nothing");
        let konst = |k: usize| [0.75, -3.0, 5.5, 0.0, -1.25][k];
        // Births decrease with the position, so position and age disagree.
        let ms: Vec<Member> = (0..n).map(|i| evaluated(i as u64, 90 - 7 * i as u64, c(konst(i)).expr(false), &ds, &o)).collect();
        let mut rank: Vec<usize> = (0..n).collect();
        rank.sort_by(|&a, &b| ms[a].cost.total_cmp(&ms[b].cost));
        assert!((1..n).all(|k| ms[rank[k - 1]].cost < ms[rank[k]].cost), "distinct costs");
        let show = |st: &State| st.iter().map(|&(b, k)| (b.min(1000), k)).collect::<State>();
        let model = Model { tn, cross, fits, skip, rank };
        let mut want: BTreeMap<State, f64> = BTreeMap::new();
        let mut start: State = (0..n).map(|i| (90 - 7 * i as u64, i)).collect();
        start.sort();
        want.insert(start, 1.0);
        for e in 0..n.div_ceil(tn) {
            let mut after = BTreeMap::new();
            for (st, p) in &want {
                for (st2, q) in model.event(st, 1000 + 2 * e as u64) {
                    *after.entry(st2).or_insert(0.0) += p * q;
                }
            }
            want = after;
        }
        let mut law: BTreeMap<State, f64> = BTreeMap::new();
        for (st, p) in &want {
            *law.entry(show(st)).or_insert(0.0) += p;
        }
        let stats = RunningSearchStatistics::new(30, 1000);
        // The draw between crossover and mutation, told apart exactly.
        let menu = if cross == 0.25 { vec![0.125, 0.375, 0.625, 0.875] } else { vec![0.25, 0.75] };
        let cfg = mc::Config { f64_menu: menu, int_cap: 64, max_depth: 64, max_runs: 20_000_000 };
        let mut got: BTreeMap<State, f64> = BTreeMap::new();
        let mut lost = 0.0;
        let s = mc::explore(&cfg, || {
            let mut p = Pop::new(ms.clone());
            let mut rng = Rng::with_seed(5);
            let mut ev = Evaluator::new(4);
            let (mut id, mut birth) = (1000u64, 1000u64);
            reg_evol_cycle(
                &mut p,
                RegEvolCtx { rng: &mut rng, dataset: ds, temperature: 1.0, curmaxsize: if fits { 30 } else { 0 }, stats: &stats, options: &o, evaluator: &mut ev, next_id: &mut id, next_birth: &mut birth, _ops: PhantomData::<B> },
            );
            rep.valid(1);
            if mc::truncated() {
                lost += mc::weight();
                return !rep.stop();
            }
            let mut st: State = p.members.iter().map(|m| (m.birth, (0..n).find(|&k| m.expr.consts == [konst(k)]).unwrap_or(99))).collect();
            st.sort();
            *got.entry(show(&st)).or_insert(0.0) += mc::weight();
            !rep.stop()
        });
        rep.state(s.runs);
        rep.trans(s.choices);
        if s.capped {
            rep.not_exhaustive();
            return;
        }
        let what = format!("population of {n}, tournaments of {tn}, crossover {cross}, children {}", if fits { "within the limit" } else if skip { "too large, skipped" } else { "too large" });
        rep.sample(|| format!("{what}: {} outcomes over {} executions", got.len(), s.runs));
        for k in law.keys().chain(got.keys()).collect::<BTreeSet<_>>() {
            let (p, q) = (got.get(k).copied().unwrap_or(0.0), law.get(k).copied().unwrap_or(0.0));
            rep.check((p - q).abs() < 1e-9 + lost, || "cycle-law".into(), || format!("{what}: the cycle leaves {k:?} (birth, constant; 1000: new) with probability {p} instead of {q}"));
        }
    });
}

// ---------------------------------------------------------------- C23

pub fn c23(rep: &Report) {
    // best_sub_pop: every cost pattern.
    let vals = [0.0, 1.0, 2.0, 5.0, f64::INFINITY];
    for n in 0..=tier(6, 7) {
        for_each_tuple(5, n, |v| {
            let ms: Vec<Member> = v.iter().enumerate().map(|(i, &k)| member(i as u64, i as u64, &Tr::V(0), 1, 9.0 - vals[k].min(8.0), vals[k])).collect();
            let p = Pop::new(ms.clone());
            let mut costs: Vec<f64> = ms.iter().map(|m| m.cost).collect();
            costs.sort_by(f64::total_cmp);
            for topn in 0..=n + 1 {
                let got = best_sub_pop(&p, topn);
                rep.state(1);
                rep.valid(1);
                let gc: Vec<f64> = got.iter().map(|m| m.cost).collect();
                let ids: BTreeSet<u64> = got.iter().map(|m| m.id.0).collect();
                let ok = gc == costs[..topn.min(n)] && ids.len() == got.len() && got.iter().all(|m| fingerprint(m) == fingerprint(&ms[m.id.0 as usize]));
                rep.check(ok, || "best-sub-pop".into(), || format!("costs {:?}, top {topn}: got costs {gc:?}", ms.iter().map(|m| m.cost).collect::<Vec<_>>()));
            }
        });
    }
    // Hundreds of members, in several orders of their costs.
    for n in [13usize, 40, 100, 300] {
        for by in [1usize, 7, n - 1] {
            let p = Pop::new((0..n).map(|i| member(i as u64, i as u64, &Tr::V(0), 1, 1.0, ((i * by + i / 2) % n) as f64)).collect());
            let mut costs: Vec<f64> = p.members.iter().map(|m| m.cost).collect();
            costs.sort_by(f64::total_cmp);
            for topn in (0..=n + 1).chain([usize::MAX]) {
                let got = best_sub_pop(&p, topn);
                rep.state(1);
                rep.valid(1);
                let gc: Vec<f64> = got.iter().map(|m| m.cost).collect();
                let ids: BTreeSet<u64> = got.iter().map(|m| m.id.0).collect();
                rep.check(gc == costs[..topn.min(n)] && ids.len() == got.len(), || "best-sub-pop".into(), || format!("{n} members, top {topn}: {} members with costs {gc:?}", got.len()));
            }
        }
    }
    large_migrations(rep);
    // migrate_into: every random outcome.
    let mut work = Vec::new();
    for n in 0..=tier(4, 5) {
        for m in 0..=3usize {
            for frac in [-0.5, 0.0, 0.3, 0.9, f64::NAN, f64::INFINITY] {
                work.push((n, m, frac));
            }
        }
    }
    let data = dataset(2, 4);
    par_for(rep, &work, |_, &(n, m, frac)| {
        let ds = TaggedDataset::new(&data, None);
        let o = quiet_options(ops(&[("neg", 1), ("add", 2)]));
        let dst: Vec<Member> = (0..n).map(|i| evaluated(i as u64, 20 - i as u64, sized(i + 1).expr(false), &ds, &o)).collect();
        // Migrants with and without a parent of their own.
        let mig: Vec<Member> = (0..m)
            .map(|i| {
                let mut x = evaluated(50 + i as u64, 3 + i as u64, Tr::O(2, op("add", 2).id, vec![c(i as f64 + 0.5), Tr::V(1)]).expr(false), &ds, &o);
                x.parent = [None, Some(MemberId(7)), Some(MemberId(50))][(i + n) % 3];
                x
            })
            .collect();
        let (fd, fm): (Vec<String>, Vec<String>) = (dst.iter().map(fingerprint).collect(), mig.iter().map(fingerprint).collect());
        let mut mass: BTreeMap<u64, f64> = BTreeMap::new();
        let mut single: BTreeMap<(usize, u64), f64> = BTreeMap::new();
        // By number of arrivals: which migrant each place holds afterwards.
        let mut joint: BTreeMap<u64, BTreeMap<Vec<Option<u64>>, f64>> = BTreeMap::new();
        let cfg = mc::Config { f64_menu: menu(6), int_cap: 64, max_depth: tier(8, 9), max_runs: 0 };
        let s = mc::explore(&cfg, || {
            let mut p = Pop::new(dst.clone());
            let (mut id, mut birth) = (1000u64, 2000u64);
            let mut rng = Rng::with_seed(5);
            migrate_into(&mut p, &mig, frac, &mut rng, &mut id, &mut birth);
            rep.valid(1);
            let count = birth - 2000;
            if !mc::truncated() {
                *mass.entry(count).or_insert(0.0) += mc::weight();
            }
            let mut bad = String::new();
            if p.len() != n {
                bad = format!("{} members", p.len());
            }
            if mig.iter().map(fingerprint).collect::<Vec<_>>() != fm {
                bad = "the migrants changed".into();
            }
            if id - 1000 != count || count > n.min(m) as u64 {
                bad = format!("{count} arrivals, ids up to {id}, for {n} places and {m} migrants");
            }
            if count > 0 && !(frac > 0.0 && frac.is_finite()) {
                bad = format!("{count} arrivals for fraction {frac}");
            }
            let mut ids = BTreeSet::new();
            let mut births = BTreeSet::new();
            for (i, x) in p.members.iter().enumerate() {
                if fingerprint(x) == fd[i] {
                    continue;
                }
                let Some(src) = mig.iter().find(|s| Some(s.id) == x.parent) else {
                    bad = format!("place {i} holds {} with parent {:?}", show(&x.expr), x.parent);
                    continue;
                };
                let same = expr_key(&src.expr) == expr_key(&x.expr) && src.loss == x.loss && src.cost == x.cost && src.complexity == x.complexity;
                let fresh = x.id.0 >= 1000 && x.id.0 < id && x.birth >= 2000 && x.birth < birth;
                if !same || !fresh || !ids.insert(x.id.0) || !births.insert(x.birth) {
                    bad = format!("place {i}: {} of {} (id {:?}, birth {})", show(&x.expr), show(&src.expr), x.id, x.birth);
                }
                if let Err(e) = plan_fits(x, &data) {
                    bad = e;
                }
                if count == 1 && !mc::truncated() {
                    *single.entry((i, src.id.0)).or_insert(0.0) += mc::weight();
                }
            }
            if count > 1 && !mc::truncated() {
                let held = p.members.iter().map(|x| if x.id.0 >= 1000 { x.parent.map(|p| p.0) } else { None }).collect();
                *joint.entry(count).or_default().entry(held).or_insert(0.0) += mc::weight();
            }
            if count > 0 && ids.is_empty() {
                bad = format!("{count} arrivals, none found");
            }
            rep.check(bad.is_empty(), || "migrate".into(), || format!("migration of {m} into {n} with fraction {frac}: {bad}; choices {:?}", mc::trace()));
            !rep.stop()
        });
        rep.state(s.runs);
        rep.trans(s.choices);
        if n * m > 3 {
            rep.sample(|| format!("{m} migrants into {n} places, fraction {frac}: {} outcomes, no arrival with probability {:?}", s.runs, mass.get(&0)));
        }
        if frac > 0.0 && frac.is_finite() && n > 0 && m > 0 {
            // A single arrival: every place and every migrant equally likely.
            let total: f64 = single.values().sum();
            for i in 0..n {
                for k in 0..m as u64 {
                    let pr = single.get(&(i, 50 + k)).copied().unwrap_or(0.0) / total;
                    rep.check((pr - 1.0 / (n * m) as f64).abs() < 1e-9, || "uniform".into(), || format!("{m} migrants into {n}: place {i} receives migrant {k} with probability {pr}"));
                }
            }
            // Several arrivals: each place and migrant drawn independently of the others, later arrivals on top.
            for (&k, got) in &joint {
                let mut want: BTreeMap<Vec<Option<u64>>, f64> = [(vec![None; n], 1.0)].into();
                for _ in 0..k {
                    let mut next = BTreeMap::new();
                    for (held, p) in &want {
                        for i in 0..n {
                            for j in 0..m as u64 {
                                let mut h = held.clone();
                                h[i] = Some(50 + j);
                                *next.entry(h).or_insert(0.0) += p / (n * m) as f64;
                            }
                        }
                    }
                    want = next;
                }
                let total: f64 = got.values().sum();
                for h in want.keys().chain(got.keys()).collect::<BTreeSet<_>>() {
                    let (p, q) = (got.get(h).copied().unwrap_or(0.0) / total, want.get(h).copied().unwrap_or(0.0));
                    rep.check((p - q).abs() < 1e-9, || "independent".into(), || format!("{k} of {m} migrants into {n} places: {h:?} with probability {p} instead of {q}"));
                }
            }
            // None arrive with probability exp(-mean).
            let p0 = mass.get(&0).copied().unwrap_or(0.0);
            let want = (-(frac * n as f64)).exp();
            rep.check((p0 - want).abs() <= 1.0 / 6.0 + 1e-9, || "rate".into(), || format!("{m} migrants into {n} with fraction {frac}: no arrival with probability {p0}, expected about {want}"));
        }
    });
    poisson(rep);
}

/// Tens of arrivals at once: as many as the fraction asks for, every one of them whole.
fn large_migrations(rep: &Report) {
    let data = dataset(2, 4);
    let mut work = Vec::new();
    for n in [40usize, 100, 300] {
        for m in [12usize, 40, 400] {
            for frac in [0.5, 1.0, 3.0] {
                work.push((n, m, frac));
            }
        }
    }
    par_for(rep, &work, |_, &(n, m, frac)| {
        let ds = TaggedDataset::new(&data, None);
        let o = quiet_options(ops(&[("neg", 1), ("add", 2)]));
        let one = evaluated(0, 3, Tr::V(0).expr(false), &ds, &o);
        let dst: Vec<Member> = (0..n).map(|i| Member { id: MemberId(i as u64), ..one.clone() }).collect();
        let mig: Vec<Member> = (0..m).map(|i| evaluated(500 + i as u64, 3, Tr::O(2, op("add", 2).id, vec![c(i as f64 + 0.5), Tr::V(1)]).expr(false), &ds, &o)).collect();
        let mean = frac * n as f64;
        // Eight standard deviations about the mean, at most one for each place and migrant.
        let cap = n.min(m) as f64;
        let (lo, hi) = ((mean - 8.0 * mean.sqrt()).clamp(0.0, cap), (mean + 8.0 * mean.sqrt()).min(cap));
        let cfg = mc::Config { f64_menu: menu(tier(12, 40)), int_cap: 64, max_depth: 2, max_runs: 0 };
        let s = mc::explore(&cfg, || {
            let mut p = Pop::new(dst.clone());
            let (mut id, mut birth) = (10_000u64, 20_000u64);
            migrate_into(&mut p, &mig, frac, &mut Rng::with_seed(5), &mut id, &mut birth);
            let count = id - 10_000;
            let held: Vec<&Member> = p.members.iter().filter(|x| x.id.0 >= 10_000).collect();
            let ids: BTreeSet<u64> = held.iter().map(|x| x.id.0).collect();
            let whole = held.iter().all(|x| mig.iter().any(|s| Some(s.id) == x.parent && expr_key(&s.expr) == expr_key(&x.expr) && s.loss == x.loss && x.birth >= 20_000));
            let kept = p.members.iter().enumerate().all(|(i, x)| x.id.0 >= 10_000 || x.id.0 == i as u64);
            let ok = count as f64 >= lo && count as f64 <= hi && birth - 20_000 == count && p.len() == n && ids.len() == held.len() && held.len() as u64 <= count && (held.is_empty() == (count == 0)) && whole && kept;
            rep.valid(1);
            rep.check(ok, || "many".into(), || format!("{m} migrants into {n} places with fraction {frac}: {count} arrivals ({lo} to {hi} expected), {} places changed, copies whole: {whole}, others kept: {kept}", held.len()));
            !rep.stop()
        });
        rep.state(s.runs);
        rep.trans(s.choices);
    });
}

fn pois_pmf(mean: f64, k: usize) -> f64 {
    let mut l = -mean;
    for i in 1..=k {
        l += (mean / i as f64).ln();
    }
    l.exp()
}

/// The number of arrivals is Poisson distributed: every combination of draws from a grid.
fn poisson(rep: &Report) {
    let small = [0.05, 0.3, 1.0, 1.657, 2.5];
    let large = [30.0, 31.4, 64.0, 250.0, 400.0, 3000.0];
    let mut work: Vec<f64> = small.to_vec();
    work.extend(large);
    par_for(rep, &work, |_, &mean| {
        let mut mass: BTreeMap<usize, f64> = BTreeMap::new();
        let (mut done, mut cut) = (0.0, 0.0);
        let small = mean < 30.0;
        let cfg = if small {
            mc::Config { f64_menu: menu(tier(36, 60)), max_depth: 4, ..Default::default() }
        } else {
            mc::Config { f64_menu: menu(tier(600, 1500)), max_depth: 2, ..Default::default() }
        };
        let s = mc::explore(&cfg, || {
            let k = poisson_sample(&mut Rng::with_seed(1), mean);
            if mc::truncated() {
                cut += mc::weight();
            } else {
                *mass.entry(k).or_insert(0.0) += mc::weight();
                done += mc::weight();
            }
            true
        });
        rep.state(1);
        rep.trans(s.choices);
        rep.valid(s.runs);
        if small {
            // At most `max_depth` draws: counts below 4.
            for k in 0..4usize {
                let got = mass.get(&k).copied().unwrap_or(0.0);
                let want = pois_pmf(mean, k);
                rep.check((got - want).abs() < 0.03, || format!("poisson:{mean}"), || format!("Poisson({mean}): P({k}) = {got}, should be {want}"));
            }
        } else {
            // Given acceptance at the first attempt the count has the Poisson distribution.
            rep.check(done > 0.5, || format!("poisson:{mean}"), || format!("Poisson({mean}): accepts with probability {done}"));
            let mut cdf_got = 0.0;
            let mut cdf = 0.0;
            let mut worst: f64 = 0.0;
            let hi = (mean + 12.0 * mean.sqrt()) as usize;
            for k in 0..=hi {
                cdf_got += mass.get(&k).copied().unwrap_or(0.0) / done;
                cdf += pois_pmf(mean, k);
                worst = worst.max((cdf - cdf_got).abs());
            }
            rep.check(worst < 0.01, || format!("poisson:{mean}"), || format!("Poisson({mean}): distribution function off by {worst}"));
        }
    });
    for bad in [0.0, -1.0, f64::NAN, f64::INFINITY] {
        let mut seen = BTreeSet::new();
        mc::explore(&mc::Config { f64_menu: menu(3), max_depth: 4, ..Default::default() }, || {
            seen.insert(poisson_sample(&mut Rng::with_seed(1), bad));
            true
        });
        rep.check(seen == [0].into(), || "poisson:degenerate".into(), || format!("Poisson({bad}) gives {seen:?}"));
    }
    // Shuffling: every order equally likely.
    for n in 0..=tier(5, 6) {
        let mut mass: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
        let s = mc::explore(&mc::Config::default(), || {
            let mut v: Vec<usize> = (0..n).collect();
            shuffle(&mut Rng::with_seed(1), &mut v);
            *mass.entry(v).or_insert(0.0) += mc::weight();
            true
        });
        rep.trans(s.choices);
        rep.valid(s.runs);
        let all = permutations(n);
        for p in &all {
            let w = mass.get(p).copied().unwrap_or(0.0);
            rep.check((w - 1.0 / all.len() as f64).abs() < 1e-9, || "shuffle".into(), || format!("shuffling {n} gives {p:?} with probability {w}"));
        }
    }
}

// ---------------------------------------------------------------- C26

pub fn c26(rep: &Report) {
    // Every weak order of costs, as values from a menu that includes 0 and infinity.
    let vals = [0.0, 0.5, 0.8, 2.0, f64::INFINITY];
    let mut work: Vec<(Vec<usize>, usize)> = Vec::new();
    for n in 1..=tier(4, 5) {
        for_each_tuple(5, n, |v| {
            for tn in 1..=n + 1 {
                work.push((v.to_vec(), tn));
            }
        });
    }
    rep.note("tournaments", work.len() as u64);
    let k = 100;
    par_for(rep, &work, |wi, (v, tn)| {
        let n = v.len();
        for (pi, p) in [1.0f32, 0.9, 0.4].into_iter().enumerate() {
            for freq in 0..3 {
                if freq == 2 && (wi + pi) % 3 != 0 {
                    continue;
                }
                let mut o = quiet_options(ops(&[("neg", 1)]));
                o.maxsize = 6;
                o.tournament_selection_n = *tn;
                o.tournament_selection_p = p;
                o.use_frequency_in_tournament = freq > 0;
                o.adaptive_parsimony_scaling = if freq == 2 { 1040.0 } else { 3.0 };
                let mut stats = RunningSearchStatistics::new(6, 1000);
                let often = [3, 6][(wi + freq) % 2];
                for s in [1, 1, 1, 2, often, often, often, often, often, often] {
                    stats.update_frequencies(s);
                }
                stats.normalize();
                // Complexities differ; one is beyond the statistics, one at their end, one zero.
                let cx = [[3usize, 1, 2, 7, 4], [6, 3, 0, 5, 1]][(wi + freq) % 2];
                let ms: Vec<Member> = (0..n).map(|i| member(i as u64, i as u64, &Tr::V(0), cx[i], vals[v[i]], vals[v[i]])).collect();
                let adj: Vec<f64> = ms
                    .iter()
                    .map(|m| {
                        let f = if freq > 0 && (1..=6).contains(&m.complexity) { stats.normalized_frequencies[m.complexity - 1] } else { 0.0 };
                        let scale = if freq > 0 { (o.adaptive_parsimony_scaling * f).exp().min(f64::MAX) } else { 1.0 };
                        m.cost * scale
                    })
                    .collect();
                let pop = Pop::new(ms.clone());
                let mut got = vec![0.0; n];
                let mut done = 0.0;
                let cfg = mc::Config { f64_menu: menu(k), int_cap: 64, max_depth: 7, ..Default::default() };
                let s = mc::explore(&cfg, || {
                    let m = best_of_sample(&mut Rng::with_seed(3), &pop, &stats, &o);
                    if !mc::truncated() {
                        got[m.id.0 as usize] += mc::weight();
                        done += mc::weight();
                    }
                    rep.check(fingerprint(&m) == fingerprint(&ms[m.id.0 as usize]), || "clone".into(), || "the winner is not a member".to_string());
                    true
                });
                rep.state(1);
                rep.trans(s.choices);
                rep.valid(s.runs);
                let want = tournament(n, (*tn).min(n), p as f64, &adj);
                if n > 3 && wi % 37 == 0 {
                    rep.sample(|| format!("costs {:?} adjusted to {adj:?}, {tn} take part, p={p}: each wins with probability {:?}; expected {want:?}", ms.iter().map(|m| m.cost).collect::<Vec<_>>(), got.iter().map(|g| g / done).collect::<Vec<_>>()));
                }
                // Members of equal adjusted cost may share their places in any way.
                let mut seen = vec![false; n];
                for i in 0..n {
                    if seen[i] {
                        continue;
                    }
                    let group: Vec<usize> = (0..n).filter(|&j| adj[j] == adj[i]).collect();
                    group.iter().for_each(|&j| seen[j] = true);
                    let a: f64 = group.iter().map(|&j| got[j]).sum::<f64>() / done;
                    let b: f64 = group.iter().map(|&j| want[j]).sum();
                    rep.check((a - b).abs() < 2.5 / k as f64, || format!("tournament:p{pi}:freq{freq}"), || {
                        format!("costs {:?} complexities {:?} adjusted {adj:?}, {tn} take part, p={p}: members {group:?} win with probability {a}, should be {b}", ms.iter().map(|m| m.cost).collect::<Vec<_>>(), &cx[..n])
                    });
                }
            }
        }
    });
    // Everyone takes part: how often each place is taken, the rare ones included.
    let fine = [(16usize, 0.5f32), (16, 0.4), (27, 0.3), (5, 0.9), (3, 0.982), (8, 0.75)];
    par_for(rep, &fine, |_, &(n, p)| {
        let k = tier(300_000, 3_000_000);
        let mut o = quiet_options(ops(&[("neg", 1)]));
        o.tournament_selection_n = n;
        o.tournament_selection_p = p;
        let stats = RunningSearchStatistics::new(30, 1000);
        let ms: Vec<Member> = (0..n).map(|i| member(i as u64, 0, &Tr::V(0), 1, 0.0, ((i * 5 + 3) % n) as f64 + i as f64 * 1e-3)).collect();
        let costs: Vec<f64> = ms.iter().map(|m| m.cost).collect();
        let pop = Pop::new(ms);
        let mut got = vec![0.0; n];
        let s = mc::explore(&mc::Config { f64_menu: menu(k), int_cap: 64, max_depth: 3, ..Default::default() }, || {
            let m = best_of_sample(&mut Rng::with_seed(3), &pop, &stats, &o);
            got[m.id.0 as usize] += mc::weight();
            true
        });
        rep.state(1);
        rep.trans(s.choices);
        rep.valid(s.runs);
        let want = tournament(n, n, p as f64, &costs);
        for i in 0..n {
            rep.check((got[i] - want[i]).abs() < 2.5 / k as f64, || format!("place:{n}:{p}"), || format!("all of {n} take part, p={p}: the member of cost {} wins with probability {}, should be {}", costs[i], got[i], want[i]));
        }
    });
    // Larger populations, where few of many take part.
    for (n, tn) in [(9usize, 2usize), (9, 3), (10, 3), (6, 2), (16, 2), (7, 6)] {
        if !thorough() && (n, tn) == (16, 2) {
            continue;
        }
        let mut o = quiet_options(ops(&[("neg", 1)]));
        o.tournament_selection_n = tn;
        o.tournament_selection_p = 1.0;
        let stats = RunningSearchStatistics::new(30, 1000);
        let ms: Vec<Member> = (0..n).map(|i| member(i as u64, 0, &Tr::V(0), 1, 0.0, ((i * 5 + 3) % n) as f64 + i as f64 * 1e-3)).collect();
        let costs: Vec<f64> = ms.iter().map(|m| m.cost).collect();
        let pop = Pop::new(ms);
        let mut got = vec![0.0; n];
        let mut done = 0.0;
        let s = mc::explore(&mc::Config { f64_menu: vec![0.5], int_cap: 64, max_depth: 6, ..Default::default() }, || {
            let m = best_of_sample(&mut Rng::with_seed(3), &pop, &stats, &o);
            if !mc::truncated() {
                got[m.id.0 as usize] += mc::weight();
                done += mc::weight();
            }
            true
        });
        rep.state(1);
        rep.trans(s.choices);
        rep.valid(s.runs);
        let want = tournament(n, tn, 1.0, &costs);
        for i in 0..n {
            rep.check((got[i] / done - want[i]).abs() < 1e-3, || format!("tournament:{n}:{tn}"), || format!("{tn} of {n} take part: member {i} (rank by cost {:?}) wins with probability {}, should be {}", costs, got[i] / done, want[i]));
        }
    }
}

/// Reference: a uniformly random subset of `t` takes part; the member at place j (from the best,
/// counting from 0) wins with probability proportional to p (1-p)^j.
fn tournament(n: usize, t: usize, p: f64, cost: &[f64]) -> Vec<f64> {
    let mut w: Vec<f64> = (0..t).map(|j| p * (1.0 - p).powi(j as i32)).collect();
    if t == 1 {
        w[0] = 1.0;
    }
    let s: f64 = w.iter().sum();
    w.iter_mut().for_each(|x| *x /= s);
    let mut out = vec![0.0; n];
    let mut count = 0.0;
    for mask in 0..1u32 << n {
        if mask.count_ones() as usize != t {
            continue;
        }
        count += 1.0;
        let mut idx: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
        idx.sort_by(|a, b| cost[*a].total_cmp(&cost[*b]));
        for (j, i) in idx.iter().enumerate() {
            out[*i] += w[j];
        }
    }
    out.iter().map(|x| x / count).collect()
}

// ---------------------------------------------------------------- C32

pub fn c32(rep: &Report) {
    let mut work = Vec::new();
    for maxsize in 1..=tier(100usize, 250) {
        for w in [0.0f32, 0.05, 0.1, 0.25, 1.0 / 3.0, 0.5, 0.75, 0.9, 1.0] {
            work.push((maxsize, w));
        }
    }
    par_for(rep, &work, |_, &(maxsize, w)| {
        let mut o = quiet_options(Operators::new());
        o.maxsize = maxsize;
        o.warmup_maxsize_by = w;
        // Searches of up to millions of cycles, for some of the sizes.
        let long = [70_000usize, 1_000_003];
        let long = &long[..if maxsize % 30 == 0 { 2 } else { 1 }];
        for total in (1..=tier(150usize, 500)).chain([1000, 3100]).chain(long.iter().copied()) {
            let (mut prev, mut steps) = (0usize, 0);
            for done in 0..=total {
                let got = match catching(|| get_cur_maxsize(&o, total, total - done)) {
                    Ok(g) => g,
                    Err(e) => {
                        rep.violation("panic", format!("maximum size {maxsize}, warmup {w}, {done}/{total}: {e}"));
                        return;
                    }
                };
                rep.valid(1);
                steps += (got != prev) as u64;
                let f = done as f64 / total as f64;
                let mut ok = got <= maxsize && got >= maxsize.min(3) && got >= prev;
                let start = maxsize.min(3) as f64;
                let ramp = start + (maxsize as f64 - start) * f / w as f64;
                if w == 0.0 || f > w as f64 + 1e-6 {
                    ok &= got == maxsize;
                } else {
                    // Linear ramp, rounded down; within float error of an integer either is fine.
                    ok &= (got as f64) <= ramp + 1e-3 && (got as f64) > ramp - 1.0 - 1e-3 || (f - w as f64).abs() < 1e-6;
                }
                rep.check(ok, || "warmup".into(), || format!("maximum size {maxsize}, warmup {w}, {done} of {total} cycles: size limit {got} (before: {prev}, ramp {ramp})"));
                prev = got;
            }
            rep.state(steps);
            rep.trans(total as u64);
            if total == 40 && maxsize % 20 == 0 {
                rep.sample(|| format!("maximum size {maxsize}, warmup {w}, {total} cycles: {steps} different limits in turn, the last {prev}"));
            }
        }
    });
}

// ---------------------------------------------------------------- C33

pub fn c33(rep: &Report) {
    #[derive(Clone, Copy, Debug)]
    enum A {
        Up(usize, usize),
        Window,
        Norm,
    }
    let alpha = [A::Up(1, 1), A::Up(2, 1), A::Up(3, 7), A::Up(2, 4), A::Up(1, 20), A::Up(0, 3), A::Up(4, 2), A::Window, A::Norm];
    let len = tier(7, 8);
    let mut heads: Vec<Vec<usize>> = Vec::new();
    for_each_tuple(alpha.len(), 2, |v| heads.push(v.to_vec()));
    par_for(rep, &heads, |_, h| {
        for window in [0usize, 3, 5, 8, 20] {
            for maxsize in [1usize, 3] {
                for_each_tuple(alpha.len(), len - 2, |rest| {
                    let mut s = RunningSearchStatistics::new(maxsize, window);
                    let mut f = vec![1.0f64; maxsize];
                    let mut nf: Vec<f64> = f.iter().map(|_| 1.0 / maxsize as f64).collect();
                    for &i in h.iter().chain(rest) {
                        match alpha[i] {
                            A::Up(size, n) => {
                                if n % 2 == 0 {
                                    s.update_from_population(std::iter::repeat_n(size, n));
                                } else {
                                    (0..n).for_each(|_| s.update_frequencies(size));
                                }
                                if (1..=maxsize).contains(&size) {
                                    f[size - 1] += n as f64;
                                }
                            }
                            A::Window => {
                                s.move_window();
                                shrink(&mut f, window as f64);
                            }
                            A::Norm => {
                                s.normalize();
                                let t: f64 = f.iter().sum();
                                nf = f.iter().map(|v| v / t).collect();
                            }
                        }
                    }
                    rep.state(1);
                    rep.trans(len as u64);
                    rep.valid(2);
                    if maxsize == 3 && f != nf && rest.last() != Some(&6) {
                        rep.sample(|| format!("{:?}, window {window}: {:?}, normalised {:?}", h.iter().chain(rest).map(|i| alpha[*i]).collect::<Vec<_>>(), s.frequencies, s.normalized_frequencies));
                    }
                    let ok = s.frequencies.len() == maxsize
                        && s.frequencies.iter().zip(&f).all(|(a, b)| (a - b).abs() < 1e-4)
                        && s.normalized_frequencies.iter().zip(&nf).all(|(a, b)| (a - b).abs() < 1e-4);
                    rep.check(ok, || "stats".into(), || format!("{:?}, window {window}: frequencies {:?} normalised {:?}, should be {f:?} {nf:?}", h.iter().chain(rest).map(|i| alpha[*i]).collect::<Vec<_>>(), s.frequencies, s.normalized_frequencies));
                    let fr_ok = (0..=maxsize + 2).all(|k| {
                        let w = if (1..=maxsize).contains(&k) { nf[k - 1].max(1e-6) } else { 1e-6 };
                        (s.freq(k) - w).abs() < 1e-4 && s.freq(k) > 0.0
                    });
                    rep.check(fr_ok, || "freq".into(), || format!("freq {:?} for normalised {nf:?}", (0..=maxsize + 2).map(|k| s.freq(k)).collect::<Vec<_>>()));
                });
            }
        }
    });
    // Every complexity with a count of its own, up to the usual sizes: each level is cut in its turn.
    for n in [10usize, 20, 30, 40, 80, 300] {
        for step in [1usize, 2, 7] {
            if n > 40 && step > 1 {
                continue;
            }
            let f0: Vec<f64> = (0..n).map(|i| 1.0 + ((i * 7 + 3) % n * step) as f64).collect();
            let total = f0.iter().sum::<f64>() as usize;
            for window in (n..total + 3).step_by(if n > 40 { 997 } else { tier(3, 1) }).chain([total, total + 1]) {
                let mut s = RunningSearchStatistics::new(n, window);
                for (i, k) in f0.iter().enumerate() {
                    s.update_from_population(std::iter::repeat_n(i + 1, *k as usize - 1));
                }
                let mut f = f0.clone();
                s.move_window();
                shrink(&mut f, window as f64);
                rep.state(1);
                rep.trans(1);
                rep.valid(1);
                let ok = s.frequencies.iter().zip(&f).all(|(a, b)| (a - b).abs() < 1e-3);
                rep.check(ok, || "ladder".into(), || format!("counts {f0:?} window {window}: {:?} instead of {f:?}", s.frequencies));
            }
        }
    }
    // Large counts in all proportions: the window sum is met exactly, the order is kept.
    let counts = [0usize, 1, 3, 10, 57, 200];
    for_each_tuple(counts.len(), tier(5, 6), |v| {
        for window in [10usize, 50, 100, 400] {
            let n = v.len();
            let mut s = RunningSearchStatistics::new(n, window);
            let mut f = vec![1.0; n];
            for (i, &k) in v.iter().enumerate() {
                (0..counts[k]).for_each(|_| s.update_frequencies(i + 1));
                f[i] += counts[k] as f64;
            }
            for _ in 0..2 {
                s.move_window();
                shrink(&mut f, window as f64);
            }
            rep.state(1);
            rep.trans(2);
            rep.valid(1);
            let ok = s.frequencies.iter().zip(&f).all(|(a, b)| (a - b).abs() < 1e-4);
            rep.check(ok, || "window".into(), || format!("counts {:?} window {window}: {:?} instead of {f:?}", v.iter().map(|k| counts[*k]).collect::<Vec<_>>(), s.frequencies));
        }
    });
}

/// Reference: lower every frequency by the same amount, none below 1, until the sum fits the window.
fn shrink(f: &mut [f64], window: f64) {
    let sum: f64 = f.iter().sum();
    if sum <= window {
        return;
    }
    if window <= f.len() as f64 {
        f.iter_mut().for_each(|v| *v = v.min(1.0));
        return;
    }
    let (mut lo, mut hi) = (0.0, sum);
    for _ in 0..200 {
        let t = 0.5 * (lo + hi);
        let s: f64 = f.iter().map(|v| if *v > 1.0 { (v - t).max(1.0) } else { *v }).sum();
        if s > window {
            lo = t
        } else {
            hi = t
        }
    }
    f.iter_mut().for_each(|v| {
        if *v > 1.0 {
            *v = (*v - hi).max(1.0)
        }
    });
}

// ---------------------------------------------------------------- C34

/// The same logical matrix in different memory layouts.
fn layouts(x: &Array2<f64>) -> Vec<(&'static str, Array2<f64>)> {
    let (nf, n) = x.dim();
    let mut v = vec![("standard", x.clone())];
    let f = Array2::from_shape_vec((n, nf), x.t().iter().copied().collect()).unwrap();
    v.push(("column-major", f.reversed_axes()));
    let mut inv = x.clone();
    inv.invert_axis(Axis(1));
    // inverted twice in memory and logically: reverse the data, then the axis.
    let mut back = Array2::from_shape_fn((nf, n), |(i, j)| x[(i, n - 1 - j)]);
    back.invert_axis(Axis(1));
    v.push(("reversed", back));
    let wide = Array2::from_shape_fn((nf, 2 * n), |(i, j)| if j % 2 == 0 { x[(i, j / 2)] } else { 77.0 });
    v.push(("every second column", wide.slice_move(ndarray::s![.., ..;2])));
    let tall = Array2::from_shape_fn((2 * nf, n), |(i, j)| if i % 2 == 1 { x[(i / 2, j)] } else { 77.0 });
    v.push(("every second row", tall.slice_move(ndarray::s![1..;2, ..])));
    v
}

fn layouts1(y: &Array1<f64>) -> Vec<(&'static str, Array1<f64>)> {
    let n = y.len();
    let mut back = Array1::from_shape_fn(n, |j| y[n - 1 - j]);
    back.invert_axis(Axis(0));
    let wide = Array1::from_shape_fn(2 * n, |j| if j % 2 == 0 { y[j / 2] } else { 77.0 });
    vec![("standard", y.clone()), ("reversed", back), ("strided", wide.slice_move(ndarray::s![..;2]))]
}

pub fn c34(rep: &Report) {
    let mut work = Vec::new();
    for nf in 1..=3usize {
        for n in (1..=tier(8usize, 16)).chain([130, 300]) {
            work.push((nf, n));
        }
    }
    let o = quiet_options(ops(&[("neg", 1), ("sub", 2), ("mul", 2)]));
    let probe = Tr::O(2, op("sub", 2).id, vec![Tr::V(0), c(0.3)]);
    par_for(rep, &work, |_, &(nf, n)| {
        let (x, y, w) = (data(nf, n), target(n), weights(n));
        for (xl, lx) in layouts(&x) {
            for (yl, ly) in layouts1(&y) {
                let mut ws = vec![("none", None)];
                ws.extend(layouts1(&w).into_iter().map(|(s, a)| (s, Some(a))));
                for (wl, lw) in ws {
                    rep.state(1);
                    rep.valid(3);
                    let ctx = format!("x {xl}, y {yl}, weights {wl}, {nf}x{n}");
                    let d = match catching(|| Dataset::with_weights_and_names(lx.clone(), ly.clone(), lw.clone(), vec!["a".into()])) {
                        Ok(d) => d,
                        Err(e) => {
                            rep.violation("panic", format!("{ctx}: {e}"));
                            continue;
                        }
                    };
                    let has_w = lw.is_some();
                    let mean = match &lw {
                        None => y.sum() / n as f64,
                        Some(w) => y.iter().zip(w).map(|(a, b)| a * b).sum::<f64>() / w.sum(),
                    };
                    let ok = d.n_features == nf
                        && d.n_rows == n
                        && d.x == x
                        && d.y == y
                        && d.y_slice() == y.as_slice().unwrap()
                        && d.weights.is_some() == has_w
                        && (!has_w || d.weights_slice() == Some(w.as_slice().unwrap()))
                        && d.variable_names == ["a".to_string()]
                        && close(d.avg_y, mean, 1e-12, 1e-12);
                    rep.check(ok, || format!("layout:{xl}:{yl}:{wl}"), || format!("{ctx}: the data set holds {d:?}"));
                    // and evaluates as the data say
                    let ds = TaggedDataset::new(&d, None);
                    match catching(|| {
                        let m = evaluated(0, 0, probe.expr(false), &ds, &o);
                        (m.loss, baseline_loss_from_zero_expression::<f64, B, D>(&d, o.loss.as_ref()))
                    }) {
                        Ok((loss, base)) => {
                            let yh: Vec<f64> = (0..n).map(|r| x[(0, r)] - 0.3).collect();
                            let wv = lw.as_ref().map(|_| w.to_vec());
                            let want = ref_loss(LossKind::Mse, &yh, &y.to_vec(), wv.as_deref());
                            let want0 = ref_loss(LossKind::Mse, &vec![0.0; n], &y.to_vec(), wv.as_deref());
                            rep.check(close(loss, want, 1e-12, 1e-12), || format!("loss:{xl}:{yl}:{wl}"), || format!("{ctx}: loss {loss} instead of {want}"));
                            rep.check(base.is_some_and(|b| close(b, want0, 1e-12, 1e-12)), || format!("baseline:{yl}:{wl}"), || format!("{ctx}: baseline {base:?} instead of {want0}"));
                        }
                        Err(e) => rep.violation("panic", format!("{ctx}: evaluating: {e}")),
                    }
                }
            }
        }
        // Sizes that do not match are refused.
        for (ny, nw) in [(n + 1, n), (n - 1, n), (n, n + 1), (n, n - 1)] {
            let r = catching(|| Dataset::with_weights_and_names(x.clone(), target(ny), Some(weights(nw)), Vec::new()));
            rep.check(r.is_err(), || "mismatch".into(), || format!("{n} rows, {ny} targets, {nw} weights accepted"));
        }
    });
    // The baseline for every loss, zero targets included.
    for kind in super::c_num::kinds() {
        for y in [vec![0.0; 3], vec![1.0, -2.0, 0.5], vec![1e200, -1e200, 1e200], vec![f64::INFINITY, 0.0, 0.0]] {
            for w in [None, Some(vec![1.0, 2.0, 0.5]), Some(vec![0.0, 0.0, 0.0])] {
                let d = Dataset::with_weights_and_names(data(2, 3), Array1::from(y.clone()), w.clone().map(Array1::from), Vec::new());
                let got = baseline_loss_from_zero_expression::<f64, B, D>(&d, make_loss(kind).as_ref());
                let want = ref_loss(kind, &[0.0; 3], &y, w.as_deref());
                rep.valid(1);
                let ok = if want.is_finite() { got.is_some_and(|g| close(g, want, 1e-9, 1e-12)) } else { got.is_none() };
                rep.check(ok, || "baseline-kind".into(), || format!("{kind:?}, y {y:?}, weights {w:?}: baseline {got:?} instead of {want}"));
            }
        }
    }
    // Batches: every draw; columns stay together; every row equally likely.
    let mut work = Vec::new();
    for n in 1..=tier(4usize, 5) {
        for bs in 1..=tier(5usize, 7) {
            for has_w in [false, true] {
                work.push((n, bs, has_w));
            }
        }
    }
    par_for(rep, &work, |_, &(n, bs, has_w)| {
        let full = if has_w { wdataset(2, n) } else { dataset(2, n) };
        let mut mass: BTreeMap<Vec<usize>, f64> = BTreeMap::new();
        let s = mc::explore(&mc::Config::default(), || {
            let mut b = Dataset::make_batch_buffer(&full, bs);
            let mut rng = Rng::with_seed(1);
            if bs <= 3 {
                // What an earlier draw left must not matter.
                b.resample_from(&full, &mut rng);
            }
            b.resample_from(&full, &mut rng);
            let mut rows = Vec::new();
            for j in 0..b.n_rows {
                let src = (0..n).find(|&r| {
                    b.x.column(j) == full.x.column(r)
                        && b.y[j] == full.y[r]
                        && match (&b.weights, &full.weights) {
                            (Some(a), Some(f)) => a[j] == f[r],
                            (None, None) => true,
                            _ => false,
                        }
                });
                match src {
                    Some(r) => rows.push(r),
                    None => {
                        rep.violation("batch-row", format!("batch of {bs} from {n}: row {j} is no row of the data: x {:?} y {} w {:?}", b.x.column(j), b.y[j], b.weights.as_ref().map(|w| w[j])));
                        return false;
                    }
                }
            }
            let ok = b.n_rows == bs && b.n_features == 2 && b.x.dim() == (2, bs) && b.y.len() == bs && b.x.is_standard_layout() && b.weights.is_some() == has_w && b.avg_y == full.avg_y;
            rep.check(ok, || "batch-shape".into(), || format!("batch of {bs} from {n}: {b:?}"));
            *mass.entry(rows).or_insert(0.0) += mc::weight();
            rep.valid(1);
            true
        });
        rep.state(mass.len() as u64);
        rep.trans(s.choices);
        rep.sample(|| format!("batches of {bs} from {n} rows, weights {has_w}: {} draws, {} different batches, each whole and equally likely", s.runs, mass.len()));
        for_each_tuple(n, bs, |v| {
            let w = mass.get(v).copied().unwrap_or(0.0);
            rep.check((w - (1.0 / n as f64).powi(bs as i32)).abs() < 1e-9, || "batch-uniform".into(), || format!("batch of {bs} from {n}: rows {v:?} drawn with probability {w}"));
        });
    });
    // Larger data and batches: every row of the data for each place of the batch in turn.
    let mut work = Vec::new();
    for (n, bs) in [(7usize, 60usize), (50, 1), (100, 3), (300, 2), (1000, 50), (70, 100), (70_000, 1), (5_000, 2)] {
        for at in [0, bs / 2, bs - 1].into_iter().collect::<BTreeSet<_>>() {
            work.push((n, bs, at));
        }
    }
    par_for(rep, &work, |_, &(n, bs, at)| {
        let mut full = wdataset(2, n);
        full.y = (0..n).map(|r| r as f64 * 0.37 - 3.0).collect();
        let mut by_y: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
        for r in 0..n {
            by_y.entry(full.y[r].to_bits()).or_default().push(r);
        }
        let mut seen = vec![0u64; n];
        let cfg = mc::Config { f64_menu: vec![0.5], int_cap: n, max_depth: 1, max_runs: 0 };
        let s = mc::explore_window(&cfg, at, n as u64, || {
            let mut b = Dataset::make_batch_buffer(&full, bs);
            b.resample_from(&full, &mut Rng::with_seed(1));
            let whole = |j: usize| {
                let rows = by_y.get(&b.y[j].to_bits())?;
                rows.iter().copied().find(|&r| b.x.column(j) == full.x.column(r) && b.weights.as_ref().unwrap()[j] == full.weights.as_ref().unwrap()[r])
            };
            match whole(at) {
                Some(r) => seen[r] += 1,
                None => rep.violation("batch-row", format!("batch of {bs} from {n}: row {at} is no row of the data")),
            }
            rep.check(b.n_rows == bs && (0..bs).step_by(7).all(|j| whole(j).is_some()), || "batch-row".into(), || format!("batch of {bs} from {n}: rows that are none of the data's"));
            rep.valid(1);
            true
        });
        rep.state(n as u64);
        rep.trans(s.choices);
        rep.check(seen.iter().all(|k| *k == 1), || "batch-reach".into(), || format!("batch of {bs} from {n}: place {at} takes some row not exactly once (by the row: {:?}...)", seen.iter().enumerate().filter(|(_, k)| **k != 1).take(9).collect::<Vec<_>>()));
    });
    let _ = field;
}
