//! C07 simplification, C08 constants, C09 algebra, C10 strings, C11 registry, C13 tree utilities.
use crate::builtin::*;
use crate::c_eval::subtrees;
use crate::model::*;
use dynamic_expressions::node_utils as nu;
use dynamic_expressions::operator_enum::builtin as b;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::operators as w;
use dynamic_expressions::*;
use mc_core::*;
use ndarray::Array2;
use std::collections::BTreeSet;

const LOOSE: EvalOptions = EvalOptions { check_finite: false, early_exit: false };

fn used(nodes: &[PNode]) -> BTreeSet<u16> {
    nodes.iter().filter_map(|n| if let PNode::Const { idx } = n { Some(*idx) } else { None }).collect()
}

fn well_formed(nodes: &[PNode], n_consts: usize, n_features: usize) -> Result<Tree, String> {
    let Some(t) = parse(nodes) else { return Err("not one well-formed tree".into()) };
    for n in nodes {
        match *n {
            PNode::Const { idx } if idx as usize >= n_consts => return Err(format!("constant {idx} out of range")),
            PNode::Var { feature } if feature as usize >= n_features => return Err(format!("feature {feature} out of range")),
            _ => {}
        }
    }
    Ok(t)
}

fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

// ---------------------------------------------------------------------------------------------
// C07

fn simplify_case<M: Model<T = f64>, const D: usize>(rep: &Report, nodes: &[PNode], cs: &[f64], x: &Array2<f64>, tag: &str) {
    let e0 = {
        let mut e = mk::<f64, M, D>(nodes, cs);
        e.meta.variable_names = vec!["u".into(), "v".into()];
        e
    };
    let t0 = parse(nodes).unwrap();
    let rows: Vec<Vec<f64>> = (0..x.ncols()).map(|r| row(x, r)).collect();
    let want: Vec<(f64, f64)> = rows.iter().map(|xr| t0.eval_err::<M>(xr, cs)).collect();
    rep.state(1);
    for how in 0..3 {
        let name = ["simplify_tree_in_place", "combine_operators_in_place", "simplify_in_place"][how];
        let mut e = e0.clone();
        let changed = match how {
            0 => simplify_tree_in_place::<f64, M, D>(&mut e, &EvalOptions::default()),
            1 => combine_operators_in_place::<f64, M, D>(&mut e),
            _ => simplify_in_place::<f64, M, D>(&mut e, &EvalOptions::default()),
        };
        rep.trans(1);
        rep.valid(rows.len() as u64);
        let ctx = |msg: String| format!("{name}: {msg}\n before [{}] consts {cs:?}\n after  [{}] consts {:?}", show(nodes), show(&e.nodes), e.consts);
        let t1 = match well_formed(&e.nodes, e.consts.len(), x.nrows()) {
            Ok(t) => t,
            Err(m) => {
                rep.violation(format!("{name}:{tag}:form"), ctx(m));
                continue;
            }
        };
        rep.check(e.nodes.len() <= nodes.len(), || format!("{name}:{tag}:grew"), || ctx("grew".into()));
        rep.check(changed || (e.nodes == nodes && same_bits(&e.consts, cs)), || format!("{name}:{tag}:flag"), || ctx("reported no change but changed the expression".into()));
        rep.check(e.meta.variable_names == e0.meta.variable_names, || format!("{name}:{tag}:meta"), || ctx("lost the variable names".into()));
        for (xr, (v, err)) in rows.iter().zip(&want) {
            if !v.is_finite() || !err.is_finite() {
                continue;
            }
            let (g, gerr) = t1.eval_err::<M>(xr, &e.consts);
            if !gerr.is_finite() && g.is_finite() {
                continue;
            }
            rep.check(close(g, *v, 1e-10, 1e-12 + 1e3 * (err + if gerr.is_finite() { gerr } else { 0.0 })), || format!("{name}:{tag}:value"), || ctx(format!("at {xr:?} the value changed from {v} to {g}")));
        }
        if how != 1 {
            // Everything that is a finite constant computation has been carried out.
            for s in subtrees(&t1) {
                if let Tree::O(a, o, ch) = s {
                    let vals: Option<Vec<f64>> = ch.iter().map(|c| if let Tree::K(i) = c { Some(e.consts[*i as usize]) } else { None }).collect();
                    if let Some(v) = vals {
                        let foldable = v.iter().all(|z| z.is_finite()) && M::ev(*a, *o, &v).is_finite();
                        rep.check(how == 2 || !foldable, || format!("{name}:{tag}:unfolded"), || ctx("left a constant computation unfolded".into()));
                    }
                }
            }
        }
        if how == 2 {
            let u = used(&e.nodes);
            rep.check(u.len() == e.consts.len(), || format!("{name}:{tag}:table"), || ctx("left unused constants behind".into()));
            // A second pass must again preserve the meaning.
            let mut e2 = e.clone();
            simplify_in_place::<f64, M, D>(&mut e2, &EvalOptions::default());
            match well_formed(&e2.nodes, e2.consts.len(), x.nrows()) {
                Err(m) => rep.violation(format!("{name}:{tag}:twice"), ctx(m)),
                Ok(t2) => {
                    for (xr, (v, err)) in rows.iter().zip(&want) {
                        let (g, gerr) = t2.eval_err::<M>(xr, &e2.consts);
                        if v.is_finite() && err.is_finite() && (gerr.is_finite() || !g.is_finite()) {
                            rep.check(close(g, *v, 1e-10, 1e-12 + 1e3 * (err + if gerr.is_finite() { gerr } else { 0.0 })), || format!("{name}:{tag}:twice"), || ctx(format!("second pass: at {xr:?} {v} became {g}")));
                        }
                    }
                }
            }
        }
    }
}

fn simplify_sweep<M: Model<T = f64>, const D: usize>(rep: &Report, leaves: &[Sym], ops: &[(u8, u16)], max: usize, csets: &[Vec<f64>], tag: &str) {
    let all = Gen::new(leaves, ops, max).upto(max);
    rep.note(&format!("trees_{tag}"), all.len() as u64);
    rep.sample(|| format!("{tag}: {}", show(&nodes_of(all.last().unwrap()).0)));
    let x = ndarray::arr2(&[[0.61803, -1.2718, 2.71931], [1.41423, 0.31831, -0.57721]]);
    let chunks: Vec<&[Vec<Sym>]> = all.chunks(64).collect();
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            let (nodes, nf) = nodes_of(s);
            for c in csets {
                let mut cs = c.clone();
                while cs.len() < nf {
                    let k = cs.len() as f64;
                    cs.push(0.8127 + 0.377 * k - if cs.len() % 3 == 1 { 2.9 } else { 0.0 });
                }
                simplify_case::<M, D>(rep, &nodes, &cs, &x, tag);
            }
        }
    });
}

fn ids(t: &Table, names: &[&str]) -> Vec<(u8, u16)> {
    names.iter().map(|n| id_of(t, n)).collect()
}

pub fn c07(rep: &Report) {
    let (v0, v1, k0, k1, fr) = (Sym::V(0), Sym::V(1), Sym::K(0), Sym::K(1), Sym::Fresh);
    let gen = vec![vec![0.7391, -1.6180]];
    let spec = vec![vec![0.7391, -1.6180], vec![0.0, 1.0], vec![1e200, 1e200], vec![f64::INFINITY, 0.5], vec![f64::NAN, -0.5]];
    // Deep over one binary operator at a time and pairs of them.
    simplify_sweep::<SetA, 2>(rep, &[v0, fr], &ids(SetA::table(), &["sub"]), tier(13, 15), &gen, "sub");
    simplify_sweep::<SetA, 2>(rep, &[v0, fr], &ids(SetA::table(), &["add"]), tier(13, 15), &gen, "add");
    simplify_sweep::<SetA, 2>(rep, &[v0, fr], &ids(SetA::table(), &["mul"]), tier(11, 13), &gen, "mul");
    simplify_sweep::<SetA, 2>(rep, &[v0, fr], &ids(SetA::table(), &["sub", "add"]), tier(11, 13), &gen, "subadd");
    simplify_sweep::<SetA, 2>(rep, &[v0, v1, fr], &ids(SetA::table(), &["sub", "add", "mul"]), tier(7, 9), &gen, "arith");
    simplify_sweep::<SetA, 2>(rep, &[v0, v1, k0, k1], &SetA::table().iter().map(|e| (e.0, e.1)).collect::<Vec<_>>(), tier(6, 7), &spec, "seta");
    // Sets whose operator ids coincide across arities.
    simplify_sweep::<SetB, 3>(rep, &[v0, v1, k0], &SetB::table().iter().map(|e| (e.0, e.1)).collect::<Vec<_>>(), tier(5, 6), &spec, "setb");
    simplify_sweep::<SetC, 2>(rep, &[v0, v1, k0, k1], &SetC::table().iter().map(|e| (e.0, e.1)).collect::<Vec<_>>(), tier(7, 8), &spec, "setc");
    simplify_sweep::<SetD, 3>(rep, &[v0, v1, k0], &SetD::table().iter().map(|e| (e.0, e.1)).collect::<Vec<_>>(), tier(6, 7), &spec, "setd");
    simplify_sweep::<SetE, 3>(rep, &[v0, k0, k1], &SetE::table().iter().map(|e| (e.0, e.1)).collect::<Vec<_>>(), tier(6, 7), &spec, "sete");
    // Sets without some of the combinable operators, and one of arity up to five.
    simplify_sweep::<TagOps, 5>(rep, &[v0, k0, k1], &[(1, 0), (2, 0), (2, 1), (3, 0), (4, 0), (5, 0)], tier(6, 7), &spec, "tag");
    // All built-in operators.
    let ops: Vec<(u8, u16)> = table_f64().iter().map(|e| (e.0, e.1)).collect();
    simplify_sweep::<BuiltinOpsF64, 3>(rep, &[v0, k0, k1], &ops, 4, &gen, "builtin");
    let mut mixed = ids(table_f64(), &["sub", "add", "mul"]);
    mixed.extend(table_f64().iter().filter(|e| e.0 == 1).map(|e| (e.0, e.1)));
    simplify_sweep::<BuiltinOpsF64, 3>(rep, &[v0, k0], &mixed, tier(5, 6), &gen, "builtin_arith");
    // Hundreds of features, constants, steps and folded parts in one expression.
    let xv = data(1201, 2).mapv(|v| 0.02 * v);
    let (sub, add, mul) = (id_of(SetA::table(), "sub"), id_of(SetA::table(), "add"), id_of(SetA::table(), "mul"));
    let mut jobs: Vec<(bool, Vec<Sym>)> = vast(1201, (2, 0)).into_iter().chain(vast(1201, (3, 0))).map(|s| (false, s)).collect();
    for o in [sub, add, mul] {
        jobs.extend(vast(601, o).into_iter().map(|s| (true, s)));
    }
    rep.note("vast", jobs.len() as u64);
    par_for(rep, &jobs, |_, (arith, s)| {
        let (nodes, nf) = nodes_of(s);
        if *arith {
            simplify_case::<SetA, 2>(rep, &nodes, &fine_consts(nf).iter().map(|c| 50.0 * c).collect::<Vec<_>>(), &xv.mapv(|v| 30.0 * v), "vast");
        } else {
            simplify_case::<TagOps, 3>(rep, &nodes, &fine_consts(nf), &xv, "vast");
        }
    });
    rep.assume("values are compared, within a running rounding-error bound, where the original value is finite");
}

// ---------------------------------------------------------------------------------------------
// C08

pub fn c08(rep: &Report) {
    let leaves = [Sym::V(0), Sym::K(0), Sym::K(1), Sym::K(2), Sym::K(3)];
    let g = Gen::new(&leaves, &[(1, 0), (2, 0), (3, 0)], tier(7, 9)).upto(tier(7, 9));
    rep.note("trees", g.len() as u64);
    let x = data(1, 2);
    let chunks: Vec<&[Vec<Sym>]> = g.chunks(64).collect();
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            let (nodes, _) = nodes_of(s);
            let need = used(&nodes).iter().next_back().map(|m| *m as usize + 1).unwrap_or(0);
            for len in need..=5 {
                for dup in [false, true] {
                    let cs: Vec<f64> = (0..len).map(|i| if dup { 1.25 } else { 0.5 + 1.7 * i as f64 }).collect();
                    const_case(rep, &nodes, &cs, &x);
                }
            }
        }
    });
    // Assigning through every (partial, permuted) list of constant positions.
    for len in 0..=4usize {
        for k in 0..=len {
            for p in permutations(len) {
                let ix: Vec<usize> = p[..k].to_vec();
                let nodes: Vec<PNode> = vec![PNode::Const { idx: 0 }];
                let cs: Vec<f64> = (0..len).map(|i| i as f64).collect();
                let mut e = mk::<f64, TagOps, 3>(&nodes, &cs);
                let new: Vec<f64> = (0..k).map(|i| 100.0 + i as f64).collect();
                set_scalar_constants(&mut e, &new, &ConstRef { const_indices: ix.clone() });
                let mut want = cs.clone();
                for (i, &d) in ix.iter().enumerate() {
                    want[d] = new[i];
                }
                rep.state(1);
                rep.trans(1);
                rep.valid(1);
                rep.check(e.consts == want, || "set:positions".into(), || format!("set {new:?} at {ix:?} of {cs:?} gave {:?}", e.consts));
            }
        }
    }
    let xv = data(601, 2).mapv(|v| 0.02 * v);
    for s in vast(601, (2, 0)).iter().chain(&vast(601, (3, 0))) {
        let (nodes, nf) = nodes_of(s);
        const_case(rep, &nodes, &fine_consts(nf), &xv);
        // every constant followed by one that nothing refers to
        let spread: Vec<PNode> = nodes.iter().map(|n| if let PNode::Const { idx } = n { PNode::Const { idx: 2 * idx } } else { *n }).collect();
        const_case(rep, &spread, &fine_consts(2 * nf), &xv);
    }
    // Many constants (indices beyond one byte), all referenced in reverse order.
    for n in [255usize, 256, 257, 1000, 5000] {
        let mut nodes: Vec<PNode> = Vec::new();
        for i in 0..n {
            nodes.push(PNode::Const { idx: (n - 1 - i) as u16 });
            if i > 0 {
                nodes.push(PNode::Op { arity: 2, op: 0 });
            }
        }
        let cs: Vec<f64> = (0..n).map(|i| i as f64).collect();
        let mut e = mk::<f64, TagOps, 3>(&nodes, &cs);
        compress_constants(&mut e);
        let vals = |e: &PostfixExpr<f64, TagOps, 3>| -> Vec<f64> { e.nodes.iter().filter_map(|m| if let PNode::Const { idx } = m { Some(e.consts[*idx as usize]) } else { None }).collect() };
        rep.state(1);
        rep.check(vals(&e) == cs.iter().rev().copied().collect::<Vec<_>>() && e.consts.len() == n, || "compress:large".into(), || format!("{n} constants are permuted"));
    }
}

fn const_case(rep: &Report, nodes: &[PNode], cs: &[f64], x: &Array2<f64>) {
    let e0 = mk::<f64, TagOps, 3>(nodes, cs);
    rep.state(1);
    rep.trans(4);
    rep.valid(5);
    let mut e = e0.clone();
    let changed = compress_constants(&mut e);
    if nodes.len() > 4 && changed && e.consts.len() > 1 {
        rep.sample(|| format!("[{}] consts {cs:?} becomes [{}] consts {:?}", show(nodes), show(&e.nodes), e.consts));
    }
    let ctx = |m: &str, e: &PostfixExpr<f64, TagOps, 3>| format!("{m}: [{}] consts {cs:?} -> [{}] consts {:?}", show(nodes), show(&e.nodes), e.consts);
    let u = used(nodes);
    let mut ok = e.nodes.len() == nodes.len() && e.consts.len() == u.len();
    let mut map: Vec<Option<u16>> = vec![None; cs.len()];
    let mut seen: BTreeSet<u16> = BTreeSet::new();
    if ok {
        for (a, c) in nodes.iter().zip(&e.nodes) {
            match (*a, *c) {
                (PNode::Const { idx: i }, PNode::Const { idx: j }) => {
                    ok &= (j as usize) < e.consts.len() && e.consts[j as usize] == cs[i as usize];
                    match map[i as usize] {
                        None => {
                            // a fresh constant gets a fresh position
                            ok &= seen.insert(j);
                            map[i as usize] = Some(j);
                        }
                        Some(k) => ok &= k == j,
                    }
                }
                (a, c) => ok &= a == c,
            }
        }
    }
    rep.check(ok, || "compress".into(), || ctx("compress_constants must keep every node's constant and drop the unused ones", &e));
    rep.check(changed == (e.nodes != nodes || e.consts != cs), || "compress:flag".into(), || ctx("wrong change flag", &e));
    // get / set
    let (vals, cref) = get_scalar_constants(&e0);
    rep.check(vals == cs && cref.const_indices.len() == cs.len(), || "get".into(), || format!("get_scalar_constants of {cs:?} gave {vals:?} {cref:?}"));
    let mut e = e0.clone();
    set_scalar_constants(&mut e, &vals, &cref);
    rep.check(e.nodes == e0.nodes && e.consts == e0.consts, || "set:identity".into(), || ctx("writing back the constants changed the expression", &e));
    let new: Vec<f64> = (0..vals.len()).map(|i| if vals.len() > 9 { -0.03 + 0.00021 * i as f64 } else { -0.3 + 0.21 * i as f64 }).collect();
    set_scalar_constants(&mut e, &new, &cref);
    let (back, _) = get_scalar_constants(&e);
    let t = parse(nodes).unwrap();
    let mut fin = true;
    let want: Vec<f64> = (0..x.ncols()).map(|r| t.eval::<TagOps>(&row(x, r), &new, &mut fin)).collect();
    let (got, _) = eval_tree_array::<f64, TagOps, 3>(&e, x.view(), &LOOSE);
    rep.check(back == new && e.nodes == e0.nodes, || "set:get".into(), || ctx("constants do not read back as written", &e));
    rep.check(got.iter().zip(&want).all(|(a, b)| close(*a, *b, 1e-12, 1e-13)), || "set:eval".into(), || ctx(&format!("evaluation after writing {new:?}: {got:?} want {want:?}"), &e));
}

// ---------------------------------------------------------------------------------------------
// C09

type BE = PostfixExpr<f64, BuiltinOpsF64, 3>;

fn small_exprs() -> Vec<BE> {
    let t = table_f64();
    let (add, div, neg, cl) = (id_of(t, "add").1, id_of(t, "div").1, id_of(t, "neg").1, id_of(t, "clamp").1);
    let (v0, v1, k0, k1, k2) = (Sym::V(0), Sym::V(1), Sym::K(0), Sym::K(1), Sym::K(2));
    let specs: Vec<(Vec<Sym>, Vec<f64>, Vec<&str>)> = vec![
        (vec![v0], vec![], vec![]),
        (vec![v1], vec![], vec!["a", "b"]),
        (vec![k0], vec![1.5], vec![]),
        (vec![k1], vec![9.0, -2.25], vec!["c", "d"]),
        (vec![v0, k0, Sym::O(2, add)], vec![0.75], vec![]),
        (vec![k1, k0, Sym::O(2, div)], vec![2.0, 5.0], vec![]),
        (vec![k0, v1, Sym::O(2, div), Sym::O(1, neg)], vec![0.3, 8.0], vec!["e", "f"]),
        (vec![v0, k2, k0, Sym::O(3, cl)], vec![1.0, 7.0, -0.5], vec![]),
        (vec![k0, k0, Sym::O(2, add)], vec![0.625], vec![]),
    ];
    specs
        .into_iter()
        .map(|(s, c, n)| {
            let mut e: BE = mk(&nodes_of(&s).0, &c);
            e.meta.variable_names = n.into_iter().map(String::from).collect();
            e
        })
        .collect()
}

fn compose_check(rep: &Report, name: &str, arity: u8, args: &[&BE], got: &BE) {
    rep.state(1);
    rep.trans(got.nodes.len() as u64);
    rep.valid(args.len() as u64);
    if args.len() > 1 && got.consts.len() > 1 {
        rep.sample(|| format!("{name}({}) = [{}] {:?}", args.iter().map(|e| format!("[{}] {:?}", show(&e.nodes), e.consts)).collect::<Vec<_>>().join(", "), show(&got.nodes), got.consts));
    }
    let id = id_of(table_f64(), name);
    let ctx = |m: String| {
        let a: Vec<String> = args.iter().map(|e| format!("[{}]{:?}", show(&e.nodes), e.consts)).collect();
        format!("{name}({}) = [{}]{:?}: {m}", a.join(", "), show(&got.nodes), got.consts)
    };
    let t = match well_formed(&got.nodes, got.consts.len(), 2) {
        Ok(t) => t,
        Err(m) => return rep.violation(format!("algebra:{name}:form"), ctx(m)),
    };
    let Tree::O(a, o, ch) = &t else { return rep.violation(format!("algebra:{name}:root"), ctx("root is not an operator".into())) };
    rep.check((*a, *o) == (arity, id.1) && ch.len() == args.len(), || format!("algebra:{name}:root"), || ctx("wrong root operator".into()));
    fn same(a: &Tree, ac: &[f64], b: &Tree, bc: &[f64]) -> bool {
        match (a, b) {
            (Tree::V(x), Tree::V(y)) => x == y,
            (Tree::K(x), Tree::K(y)) => ac[*x as usize] == bc[*y as usize],
            (Tree::O(a1, o1, c1), Tree::O(a2, o2, c2)) => a1 == a2 && o1 == o2 && c1.len() == c2.len() && c1.iter().zip(c2).all(|(p, q)| same(p, ac, q, bc)),
            _ => false,
        }
    }
    for (j, e) in args.iter().enumerate() {
        let te = parse(&e.nodes).unwrap();
        rep.check(j < ch.len() && same(&ch[j], &got.consts, &te, &e.consts), || format!("algebra:{name}:arg{j}"), || ctx(format!("operand {j} is not the given expression")));
    }
    // Constants of different operands stay independent of each other.
    let mut owner: Vec<Option<usize>> = vec![None; got.consts.len()];
    for (j, c) in ch.iter().enumerate() {
        for s in subtrees(c) {
            if let Tree::K(i) = s {
                let o = &mut owner[*i as usize];
                rep.check(o.is_none() || *o == Some(j), || format!("algebra:{name}:shared"), || ctx("operands share a constant".into()));
                *o = Some(j);
            }
        }
    }
    let names = args.iter().map(|e| &e.meta.variable_names).find(|n| !n.is_empty()).cloned().unwrap_or_default();
    rep.check(got.meta.variable_names == names, || format!("algebra:{name}:names"), || ctx(format!("variable names {:?}, expected {names:?}", got.meta.variable_names)));
    let x = data(2, 3);
    let want: Vec<f64> = {
        let vs: Vec<Vec<f64>> = args.iter().map(|e| eval_tree_array::<f64, BuiltinOpsF64, 3>(e, x.view(), &LOOSE).0).collect();
        (0..3).map(|r| bev(name, &vs.iter().map(|v| v[r]).collect::<Vec<_>>())).collect()
    };
    let (y, _) = eval_tree_array::<f64, BuiltinOpsF64, 3>(got, x.view(), &LOOSE);
    rep.check(y.iter().zip(&want).all(|(a, b)| close(*a, *b, 1e-12, 1e-13)), || format!("algebra:{name}:value"), || ctx(format!("evaluates to {y:?}, expected {want:?}")));
}

macro_rules! un { ($rep:expr, $es:expr; $($f:ident),*) => { $( for a in $es.iter() { compose_check($rep, stringify!($f), 1, &[a], &w::$f(a.clone())); } )* } }
macro_rules! bin { ($rep:expr, $es:expr; $($f:ident),*) => { $( for a in $es.iter() { for c in $es.iter() { compose_check($rep, stringify!($f), 2, &[a, c], &w::$f(a.clone(), c.clone())); } } )* } }
macro_rules! ter { ($rep:expr, $es:expr; $($f:ident),*) => { $( for a in $es.iter() { for c in $es.iter() { for d in $es.iter() { compose_check($rep, stringify!($f), 3, &[a, c, d], &w::$f(a.clone(), c.clone(), d.clone())); } } } )* } }

pub fn c09(rep: &Report) {
    let es = small_exprs();
    // Programs of the algebra up to depth `depth`, built from the operator overloads.
    un!(rep, es; cos, sin, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, sec, csc, cot, exp, exp2, expm1, log, log2, log10, log1p, sqrt, cbrt, abs, abs2, inv, sign, identity, neg);
    bin!(rep, es; div, add, sub, mul, pow, atan2, min, max);
    ter!(rep, es; fma, clamp);
    let mut pool = es.clone();
    let mut prev = es.clone();
    for depth in 0..3 {
        let mut next: Vec<BE> = Vec::new();
        for a in &prev {
            let g = -a.clone();
            compose_check(rep, "neg", 1, &[a], &g);
            if depth == 0 {
                next.push(g);
            }
            for s in [2.5, -0.125] {
                let k: BE = mk(&[PNode::Const { idx: 0 }], &[s]);
                for (name, g, rev) in [
                    ("add", a.clone() + s, false),
                    ("sub", a.clone() - s, false),
                    ("mul", a.clone() * s, false),
                    ("div", a.clone() / s, false),
                    ("add", lit(s) + a.clone(), true),
                    ("sub", lit(s) - a.clone(), true),
                    ("mul", lit(s) * a.clone(), true),
                    ("div", lit(s) / a.clone(), true),
                ] {
                    if rev {
                        compose_check(rep, name, 2, &[&k, a], &g);
                    } else {
                        compose_check(rep, name, 2, &[a, &k], &g);
                    }
                    if s > 0.0 {
                        next.push(g);
                    }
                }
            }
            for c in &pool {
                for (name, g) in [("add", a.clone() + c.clone()), ("sub", a.clone() - c.clone()), ("mul", a.clone() * c.clone()), ("div", a.clone() / c.clone())] {
                    compose_check(rep, name, 2, &[a, c], &g);
                    if name == "sub" || depth == 0 {
                        next.push(g);
                    }
                }
                for (name, g) in [("add", c.clone() + a.clone()), ("sub", c.clone() - a.clone())] {
                    compose_check(rep, name, 2, &[c, a], &g);
                }
            }
        }
        rep.note(&format!("expressions_depth{}", depth + 1), next.len() as u64);
        next.truncate(tier(3000, 20_000));
        if depth == 0 {
            pool.extend(next.iter().step_by(17).cloned());
        }
        prev = next;
    }
    // Operands with hundreds of constants.
    let sub = id_of(table_f64(), "sub");
    let long = |n: usize, first: f64| -> BE {
        let mut nodes = vec![PNode::Const { idx: 0 }];
        for i in 1..n {
            nodes.push(if i % 2 == 0 { PNode::Const { idx: (n - i) as u16 } } else { PNode::Const { idx: i as u16 } });
            nodes.push(PNode::Op { arity: 2, op: sub.1 });
        }
        mk(&nodes, &(0..n).map(|i| first + 0.37 * i as f64).collect::<Vec<_>>())
    };
    let big: Vec<BE> = vec![long(1, 0.5), long(200, 3.0), long(255, -1.0), long(256, 2.25), long(257, 0.25), long(600, 7.0)];
    bin!(rep, big; div, add, sub, mul, pow, atan2, min, max);
    ter!(rep, big; fma, clamp);
    for a in &big {
        let k: BE = mk(&[PNode::Const { idx: 0 }], &[2.5]);
        compose_check(rep, "neg", 1, &[a], &-a.clone());
        compose_check(rep, "sub", 2, &[a, &k], &(a.clone() - 2.5));
        compose_check(rep, "sub", 2, &[&k, a], &(lit(2.5) - a.clone()));
        for c in &big {
            compose_check(rep, "sub", 2, &[a, c], &(a.clone() - c.clone()));
            compose_check(rep, "div", 2, &[c, a], &(c.clone() / a.clone()));
        }
    }
    let z: BE = PostfixExpr::zero();
    let (y, ok) = eval_tree_array::<f64, BuiltinOpsF64, 3>(&z, data(1, 2).view(), &EvalOptions::default());
    rep.check(ok && y == [0.0, 0.0], || "zero".into(), || format!("zero() evaluates to {y:?}"));
}

// ---------------------------------------------------------------------------------------------
// C10

/// Parser of the rendered form: binary infix applications in parentheses (the outermost pair may
/// be missing at the top and in argument lists), everything else as name(args).
struct P<'a> {
    s: &'a [u8],
    i: usize,
    names: &'a [String],
    ops: &'a [(u8, u16, String, bool)], // arity, id, token, infix
}

#[derive(PartialEq, Debug, Clone)]
enum R {
    V(u16),
    K(u64),
    O(u8, u16, Vec<R>),
}

impl<'a> P<'a> {
    fn eat(&mut self, t: &str) -> bool {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    /// An item, optionally followed by one infix operator and more items of the same operator.
    fn seq(&mut self) -> Option<R> {
        let first = self.item()?;
        let save = self.i;
        if !self.eat(" ") {
            return Some(first);
        }
        let rest = &self.s[self.i..];
        let end = rest.iter().position(|c| *c == b' ')?;
        let tok = std::str::from_utf8(&rest[..end]).ok()?.to_string();
        self.i = save;
        let sep = format!(" {tok} ");
        let mut args = vec![first];
        while self.eat(&sep) {
            args.push(self.item()?);
        }
        let ar = args.len() as u8;
        let op = self.ops.iter().find(|o| o.3 && o.0 == ar && o.2 == tok)?;
        Some(R::O(ar, op.1, args))
    }
    fn item(&mut self) -> Option<R> {
        if self.eat("(") {
            let r = self.seq()?;
            if !self.eat(")") || !matches!(&r, R::O(a, _, _) if *a > 1) {
                return None;
            }
            return Some(r);
        }
        // name( ... )
        let mut best: Option<(usize, u8)> = None;
        for (k, o) in self.ops.iter().enumerate() {
            let t = format!("{}(", o.2);
            if self.s[self.i..].starts_with(t.as_bytes()) && !(o.3 && o.0 > 1) && best.is_none_or(|b| self.ops[b.0].2.len() < o.2.len()) {
                best = Some((k, o.0));
            }
        }
        if let Some((k, _)) = best {
            let tok = self.ops[k].2.clone();
            self.eat(&tok);
            self.eat("(");
            let mut args = vec![self.seq()?];
            while self.eat(", ") {
                args.push(self.seq()?);
            }
            if !self.eat(")") {
                return None;
            }
            let ar = args.len() as u8;
            let o = self.ops.iter().find(|o| o.0 == ar && o.2 == tok && !(o.3 && o.0 > 1))?;
            return Some(R::O(ar, o.1, args));
        }
        let end = self.s[self.i..].iter().position(|c| matches!(c, b' ' | b',' | b')')).unwrap_or(self.s.len() - self.i);
        let tok = std::str::from_utf8(&self.s[self.i..self.i + end]).ok()?;
        self.i += end;
        if let Some(p) = self.names.iter().position(|n| n == tok) {
            return Some(R::V(p as u16));
        }
        if let Some(f) = tok.strip_prefix('x').and_then(|f| f.parse::<u16>().ok()) {
            return if (f as usize) < self.names.len() { None } else { Some(R::V(f)) };
        }
        tok.parse::<f64>().ok().map(|v| R::K(if v.is_nan() { 0 } else { v.to_bits() }))
    }
}

fn to_r(t: &Tree, cs: &[f64]) -> R {
    match t {
        Tree::V(f) => R::V(*f),
        Tree::K(i) => R::K(if cs[*i as usize].is_nan() { 0 } else { cs[*i as usize].to_bits() }),
        Tree::O(a, o, ch) => R::O(*a, *o, ch.iter().map(|c| to_r(c, cs)).collect()),
    }
}

fn string_case<M: Model<T = f64>, const D: usize>(rep: &Report, ops: &[(u8, u16, String, bool)], nodes: &[PNode], cs: &[f64], opt_names: Option<&[String]>, meta_names: &[String], pretty: bool) {
    let mut e = mk::<f64, M, D>(nodes, cs);
    e.meta.variable_names = meta_names.to_vec();
    let s = string_tree(&e, StringTreeOptions { variable_names: opt_names, pretty });
    let names: &[String] = opt_names.unwrap_or(meta_names);
    let mut p = P { s: s.as_bytes(), i: 0, names, ops };
    let r = p.seq();
    let done = p.i == s.len();
    rep.state(1);
    rep.trans(nodes.len() as u64);
    rep.valid(1);
    let want = to_r(&parse(nodes).unwrap(), cs);
    rep.check(done && r.as_ref() == Some(&want), || "string".into(), || format!("[{}] consts {cs:?} names {names:?} pretty={pretty} renders as {s:?}, which reads back as {r:?} instead of {want:?}", show(nodes)));
    if opt_names.is_none() && !pretty {
        rep.check(e.to_string() == s, || "display".into(), || format!("Display gives {e} but string_tree gives {s}"));
    }
}

dynamic_expressions::custom_opset! {
    pub struct NameOps<f64> {
        1 {
            minus { display: "-", infix: "-", eval(a) { -a[0] }, partial(_a, _i) { -1.0 }, }
            wobble { display: "~", eval(a) { a[0] + 0.5 }, partial(_a, _i) { 1.0 }, }
        }
        2 {
            minus2 { display: "-", infix: "-", eval(a) { a[0] - a[1] }, partial(_a, i) { if i == 0 { 1.0 } else { -1.0 } }, }
            wobble2 { display: "~~", eval(a) { a[0] + a[1] }, partial(_a, _i) { 1.0 }, }
            star { display: "*", infix: "**", commutative: true, associative: true, complexity: 7, eval(a) { a[0] * a[1] }, partial(a, i) { a[1 - i] }, }
        }
        3 {
            mid { display: "?", infix: "?", complexity: 3, eval(a) { a[0] + a[1] + a[2] }, partial(_a, _i) { 1.0 }, }
            fold { eval(a) { a[0] - a[1] + a[2] }, partial(_a, i) { if i == 1 { -1.0 } else { 1.0 } }, }
        }
    }
}
impl Model for NameOps {
    fn ev(_: u8, _: u16, _: &[f64]) -> f64 {
        0.0
    }
    fn pd(_: u8, _: u16, _: &[f64], _: usize) -> f64 {
        0.0
    }
}

fn string_sweep<M: Model<T = f64>, const D: usize>(rep: &Report, ops: Vec<(u8, u16, &str, &str, Option<&str>)>, max: usize, tag: &str) {
    let all = Gen::new(&[Sym::V(0), Sym::V(1), Sym::K(0), Sym::K(1)], &ops.iter().map(|o| (o.0, o.1)).collect::<Vec<_>>(), max).upto(max);
    rep.note(&format!("trees_{tag}"), all.len() as u64);
    let names: Vec<String> = vec!["alpha".into(), "b_2".into()];
    let one: Vec<String> = vec!["q".into()];
    let plain: Vec<(u8, u16, String, bool)> = ops.iter().map(|o| (o.0, o.1, o.4.unwrap_or(o.2).to_string(), o.4.is_some())).collect();
    let pretty: Vec<(u8, u16, String, bool)> = ops.iter().map(|o| (o.0, o.1, o.3.to_string(), o.4.is_some())).collect();
    let csets = [[1.5, -2.0], [0.1, 1e-7], [-0.0, 123456789.125], [f64::INFINITY, 3.0]];
    let chunks: Vec<&[Vec<Sym>]> = all.chunks(64).collect();
    par_for(rep, &chunks, |_, ch| {
        for (k, s) in ch.iter().enumerate() {
            let (nodes, _) = nodes_of(s);
            for (ci, cs) in csets.iter().enumerate() {
                if ci > 0 && nodes.len() > max - 1 && k % 4 != ci {
                    continue;
                }
                string_case::<M, D>(rep, &plain, &nodes, cs, None, &[], false);
                string_case::<M, D>(rep, &pretty, &nodes, cs, None, &names, true);
                if ci == 0 {
                    string_case::<M, D>(rep, &plain, &nodes, cs, Some(&names), &one, false);
                    string_case::<M, D>(rep, &plain, &nodes, cs, Some(&one), &names, false);
                    string_case::<M, D>(rep, &plain, &nodes, cs, None, &one, false);
                }
            }
        }
    });
    rep.sample(|| format!("{tag}: {}", string_tree(&mk::<f64, M, D>(&nodes_of(all.last().unwrap()).0, &csets[0]), StringTreeOptions::default())));
}

fn shape_sweep(rep: &Report, keep: &[&str], max: usize) {
    let t = SetB::table();
    let ops: Vec<(u8, u16, String, bool)> = t.iter().map(|e| (e.0, e.1, infix_of(e.2).unwrap_or(e.2).to_string(), infix_of(e.2).is_some())).collect();
    let ids: Vec<(u8, u16)> = keep.iter().map(|k| id_of(t, k)).collect();
    let all = Gen::new(&[Sym::V(0)], &ids, max).upto(max);
    rep.note(&format!("shapes_{}", keep.join("_")), all.len() as u64);
    let chunks: Vec<&[Vec<Sym>]> = all.chunks(256).collect();
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            let mut nodes = nodes_of(s).0;
            string_case::<SetB, 3>(rep, &ops, &nodes, &[-1.5], None, &[], false);
            // The last leaf a (negative) constant.
            if let Some(l) = nodes.iter_mut().rev().find(|n| matches!(n, PNode::Var { .. })) {
                *l = PNode::Const { idx: 0 };
                string_case::<SetB, 3>(rep, &ops, &nodes, &[-1.5], None, &[], false);
            }
        }
    });
}

/// Every binary exponent with extreme and alternating mantissas, both signs, and decimal fractions: the
/// text of a constant, alone and inside expressions, reads back as the same number. Every feature number.
fn const_texts(rep: &Report) {
    let mants = [0u64, 1, 0x5_5555_5555_5555, 0xA_AAAA_AAAA_AAAA, 0x8_0000_0000_0000, 0xF_FFFF_FFFF_FFFF, 0x3_243F_6A88_85A3];
    let t = SetB::table();
    let ops: Vec<(u8, u16, String, bool)> = t.iter().map(|e| (e.0, e.1, infix_of(e.2).unwrap_or(e.2).to_string(), infix_of(e.2).is_some())).collect();
    let (sub, neg, div) = (id_of(t, "sub"), id_of(t, "neg"), id_of(t, "div"));
    let one = |v: f64, w: f64| {
        let s = dynamic_expressions::strings::default_string_constant(&v);
        rep.state(1);
        rep.trans(1);
        rep.valid(1);
        rep.check(s.parse::<f64>().map(|r| r.to_bits()) == Ok(v.to_bits()), || "constant".into(), || format!("the constant {v:e} prints as {s}"));
        let k = |i: u16| PNode::Const { idx: i };
        for nodes in [vec![k(0)], vec![k(0), PNode::Op { arity: neg.0, op: neg.1 }], vec![k(0), k(1), PNode::Op { arity: 2, op: sub.1 }], vec![PNode::Var { feature: 0 }, k(1), k(0), PNode::Op { arity: 2, op: sub.1 }, PNode::Op { arity: 2, op: div.1 }]] {
            string_case::<SetB, 3>(rep, &ops, &nodes, &[v, w], None, &[], false);
        }
    };
    let exps: Vec<u64> = (0..2047).collect();
    par_for(rep, &exps, |_, &e| {
        for &m in &mants {
            for sign in 0..2u64 {
                one(f64::from_bits(sign << 63 | e << 52 | m), f64::from_bits((2046 - e) << 52 | m));
            }
        }
        if e < 255 {
            for m in (0..1u32 << 23).step_by(tier(4099, 61)).chain([1, 0x7f_ffff, 0x2a_aaaa, 0x55_5555]) {
                let v = f32::from_bits((e as u32) << 23 | m);
                let s = dynamic_expressions::strings::default_string_constant(&v);
                rep.state(1);
                rep.check(s.parse::<f32>().map(|r| r.to_bits()) == Ok(v.to_bits()), || "constant".into(), || format!("the single precision constant {v:e} prints as {s}"));
            }
        }
    });
    let decs: Vec<u32> = (0..tier(2000, 20000)).collect();
    par_for(rep, &decs, |_, &k| {
        for d in 0..18 {
            let v = k as f64 / 10f64.powi(d);
            one(v, -v);
            one(k as f64 * 10f64.powi(d), v + 0.1);
        }
    });
    let names: Vec<String> = vec!["alpha".into(), "b_2".into()];
    for f in 0..=u16::MAX {
        rep.state(1);
        for n in 0..3 {
            let got = dynamic_expressions::strings::default_string_variable(f, if n == 0 { None } else { Some(&names[..n]) });
            let want = if n > f as usize { names[f as usize].clone() } else { format!("x{f}") };
            rep.check(got == want, || "variable".into(), || format!("feature {f} with {n} names prints as {got}"));
        }
    }
}

fn infix_of(name: &str) -> Option<&'static str> {
    match name {
        "add" => Some("+"),
        "sub" => Some("-"),
        "mul" => Some("*"),
        "div" => Some("/"),
        "neg" => Some("-"),
        _ => None,
    }
}

pub fn c10(rep: &Report) {
    fn of(t: &'static Table, keep: &[&str]) -> Vec<(u8, u16, &'static str, &'static str, Option<&'static str>)> {
        t.iter().filter(|e| keep.is_empty() || keep.contains(&e.2)).map(|e| (e.0, e.1, e.2, infix_of(e.2).unwrap_or(e.2), infix_of(e.2))).collect()
    }
    string_sweep::<SetB, 3>(rep, of(SetB::table(), &[]), tier(5, 6), "setb");
    string_sweep::<SetB, 3>(rep, of(SetB::table(), &["neg", "sub", "cos", "div"]), tier(6, 7), "setb_small");
    string_sweep::<BuiltinOpsF64, 3>(rep, of(table_f64(), &[]), tier(3, 4), "builtin");
    string_sweep::<NameOps, 3>(
        rep,
        vec![(1, 0, "minus", "-", Some("-")), (1, 1, "wobble", "~", None), (2, 0, "minus2", "-", Some("-")), (2, 1, "wobble2", "~~", None), (2, 2, "star", "*", Some("**")), (3, 0, "mid", "?", Some("?")), (3, 1, "fold", "fold", None)],
        tier(5, 6),
        "custom",
    );
    // Deep trees of few symbols: parentheses.
    shape_sweep(rep, &["sub"], tier(21, 25));
    shape_sweep(rep, &["sub", "cos"], tier(14, 16));
    shape_sweep(rep, &["sub", "neg"], tier(14, 16));
    shape_sweep(rep, &["sub", "clamp"], tier(15, 19));
    shape_sweep(rep, &["div", "cos", "clamp"], tier(12, 14));
    // Nesting beyond what a byte counts, and hundreds of features and constants.
    let t = SetB::table();
    let ops: Vec<(u8, u16, String, bool)> = t.iter().map(|e| (e.0, e.1, infix_of(e.2).unwrap_or(e.2).to_string(), infix_of(e.2).is_some())).collect();
    let names: Vec<String> = (0..601).map(|k| format!("n{k}")).collect();
    for name in ["sub", "div", "add", "clamp"] {
        let mut deep = vast(601, id_of(t, name));
        deep.extend(vast(261, id_of(t, name)));
        for un in ["cos", "neg"].map(|u| id_of(t, u)) {
            for depth in [127, 128, 129, 130, 255, 256, 257, 258, 600] {
                let mut s = vec![Sym::V(0)];
                s.extend((0..depth).map(|_| Sym::O(un.0, un.1)));
                for _ in 1..id_of(t, name).0 {
                    s.push(Sym::V(1));
                }
                s.push(Sym::O(id_of(t, name).0, id_of(t, name).1));
                deep.push(s);
            }
        }
        rep.note("vast", deep.len() as u64);
        par_for(rep, &deep, |_, s| {
            let (nodes, nf) = nodes_of(s);
            let cs: Vec<f64> = (0..nf).map(|i| if i % 3 == 1 { -0.5 * i as f64 } else { 1.25 * i as f64 }).collect();
            string_case::<SetB, 3>(rep, &ops, &nodes, &cs, None, &[], false);
            string_case::<SetB, 3>(rep, &ops, &nodes, &cs, None, &names, false);
            string_case::<SetB, 3>(rep, &ops, &nodes, &cs, Some(&names[..257]), &[], false);
        });
    }
    const_texts(rep);
    rep.assume("variable names contain no spaces, commas or parentheses and are not themselves of the form x<number> or a number");
}

dynamic_expressions::custom_opset! {
    pub struct TwinOps<f64> {
        1 {
            upper { display: "Q", eval(a) { a[0] + 1.0 }, partial(_a, _i) { 1.0 }, }
            lower { display: "q", eval(a) { a[0] - 1.0 }, partial(_a, _i) { 1.0 }, }
            other { display: "upper", eval(a) { a[0] - 2.0 }, partial(_a, _i) { 1.0 }, }
        }
        2 {
            plus { display: "+", infix: "+", eval(a) { a[0] + a[1] }, partial(_a, _i) { 1.0 }, }
            plus_half { display: "+", infix: "+", eval(a) { a[0] + a[1] + 0.5 }, partial(_a, _i) { 1.0 }, }
            word { display: "Word", infix: "Word", eval(a) { a[0] - a[1] }, partial(_a, _i) { 1.0 }, }
            word2 { display: "word", infix: "word", eval(a) { a[1] - a[0] }, partial(_a, _i) { 1.0 }, }
        }
        3 {
            s1 { display: "@", infix: "+", eval(a) { a[0] + a[1] + a[2] }, partial(_a, _i) { 1.0 }, }
            s2 { display: "@", eval(a) { a[0] - a[1] + a[2] }, partial(_a, _i) { 1.0 }, }
            s3 { display: "@", infix: "@", eval(a) { a[0] - a[1] - a[2] }, partial(_a, _i) { 1.0 }, }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C11

struct Expect {
    arity: u8,
    name: &'static str,
    display: &'static str,
    infix: Option<&'static str>,
    commutative: bool,
    associative: bool,
    complexity: u16,
}

fn registry<O: OperatorSet<T = f64>>(rep: &Report, tag: &str, exp: &[Expect], strict_laws: bool) {
    let mut total = 0;
    let maxa = exp.iter().map(|e| e.arity).max().unwrap();
    rep.check(O::MAX_ARITY == maxa, || format!("registry:{tag}:max_arity"), || format!("{tag}: MAX_ARITY {} but the largest arity is {maxa}", O::MAX_ARITY));
    for ar in 0..=(maxa + 2) {
        let ids = O::ops_with_arity(ar);
        total += ids.len();
        let want: Vec<&Expect> = exp.iter().filter(|e| e.arity == ar).collect();
        let mut uniq: Vec<u16> = ids.to_vec();
        uniq.sort();
        uniq.dedup();
        rep.check(ids.len() == want.len() && uniq.len() == ids.len(), || format!("registry:{tag}:list"), || format!("{tag}: arity {ar} lists ids {ids:?} for {} operators", want.len()));
        for (k, &id) in ids.iter().enumerate() {
            let op = OpId { arity: ar, id };
            let e = want[k.min(want.len() - 1)];
            rep.state(1);
            rep.trans(1);
            rep.valid(1);
            let ok = O::meta(op).is_some_and(|m| m.arity == ar && m.id == id && m.name == e.name && m.display == e.display && m.infix == e.infix && m.complexity == e.complexity && (!strict_laws || (m.commutative == e.commutative && m.associative == e.associative)))
                && O::name(op) == e.name
                && O::display(op) == e.display
                && O::infix(op) == e.infix
                && O::complexity(op) == e.complexity
                && Some(O::commutative(op)) == O::meta(op).map(|m| m.commutative)
                && Some(O::associative(op)) == O::meta(op).map(|m| m.associative);
            rep.check(ok, || format!("registry:{tag}:meta"), || format!("{tag}: metadata of {op:?} is {:?}, declared {} {} {:?} complexity {}", O::meta(op), e.name, e.display, e.infix, e.complexity));
            // Declared laws hold.
            if ar == 2 && (O::commutative(op) || O::associative(op)) {
                let f = |a: f64, c: f64| -> f64 { eval2::<O>(op, a, c) };
                let g = [-2.5, -1.0, 0.0, 0.5, 3.0];
                for &a in &g {
                    for &c in &g {
                        rep.trans(1);
                        if O::commutative(op) {
                            rep.check(close(f(a, c), f(c, a), 1e-12, 1e-12), || format!("registry:{tag}:commutes"), || format!("{tag}: {} is declared commutative but f({a},{c}) = {} and f({c},{a}) = {}", e.name, f(a, c), f(c, a)));
                        }
                        if O::associative(op) {
                            for &d in &g {
                                rep.check(close(f(f(a, c), d), f(a, f(c, d)), 1e-12, 1e-12), || format!("registry:{tag}:associates"), || format!("{tag}: {} is declared associative but is not at {a} {c} {d}", e.name));
                            }
                        }
                    }
                }
            }
        }
        // Ids that are not registered are unknown.
        for id in 0..(ids.len() as u16 + 3) {
            if !ids.contains(&id) {
                rep.state(1);
                rep.check(O::meta(OpId { arity: ar, id }).is_none(), || format!("registry:{tag}:unknown"), || format!("{tag}: metadata for unregistered arity {ar} id {id}"));
            }
        }
    }
    rep.check(total == exp.len(), || format!("registry:{tag}:count"), || format!("{tag}: {total} operators listed, {} declared", exp.len()));
    let mut visited = Vec::new();
    O::for_each_op(|op| visited.push((op.arity, op.id)));
    let mut all: Vec<(u8, u16)> = (1..=maxa).flat_map(|a| O::ops_with_arity(a).iter().map(move |i| (a, *i))).collect();
    all.sort();
    visited.sort();
    rep.check(visited == all, || format!("registry:{tag}:for_each"), || format!("{tag}: for_each_op visits {visited:?}, registered {all:?}"));
    // Token lookup: every token of every operator, in several spellings, plus non-tokens.
    let mut toks: BTreeSet<String> = BTreeSet::new();
    for e in exp {
        for t in [Some(e.name), Some(e.display), e.infix].into_iter().flatten() {
            for s in [t.to_string(), t.to_uppercase(), format!("  {t}\t"), format!("{t}x"), t[..t.len() - 1].to_string(), { let mut c = t.chars(); c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() }] {
                toks.insert(s);
            }
        }
    }
    toks.insert("nosuchop".into());
    for tok in &toks {
        let tr = tok.trim();
        let hit = |e: &&Expect| e.name.eq_ignore_ascii_case(tr) || e.display == tr || e.infix == Some(tr);
        let want: Vec<&Expect> = exp.iter().filter(hit).collect();
        let all = O::lookup_all(tok);
        rep.state(1);
        rep.trans(2 + maxa as u64);
        rep.valid(2 + maxa as u64);
        let mut wn: Vec<(u8, &str)> = want.iter().map(|e| (e.arity, e.name)).collect();
        let mut gn: Vec<(u8, &str)> = all.iter().map(|o| (o.arity, O::name(*o))).collect();
        wn.sort();
        gn.sort();
        rep.check(wn == gn, || format!("registry:{tag}:lookup_all"), || format!("{tag}: lookup_all({tok:?}) = {gn:?}, expected {wn:?}"));
        let res = O::lookup(tok);
        lookup_res(rep, tag, "lookup", tok, &res.map(|o| (o.arity, O::name(o))), &wn);
        for ar in 0..=maxa + 1 {
            let w2: Vec<(u8, &str)> = wn.iter().copied().filter(|e| e.0 == ar).collect();
            let res = O::lookup_with_arity(tok, ar);
            lookup_res(rep, tag, "lookup_with_arity", tok, &res.map(|o| (o.arity, O::name(o))), &w2);
        }
    }
    rep.note(&format!("tokens_{tag}"), toks.len() as u64);
}

fn lookup_res(rep: &Report, tag: &str, f: &str, tok: &str, got: &Result<(u8, &'static str), LookupError>, want: &[(u8, &str)]) {
    let ok = match (got, want.len()) {
        (Err(LookupError::Unknown(t)), 0) => t == tok.trim(),
        (Ok(g), 1) => *g == want[0],
        (Err(LookupError::Ambiguous { candidates, .. }), n) if n > 1 => {
            let mut c = candidates.clone();
            let mut w: Vec<&str> = want.iter().map(|e| e.1).collect();
            c.sort();
            w.sort();
            c == w
        }
        _ => false,
    };
    rep.check(ok, || format!("registry:{tag}:{f}"), || format!("{tag}: {f}({tok:?}) = {got:?}, matching operators {want:?}"));
}

fn eval2<O: OperatorSet<T = f64>>(op: OpId, a: f64, c: f64) -> f64 {
    let e: PostfixExpr<f64, O, 3> = PostfixExpr::new(vec![PNode::Var { feature: 0 }, PNode::Var { feature: 1 }, PNode::Op { arity: op.arity, op: op.id }], vec![], Default::default());
    eval_tree_array::<f64, O, 3>(&e, ndarray::arr2(&[[a], [c]]).view(), &LOOSE).0[0]
}

fn builtin_expect(t: &Table) -> Vec<Expect> {
    let mut v: Vec<(u8, u16, &'static str)> = t.clone();
    v.sort();
    v.iter()
        .map(|e| Expect {
            arity: e.0,
            name: e.2,
            display: infix_of(e.2).unwrap_or(e.2),
            infix: infix_of(e.2),
            commutative: false,
            associative: false,
            complexity: 1,
        })
        .collect()
}

struct F32As<O>(std::marker::PhantomData<O>);

pub fn c11(rep: &Report) {
    registry::<BuiltinOpsF64>(rep, "builtin64", &builtin_expect(table_f64()), false);
    registry::<SetA>(rep, "seta", &builtin_expect(SetA::table()), false);
    registry::<SetB>(rep, "setb", &builtin_expect(SetB::table()), false);
    registry::<SetC>(rep, "setc", &builtin_expect(SetC::table()), false);
    registry::<SetD>(rep, "setd", &builtin_expect(SetD::table()), false);
    registry::<SetE>(rep, "sete", &builtin_expect(SetE::table()), false);
    let ex = |arity, name, display, infix, commutative, associative, complexity| Expect { arity, name, display, infix, commutative, associative, complexity };
    registry::<NameOps>(
        rep,
        "custom",
        &[
            ex(1, "minus", "-", Some("-"), false, false, 1),
            ex(1, "wobble", "~", None, false, false, 1),
            ex(2, "minus2", "-", Some("-"), false, false, 1),
            ex(2, "wobble2", "~~", None, false, false, 1),
            ex(2, "star", "*", Some("**"), true, true, 7),
            ex(3, "mid", "?", Some("?"), false, false, 3),
            ex(3, "fold", "fold", None, false, false, 1),
        ],
        true,
    );
    // Operators that share tokens: two unary symbols that differ only in case, two and three
    // operators of one arity with one symbol, a symbol that is another operator's name.
    registry::<TwinOps>(
        rep,
        "twin",
        &[
            ex(1, "upper", "Q", None, false, false, 1),
            ex(1, "lower", "q", None, false, false, 1),
            ex(1, "other", "upper", None, false, false, 1),
            ex(2, "plus", "+", Some("+"), false, false, 1),
            ex(2, "plus_half", "+", Some("+"), false, false, 1),
            ex(2, "word", "Word", Some("Word"), false, false, 1),
            ex(2, "word2", "word", Some("word"), false, false, 1),
            ex(3, "s1", "@", Some("+"), false, false, 1),
            ex(3, "s2", "@", None, false, false, 1),
            ex(3, "s3", "@", Some("@"), false, false, 1),
        ],
        true,
    );
    registry::<TagOps>(
        rep,
        "tag",
        &[
            ex(1, "ua", "ua", None, false, false, 1),
            ex(1, "ub", "ub", None, false, false, 1),
            ex(2, "ba", "ba", None, false, false, 1),
            ex(2, "bb", "bb", None, false, false, 1),
            ex(3, "ta", "ta", None, false, false, 1),
            ex(4, "qa", "qa", None, false, false, 1),
            ex(5, "pa", "pa", None, false, false, 1),
        ],
        true,
    );
    // The single-precision preset names the same operators.
    let t32: Table = all_builtins!(BuiltinOpsF32);
    for (ar, id, name) in &t32 {
        rep.state(1);
        rep.check(BuiltinOpsF32::name(OpId { arity: *ar, id: *id }) == *name, || "registry:builtin32:meta".into(), || format!("f32 preset calls {ar}/{id} {}, expected {name}", BuiltinOpsF32::name(OpId { arity: *ar, id: *id })));
        rep.check(matches!(BuiltinOpsF32::lookup_with_arity(name, *ar), Ok(o) if o.id == *id), || "registry:builtin32:lookup".into(), || format!("f32 lookup of {name}"));
    }
    // Dispatch through eval, diff and grad reaches the operator that the metadata names.
    dispatch::<BuiltinOpsF64>(rep, table_f64());
    dispatch::<SetA>(rep, SetA::table());
    dispatch::<SetB>(rep, SetB::table());
    dispatch::<SetD>(rep, SetD::table());
    dispatch::<SetE>(rep, SetE::table());
    rep.check(<BuiltinOpsF64 as HasOp<b::Cos>>::op_id().arity == 1 && <BuiltinOpsF64 as HasOp<b::Clamp>>::op_id().arity == 3, || "registry:op_id".into(), || "op_id arity".into());
    for t in ["-", "neg", "ADD", "nothing"] {
        rep.sample(|| format!("lookup({t:?}) = {:?}, with arity 1 {:?}", BuiltinOpsF64::lookup(t), BuiltinOpsF64::lookup_with_arity(t, 1)));
    }
    let _ = F32As::<BuiltinOpsF32>(std::marker::PhantomData);
}

fn dispatch<M: Model<T = f64>>(rep: &Report, t: &Table) {
    let pts = [[0.31, 0.72, 0.93], [0.64, 0.17, 0.55], [0.83, 0.29, 0.41]];
    let x = Array2::from_shape_fn((3, 3), |(f, r)| pts[r][f]);
    for &(ar, id, name) in t {
        let mut nodes: Vec<PNode> = (0..ar as u16).map(|f| PNode::Var { feature: f }).collect();
        nodes.push(PNode::Op { arity: ar, op: id });
        let e = mk::<f64, M, 3>(&nodes, &[]);
        let (y, _) = eval_tree_array::<f64, M, 3>(&e, x.view(), &LOOSE);
        let mut gc = GradContext::<f64, 3>::new(3);
        let (_, g, _) = eval_grad_tree_array::<f64, M, 3>(&e, x.view(), true, &mut gc, &LOOSE);
        rep.state(1);
        rep.check(M::name(OpId { arity: ar, id }) == name, || format!("dispatch:{name}"), || format!("{name} is registered as {}", M::name(OpId { arity: ar, id })));
        for r in 0..3 {
            let a = &pts[r][..ar as usize];
            rep.valid(1);
            rep.check(close(y[r], bev(name, a), 1e-12, 1e-14), || format!("dispatch:{name}"), || format!("{name}{a:?} evaluates to {}", y[r]));
            for j in 0..ar as usize {
                let w = bpd(name, a, j);
                let mut dc = DiffContext::<f64, 3>::new(3);
                let (_, d, _) = eval_diff_tree_array::<f64, M, 3>(&e, x.view(), j, &mut dc, &LOOSE);
                rep.trans(1);
                if w.is_finite() {
                    rep.check(close(d[r], w, 1e-9, 1e-12) && close(g.data[j * 3 + r], w, 1e-9, 1e-12), || format!("dispatch:{name}"), || format!("d{name}{a:?}/d{j}: diff {} grad {} want {w}", d[r], g.data[j * 3 + r]));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C13

pub fn c13(rep: &Report) {
    // Every sequence (well-formed or not) of up to n nodes.
    let alpha = [PNode::Var { feature: 1 }, PNode::Const { idx: 0 }, PNode::Op { arity: 1, op: 2 }, PNode::Op { arity: 2, op: 0 }, PNode::Op { arity: 3, op: 1 }, PNode::Op { arity: 0, op: 0 }];
    let max: usize = tier(8, 10);
    for n in 0..=max {
        let firsts: Vec<usize> = if n == 0 { vec![0] } else { (0..alpha.len()).collect() };
        par_for(rep, &firsts, |_, &f| {
            let mut count = 0u64;
            for_each_tuple(alpha.len(), n.saturating_sub(1), |ix| {
                let mut nodes: Vec<PNode> = Vec::with_capacity(n);
                if n > 0 {
                    nodes.push(alpha[f]);
                }
                nodes.extend(ix.iter().map(|&i| alpha[i]));
                count += 1;
                let t = parse(&nodes);
                rep.check(nu::is_valid_postfix(&nodes) == t.is_some(), || "is_valid_postfix".into(), || format!("is_valid_postfix([{}]) = {}", show(&nodes), nu::is_valid_postfix(&nodes)));
                counters(rep, &nodes);
                if let Some(t) = t {
                    tree_utils(rep, &nodes, &t);
                }
            });
            rep.state(count);
            rep.trans(count * n as u64);
            rep.valid(count);
        });
    }
    // Larger well-formed trees.
    let g = Gen::new(&[Sym::V(0), Sym::K(0)], &[(1, 0), (2, 0), (3, 0), (5, 0)], tier(10, 12)).upto(tier(10, 12));
    rep.note("trees", g.len() as u64);
    let chunks: Vec<&[Vec<Sym>]> = g.chunks(128).collect();
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            let (nodes, _) = nodes_of(s);
            let t = parse(&nodes).unwrap();
            rep.state(1);
            rep.trans(nodes.len() as u64);
            rep.valid(2);
            tree_utils(rep, &nodes, &t);
            counters(rep, &nodes);
        }
    });
    // Trees of more than a byte's worth of nodes, arguments and levels.
    let mut big: Vec<Vec<Sym>> = [(2, 0), (3, 0), (4, 0), (5, 0)].iter().flat_map(|&o| vast(601, o)).collect();
    for depth in [126, 127, 128, 254, 255, 256, 257, 700, 40_000] {
        let mut s = vec![Sym::V(0)];
        s.extend((0..depth).map(|_| Sym::O(1, 0)));
        big.push(s);
    }
    par_for(rep, &big, |_, s| {
        let (nodes, _) = nodes_of(s);
        rep.state(1);
        rep.valid(2);
        counters(rep, &nodes);
        rep.check(nu::is_valid_postfix(&nodes) && !nu::is_valid_postfix(&nodes[1..]), || "is_valid_postfix".into(), || format!("is_valid_postfix is wrong on a tree of {} nodes", nodes.len()));
        if nodes.len() < 5000 {
            tree_utils(rep, &nodes, &parse(&nodes).unwrap());
        } else {
            let d = nu::count_depth(&nodes);
            rep.check(d == nodes.len() && nu::subtree_sizes(&nodes).last() == Some(&d), || "tree_utils".into(), || format!("a chain of {} nodes has depth {d}", nodes.len()));
        }
    });
    // Histories that mix malformed and well-formed inputs on one thread.
    let seqs: Vec<Vec<PNode>> = vec![
        vec![],
        vec![alpha[0]],
        vec![alpha[0], alpha[0]],
        vec![alpha[3]],
        vec![alpha[0], alpha[1], alpha[3]],
        vec![alpha[0], alpha[1], alpha[0], alpha[3]],
        vec![alpha[0], alpha[2], alpha[1], alpha[3], alpha[2]],
        vec![alpha[0], alpha[3], alpha[0]],
    ];
    for_each_tuple(seqs.len(), 3, |ix| {
        rep.state(1);
        for &i in ix {
            let want = parse(&seqs[i]).map(|t| t.depth());
            let got = catching(|| nu::count_depth(&seqs[i])).ok();
            rep.trans(1);
            rep.valid(1);
            rep.check(got == want, || "count_depth:history".into(), || format!("after {ix:?}, count_depth([{}]) = {got:?}, expected {want:?}", show(&seqs[i])));
        }
    });
}

fn counters(rep: &Report, nodes: &[PNode]) {
    let c = nodes.iter().filter(|n| matches!(n, PNode::Const { .. })).count();
    let v = nodes.iter().filter(|n| matches!(n, PNode::Var { .. })).count();
    let o = nodes.len() - c - v;
    let ma = nodes.iter().map(|n| if let PNode::Op { arity, .. } = n { *arity } else { 0 }).max().unwrap_or(0);
    let ok = nu::count_nodes(nodes) == nodes.len()
        && nu::count_constant_nodes(nodes) == c
        && nu::count_variable_nodes(nodes) == v
        && nu::count_operator_nodes(nodes) == o
        && nu::has_constants(nodes) == (c > 0)
        && nu::has_variables(nodes) == (v > 0)
        && nu::has_operators(nodes) == (o > 0)
        && nu::max_arity(nodes) == ma
        && nu::is_leaf(nodes) == (nodes.len() == 1 && o == 0);
    rep.check(ok, || "counters".into(), || format!("node counters of [{}] are wrong", show(nodes)));
}

fn sizes_of(t: &Tree, out: &mut Vec<usize>) {
    if let Tree::O(_, _, ch) = t {
        for c in ch {
            sizes_of(c, out);
        }
    }
    out.push(t.size());
}

fn tree_utils(rep: &Report, nodes: &[PNode], t: &Tree) {
    let mut want = Vec::new();
    sizes_of(t, &mut want);
    let got = nu::subtree_sizes(nodes);
    let mut ok = got == want && nu::count_depth(nodes) == t.depth();
    for i in 0..nodes.len() {
        let (a, z) = nu::subtree_range(&got, i);
        ok &= z == i && parse(&nodes[a..=z]).is_some() && a + want[i] == i + 1;
    }
    // tree_mapreduce sees leaves and children in order
    let s = nu::tree_mapreduce(nodes, |n| show(&[*n]), |n| show(&[*n]), |b, ch: &[String]| format!("{b}({})", ch.join(",")));
    fn rend(t: &Tree) -> String {
        match t {
            Tree::V(f) => format!("x{f}"),
            Tree::K(i) => format!("c{i}"),
            Tree::O(a, o, ch) => format!("op{a}.{o}({})", ch.iter().map(rend).collect::<Vec<_>>().join(",")),
        }
    }
    ok &= s == rend(t);
    if nodes.len() > 5 {
        rep.sample(|| format!("[{}]: subtree sizes {got:?}, depth {}, {s}", show(nodes), t.depth()));
    }
    rep.check(ok, || "tree_utils".into(), || format!("tree utilities on [{}]: sizes {got:?} (expected {want:?}), depth {}, rendering {s}", show(nodes), nu::count_depth(nodes)));
}
