//! C01 evaluation, C02 completeness flags, C06 context reuse.
use crate::builtin::*;
use crate::model::*;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::*;
use mc_core::*;
use ndarray::Array2;

fn opts(cf: bool, ee: bool) -> EvalOptions {
    EvalOptions { check_finite: cf, early_exit: ee }
}

fn check_eval<M: Model<T = f64>, const D: usize>(rep: &Report, nodes: &[PNode], cs: &[f64], x: &Array2<f64>, tag: &str) {
    let e = mk::<f64, M, D>(nodes, cs);
    let t = parse(nodes).expect("generated tree");
    let n = x.ncols();
    let mut fin = true;
    let want: Vec<f64> = (0..n).map(|r| t.eval::<M>(&row(x, r), cs, &mut fin)).collect();
    let o = opts(true, false);
    let cmp = |got: &[f64], how: &str| {
        let ok = got.len() == n && got.iter().zip(&want).all(|(a, b)| close(*a, *b, 1e-12, 1e-13));
        rep.valid(1);
        rep.check(
            ok,
            || format!("eval:{tag}:{how}"),
            || format!("eval differs from the reference ({how}, D={D}, rows={n}): expr [{}] consts {:?}\n got  {:?}\n want {:?}", show(nodes), cs, got, want),
        );
    };
    let (y, _) = eval_tree_array::<f64, M, D>(&e, x.view(), &o);
    cmp(&y, "eval_tree_array");
    let mut ctx = EvalContext::<f64, D>::new(n);
    let mut out = vec![77.0; n];
    eval_tree_array_into::<f64, M, D>(&mut out, &e, x.view(), &mut ctx, &o);
    cmp(&out, "eval_tree_array_into");
    let plan = compile_plan::<D>(nodes, x.nrows(), cs.len());
    let mut scratch = Array2::from_elem((7, 3), -55.0);
    let mut out = vec![-7.0; n];
    eval_plan_array_into::<f64, M, D>(&mut out, &plan, &e, x.view(), &mut scratch, &o);
    cmp(&out, "eval_plan_array_into");
    // Default options on an expression without non-finite intermediates.
    if fin && want.iter().all(|v| v.is_finite()) && n > 0 {
        let (y, ok) = eval_tree_array::<f64, M, D>(&e, x.view(), &EvalOptions::default());
        cmp(&y, "default options");
        rep.check(ok, || format!("eval:{tag}:flag"), || format!("finite evaluation reported incomplete: [{}]", show(nodes)));
    }
    rep.trans(4);
}

fn all_trees<M: Model<T = f64>, const D: usize>(rep: &Report, leaves: &[Sym], ops: &[(u8, u16)], max: usize, rows: &[usize], nc: usize, tag: &str) {
    let g = Gen::new(leaves, ops, max);
    let all = g.upto(max);
    rep.state((all.len() * rows.len()) as u64);
    rep.note(&format!("trees_{tag}"), all.len() as u64);
    let xs: Vec<Array2<f64>> = rows.iter().map(|&n| data(3, n)).collect();
    let chunks: Vec<&[Vec<Sym>]> = all.chunks(64).collect();
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            let (nodes, nf) = nodes_of(s);
            let cs = consts(nc.max(nf));
            for x in &xs {
                check_eval::<M, D>(rep, &nodes, &cs, x, tag);
            }
        }
    });
    rep.sample(|| format!("{tag}: {}", show(&nodes_of(all.last().unwrap()).0)));
}

/// Shapes with many simultaneously live temporaries, leaves labelled by position.
fn shapes<M: Model<T = f64>, const D: usize>(rep: &Report, ops: &[(u8, u16)], max: usize, rows: usize, tag: &str) {
    let g = Gen::new(&[Sym::V(0)], ops, max);
    let all = g.upto(max);
    rep.note(&format!("shapes_{tag}"), all.len() as u64);
    let x = data(3, rows);
    let chunks: Vec<&[Vec<Sym>]> = all.chunks(64).collect();
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            for lab in 0..3usize {
                let s2 = relabel(s, |k| match (k + lab) % (3 + lab) {
                    0 => Sym::V(0),
                    1 => Sym::Fresh,
                    2 => Sym::V(1),
                    3 => Sym::V(2),
                    _ => Sym::Fresh,
                });
                let (nodes, nf) = nodes_of(&s2);
                rep.state(1);
                check_eval::<M, D>(rep, &nodes, &consts(nf), &x, tag);
            }
        }
    });
    rep.sample(|| format!("{tag}: {}", show(&nodes_of(all.last().unwrap()).0)));
}

fn f32_builtins(rep: &Report) {
    let tab: Table = all_builtins!(BuiltinOpsF32);
    for &(ar, id, name) in &tab {
        let leaves = [Sym::V(0), Sym::V(1), Sym::K(0), Sym::K(1)];
        for_each_tuple(leaves.len(), ar as usize, |ix| {
            let mut s: Vec<Sym> = ix.iter().map(|&i| leaves[i]).collect();
            s.push(Sym::O(ar, id));
            let (nodes, _) = nodes_of(&s);
            let cs = [0.75f32, 1.5];
            let x = data(2, 9).mapv(|v| v as f32);
            let e = mk::<f32, BuiltinOpsF32, 3>(&nodes, &cs);
            let (y, _) = eval_tree_array::<f32, BuiltinOpsF32, 3>(&e, x.view(), &opts(true, false));
            rep.state(1);
            rep.trans(1);
            rep.valid(9);
            for r in 0..9 {
                let a: Vec<f64> = ix.iter().map(|&i| match leaves[i] { Sym::V(f) => x[(f as usize, r)] as f64, Sym::K(k) => cs[k as usize] as f64, _ => 0.0 }).collect();
                let want = bev(name, &a);
                let g = y[r] as f64;
                rep.check(close(g, want, 2e-5, 2e-6), || format!("eval:f32:{name}"), || format!("f32 {name}{a:?} = {g}, expected {want}"));
            }
        });
    }
}

pub fn c01(rep: &Report) {
    let l4 = [Sym::V(0), Sym::V(1), Sym::K(0), Sym::K(1)];
    all_trees::<TagOps, 3>(rep, &l4, &[(1, 0), (2, 0), (3, 0)], tier(9, 10), &[1, 3], 2, "tag3");
    all_trees::<TagOps, 2>(rep, &l4, &[(1, 1), (2, 0), (2, 1)], tier(9, 10), &[2], 3, "tag2");
    all_trees::<TagOps, 1>(rep, &l4, &[(1, 0), (1, 1)], tier(13, 14), &[1, 4], 2, "tag1");
    all_trees::<TagOps, 5>(rep, &[Sym::V(0), Sym::V(2), Sym::K(1)], &[(1, 0), (2, 1), (3, 0), (4, 0), (5, 0)], tier(9, 10), &[2], 2, "tag5");
    all_trees::<TagOps, 4>(rep, &[Sym::V(1), Sym::K(0)], &[(2, 0), (4, 0)], tier(14, 15), &[3], 2, "tag4");
    // Every row count around possible block sizes, on every small tree.
    let mut rows: Vec<usize> = (0..=70).collect();
    rows.extend([95, 96, 97, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]);
    all_trees::<TagOps, 3>(rep, &[Sym::V(0), Sym::K(0)], &[(1, 0), (2, 0), (3, 0)], 4, &rows, 1, "rows");
    // Many live temporaries / deep chains.
    shapes::<TagOps, 2>(rep, &[(2, 0)], tier(23, 24), 2, "binary_shapes");
    shapes::<TagOps, 5>(rep, &[(1, 0), (2, 1), (3, 0)], tier(12, 13), 2, "mixed_shapes");
    shapes::<TagOps, 5>(rep, &[(1, 1), (3, 0), (5, 0)], tier(15, 16), 2, "wide_shapes");
    long_chains(rep);
    // Hundreds of features, constants and steps in one expression.
    let xv = data(601, 3).mapv(|v| 0.02 * v);
    let jobs: Vec<(usize, Vec<Sym>)> = [(2, 0), (2, 1), (3, 0), (4, 0), (5, 0)].iter().flat_map(|&o| vast(601, o).into_iter().map(move |s| (o.0 as usize, s))).collect();
    rep.note("vast", jobs.len() as u64);
    par_for(rep, &jobs, |_, (a, s)| {
        let (nodes, nf) = nodes_of(s);
        rep.state(1);
        let cs = fine_consts(nf);
        match a {
            2 => check_eval::<TagOps, 2>(rep, &nodes, &cs, &xv, "vast"),
            3 => check_eval::<TagOps, 3>(rep, &nodes, &cs, &xv, "vast"),
            4 => check_eval::<TagOps, 4>(rep, &nodes, &cs, &xv, "vast"),
            _ => check_eval::<TagOps, 5>(rep, &nodes, &cs, &xv, "vast"),
        }
    });
    // Many rows.
    all_trees::<TagOps, 3>(rep, &[Sym::V(0), Sym::K(0)], &[(1, 0), (2, 0), (3, 0)], 4, &[4097, 65_537], 1, "many_rows");
    let forests = comb_forests(tier(7, 8), (1, 1), (2, 0), (2, 1), true);
    rep.note("comb_forests", forests.len() as u64);
    let x = data(3, 2).mapv(|v| v * 0.3);
    let chunks: Vec<&[Vec<Sym>]> = forests.chunks(64).collect();
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            let (nodes, nf) = nodes_of(s);
            rep.state(1);
            check_eval::<TagOps, 2>(rep, &nodes, &consts(nf).iter().map(|v| v * 0.1).collect::<Vec<_>>(), &x, "forests");
        }
    });
    // Constants with a special role (zeros of both signs, units, powers of two).
    let special = [0.0, -0.0, 1.0, -1.0, 2.0, 0.5, -2.0, 1e-9];
    let pairs: Vec<(f64, f64)> = special.iter().flat_map(|a| special.iter().map(move |b| (*a, *b))).collect();
    let nary: Vec<(u8, u16)> = table_f64().iter().filter(|e| e.0 > 1 || e.2 == "neg").map(|e| (e.0, e.1)).collect();
    let sp = Gen::new(&[Sym::V(0), Sym::K(0), Sym::K(1)], &nary, 5);
    let mut sp: Vec<Vec<Sym>> = sp.upto(tier(4, 5));
    sp.extend(Gen::new(&[Sym::V(0), Sym::K(0), Sym::K(1)], &["add", "sub", "mul", "div", "neg", "pow"].map(|n| id_of(table_f64(), n)), 5).size(5).iter().cloned());
    rep.note("special_constant_trees", sp.len() as u64);
    let chunks: Vec<&[Vec<Sym>]> = sp.chunks(16).collect();
    let xs = ndarray::arr2(&[[2.0, -4.0, 0.0, -0.0, 1.0, -0.75]]);
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            let (nodes, _) = nodes_of(s);
            for (a, b) in &pairs {
                rep.state(1);
                check_eval::<BuiltinOpsF64, 3>(rep, &nodes, &[*a, *b], &xs, "special");
            }
        }
    });
    // Built-in operators: each over every leaf combination, and nested pairs.
    let tab = table_f64();
    let ops: Vec<(u8, u16)> = tab.iter().map(|e| (e.0, e.1)).collect();
    all_trees::<BuiltinOpsF64, 3>(rep, &[Sym::V(0), Sym::K(1)], &ops, 3, &[5], 2, "builtin");
    all_trees::<BuiltinOpsF64, 3>(rep, &[Sym::V(0), Sym::V(1), Sym::K(0)], &ops.iter().copied().filter(|o| o.0 > 1).collect::<Vec<_>>(), 4, &[5], 2, "builtin_nary");
    f32_builtins(rep);
    rep.assume("operator results are compared with a relative tolerance of 1e-12 (f64) / 2e-5 (f32)");
}

/// Left- and right-leaning chains and combs: expressions of up to hundreds of nodes.
fn long_chains(rep: &Report) {
    for len in [10usize, 40, 120, 300] {
        for kind in 0..4 {
            let mut s: Vec<Sym> = Vec::new();
            match kind {
                0 => {
                    s.push(Sym::V(0));
                    for i in 0..len {
                        s.push(if i % 2 == 0 { Sym::V(1) } else { Sym::Fresh });
                        s.push(Sym::O(2, (i % 2) as u16));
                    }
                }
                1 => {
                    for i in 0..len {
                        s.push(if i % 3 == 0 { Sym::Fresh } else { Sym::V((i % 2) as u16) });
                    }
                    for i in 1..len {
                        s.push(Sym::O(2, (i % 2) as u16));
                    }
                }
                2 => {
                    // right comb over temporaries: every leaf is itself an operator result
                    for i in 0..len {
                        s.push(Sym::V((i % 3) as u16));
                        s.push(Sym::O(1, 1));
                    }
                    for _ in 1..len {
                        s.push(Sym::O(2, 0));
                    }
                }
                _ => {
                    s.push(Sym::V(0));
                    for _ in 0..len {
                        s.push(Sym::O(1, 1));
                    }
                }
            }
            let (nodes, nf) = nodes_of(&s);
            rep.state(1);
            check_eval::<TagOps, 2>(rep, &nodes, &consts(nf).iter().map(|v| v * 0.1).collect::<Vec<_>>(), &data(3, 2).mapv(|v| v * 0.3), "chains");
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub fn c02(rep: &Report) {
    let t = SetE::table();
    let mut ops: Vec<(u8, u16)> = t.iter().map(|e| (e.0, e.1)).collect();
    ops.retain(|o| name_of(t, o.0, o.1) != "sqrt");
    let leaves = [Sym::V(0), Sym::V(1), Sym::K(0), Sym::K(1)];
    let max = tier(6, 7);
    let g = Gen::new(&leaves, &ops, max);
    let mut all = g.upto(max);
    if !thorough() {
        // one level deeper over the smaller alphabet
        let g2 = Gen::new(&[Sym::V(0), Sym::K(0)], &[id_of(t, "inv"), id_of(t, "min"), id_of(t, "mul"), id_of(t, "log")], 6);
        all.extend(g2.size(5).iter().cloned());
        all.extend(g2.size(6).iter().cloned());
    }
    // Data: finite, with a single row at which inv / log / products blow up.
    let xa = ndarray::arr2(&[[1.5, 0.0, 2.0, -1.0], [0.5, 3.0, 1e200, 1e200]]);
    let xb = ndarray::arr2(&[[1.5, 2.5, 0.25, 3.0], [0.5, 3.0, 1.25, 2.0]]);
    let xc = ndarray::arr2(&[[2.0], [1e200]]);
    // Finite values whose sum, product or difference over the rows overflows.
    let xe = ndarray::arr2(&[[1e308, 1.2e308, -1e308, -1.7e308, 1e308], [1.5e308, 1e308, 1.0, -1e308, -1.5e308]]);
    let const_sets: Vec<[f64; 2]> = vec![[2.0, -0.5], [0.0, 1e200], [f64::INFINITY, f64::NAN], [1.7e308, -1.7e308]];
    rep.note("trees", all.len() as u64);
    let chunks: Vec<&[Vec<Sym>]> = all.chunks(64).collect();
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            let (nodes, _) = nodes_of(s);
            for x in [&xa, &xb, &xc, &xe] {
                for cs in &const_sets {
                    flags::<SetE, 3>(rep, &nodes, cs, x);
                }
            }
        }
    });
    // Arity 1..5 through the custom set, overflow by constants.
    let g = Gen::new(&[Sym::V(0), Sym::K(0)], &[(1, 0), (2, 0), (3, 0), (4, 0), (5, 0)], tier(9, 10));
    let all = g.upto(tier(9, 10));
    let chunks: Vec<&[Vec<Sym>]> = all.chunks(64).collect();
    let xd = ndarray::arr2(&[[1.0, 1e300, -1e160], [0.5, 0.25, 0.125]]);
    let xf = ndarray::arr2(&[[1.4e308, 1.3e308, -1e308, -1.5e308], [0.5, 0.25, 0.125, 0.25]]);
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            let (nodes, _) = nodes_of(s);
            for cs in [[0.5, 0.0], [1e308, 0.0], [-1e200, 0.0]] {
                flags::<TagOps, 5>(rep, &nodes, &cs, &xd);
                flags::<TagOps, 5>(rep, &nodes, &cs, &xf);
            }
        }
    });
    // A non-finite value in one arbitrary row of many.
    let tl = Gen::new(&[Sym::V(0), Sym::K(0)], &[id_of(t, "inv"), id_of(t, "mul"), id_of(t, "fma")], 4).upto(4);
    let jobs: Vec<usize> = vec![1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 64, 65, 100];
    par_for(rep, &jobs, |_, &n| {
        for bad in 0..n {
            let mut x = data(2, n).mapv(|v| v.abs() + 0.5);
            x[(0, bad)] = 0.0;
            for s in &tl {
                let (nodes, _) = nodes_of(s);
                flags::<SetE, 3>(rep, &nodes, &[1.25, 0.0], &x);
            }
        }
    });
    // One operator whose result is not finite, at any place of a program of hundreds of steps.
    let (inv, min) = (id_of(t, "inv"), id_of(t, "min"));
    let xl = ndarray::arr2(&[[0.0, 1.0], [0.5, 2.0]]);
    let places: Vec<usize> = (0..301).collect();
    par_for(rep, &places, |_, &p| {
        let leaf = |k: usize, s: &mut Vec<Sym>| {
            s.push(Sym::V(if k == p { 0 } else { 1 }));
            s.push(Sym::O(inv.0, inv.1));
        };
        let (mut left, mut right) = (Vec::new(), Vec::new());
        for k in 0..300 {
            leaf(k, &mut left);
            leaf(k, &mut right);
            if k > 0 {
                left.push(Sym::O(min.0, min.1));
            }
        }
        right.extend((1..300).map(|_| Sym::O(min.0, min.1)));
        for s in [left, right] {
            flags::<SetE, 3>(rep, &nodes_of(&s).0, &[], &xl);
        }
    });
    rep.assume("input data are finite and have at least one row");
}

fn flags<M: Model<T = f64>, const D: usize>(rep: &Report, nodes: &[PNode], cs: &[f64], x: &Array2<f64>) {
    let e = mk::<f64, M, D>(nodes, cs);
    let t = parse(nodes).unwrap();
    let n = x.ncols();
    let mut fin = true;
    let want: Vec<f64> = (0..n).map(|r| t.eval::<M>(&row(x, r), cs, &mut fin)).collect();
    if let Tree::K(i) = t {
        fin &= cs[i as usize].is_finite();
    }
    let same = |got: &[f64]| got.len() == n && got.iter().zip(&want).all(|(a, b)| close(*a, *b, 1e-11, 1e-300));
    rep.state(1);
    let ctx = |how: &str, extra: String| format!("{how}: [{}] consts {cs:?} x {:?}\n {extra}", show(nodes), x);
    if !fin && nodes.len() > 3 && n < 4 {
        rep.sample(|| format!("[{}] consts {cs:?} rows {:?}: values {want:?}, so incomplete whenever checked", show(nodes), (0..n).map(|r| row(x, r)).collect::<Vec<_>>()));
    }
    for (cf, ee) in [(false, false), (false, true), (true, false), (true, true)] {
        let o = opts(cf, ee);
        rep.trans(3 * nodes.len() as u64);
        rep.valid(3);
        let (y, ok) = eval_tree_array::<f64, M, D>(&e, x.view(), &o);
        let expect = !cf || fin;
        rep.check(ok == expect, || format!("flag:eval:{cf}:{ee}"), || ctx("completeness flag of eval", format!("check_finite={cf} early_exit={ee}: flag {ok}, expected {expect}; reference {want:?}")));
        if ok || !ee {
            rep.check(same(&y), || format!("value:eval:{cf}:{ee}"), || ctx("values of eval", format!("flag {ok} got {y:?} want {want:?}")));
        }
        // Forward derivative
        let mut dc = DiffContext::<f64, D>::new(n);
        let (v, d, ok) = eval_diff_tree_array::<f64, M, D>(&e, x.view(), 0, &mut dc, &o);
        if !cf {
            rep.check(ok, || format!("flag:diff:{cf}:{ee}"), || ctx("completeness flag of diff", "false although no check was asked for".into()));
        }
        if ok && cf {
            rep.check(fin, || format!("flag:diff:{cf}:{ee}"), || ctx("completeness flag of diff", format!("true although an operator result is not finite; reference {want:?}")));
        }
        if !ok && ee {
            rep.check(v.iter().chain(d.iter()).all(|z| z.is_nan()) && v.len() == n && d.len() == n, || format!("nan:diff:{cf}:{ee}"), || ctx("incomplete diff must be NaN", format!("{v:?} {d:?}")));
        } else {
            rep.check(same(&v), || format!("value:diff:{cf}:{ee}"), || ctx("values of diff", format!("flag {ok} got {v:?} want {want:?}")));
        }
        if !ok && fin {
            // Only a non-finite derivative may excuse this.
            let dfin = !any_nonfinite_derivative::<M>(&t, x, cs);
            rep.check(!dfin, || format!("flag:diff:{cf}:{ee}"), || ctx("completeness flag of diff", "false although every value and derivative is finite".into()));
        }
        // Gradients
        for variable in [true, false] {
            let mut gc = GradContext::<f64, D>::new(n);
            let (v, g, ok) = eval_grad_tree_array::<f64, M, D>(&e, x.view(), variable, &mut gc, &o);
            rep.check(ok == expect, || format!("flag:grad:{cf}:{ee}"), || ctx("completeness flag of grad", format!("check_finite={cf} early_exit={ee} variable={variable}: flag {ok}, expected {expect}; reference {want:?}")));
            if !ok && ee {
                rep.check(v.iter().chain(g.data.iter()).all(|z| z.is_nan()) && v.len() == n && g.data.len() == g.n_dir * n, || format!("nan:grad:{cf}:{ee}"), || ctx("incomplete grad must be NaN", format!("{v:?} {:?}", g.data)));
            } else {
                rep.check(same(&v), || format!("value:grad:{cf}:{ee}"), || ctx("values of grad", format!("flag {ok} got {v:?} want {want:?}")));
            }
        }
    }
}

/// Whether any subtree has a non-finite derivative along variable 0 on some row.
fn any_nonfinite_derivative<M: Model<T = f64>>(t: &Tree, x: &Array2<f64>, cs: &[f64]) -> bool {
    (0..x.ncols()).any(|r| {
        let xr = row(x, r);
        subtrees(t).iter().any(|s| {
            if let Tree::O(a, o, ch) = s {
                let vs: Vec<(f64, Option<f64>, f64)> = ch.iter().map(|c| c.dual::<M>(&xr, cs, Dir::Var(0))).collect();
                let v: Vec<f64> = vs.iter().map(|p| p.0).collect();
                // The terms of the chain rule may overflow in their sum only.
                let terms = (0..ch.len()).filter_map(|j| vs[j].1.map(|d| (M::pd(*a, *o, &v, j) * d).abs()));
                !terms.sum::<f64>().is_finite() || (0..ch.len()).any(|j| {
                    let p = M::pd(*a, *o, &v, j);
                    !p.is_finite() || !(p * vs[j].1.unwrap_or(0.0)).is_finite() || !vs[j].1.unwrap_or(0.0).is_finite()
                })
            } else {
                false
            }
        })
    })
}

pub fn subtrees(t: &Tree) -> Vec<&Tree> {
    let mut v = vec![t];
    if let Tree::O(_, _, ch) = t {
        for c in ch {
            v.extend(subtrees(c));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy)]
struct Call {
    e: usize,
    x: usize,
    o: usize,
    dir: usize,
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| if x.is_nan() { u64::MAX } else { x.to_bits() }).collect()
}

pub fn c06(rep: &Report) {
    // Expressions that differ in one respect at a time: operator, order, constant table, size.
    let mk1 = |s: &[Sym], cs: &[f64]| mk::<f64, SetB, 3>(&nodes_of(s).0, cs);
    let (v0, v1, k0, k1) = (Sym::V(0), Sym::V(1), Sym::K(0), Sym::K(1));
    let sub = Sym::O(2, 0);
    let mul = Sym::O(2, 1);
    let cos = Sym::O(1, 1);
    let neg = Sym::O(1, 0);
    let fma = Sym::O(3, 0);
    let div = Sym::O(2, 3);
    let exprs = vec![
        mk1(&[v0, v1, sub], &[]),
        mk1(&[v1, v0, sub], &[]),
        mk1(&[v0, v1, mul], &[]),
        mk1(&[v0, k0, sub], &[1.5]),
        mk1(&[v0, k0, sub], &[-2.5]),
        mk1(&[v0, k0, sub], &[-2.5, 4.0]),
        mk1(&[v0, k1, sub], &[-2.5, 4.0]),
        mk1(&[v0, neg], &[]),
        mk1(&[v0, cos], &[]),
        mk1(&[v1], &[]),
        mk1(&[k0], &[3.25]),
        mk1(&[v0, v1, k0, fma], &[0.5]),
        mk1(&[v0, cos, v1, cos, sub, v0, neg, mul, k0, v1, div, sub], &[0.75]),
        mk1(&[v0, v1, div], &[]),
        mk1(&[k0, neg], &[f64::INFINITY]),
    ];
    let xs = vec![data(2, 3), data(2, 3).mapv(|v| v * 0.5 + 0.1), data(3, 3), data(2, 5), {
        let mut d = data(2, 3);
        d[(1, 1)] = 0.0;
        d
    }];
    let os = [opts(true, true), opts(true, false), opts(false, true)];
    let mut calls = Vec::new();
    for e in 0..exprs.len() {
        for x in 0..xs.len() {
            for o in 0..os.len() {
                for dir in 0..2 {
                    calls.push(Call { e, x, o, dir });
                }
            }
        }
    }
    // Depth-2 histories over every call; depth-3 over the calls with default options.
    let small: Vec<usize> = (0..calls.len()).filter(|&i| calls[i].o == 0 && calls[i].dir == 0 && (calls[i].x == 0 || calls[i].x == 3 || calls[i].x == 4)).collect();
    rep.note("calls", calls.len() as u64);
    rep.note("calls_depth3", small.len() as u64);

    let fresh: Vec<(Vec<u64>, bool)> = calls.iter().map(|c| run_eval(&mut EvalContext::new(0), c, &exprs, &xs, &os)).collect();
    let fresh_d: Vec<(Vec<u64>, bool)> = calls.iter().map(|c| run_diff(&mut DiffContext::new(0), c, &exprs, &xs, &os)).collect();
    let fresh_g: Vec<(Vec<u64>, bool)> = calls.iter().map(|c| run_grad(&mut GradContext::new(0), c, &exprs, &xs, &os)).collect();
    let fresh_s: Vec<(Vec<u64>, bool)> = calls.iter().map(|c| run_plan(&mut Array2::zeros((0, 0)), c, &exprs, &xs, &os)).collect();

    let idx: Vec<usize> = (0..calls.len()).collect();
    par_for(rep, &idx, |_, &a| {
        let deep = small.contains(&a);
        for &b in &idx {
            let mut cx = (EvalContext::new(0), DiffContext::new(0), GradContext::new(0), Array2::zeros((0, 0)));
            history(rep, &[a, b], &mut cx, &calls, &exprs, &xs, &os, (&fresh, &fresh_d, &fresh_g, &fresh_s));
            if thorough() && !deep && calls[a].o == 0 && calls[b].o == 0 {
                for &c in idx.iter().filter(|&&c| calls[c].o == 0) {
                    let mut cx = (EvalContext::new(0), DiffContext::new(0), GradContext::new(0), Array2::zeros((0, 0)));
                    history(rep, &[a, b, c], &mut cx, &calls, &exprs, &xs, &os, (&fresh, &fresh_d, &fresh_g, &fresh_s));
                }
            }
            if deep && small.contains(&b) {
                for &c in &small {
                    let mut cx = (EvalContext::new(0), DiffContext::new(0), GradContext::new(0), Array2::zeros((0, 0)));
                    history(rep, &[a, b, c], &mut cx, &calls, &exprs, &xs, &os, (&fresh, &fresh_d, &fresh_g, &fresh_s));
                    {
                        for &d in small.iter().step_by(tier(3, 1)) {
                            let mut cx = (EvalContext::new(0), DiffContext::new(0), GradContext::new(0), Array2::zeros((0, 0)));
                            history(rep, &[a, b, c, d], &mut cx, &calls, &exprs, &xs, &os, (&fresh, &fresh_d, &fresh_g, &fresh_s));
                        }
                    }
                }
            }
        }
    });
    pairs_of_trees(rep);
    collisions(rep);
    long_programs(rep);
    every_position(rep);
    one_long_history(rep);
}

/// Long programs that differ in a single node, at every place: either after the other.
fn every_position(rep: &Report) {
    let other = |s: &Sym| match *s {
        Sym::V(f) => Sym::V(1 - f),
        Sym::K(i) => Sym::K(1 - i),
        Sym::O(2, 0) => Sym::O(2, 1),
        Sym::O(2, _) => Sym::O(2, 0),
        o => o,
    };
    let xs = vec![data(2, 2)];
    let os = [opts(true, true)];
    let mut work = Vec::new();
    for n in tier(vec![33usize, 151], vec![33usize, 67, 151, 301]) {
        for s in vast(n, (2, 0)).into_iter().take(3) {
            let s: Vec<Sym> = s
                .iter()
                .enumerate()
                .map(|(i, y)| match y {
                    o @ Sym::O(..) => *o,
                    _ if i % 3 > 0 => Sym::V((i / 2 % 2) as u16),
                    _ => Sym::K((i / 3 % 2) as u16),
                })
                .collect();
            for i in 0..s.len() {
                work.push((s.clone(), i));
            }
        }
    }
    let xs = &xs;
    let os = &os;
    par_for(rep, &work, |_, (s, i)| {
        let mut t = s.clone();
        t[*i] = other(&s[*i]);
        let es: Vec<Ex> = [s, &t].iter().map(|s| mk::<f64, SetB, 3>(&nodes_of(s).0, &[0.3, -0.7])).collect();
        let c = [Call { e: 0, x: 0, o: 0, dir: 0 }, Call { e: 1, x: 0, o: 0, dir: 0 }];
        for (a, b) in [(0, 1), (1, 0)] {
            let mut cx: Cx = (EvalContext::new(0), DiffContext::new(0), GradContext::new(0), Array2::zeros((0, 0)));
            rep.state(1);
            rep.trans(6);
            rep.valid(3);
            run_eval(&mut cx.0, &c[a], &es, xs, os);
            run_diff(&mut cx.1, &c[a], &es, xs, os);
            run_grad(&mut cx.2, &c[a], &es, xs, os);
            let ok = run_eval(&mut cx.0, &c[b], &es, xs, os) == run_eval(&mut EvalContext::new(0), &c[b], &es, xs, os)
                && run_diff(&mut cx.1, &c[b], &es, xs, os) == run_diff(&mut DiffContext::new(0), &c[b], &es, xs, os)
                && run_grad(&mut cx.2, &c[b], &es, xs, os) == run_grad(&mut GradContext::new(0), &c[b], &es, xs, os);
            rep.check(ok, || "reuse:position".into(), || format!("a context used for [{}] is wrong for the same program with its node {i} changed", show(&es[a].nodes)));
        }
    });
    rep.note("programs_one_node_apart", work.len() as u64);
}

/// Programs of hundreds of steps and temporaries next to short ones, few rows next to hundreds.
fn long_programs(rep: &Report) {
    let bin = (2, 0);
    let mut exprs: Vec<Ex> = Vec::new();
    for n in [1usize, 2, 3, 33, 301] {
        for (k, s) in vast(n, bin).iter().enumerate() {
            // shapes: left, right, bushy; leaves: features, constants, both
            if n < 3 && k % 3 > 0 || k >= 9 || n == 301 && k / 3 == 1 {
                continue;
            }
            let s: Vec<Sym> = s.iter().map(|y| if let Sym::V(f) = y { Sym::V(f % 2) } else { *y }).collect();
            let (nodes, nf) = nodes_of(&s);
            exprs.push(mk::<f64, SetB, 3>(&nodes, &consts(nf)));
        }
    }
    let xs = vec![data(2, 1), data(2, 3), data(2, 300)];
    let os = [opts(true, true)];
    let calls: Vec<Call> = (0..exprs.len()).flat_map(|e| (0..3).map(move |x| Call { e, x, o: 0, dir: 0 })).collect();
    rep.note("calls_long", calls.len() as u64);
    let fresh: Vec<(Vec<u64>, bool)> = calls.iter().map(|c| run_eval(&mut EvalContext::new(0), c, &exprs, &xs, &os)).collect();
    let fresh_d: Vec<(Vec<u64>, bool)> = calls.iter().map(|c| run_diff(&mut DiffContext::new(0), c, &exprs, &xs, &os)).collect();
    let fresh_g: Vec<(Vec<u64>, bool)> = calls.iter().map(|c| run_grad(&mut GradContext::new(0), c, &exprs, &xs, &os)).collect();
    let fresh_s: Vec<(Vec<u64>, bool)> = calls.iter().map(|c| run_plan(&mut Array2::zeros((0, 0)), c, &exprs, &xs, &os)).collect();
    let idx: Vec<usize> = (0..calls.len()).collect();
    par_for(rep, &idx, |_, &a| {
        for &b in &idx {
            let mut cx = (EvalContext::new(0), DiffContext::new(0), GradContext::new(0), Array2::zeros((0, 0)));
            history(rep, &[a, b], &mut cx, &calls, &exprs, &xs, &os, (&fresh, &fresh_d, &fresh_g, &fresh_s));
            if calls[a].x < 2 && calls[b].x < 2 {
                for &c in idx.iter().filter(|&&c| calls[c].x < 2) {
                    let mut cx = (EvalContext::new(0), DiffContext::new(0), GradContext::new(0), Array2::zeros((0, 0)));
                    history(rep, &[a, b, c], &mut cx, &calls, &exprs, &xs, &os, (&fresh, &fresh_d, &fresh_g, &fresh_s));
                }
            }
        }
    });
}

/// One context used for thousands of different expressions, twice over.
fn one_long_history(rep: &Report) {
    let g = Gen::new(&[Sym::V(0), Sym::V(1), Sym::K(0), Sym::K(1)], &[(1, 0), (1, 1), (2, 0), (2, 1), (3, 0)], 4).upto(4);
    let es: Vec<Ex> = g.iter().map(|s| mk::<f64, SetB, 3>(&nodes_of(s).0, &[0.3, -1.7])).collect();
    let xs = vec![data(2, 2), data(2, 5)];
    let os = [opts(true, true)];
    rep.note("calls_one_history", 2 * es.len() as u64);
    let mut cx: Cx = (EvalContext::new(0), DiffContext::new(0), GradContext::new(0), Array2::zeros((0, 0)));
    for round in 0..2 {
        for e in 0..es.len() {
            let c = Call { e, x: (e + round) % 2, o: 0, dir: e % 2 };
            rep.state(1);
            rep.trans(4);
            rep.valid(4);
            let ok = run_eval(&mut cx.0, &c, &es, &xs, &os) == run_eval(&mut EvalContext::new(0), &c, &es, &xs, &os)
                && run_diff(&mut cx.1, &c, &es, &xs, &os) == run_diff(&mut DiffContext::new(0), &c, &es, &xs, &os)
                && run_grad(&mut cx.2, &c, &es, &xs, &os) == run_grad(&mut GradContext::new(0), &c, &es, &xs, &os)
                && run_plan(&mut cx.3, &c, &es, &xs, &os) == run_plan(&mut Array2::zeros((0, 0)), &c, &es, &xs, &os);
            rep.check(ok, || "reuse:long".into(), || format!("after {} other expressions a reused context differs from a fresh one on [{}]", round * es.len() + e, show(&es[e].nodes)));
        }
    }
}

type Cx = (EvalContext<f64, 3>, DiffContext<f64, 3>, GradContext<f64, 3>, Array2<f64>);
type Ex = PostfixExpr<f64, SetB, 3>;

fn run_eval(ctx: &mut EvalContext<f64, 3>, c: &Call, es: &[Ex], xs: &[Array2<f64>], os: &[EvalOptions]) -> (Vec<u64>, bool) {
    let x = &xs[c.x];
    ctx.n_rows = x.ncols();
    let mut out = vec![9.0; x.ncols()];
    let ok = eval_tree_array_into::<f64, SetB, 3>(&mut out, &es[c.e], x.view(), ctx, &os[c.o]);
    if !ok && os[c.o].early_exit {
        out.fill(0.0);
    }
    (bits(&out), ok)
}

fn run_plan(scratch: &mut Array2<f64>, c: &Call, es: &[Ex], xs: &[Array2<f64>], os: &[EvalOptions]) -> (Vec<u64>, bool) {
    let x = &xs[c.x];
    let e = &es[c.e];
    let plan = compile_plan::<3>(&e.nodes, x.nrows(), e.consts.len());
    let mut out = vec![9.0; x.ncols()];
    let ok = eval_plan_array_into::<f64, SetB, 3>(&mut out, &plan, e, x.view(), scratch, &os[c.o]);
    if !ok && os[c.o].early_exit {
        out.fill(0.0);
    }
    (bits(&out), ok)
}

fn run_diff(ctx: &mut DiffContext<f64, 3>, c: &Call, es: &[Ex], xs: &[Array2<f64>], os: &[EvalOptions]) -> (Vec<u64>, bool) {
    let x = &xs[c.x];
    ctx.n_rows = x.ncols();
    let (v, d, ok) = eval_diff_tree_array::<f64, SetB, 3>(&es[c.e], x.view(), c.dir, ctx, &os[c.o]);
    let mut b = bits(&v);
    b.extend(bits(&d));
    (b, ok)
}

fn run_grad(ctx: &mut GradContext<f64, 3>, c: &Call, es: &[Ex], xs: &[Array2<f64>], os: &[EvalOptions]) -> (Vec<u64>, bool) {
    let x = &xs[c.x];
    ctx.n_rows = x.ncols();
    let (v, g, ok) = eval_grad_tree_array::<f64, SetB, 3>(&es[c.e], x.view(), c.dir == 0, ctx, &os[c.o]);
    let mut b = bits(&v);
    b.extend(bits(&g.data));
    b.push(g.n_dir as u64);
    b.push(g.n_rows as u64);
    (b, ok)
}

#[allow(clippy::too_many_arguments)]
fn history(
    rep: &Report,
    h: &[usize],
    cx: &mut Cx,
    calls: &[Call],
    es: &[Ex],
    xs: &[Array2<f64>],
    os: &[EvalOptions],
    fresh: (&[(Vec<u64>, bool)], &[(Vec<u64>, bool)], &[(Vec<u64>, bool)], &[(Vec<u64>, bool)]),
) {
    rep.state(1);
    rep.trans(4 * h.len() as u64);
    rep.valid(4);
    let (mut a, mut b, mut c, mut d) = (None, None, None, None);
    for &i in h {
        a = Some(run_eval(&mut cx.0, &calls[i], es, xs, os));
        b = Some(run_diff(&mut cx.1, &calls[i], es, xs, os));
        c = Some(run_grad(&mut cx.2, &calls[i], es, xs, os));
        d = Some(run_plan(&mut cx.3, &calls[i], es, xs, os));
    }
    let l = *h.last().unwrap();
    if h.len() > 2 && h.iter().collect::<std::collections::BTreeSet<_>>().len() == h.len() {
        rep.sample(|| h.iter().map(|&i| format!("[{}] consts {:?} data#{} opts#{} dir {}", show(&es[calls[i].e].nodes), es[calls[i].e].consts, calls[i].x, calls[i].o, calls[i].dir)).collect::<Vec<_>>().join(", then ") + ": the last as on a fresh context");
    }
    for (kind, got, want) in [("eval", a, &fresh.0[l]), ("diff", b, &fresh.1[l]), ("grad", c, &fresh.2[l]), ("plan", d, &fresh.3[l])] {
        let got = got.unwrap();
        rep.check(&got == want, || format!("reuse:{kind}"), || {
            let hs: Vec<String> = h.iter().map(|&i| format!("[{}] consts {:?} data#{} opts#{} dir {}", show(&es[calls[i].e].nodes), es[calls[i].e].consts, calls[i].x, calls[i].o, calls[i].dir)).collect();
            format!("reused {kind} context differs from a fresh one after history:\n  {}\n got {:?}\n want {:?}", hs.join("\n  "), got, want)
        });
    }
}

/// Every ordered pair of small trees of the same length through one context.
fn pairs_of_trees(rep: &Report) {
    let leaves = [Sym::V(0), Sym::V(1), Sym::K(0), Sym::K(1)];
    let g = Gen::new(&leaves, &[(1, 0), (1, 1), (2, 0), (2, 1), (3, 0)], 4);
    let cs = [0.3, -1.7];
    let x = data(2, 2);
    for n in 1..=4 {
        let es: Vec<Ex> = g.size(n).iter().map(|s| mk::<f64, SetB, 3>(&nodes_of(s).0, &cs)).collect();
        let want: Vec<Vec<u64>> = es.iter().map(|e| bits(&eval_tree_array::<f64, SetB, 3>(e, x.view(), &EvalOptions::default()).0)).collect();
        let idx: Vec<usize> = (0..es.len()).collect();
        par_for(rep, &idx, |_, &i| {
            for j in 0..es.len() {
                let mut ctx = EvalContext::<f64, 3>::new(2);
                let mut out = vec![0.0; 2];
                eval_tree_array_into::<f64, SetB, 3>(&mut out, &es[i], x.view(), &mut ctx, &EvalOptions::default());
                eval_tree_array_into::<f64, SetB, 3>(&mut out, &es[j], x.view(), &mut ctx, &EvalOptions::default());
                rep.state(1);
                rep.trans(2);
                rep.valid(1);
                rep.check(bits(&out) == want[j], || "reuse:pair".into(), || format!("context first used for [{}] gives a wrong result for [{}]: {:?}", show(&es[i].nodes), show(&es[j].nodes), out));
            }
        });
    }
}

/// Trees whose cached-plan fingerprints coincide must still not be confused with one another.
fn collisions(rep: &Report) {
    let leaves = [Sym::V(0), Sym::V(1), Sym::V(2), Sym::K(0), Sym::K(1)];
    let max = tier(6, 7);
    let g = Gen::new(&leaves, &[(1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2), (3, 0)], max);
    let x = data(3, 2);
    let cs = [0.3, -1.7];
    for n in 1..=max {
        let mut seen: std::collections::HashMap<u64, usize> = std::collections::HashMap::new();
        let all = g.size(n);
        let mut hits = 0u64;
        for (i, s) in all.iter().enumerate() {
            let (nodes, _) = nodes_of(s);
            let h = compile_plan::<3>(&nodes, 3, 2).hash;
            rep.state(1);
            if let Some(&j) = seen.get(&h) {
                hits += 1;
                let a = mk::<f64, SetB, 3>(&nodes_of(&all[j]).0, &cs);
                let b = mk::<f64, SetB, 3>(&nodes, &cs);
                let mut ctx = EvalContext::<f64, 3>::new(2);
                let mut out = vec![0.0; 2];
                eval_tree_array_into::<f64, SetB, 3>(&mut out, &a, x.view(), &mut ctx, &EvalOptions::default());
                eval_tree_array_into::<f64, SetB, 3>(&mut out, &b, x.view(), &mut ctx, &EvalOptions::default());
                let want = eval_tree_array::<f64, SetB, 3>(&b, x.view(), &EvalOptions::default()).0;
                rep.valid(1);
                rep.check(bits(&out) == bits(&want), || "reuse:collision".into(), || format!("one context evaluates [{}] then [{}] wrongly (fingerprints coincide): {:?} want {:?}", show(&a.nodes), show(&b.nodes), out, want));
            } else {
                seen.insert(h, i);
            }
        }
        rep.note("fingerprint_coincidences", hits);
    }
}
