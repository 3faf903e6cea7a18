//! C03 forward derivatives, C04 gradients, C05 built-in operators' values and partials.
use crate::builtin::*;
use crate::model::*;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::*;
use mc_core::*;
use ndarray::Array2;

const LOOSE: EvalOptions = EvalOptions { check_finite: false, early_exit: false };

/// Reference value and derivative; the derivative is `None` where the chain rule is not defined
/// (some operator is not differentiable there) or where it overflows.
fn reference<M: Model>(t: &Tree, x: &Array2<f64>, cs: &[f64], dir: Dir) -> Vec<(f64, Option<f64>, f64)> {
    (0..x.ncols())
        .map(|r| {
            let (v, d, e) = t.dual::<M>(&row(x, r), cs, dir);
            let d = d.unwrap_or(0.0);
            (v, if v.is_finite() && d.is_finite() && e.is_finite() { Some(d) } else { None }, e)
        })
        .collect()
}

fn same_val(a: f64, b: f64) -> bool {
    close(a, b, 1e-11, 1e-12)
}
fn same_der(a: f64, w: &(f64, Option<f64>, f64)) -> bool {
    match w.1 {
        None => true,
        Some(b) => close(a, b, 1e-9, 1e-11 + 10.0 * w.2),
    }
}

fn diff_case<M: Model<T = f64>, const D: usize>(rep: &Report, nodes: &[PNode], cs: &[f64], x: &Array2<f64>, tag: &str) {
    let e = mk::<f64, M, D>(nodes, cs);
    let t = parse(nodes).unwrap();
    let n = x.ncols();
    for dir in 0..x.nrows() {
        let want = reference::<M>(&t, x, cs, Dir::Var(dir as u16));
        let mut ctx = DiffContext::<f64, D>::new(n);
        let (v, d, _) = eval_diff_tree_array::<f64, M, D>(&e, x.view(), dir, &mut ctx, &LOOSE);
        rep.trans(1);
        rep.valid(n as u64);
        let ok = v.len() == n && d.len() == n && want.iter().enumerate().all(|(r, w)| same_val(v[r], w.0) && same_der(d[r], w));
        rep.check(ok, || format!("diff:{tag}"), || format!("d[{}]/dx{dir} consts {cs:?}, rows {n}\n got value {v:?}\n got deriv {d:?}\n want {want:?}\n x {x:?}", show(nodes)));
    }
}

fn grad_case<M: Model<T = f64>, const D: usize>(rep: &Report, nodes: &[PNode], cs: &[f64], x: &Array2<f64>, tag: &str) {
    let e = mk::<f64, M, D>(nodes, cs);
    let t = parse(nodes).unwrap();
    let n = x.ncols();
    for variable in [true, false] {
        let n_dir = if variable { x.nrows() } else { cs.len() };
        let mut ctx = GradContext::<f64, D>::new(n);
        let (v, g, _) = eval_grad_tree_array::<f64, M, D>(&e, x.view(), variable, &mut ctx, &LOOSE);
        rep.trans(1);
        rep.valid((n * n_dir) as u64);
        let mut bad = String::new();
        if v.len() != n || g.n_dir != n_dir || g.n_rows != n || g.data.len() != n * n_dir {
            bad = format!("shape: {} values, n_dir {} n_rows {} data {}", v.len(), g.n_dir, g.n_rows, g.data.len());
        } else {
            for dir in 0..n_dir {
                let d = if variable { Dir::Var(dir as u16) } else { Dir::Const(dir as u16) };
                let want = reference::<M>(&t, x, cs, d);
                for r in 0..n {
                    if !same_val(v[r], want[r].0) || !same_der(g.data[dir * n + r], &want[r]) {
                        bad = format!("direction {dir} row {r}: got value {} gradient {}, want {:?}", v[r], g.data[dir * n + r], want[r]);
                    }
                }
            }
        }
        rep.check(bad.is_empty(), || format!("grad:{tag}:{variable}"), || format!("gradient of [{}] consts {cs:?} variable={variable}: {bad}\n x {x:?}", show(nodes)));
    }
}

type CaseFn = fn(&Report, &[PNode], &[f64], &Array2<f64>, &str);

/// Constants for a tree with `nf` distinct ones: non-integer, so nothing coincides by accident.
fn sweep(rep: &Report, leaves: &[Sym], ops: &[(u8, u16)], max: usize, xs: &[Array2<f64>], csets: &[Vec<f64>], f: CaseFn, tag: &str) {
    let all = Gen::new(leaves, ops, max).upto(max);
    rep.state(all.len() as u64);
    rep.note(&format!("trees_{tag}"), all.len() as u64);
    rep.sample(|| format!("{tag}: {}", show(&nodes_of(all.last().unwrap()).0)));
    let chunks: Vec<&[Vec<Sym>]> = all.chunks(32).collect();
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            let (nodes, nf) = nodes_of(s);
            for x in xs {
                for c in csets {
                    let mut cs = c.clone();
                    while cs.len() < nf {
                        cs.push(0.41 * cs.len() as f64 - 0.77);
                    }
                    f(rep, &nodes, &cs, x, tag);
                }
            }
        }
    });
}

fn shapes(rep: &Report, ops: &[(u8, u16)], max: usize, f: CaseFn, tag: &str) {
    let all = Gen::new(&[Sym::V(0)], ops, max).upto(max);
    rep.note(&format!("shapes_{tag}"), all.len() as u64);
    let x = data(3, 2).mapv(|v| 0.6 * v);
    let chunks: Vec<&[Vec<Sym>]> = all.chunks(32).collect();
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            for lab in 0..3usize {
                let s2 = relabel(s, |k| match (k + lab) % (3 + lab) {
                    0 => Sym::V(0),
                    1 => Sym::Fresh,
                    2 => Sym::V(1),
                    3 => Sym::V(2),
                    _ => Sym::Fresh,
                });
                let (nodes, nf) = nodes_of(&s2);
                rep.state(1);
                f(rep, &nodes, &consts(nf), &x, tag);
            }
        }
    });
}

/// Rows covering negative, zero and positive values, where many operators are only partly
/// differentiable.
fn mixed() -> Array2<f64> {
    ndarray::arr2(&[[-2.0, -0.5, 0.25, 0.75, 1.5, 3.0], [1.25, -1.5, 2.0, 0.5, -0.25, 0.125]])
}

fn run(rep: &Report, f1: CaseFn, f2: CaseFn, f3: CaseFn, f4: CaseFn, f5: CaseFn, fb: CaseFn, fe: CaseFn, fs: CaseFn) {
    let l4 = [Sym::V(0), Sym::V(1), Sym::K(0), Sym::K(1)];
    let cs = vec![vec![0.37, -1.93]];
    let x = vec![data(3, 1), data(3, 3)];
    sweep(rep, &l4, &[(1, 0), (2, 0), (3, 0)], tier(9, 10), &x, &cs, f3, "tag3");
    sweep(rep, &l4, &[(1, 1), (2, 0), (2, 1)], tier(9, 10), &x[1..], &cs, f2, "tag2");
    sweep(rep, &l4, &[(1, 0), (1, 1)], tier(12, 13), &x, &cs, f1, "tag1");
    sweep(rep, &[Sym::V(0), Sym::V(2), Sym::K(1)], &[(1, 0), (2, 1), (3, 0), (4, 0), (5, 0)], tier(9, 10), &x[1..], &cs, f5, "tag5");
    sweep(rep, &[Sym::V(1), Sym::K(0)], &[(2, 0), (4, 0)], tier(13, 14), &x[1..], &cs, f4, "tag4");
    // Row counts, including none at all and block boundaries.
    let rows: Vec<Array2<f64>> = [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129].iter().map(|&n| data(3, n)).collect();
    sweep(rep, &[Sym::V(0), Sym::V(1), Sym::K(0)], &[(1, 0), (2, 0), (3, 0)], 4, &rows, &[vec![0.5]], f3, "rows");
    sweep(rep, &[Sym::V(0), Sym::K(0)], &[(4, 0), (5, 0)], 6, &rows, &[vec![0.5, 0.25, -0.5]], f5, "rows_wide");
    shapes(rep, &[(2, 0)], tier(21, 22), f2, "binary_shapes");
    shapes(rep, &[(1, 0), (2, 1), (3, 0)], tier(11, 12), f5, "mixed_shapes");
    let forests = comb_forests(tier(6, 8), (1, 1), (2, 0), (2, 1), thorough());
    rep.note("comb_forests", forests.len() as u64);
    let x2 = data(3, 2).mapv(|v| v * 0.3);
    let chunks: Vec<&[Vec<Sym>]> = forests.chunks(32).collect();
    par_for(rep, &chunks, |_, ch| {
        for s in ch.iter() {
            let (nodes, nf) = nodes_of(s);
            rep.state(1);
            f2(rep, &nodes, &consts(nf).iter().map(|v| v * 0.1).collect::<Vec<_>>(), &x2, "forests");
        }
    });
    // Hundreds of features, constants and steps in one expression.
    let xv = data(601, 2).mapv(|v| 0.02 * v);
    let jobs: Vec<Vec<Sym>> = vast(601, (2, 0)).into_iter().chain(vast(301, (2, 1))).chain(vast(301, (3, 0))).chain(vast(301, (5, 0))).collect();
    rep.note("vast", jobs.len() as u64);
    par_for(rep, &jobs, |_, s| {
        let (nodes, nf) = nodes_of(s);
        rep.state(1);
        let nv = s.iter().map(|n| if let Sym::V(f) = n { *f as usize + 1 } else { 1 }).max().unwrap();
        let x = xv.slice(ndarray::s![..nv, ..]).to_owned();
        let f = match s.iter().map(|n| if let Sym::O(a, _) = n { *a } else { 0 }).max().unwrap() {
            2 => f2,
            3 => f3,
            _ => f5,
        };
        f(rep, &nodes, &fine_consts(nf), &x, "vast");
    });
    // Built-ins: every operator over every leaf choice, nested twice; where the chain rule is
    // defined the result must be it, even when an unrelated partial does not exist.
    let ops: Vec<(u8, u16)> = table_f64().iter().map(|e| (e.0, e.1)).collect();
    let bcs = vec![vec![2.0, -0.75], vec![3.0, 0.5]];
    sweep(rep, &[Sym::V(0), Sym::K(0), Sym::K(1)], &ops, 3, &[mixed()], &bcs, fb, "builtin");
    sweep(rep, &[Sym::V(0), Sym::V(1), Sym::K(0)], &ops.iter().copied().filter(|o| o.0 > 1).collect::<Vec<_>>(), tier(6, 7), &[mixed()], &bcs, fb, "builtin_nary");
    let t = SetE::table();
    let eops: Vec<(u8, u16)> = t.iter().map(|e| (e.0, e.1)).collect();
    sweep(rep, &[Sym::V(0), Sym::K(0), Sym::K(1)], &eops, tier(7, 8), &[mixed()], &[vec![2.0, 3.0]], fe, "sete");
    let sops: Vec<(u8, u16)> = SetB::table().iter().map(|e| (e.0, e.1)).collect();
    sweep(rep, &[Sym::V(0), Sym::V(1), Sym::K(0)], &sops, tier(6, 7), &[mixed()], &[vec![0.6]], fs, "setb");
    rep.assume("derivatives are compared (relative 1e-9 plus a running rounding-error bound) where the reference chain rule is defined and finite; at kinks, poles and outside an operator's domain nothing is asserted");
}

pub fn c03(rep: &Report) {
    run(rep, diff_case::<TagOps, 1>, diff_case::<TagOps, 2>, diff_case::<TagOps, 3>, diff_case::<TagOps, 4>, diff_case::<TagOps, 5>, diff_case::<BuiltinOpsF64, 3>, diff_case::<SetE, 3>, diff_case::<SetB, 3>);
}

pub fn c04(rep: &Report) {
    run(rep, grad_case::<TagOps, 1>, grad_case::<TagOps, 2>, grad_case::<TagOps, 3>, grad_case::<TagOps, 4>, grad_case::<TagOps, 5>, grad_case::<BuiltinOpsF64, 3>, grad_case::<SetE, 3>, grad_case::<SetB, 3>);
    // Constants that are not all used, or not in order of appearance.
    let g = Gen::new(&[Sym::V(0), Sym::K(0), Sym::K(1), Sym::K(2)], &[(1, 0), (2, 0), (3, 0)], 5).upto(5);
    rep.state(g.len() as u64);
    par_for(rep, &g, |_, s| {
        let nodes = nodes_of(s).0;
        grad_case::<TagOps, 3>(rep, &nodes, &[0.3, -0.9, 1.4, 7.0], &data(2, 2), "const_table");
    });
}

// ---------------------------------------------------------------------------------------------

const GRID: [f64; 27] = [
    -100.0, -10.0, -5.0, -3.0, -2.0, -1.5, -1.0, -0.75, -0.5, -0.1, -1e-3, 0.0, 1e-3, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0, 1.25, 1.5, 2.0, 3.0, 5.0, 10.0, 37.5, 100.0,
];

/// Floats of every `step`th exponent with the given mantissas, both signs, and zero.
fn magnitudes(mantissas: &[u64], step: usize) -> Vec<f64> {
    let mut v = vec![0.0];
    for e in (0..2047u64).step_by(step) {
        for m in mantissas {
            let x = f64::from_bits(e << 52 | m);
            v.extend([x, -x]);
        }
    }
    v
}

pub fn c05(rep: &Report) {
    let grid2: Vec<f64> = if thorough() {
        let mut g: Vec<f64> = GRID.to_vec();
        for i in -40..=40 {
            g.push(i as f64 * 0.37 + 0.011);
        }
        g
    } else {
        let mut g: Vec<f64> = GRID.to_vec();
        for i in -12..=12 {
            g.push(i as f64 * 0.37 + 0.011);
        }
        g
    };
    let t64 = table_f64();
    let t32: Table = all_builtins!(BuiltinOpsF32);
    let jobs: Vec<usize> = (0..t64.len()).collect();
    par_for(rep, &jobs, |_, &i| {
        let (ar, id, name) = t64[i];
        let (_, id32, _) = t32[i];
        let g: &[f64] = if ar == 1 { &grid2 } else { &GRID };
        let mut tuples: Vec<Vec<f64>> = Vec::new();
        for_each_tuple(g.len(), ar as usize, |ix| tuples.push(ix.iter().map(|&k| g[k]).collect()));
        if ar > 1 {
            for_each_tuple(grid2.len(), 2, |ix| {
                let mut v = vec![grid2[ix[0]], grid2[ix[1]]];
                if ar == 3 {
                    v.push(0.613);
                }
                tuples.push(v);
            });
        }
        // Values only: every magnitude that floats have.
        let ordinary = tuples.len();
        let e1 = magnitudes(tier(&[0, 1 << 51, 0x8_5555_5555_5555, 0xf_ffff_ffff_ffff], &[0, 1, 1 << 20, 1 << 50, 1 << 51, 3 << 50, 0x8_5555_5555_5555, 0xf_ffff_ffff_ffff]), 1);
        let e2 = magnitudes(&[0, 0x8_5555_5555_5555], tier(61, 23));
        let e3 = magnitudes(&[0x8_5555_5555_5555], tier(293, 157));
        let e = [e1, e2, e3].into_iter().nth(ar as usize - 1).unwrap();
        for_each_tuple(e.len(), ar as usize, |ix| tuples.push(ix.iter().map(|&k| e[k]).collect()));
        rep.state(tuples.len() as u64);
        rep.trans(3 * tuples.len() as u64);
        rep.note(&format!("points_arity{ar}"), ordinary as u64);
        rep.note(&format!("extreme_points_arity{ar}"), (tuples.len() - ordinary) as u64);
        let n = tuples.len();
        let x = Array2::from_shape_fn((ar as usize, n), |(f, r)| tuples[r][f]);
        let mut nodes: Vec<PNode> = (0..ar as u16).map(|f| PNode::Var { feature: f }).collect();
        nodes.push(PNode::Op { arity: ar, op: id });
        let e = mk::<f64, BuiltinOpsF64, 3>(&nodes, &[]);
        let (y, _) = eval_tree_array::<f64, BuiltinOpsF64, 3>(&e, x.view(), &LOOSE);
        let mut ctx = GradContext::<f64, 3>::new(n);
        let (gv, gm, _) = eval_grad_tree_array::<f64, BuiltinOpsF64, 3>(&e, x.view(), true, &mut ctx, &LOOSE);
        // f32 on the same points (rounded)
        let x32 = x.mapv(|v| v as f32);
        let mut nodes32 = nodes.clone();
        *nodes32.last_mut().unwrap() = PNode::Op { arity: ar, op: id32 };
        let e32 = mk::<f32, BuiltinOpsF32, 3>(&nodes32, &[]);
        let mut ctx = GradContext::<f32, 3>::new(n);
        let (gv32, gm32, _) = eval_grad_tree_array::<f32, BuiltinOpsF32, 3>(&e32, x32.view(), true, &mut ctx, &EvalOptions { check_finite: false, early_exit: false });
        for r in 0..n {
            let a = &tuples[r];
            let want = bev(name, a);
            let at_sign0 = name == "sign" && a[0] == 0.0;
            if r == ordinary / 3 + 1 {
                rep.sample(|| format!("{name}({a:?}) = {} as by the reference, partials {:?}", y[r], (0..ar as usize).map(|j| gm.data[j * n + r]).collect::<Vec<_>>()));
            }
            rep.valid(2 + if r < ordinary { 2 * ar as u64 } else { 0 });
            rep.check(at_sign0 || (close(y[r], want, 1e-13, 0.0) && close(gv[r], want, 1e-13, 0.0)), || format!("value:{name}"), || format!("{name}({a:?}) = {} / {}, expected {want}", y[r], gv[r]));
            let a32: Vec<f64> = (0..ar as usize).map(|f| x32[(f, r)] as f64).collect();
            let w32 = bev(name, &a32) as f32;
            // Near the top of f32, the standard library's own asinh and acosh overflow.
            let top = matches!(name, "asinh" | "acosh") && a32[0].abs() > 1e38;
            rep.check(at_sign0 || top || close(gv32[r] as f64, w32 as f64, 1e-4, 1e-6), || format!("value32:{name}"), || format!("{name}({a32:?}) over f32 = {}, expected {w32}", gv32[r]));
            for j in 0..if r < ordinary { ar as usize } else { 0 } {
                let w = bpd(name, a, j);
                if w.is_finite() {
                    let got = gm.data[j * n + r];
                    rep.check(close(got, w, 1e-9, 1e-13), || format!("partial:{name}:{j}"), || format!("d {name}({a:?}) / d arg{j} = {got}, expected {w}"));
                }
                let w32 = bpd(name, &a32, j) as f32;
                if w32.is_finite() && w32.abs() < 1e30 {
                    let got = gm32.data[j * n + r];
                    rep.check(close(got as f64, w32 as f64, 2e-3, 1e-5), || format!("partial32:{name}:{j}"), || format!("d {name}({a32:?}) / d arg{j} over f32 = {got}, expected {w32}"));
                }
            }
        }
    });
    // Ordering and saturation laws on values where rounding plays no part.
    rep.assume("operator values are compared on a finite grid; partial derivatives only where they exist");
}
