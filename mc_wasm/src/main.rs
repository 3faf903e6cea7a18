#![allow(dead_code)]
//! C37, C38, C42, C43: the layer between the browser and the search.
#[path = "../../mc_sr/src/common.rs"]
mod common;
mod front;
mod set {
    pub use dynamic_expressions::operator_enum::presets::BuiltinOpsF64 as B;
    pub const D: usize = 3;
    pub const OWN: bool = false;
}
use common::*;
use ndarray::{Array1, Array2};
use serde_json::{json, Map, Value};
use symbolic_regression::{OutputStyle, WasmOptionsShim};
use symbolic_regression_wasm::verif as w;
use symbolic_regression_wasm::{WasmSearchOptions, WasmSplitIndices};

fn main() {
    mc_core::run_main(&[("C37", c37), ("C38", c38), ("C42", c42), ("C43", c43)]);
}

// ---------------------------------------------------------------- C37

/// Every option by name: its default and another value.
fn fields() -> Vec<(&'static str, Value, Value)> {
    vec![
        ("seed", json!(0), json!(12345678901u64)),
        ("niterations", json!(100), json!(7)),
        ("populations", json!(31), json!(3)),
        ("population_size", json!(27), json!(11)),
        ("ncycles_per_iteration", json!(380), json!(13)),
        ("batch_size", json!(50), json!(17)),
        ("complexity_of_constants", json!(1), json!(4)),
        ("complexity_of_variables", json!(1), json!(6)),
        ("maxsize", json!(30), json!(19)),
        ("maxdepth", json!(30), json!(23)),
        ("warmup_maxsize_by", json!(0.0), json!(0.5)),
        ("parsimony", json!(0.0), json!(0.125)),
        ("adaptive_parsimony_scaling", json!(1040.0), json!(33.5)),
        ("crossover_probability", json!(0.0259), json!(0.75)),
        ("perturbation_factor", json!(0.129), json!(0.375)),
        ("probability_negate_constant", json!(0.00743), json!(0.0625)),
        ("tournament_selection_n", json!(15), json!(5)),
        ("tournament_selection_p", json!(0.982f32), json!(0.25)),
        ("alpha", json!(3.17), json!(1.5)),
        ("optimizer_nrestarts", json!(2), json!(9)),
        ("optimizer_probability", json!(0.14), json!(0.875)),
        ("optimizer_iterations", json!(8), json!(21)),
        ("optimizer_f_calls_limit", json!(10_000), json!(77)),
        ("fraction_replaced", json!(0.00036), json!(0.03125)),
        ("fraction_replaced_hof", json!(0.0614), json!(0.4375)),
        ("fraction_replaced_guesses", json!(0.001), json!(0.3125)),
        ("topn", json!(12), json!(29)),
        ("use_frequency", json!(true), json!(false)),
        ("use_frequency_in_tournament", json!(true), json!(false)),
        ("skip_mutation_failures", json!(true), json!(false)),
        ("annealing", json!(true), json!(false)),
        ("should_optimize_constants", json!(true), json!(false)),
        ("migration", json!(true), json!(false)),
        ("hof_migration", json!(true), json!(false)),
        ("use_baseline", json!(true), json!(false)),
        ("progress", json!(true), json!(false)),
        ("should_simplify", json!(true), json!(false)),
        ("batching", json!(false), json!(true)),
    ]
}

fn mutations() -> Vec<(&'static str, f64)> {
    vec![
        ("mutate_constant", 0.0346),
        ("mutate_operator", 0.293),
        ("mutate_feature", 0.1),
        ("swap_operands", 0.198),
        ("rotate_tree", 4.26),
        ("add_node", 2.47),
        ("insert_node", 0.0112),
        ("delete_node", 0.870),
        ("simplify", 0.00209),
        ("randomize", 0.000502),
        ("do_nothing", 0.273),
        ("optimize", 0.0),
        ("form_connection", 0.5),
        ("break_connection", 0.1),
    ]
}

/// What the options of a search hold, by name.
fn held<const K: usize>(o: &Options<f64, K>) -> Map<String, Value> {
    let mut m = Map::new();
    macro_rules! put { ($($f:ident)*) => { $( m.insert(stringify!($f).into(), json!(o.$f)); )* } }
    put!(seed niterations populations population_size ncycles_per_iteration batch_size complexity_of_constants complexity_of_variables maxsize maxdepth warmup_maxsize_by parsimony adaptive_parsimony_scaling crossover_probability perturbation_factor probability_negate_constant tournament_selection_n tournament_selection_p alpha optimizer_nrestarts optimizer_probability optimizer_iterations optimizer_f_calls_limit fraction_replaced fraction_replaced_hof fraction_replaced_guesses topn use_frequency use_frequency_in_tournament skip_mutation_failures annealing should_optimize_constants migration hof_migration use_baseline progress should_simplify batching);
    let w = &o.mutation_weights;
    macro_rules! putw { ($($f:ident)*) => { $( m.insert(concat!("mw_", stringify!($f)).into(), json!(w.$f)); )* } }
    putw!(mutate_constant mutate_operator mutate_feature swap_operands rotate_tree add_node insert_node delete_node simplify randomize do_nothing optimize form_connection break_connection);
    m
}

fn defaults() -> Map<String, Value> {
    let mut m = Map::new();
    for (n, d, _) in fields() {
        m.insert(n.into(), d);
    }
    for (n, d) in mutations() {
        m.insert(format!("mw_{n}"), json!(d));
    }
    m
}

fn differ(a: &Map<String, Value>, b: &Map<String, Value>) -> Vec<String> {
    let num = |v: &Value| v.as_f64();
    let mut out = Vec::new();
    for k in a.keys().chain(b.keys().filter(|k| !a.contains_key(*k))) {
        let same = match (a.get(k), b.get(k)) {
            (Some(x), Some(y)) => match (num(x), num(y)) {
                (Some(x), Some(y)) => x as f32 == y as f32 && ((x - y).abs() <= 1e-7 * x.abs()),
                _ => x == y,
            },
            _ => false,
        };
        if !same {
            out.push(format!("{k}: {:?} instead of {:?}", a.get(k), b.get(k)));
        }
    }
    out
}

fn options(v: &Value) -> Result<WasmSearchOptions, String> {
    serde_json::from_value(v.clone()).map_err(|e| e.to_string())
}

fn c37(rep: &Report) {
    let fs = fields();
    let ms = mutations();
    let some_ops = || ops(&[("neg", 1), ("add", 2), ("fma", 3)]);
    // Defaults of the core, of the shim, of the form.
    let want = defaults();
    let d = differ(&held(&Options::<f64, 3>::default()), &want);
    rep.check(d.is_empty(), || "defaults".into(), || format!("defaults of the core: {d:?}"));
    let mut o = Options::<f64, 3>::default();
    WasmOptionsShim::default().apply_to(&mut o);
    let d = differ(&held(&o), &want);
    rep.check(d.is_empty(), || "defaults".into(), || format!("defaults of the shim: {d:?}"));
    rep.state(2);
    rep.valid(2);
    // Every set of one or two options (every subset of the flags in the thorough tier), the rest absent.
    let n = fs.len() + ms.len();
    let mut subsets: Vec<Vec<usize>> = vec![vec![], (0..n).collect()];
    for i in 0..n {
        for j in i..n {
            subsets.push(if i == j { vec![i] } else { vec![i, j] });
            if thorough() {
                for k in j + 1..n {
                    if j > i {
                        subsets.push(vec![i, j, k]);
                    }
                }
            }
        }
    }
    let flags: Vec<usize> = (0..fs.len()).filter(|&i| fs[i].1.is_boolean()).collect();
    for mask in 0..1u32 << flags.len() {
        subsets.push(flags.iter().enumerate().filter(|(b, _)| mask >> b & 1 == 1).map(|(_, i)| *i).collect());
    }
    let loss_keys = ["has_headers", "x_columns", "y_column", "weights_column", "validation_fraction", "loss_kind", "huber_delta", "lp_p", "quantile_tau", "epsilon_insensitive_eps"];
    par_for(rep, &subsets, |_, s| {
        let mut v = Map::new();
        let mut mw = Map::new();
        let mut want = defaults();
        for &i in s {
            if i < fs.len() {
                v.insert(fs[i].0.into(), fs[i].2.clone());
                want.insert(fs[i].0.into(), fs[i].2.clone());
            } else {
                let (n, d) = ms[i - fs.len()];
                let x = d + 1.0 + i as f64;
                mw.insert(n.into(), json!(x));
                want.insert(format!("mw_{n}"), json!(x));
            }
        }
        if !mw.is_empty() {
            v.insert("mutation_weights".into(), Value::Object(mw));
        }
        let v = Value::Object(v);
        rep.state(1);
        rep.trans(s.len() as u64);
        rep.valid(4);
        if s.len() == 2 && s[0] % 5 == 1 && s[1] % 7 == 2 {
            rep.sample(|| format!("{v}: exactly these options differ from the defaults, by every way"));
        }
        let f = match options(&v) {
            Ok(f) => f,
            Err(e) => {
                rep.violation("refused", format!("{v}: {e}"));
                return;
            }
        };
        // All core options through the shim.
        let mut o = Options::<f64, 2>::default();
        f.core.apply_to(&mut o);
        let d = differ(&held(&o), &want);
        rep.check(d.is_empty(), || "shim".into(), || format!("{v} through the shim: {d:?}"));
        // A target that is not fresh: everything the form holds is overwritten, the rest kept.
        let mut o = Options::<f64, 3>::default();
        for i in 0..fs.len() {
            let full: Map<String, Value> = std::iter::once((fs[i].0.to_string(), fs[i].2.clone())).collect();
            options(&Value::Object(full)).unwrap().core.apply_to(&mut o);
        }
        o.operators = some_ops();
        o.output_style = OutputStyle::Plain;
        o.variable_complexities = Some(vec![3]);
        o.operator_complexity_overrides.insert(op("add", 2), 5);
        f.core.apply_to(&mut o);
        let d = differ(&held(&o), &want);
        let kept = o.operators.ops_by_arity == some_ops().ops_by_arity && o.output_style == OutputStyle::Plain && o.variable_complexities == Some(vec![3]) && o.operator_complexity_overrides.len() == 1;
        rep.check(d.is_empty() && kept, || "overwrite".into(), || format!("{v} over other options: {d:?}, others kept: {kept}"));
        // As the browser search uses it.
        match catching(|| w::options_from_wasm(&f, some_ops())) {
            Ok(Some(o)) => {
                let mut want = want.clone();
                want.insert("progress".into(), json!(false));
                let mut d = differ(&held(&o), &want);
                if o.operators.ops_by_arity != some_ops().ops_by_arity {
                    d.push("operators".into());
                }
                rep.check(d.is_empty(), || "browser".into(), || format!("{v} in the browser: {d:?}"));
            }
            r => rep.violation("browser", format!("{v}: {}", r.err().unwrap_or_default())),
        }
        // What is read is what is written.
        let out = serde_json::to_value(&f).unwrap();
        let keys: BTreeSet<&str> = out.as_object().unwrap().keys().map(|k| k.as_str()).collect();
        let expect: BTreeSet<&str> = fs.iter().map(|f| f.0).chain(loss_keys).chain(["mutation_weights"]).collect();
        let missing: Vec<_> = expect.difference(&keys).collect();
        rep.check(missing.is_empty(), || "keys".into(), || format!("written options lack {missing:?}"));
        let again = options(&out).map(|f| {
            let mut o = Options::<f64, 3>::default();
            f.core.apply_to(&mut o);
            held(&o)
        });
        let d = again.map(|a| differ(&a, &want)).unwrap_or_else(|e| vec![e]);
        rep.check(d.is_empty(), || "round-trip".into(), || format!("{v} written and read: {d:?}"));
    });
    // The form's own fields, set and unset.
    let own = [("has_headers", json!(false)), ("x_columns", json!([2, 0])), ("y_column", json!(3)), ("weights_column", json!(1)), ("validation_fraction", json!(0.25)), ("huber_delta", json!(2.5)), ("lp_p", json!(3.0)), ("quantile_tau", json!(0.75)), ("epsilon_insensitive_eps", json!(0.5))];
    let dflt = [json!(true), json!(null), json!(null), json!(null), json!(0.0), json!(1.0), json!(2.0), json!(0.5), json!(0.1)];
    for mask in 0..1u32 << own.len() {
        let v: Map<String, Value> = own.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, (k, v))| (k.to_string(), v.clone())).collect();
        let f = options(&Value::Object(v)).map(|f| serde_json::to_value(&f).unwrap());
        rep.state(1);
        rep.valid(1);
        let ok = f.as_ref().is_ok_and(|f| own.iter().enumerate().all(|(i, (k, x))| f[*k] == if mask >> i & 1 == 1 { x.clone() } else { dflt[i].clone() }));
        rep.check(ok, || "form".into(), || format!("form fields {mask:b}: {f:?}"));
    }
    // Losses by name.
    let names: Vec<(&str, fn(f64) -> LossKind)> = vec![
        ("mse", |_| LossKind::Mse),
        ("mae", |_| LossKind::Mae),
        ("rmse", |_| LossKind::Rmse),
        ("huber", |p| LossKind::Huber { delta: p }),
        ("logcosh", |_| LossKind::LogCosh),
        ("lp", |p| LossKind::Lp { p }),
        ("quantile", |p| LossKind::Quantile { tau: p * 0.5 }),
        ("epsilon-insensitive", |p| LossKind::EpsilonInsensitive { eps: p * 0.25 }),
        ("epsilon_insensitive", |p| LossKind::EpsilonInsensitive { eps: p * 0.25 }),
        ("eps-insensitive", |p| LossKind::EpsilonInsensitive { eps: p * 0.25 }),
        ("eps_insensitive", |p| LossKind::EpsilonInsensitive { eps: p * 0.25 }),
    ];
    let res = [-3.0, -1.0, -0.3, 0.0, 0.2, 0.9, 2.0];
    for (n, k) in &names {
        for p in [0.05, 0.3, 0.5, 1.0, 1.5, 1.9] {
            for s in [n.to_string(), n.to_uppercase(), format!("  {n}\t"), format!("{}{}", n[..1].to_uppercase(), &n[1..])] {
                let f = options(&json!({"loss_kind": s, "huber_delta": p, "lp_p": p, "quantile_tau": p * 0.5, "epsilon_insensitive_eps": p * 0.25})).unwrap();
                rep.state(1);
                match catching(|| w::options_from_wasm(&f, some_ops())) {
                    Ok(Some(o)) => for_each_tuple(res.len(), 2, |v| {
                        let yh: Vec<f64> = v.iter().map(|&i| res[i]).collect();
                        let y = [0.0, 0.1];
                        let (got, want) = (o.loss.loss(&yh, &y, None), ref_loss(k(p), &yh, &y, None));
                        rep.valid(1);
                        rep.check(close(got, want, 1e-9, 1e-12), || format!("loss:{n}"), || format!("loss {s:?} with parameter {p}: {got} instead of {want}"));
                    }),
                    r => rep.violation("loss-name", format!("loss {s:?}: {:?}", r.err())),
                }
            }
        }
    }
    // Unknown names are refused.
    let near: Vec<String> = names.iter().flat_map(|(n, _)| [n[1..].to_string(), n[..n.len() - 1].to_string(), format!("{n}x"), format!("x{n}"), n.replace('-', " ")]).filter(|s| names.iter().all(|(n, _)| n != s)).collect();
    let mut bad: Vec<String> = ["", "l2", "ms e", "none", "log-cosh", "tukey", "0", "mse,mae"].iter().map(|s| s.to_string()).chain(near).collect();
    bad.sort();
    bad.dedup();
    par_for(rep, &bad, |_, s| {
        rep.state(1);
        rep.valid(1);
        let f = options(&json!({ "loss_kind": s })).unwrap();
        let accepted = !matches!(catching(|| w::options_from_wasm(&f, some_ops()).is_none()), Ok(true));
        rep.check(!accepted, || "loss-name".into(), || format!("loss {s:?} is accepted"));
        let r = front::open("1,2\n3,4\n", front::js(&json!({"loss_kind": s, "has_headers": false, "populations": 1, "population_size": 2})), &["neg"], &["add"], &[]);
        rep.check(r.as_ref().is_err_and(|e| !e.starts_with("panicked")), || "loss-name".into(), || format!("a search with the loss {s:?}: {:?}", r.err()));
    });
    front::options_reach(rep);
}

// ---------------------------------------------------------------- C38

fn c38(rep: &Report) {
    csv(rep);
    csv_cells(rep);
    csv_long(rep);
    columns(rep);
    split(rep);
    front::rows_reach(rep);
}

/// Every small table in every spelling, and every single damage to it.
fn csv(rep: &Report) {
    let spell = |v: f64, s: usize| match s {
        0 => format!("{v}"),
        1 => format!("  {v} "),
        2 => format!("\"{v}\""),
        3 => format!("{v:e}"),
        4 => format!("{v:?}\t"),
        _ => format!("+{}", v.abs()),
    };
    let value = |r: usize, c: usize, s: usize| {
        let v = (r * 7 + c * 3) as f64 * 0.25 - 2.0;
        if s == 5 {
            v.abs()
        } else {
            v
        }
    };
    let mut work = Vec::new();
    for rows in 0..=tier(5usize, 8) {
        for cols in 1..=tier(4usize, 4) {
            for head in [false, true] {
                for eol in ["\n", "\r\n"] {
                    for last in [false, true] {
                        for style in 0..6usize {
                            work.push((rows, cols, head, eol, last, style));
                        }
                    }
                }
            }
        }
    }
    par_for(rep, &work, |_, &(rows, cols, head, eol, last, style)| {
        let names: Vec<String> = (0..cols).map(|c| ["alpha", "b c", "x9", "\u{3b2}"][c].to_string()).collect();
        let cell = |r: usize, c: usize| (style + if style > 3 { r * 2 + c } else { 0 }) % 6;
        let text = |f: &dyn Fn(usize, usize) -> Option<String>, extra: usize| {
            let mut lines = Vec::new();
            if head {
                lines.push(names.iter().enumerate().map(|(c, n)| if style == 2 { format!("\"{n}\"") } else if style == 1 { format!(" {n} ") } else { let _ = c; n.clone() }).collect::<Vec<_>>().join(","));
            }
            for r in 0..rows {
                let mut cells: Vec<String> = (0..cols).filter_map(|c| f(r, c)).collect();
                if extra == r + 1 {
                    cells.push("1".into());
                }
                lines.push(cells.join(","));
            }
            lines.join(eol) + if last { eol } else { "" }
        };
        let good = text(&|r, c| Some(spell(value(r, c, cell(r, c)), cell(r, c))), 0);
        rep.state(1);
        rep.trans((rows * cols) as u64);
        rep.valid((rows * cols) as u64 + 1);
        if rows == 2 && cols == 2 {
            rep.sample(|| format!("{good:?} (headers: {head})"));
        }
        let want: Vec<Vec<f64>> = (0..rows).map(|r| (0..cols).map(|c| value(r, c, cell(r, c))).collect()).collect();
        match catching(|| w::parse_csv_to_rows(&good, head)) {
            Ok(Ok((h, t))) => {
                let hw: Vec<String> = if head { names.clone() } else { Vec::new() };
                rep.check(h == hw && t == want, || "csv".into(), || format!("{good:?} (headers: {head}) read as {h:?} {t:?}, should be {hw:?} {want:?}"));
            }
            r => rep.violation("csv", format!("{good:?} (headers: {head}): {r:?}")),
        }
        // One damaged cell, one missing, one too many: refused, unless what is left is a table.
        for r in 0..rows {
            for c in 0..cols {
                for junk in ["abc", "", "1 2", "1;2", "--1", "0x1"] {
                    if junk.is_empty() && cols == 1 {
                        continue; // an empty line
                    }
                    let t = text(&|i, j| Some(if (i, j) == (r, c) { junk.to_string() } else { spell(value(i, j, 0), 0) }), 0);
                    rep.state(1);
                    rep.valid(1);
                    let got = catching(|| w::parse_csv_to_rows(&t, head));
                    rep.check(matches!(got, Ok(Err(_))), || "csv-junk".into(), || format!("{t:?} (headers: {head}) is read as {got:?}"));
                }
            }
            let alone = rows == 1 && !head;
            for (what, t) in [
                ("missing", text(&|i, j| (cols > 1).then_some(()).filter(|_| (i, j) != (r, cols - 1)).map(|_| "1".to_string()), 0)),
                ("extra", text(&|_, _| Some("1".into()), r + 1)),
            ] {
                if (cols == 1 && what == "missing") || alone {
                    continue;
                }
                rep.state(1);
                rep.valid(1);
                // Reading and building the data set together refuse it.
                let got = catching(|| {
                    let (h, rows) = w::parse_csv_to_rows(&t, head)?;
                    w::build_full_dataset(&h, &rows, &WasmSearchOptions { has_headers: head, ..Default::default() }).map(|d| d.0.n_rows)
                });
                rep.check(matches!(got, Ok(Err(_))), || "csv-ragged".into(), || format!("{t:?} (headers: {head}) makes a data set of {got:?} rows"));
            }
        }
    });
}

/// Numbers that need all the digits and exponents of an f64, and names that need quoting, at every place of a table.
fn csv_cells(rep: &Report) {
    let special = [0.1, 1.0 / 3.0, -2.0f64.sqrt(), 123456789.123456, 9007199254740993.0, 1e-30, -1e30, 1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, -0.0];
    // As written, and as it reads.
    let names = [("#a", "#a"), ("# x", "# x"), ("//", "//"), ("\"a,b\"", "a,b"), ("\"a\"\"b\"", "a\"b"), ("'q'", "'q'"), ("a;b", "a;b"), ("7", "7"), ("nan", "nan"), ("%d", "%d"), ("a\\b", "a\\b"), ("A", "A")];
    for rows in 1..=tier(3usize, 4) {
        for cols in 2..=tier(3usize, 4) {
            for at in 0..rows * cols {
                for &v in &special {
                    for spelling in [format!("{v}"), format!("{v:e}"), format!("{v:?}"), format!("{v:E}")] {
                        let cell = |r: usize, c: usize| (r * 5 + c) as f64;
                        let line = |r: usize| (0..cols).map(|c| if r * cols + c == at { spelling.clone() } else { format!("{}", cell(r, c)) }).collect::<Vec<_>>().join(",");
                        let t = (0..rows).map(line).collect::<Vec<_>>().join("\n");
                        let want: Vec<Vec<u64>> = (0..rows).map(|r| (0..cols).map(|c| if r * cols + c == at { v } else { cell(r, c) }.to_bits()).collect()).collect();
                        rep.state(1);
                        rep.valid(1);
                        let got = catching(|| w::parse_csv_to_rows(&t, false)).map(|g| g.map(|g| g.1.iter().map(|r| r.iter().map(|v| v.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>()));
                        rep.check(matches!(&got, Ok(Ok(g)) if *g == want), || "csv-number".into(), || format!("{t:?} is read as the bits {got:x?}, should be {want:x?}"));
                    }
                }
            }
            for at in 0..cols {
                for &(written, read) in &names {
                    let plain = |c: usize| format!("n{c}");
                    let head = (0..cols).map(|c| if c == at { written.to_string() } else { plain(c) }).collect::<Vec<_>>().join(",");
                    let body: String = (0..rows).map(|r| format!("\n{}", (0..cols).map(|c| format!("{}", r + c)).collect::<Vec<_>>().join(","))).collect();
                    let t = format!("{head}{body}");
                    let want: Vec<String> = (0..cols).map(|c| if c == at { read.to_string() } else { plain(c) }).collect();
                    rep.state(1);
                    rep.valid(1);
                    let got = catching(|| w::parse_csv_to_rows(&t, true));
                    rep.check(matches!(&got, Ok(Ok((h, g))) if *h == want && g.len() == rows), || "csv-name".into(), || format!("{t:?} is read as {got:?}, its columns are {want:?}"));
                }
            }
        }
    }
}

/// Long tables and wide ones: every row, and an error in any of them.
fn csv_long(rep: &Report) {
    for (rows, cols) in [(300usize, 3usize), (5_000, 2), (70_000, 3), (3, 300), (2, 3_000)] {
        let value = |r: usize, c: usize| (r * cols + c) as f64 * 0.5 - 7.0;
        let table = |bad: Option<usize>| {
            let mut t = (0..cols).map(|c| format!("n{c}")).collect::<Vec<_>>().join(",");
            for r in 0..rows {
                t.push('\n');
                t.push_str(&(0..cols).map(|c| if bad == Some(r) && c == cols - 1 { "none".to_string() } else { format!("{}", value(r, c)) }).collect::<Vec<_>>().join(","));
            }
            t
        };
        let got = w::parse_csv_to_rows(&table(None), true);
        let ok = got.as_ref().is_ok_and(|(h, g)| h.len() == cols && g.len() == rows && g.iter().enumerate().all(|(r, row)| row.len() == cols && row.iter().enumerate().all(|(c, v)| *v == value(r, c))));
        rep.state(1);
        rep.valid(1);
        rep.check(ok, || "csv-long".into(), || format!("a table of {rows} rows of {cols}: {:?}", got.as_ref().map(|(h, g)| (h.len(), g.len()))));
        for bad in [0, rows / 2, rows - 1] {
            let got = w::parse_csv_to_rows(&table(Some(bad)), true);
            rep.state(1);
            rep.valid(1);
            rep.check(got.is_err(), || "csv-long".into(), || format!("a table of {rows} rows of {cols} whose row {bad} holds a word is read: {:?}", got.as_ref().map(|(h, g)| (h.len(), g.len()))));
        }
    }
}

/// Every choice of columns.
fn columns(rep: &Report) {
    let mut work = Vec::new();
    for n_cols in 1..=tier(5usize, 6) {
        for n_rows in 0..=3usize {
            for y in std::iter::once(None).chain((0..=n_cols).map(Some)) {
                for wc in std::iter::once(None).chain((0..=n_cols).map(Some)) {
                    for head in 0..3 {
                        work.push((n_cols, n_rows, y, wc, head));
                    }
                }
            }
        }
    }
    par_for(rep, &work, |_, &(n_cols, n_rows, y, wc, head)| {
        let mut lists: Vec<Option<Vec<usize>>> = vec![None];
        for len in 0..=3usize {
            for_each_tuple(n_cols + 1, len, |v| lists.push(Some(v.to_vec())));
        }
        let rows: Vec<Vec<f64>> = (0..n_rows).map(|r| (0..n_cols).map(|c| (10 * r + c) as f64).collect()).collect();
        let headers: Vec<String> = match head {
            0 => vec![],
            1 => (0..n_cols).map(|c| format!("col{c}")).collect(),
            _ => (0..n_cols + 1).map(|c| format!("col{c}")).collect(),
        };
        for x in lists {
            let o = WasmSearchOptions { has_headers: head > 0, x_columns: x.clone(), y_column: y, weights_column: wc, ..Default::default() };
            let yc = y.unwrap_or(n_cols - 1);
            let xs: BTreeSet<usize> = match &x {
                Some(v) => v.iter().copied().collect(),
                None => (0..n_cols).filter(|c| *c != yc && Some(*c) != wc).collect(),
            };
            let ok = n_rows > 0
                && n_cols >= 2
                && yc < n_cols
                && wc.is_none_or(|c| c < n_cols && c != yc)
                && !xs.is_empty()
                && xs.iter().all(|c| *c < n_cols && *c != yc && Some(*c) != wc);
            rep.state(1);
            rep.trans((n_rows * n_cols) as u64);
            rep.valid(1);
            let ctx = || format!("{n_rows} rows of {n_cols} columns, x {x:?}, y {y:?}, weights {wc:?}, headers {headers:?}");
            match catching(|| w::build_full_dataset(&headers, &rows, &o)) {
                Err(e) => rep.violation("columns-panic", format!("{}: {e}", ctx())),
                Ok(Err(e)) => {
                    rep.check(!ok && !e.is_empty(), || "columns-refused".into(), || format!("{}: refused: {e}", ctx()));
                }
                Ok(Ok((d, names, ws))) => {
                    let xs: Vec<usize> = xs.into_iter().collect();
                    let want_names: Vec<String> = if head == 1 { xs.iter().map(|c| format!("col{c}")).collect() } else { (0..xs.len()).map(|i| format!("x{i}")).collect() };
                    let mut good = ok && d.n_rows == n_rows && d.n_features == xs.len() && names == want_names && d.variable_names == want_names && ws.is_some() == wc.is_some();
                    if good {
                        for r in 0..n_rows {
                            good &= d.y[r] == rows[r][yc];
                            good &= xs.iter().enumerate().all(|(j, &c)| d.x[(j, r)] == rows[r][c]);
                            good &= ws.as_ref().is_none_or(|w| w[r] == rows[r][wc.unwrap()]);
                        }
                    }
                    rep.check(good, || "columns".into(), || format!("{}: {d:?} {names:?} {ws:?}", ctx()));
                }
            }
        }
    });
}

/// Which rows train and which validate.
fn split(rep: &Report) {
    let fractions = [-0.5, 0.0, 0.01, 0.1, 0.2, 0.25, 1.0 / 3.0, 0.5, 0.6, 0.75, 0.9, 0.99, 1.0, 7.0];
    let mut work = Vec::new();
    for n in 0..=tier(120usize, 300) {
        for vf in fractions {
            work.push((n, vf));
        }
    }
    let check = |n: usize, vf: f64, s: &WasmSplitIndices, ctx: &dyn Fn() -> String| {
        let mut all: Vec<usize> = s.train.iter().chain(&s.val).copied().collect();
        all.sort();
        let want = ((vf.clamp(0.0, 0.9) * n as f64).round() as usize).min(n.saturating_sub(1));
        rep.state(1);
        rep.valid(1);
        let ok = all == (0..n).collect::<Vec<_>>() && s.val.len() == want && (n == 0 || !s.train.is_empty());
        rep.check(ok, || "split".into(), || format!("{}: training {:?}, validation {:?}; {want} rows should validate", ctx(), s.train, s.val));
        if s.val.is_empty() {
            rep.check(s.train == (0..n).collect::<Vec<_>>(), || "split-order".into(), || format!("{}: no validation, training order {:?}", ctx(), s.train));
        }
    };
    par_for(rep, &work, |_, &(n, vf)| {
        let mut distinct = BTreeSet::new();
        for seed in 0..tier(4u64, 8) {
            let ctx = || format!("{n} rows, fraction {vf}, seed {seed}");
            match catching(|| (w::make_split_indices(n, vf, seed), w::make_split_indices(n, vf, seed))) {
                Ok((a, b)) => {
                    check(n, vf, &a, &ctx);
                    rep.check(a.train == b.train && a.val == b.val, || "split-repeat".into(), || format!("{}: two splits differ", ctx()));
                    distinct.insert(a.val);
                }
                Err(e) => rep.violation("split-panic", format!("{}: {e}", ctx())),
            }
        }
        let nv = ((vf.clamp(0.0, 0.9) * n as f64).round() as usize).min(n.saturating_sub(1));
        rep.check(n < 10 || nv < 3 || distinct.len() > 1, || "split-seed".into(), || format!("{n} rows, fraction {vf}: all seeds validate on the same rows"));
    });
    // Every outcome of the shuffle; each row is as likely to validate as any other.
    let mut work = Vec::new();
    for n in 1..=tier(6usize, 7) {
        for vf in [0.2, 0.5, 0.9] {
            work.push((n, vf));
        }
    }
    par_for(rep, &work, |_, &(n, vf)| {
        let mut mass = vec![0.0; n];
        let mut nv = 0;
        let s = mc::explore(&mc::Config { f64_menu: vec![0.5], int_cap: 64, max_depth: 64, max_runs: 0 }, || {
            let s = w::make_split_indices(n, vf, 1);
            check(n, vf, &s, &|| format!("{n} rows, fraction {vf}, choices {:?}", mc::trace()));
            nv = s.val.len();
            for r in &s.val {
                mass[*r] += mc::weight();
            }
            !rep.stop()
        });
        rep.trans(s.choices);
        if nv > 0 {
            for (r, m) in mass.iter().enumerate() {
                rep.check((m - nv as f64 / n as f64).abs() < 1e-9, || "split-uniform".into(), || format!("{n} rows, fraction {vf}: row {r} validates with probability {m} instead of {nv}/{n}"));
            }
        }
    });
    // Rows keep together, in the order listed, for every list of rows.
    for n in 1..=4usize {
        let x = Array2::from_shape_fn((2, n), |(f, r)| (10 * f + r) as f64);
        let y = Array1::from_shape_fn(n, |r| 100.0 + r as f64);
        let ws = Array1::from_shape_fn(n, |r| 0.5 + r as f64);
        let d = Dataset::with_weights_and_names(x, y, None, vec!["a".into(), "b".into()]);
        for perm in permutations(n) {
            for k in 0..n {
                for weighted in [false, true] {
                    let s = WasmSplitIndices { train: perm[k..].to_vec(), val: perm[..k].to_vec() };
                    rep.state(1);
                    rep.valid(1);
                    let ctx = || format!("training {:?}, validation {:?}, weights: {weighted}", s.train, s.val);
                    match catching(|| w::split_train_val(&d, weighted.then_some(&ws), &["a".to_string(), "b".to_string()], &s)) {
                        Ok(Ok((t, v))) => {
                            let good = |d: &Dataset<f64>, rows: &[usize]| {
                                d.n_rows == rows.len()
                                    && d.n_features == 2
                                    && d.variable_names == ["a", "b"]
                                    && d.weights.is_some() == weighted
                                    && rows.iter().enumerate().all(|(i, &r)| d.x[(0, i)] == r as f64 && d.x[(1, i)] == (10 + r) as f64 && d.y[i] == 100.0 + r as f64 && d.weights.as_ref().is_none_or(|w| w[i] == 0.5 + r as f64))
                            };
                            let ok = good(&t, &s.train) && v.is_some() == (k > 0) && v.as_ref().is_none_or(|v| good(v, &s.val));
                            rep.check(ok, || "rows".into(), || format!("{}: {t:?} {v:?}", ctx()));
                        }
                        r => rep.violation("rows", format!("{}: {:?}", ctx(), r.map(|r| r.map(|_| ())))),
                    }
                    // A row that does not exist is refused.
                    let bad = WasmSplitIndices { train: perm.iter().map(|r| r + 1).collect(), val: vec![] };
                    let r = catching(|| w::split_train_val(&d, None, &["a".to_string(), "b".to_string()], &bad));
                    rep.check(matches!(r, Ok(Err(_))), || "rows-range".into(), || format!("rows {:?} of {n} accepted", bad.train));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C42

fn c42(rep: &Report) {
    rep.assume("weights are non-negative; predictions and targets are finite");
    let vals = [-2.0, 0.0, 0.5, 3.0, 1e3];
    let ws = [0.0, 0.5, 2.0];
    let mut heads: Vec<(usize, usize, usize)> = Vec::new();
    for n in 1..=3usize {
        for a in 0..vals.len() {
            for b in 0..vals.len() {
                heads.push((n, a, b));
            }
        }
    }
    let one = |yh: &[f64], y: &[f64], w: Option<&[f64]>| {
        let n = y.len();
        let d = Dataset::with_weights_and_names(Array2::zeros((1, n)), Array1::from(y.to_vec()), w.map(|w| Array1::from(w.to_vec())), vec![]);
        let ctx = || format!("predictions {yh:?}, targets {y:?}, weights {w:?}");
        rep.state(1);
        rep.trans(n as u64);
        rep.valid(8);
        let m = match catching(|| w::compute_metrics(yh, &d)) {
            Ok(m) => m,
            Err(e) => {
                rep.violation("panic", format!("{}: {e}", ctx()));
                return;
            }
        };
        let wt = |i: usize| w.map_or(1.0, |w| w[i]);
        let sw: f64 = (0..n).map(wt).sum();
        let mean = |f: &dyn Fn(usize) -> f64| if sw == 0.0 { 0.0 } else { (0..n).map(|i| wt(i) * f(i)).sum::<f64>() / sw };
        let mse = mean(&|i| (yh[i] - y[i]).powi(2));
        let mae = mean(&|i| (yh[i] - y[i]).abs());
        let my = mean(&|i| y[i]);
        let var = mean(&|i| (y[i] - my).powi(2));
        // The weighted mean of equal targets may be off by a rounding error.
        let flat = (0..n).all(|i| wt(i) == 0.0 || y[i] == y[(0..n).find(|&i| wt(i) > 0.0).unwrap_or(0)]);
        let r2 = if flat { 0.0 } else { 1.0 - mse / var };
        let u = |f: &dyn Fn(usize) -> f64| (0..n).map(f).sum::<f64>() / n.max(1) as f64;
        let (uy, up) = (u(&|i| y[i]), u(&|i| yh[i]));
        let (vy, vp) = (u(&|i| (y[i] - uy).powi(2)), u(&|i| (yh[i] - up).powi(2)));
        let flat_u = y.iter().all(|v| *v == y[0]) || yh.iter().all(|v| *v == yh[0]);
        let corr = if flat_u { 0.0 } else { u(&|i| (y[i] - uy) * (yh[i] - up)) / (vy * vp).sqrt() };
        let errs: Vec<f64> = (0..n).map(|i| (yh[i] - y[i]).abs()).collect();
        let (lo, hi) = (errs.iter().copied().fold(f64::INFINITY, f64::min), errs.iter().copied().fold(0.0, f64::max));
        let ok = m.n == n
            && close(m.mse, mse, 1e-9, 1e-12)
            && close(m.mae, mae, 1e-9, 1e-12)
            && close(m.rmse, mse.sqrt(), 1e-9, 1e-9)
            && close(m.min_abs_err, if n == 0 { 0.0 } else { lo }, 1e-12, 0.0)
            && close(m.max_abs_err, hi, 1e-12, 0.0);
        if n == 3 && yh[0] != yh[1] && y[0] != y[2] && w.is_some_and(|w| w[0] != w[1]) {
            rep.sample(|| format!("{}: {m:?}", ctx()));
        }
        rep.check(ok, || "errors".into(), || format!("{}: {m:?}; should be mse {mse} mae {mae} least {lo} largest {hi}", ctx()));
        if n > 0 {
            // (Where rounding decides whether the spread is zero nothing is claimed.)
            if !(flat && m.r2 != 0.0 && sw > 0.0 && w.is_some()) {
                rep.check(close(m.r2, r2, 1e-8, 1e-9), || "r2".into(), || format!("{}: r2 {} instead of {r2}", ctx(), m.r2));
            }
            rep.check((flat_u && m.corr.abs() <= 1.0 + 1e-9) || close(m.corr, corr, 1e-8, 1e-8), || "corr".into(), || format!("{}: correlation {} instead of {corr}", ctx(), m.corr));
        }
    };
    par_for(rep, &heads, |_, &(n, a, b)| {
        for_each_tuple(vals.len(), 2 * (n - 1), |v| {
            let mut y = vec![vals[a]];
            let mut yh = vec![vals[b]];
            y.extend(v[..n - 1].iter().map(|&i| vals[i]));
            yh.extend(v[n - 1..].iter().map(|&i| vals[i]));
            one(&yh, &y, None);
            for_each_tuple(ws.len(), n, |k| {
                let w: Vec<f64> = k.iter().map(|&i| ws[i]).collect();
                one(&yh, &y, Some(&w));
            });
        });
    });
    // Four and five rows over fewer values.
    let few = [-1.0, 0.25, 2.0];
    let heads: Vec<usize> = (0..few.len()).collect();
    par_for(rep, &heads, |_, &a| {
        for n in 4..=tier(6, 7usize) {
            for_each_tuple(few.len(), 2 * n - 1, |v| {
                let all: Vec<f64> = std::iter::once(a).chain(v.iter().copied()).map(|i| few[i]).collect();
                let (y, yh) = all.split_at(n);
                one(yh, y, None);
                let w: Vec<f64> = (0..n).map(|i| [1.0, 0.0, 2.0, 0.5, 3.0][(i * (1 + v[1]) + v[0]) % 5]).collect();
                one(yh, y, Some(&w));
            });
        }
    });
    one(&[], &[], None);
}

// ---------------------------------------------------------------- C43

fn c43(rep: &Report) {
    let mut work = Vec::new();
    for seed in 0..tier(240u64, 2400) {
        for weighted in [false, true] {
            for batching in [false, true] {
                for names in [false, true] {
                    for maxsize in [3usize, 7] {
                        work.push((seed, weighted, batching, names, maxsize));
                    }
                }
            }
        }
    }
    par_for(rep, &work, |_, &(seed, weighted, batching, names, maxsize)| {
        let mut text = String::new();
        if names {
            text += "u,v,wt,t\n";
        }
        for r in 0..9 {
            let (a, b) = ((r * 5 % 9) as f64 * 0.4 - 1.3, (r * r % 7) as f64 * 0.3 - 0.7);
            text += &format!("{a},{b},{},{}\n", 0.5 + (r % 3) as f64, (a * 1.3).cos() + b * b);
        }
        let form = json!({
            "has_headers": names, "x_columns": [0, 1], "y_column": 3, "weights_column": if weighted { Some(2) } else { None },
            "validation_fraction": if seed % 3 == 2 { 0.0 } else { 0.3 }, "seed": seed, "niterations": 2, "populations": 2, "population_size": 5,
            "ncycles_per_iteration": 4, "maxsize": maxsize, "maxdepth": 6, "batching": batching, "batch_size": 4, "tournament_selection_n": 2, "topn": 2,
            "loss_kind": if seed % 2 == 0 { "mse" } else { "mae" }, "optimizer_probability": 0.3, "fraction_replaced": 0.3, "fraction_replaced_hof": 0.3,
        });
        let ctx = format!("seed {seed}, weights {weighted}, batches {batching}, names {names}, maximum size {maxsize}");
        let r = catching(|| -> Result<(), String> {
            let mut q = front::open(&text, front::js(&form), &["neg", "cos"], &["add", "mul", "sub"], &[])?;
            let f: WasmSearchOptions = serde_json::from_value(form).map_err(|e| e.to_string())?;
            // As the constructor does.
            let (h, rows) = w::parse_csv_to_rows(&text, f.has_headers)?;
            let (all, vars, wts) = w::build_full_dataset(&h, &rows, &f)?;
            let s = w::make_split_indices(all.n_rows, f.validation_fraction, f.core.seed);
            let (train, val) = w::split_train_val(&all, wts.as_ref(), &vars, &s)?;
            let operators = ops(&[("neg", 1), ("cos", 1), ("add", 2), ("mul", 2), ("sub", 2)]);
            let o = w::options_from_wasm(&f, operators).ok_or("options")?;
            let kind = if seed % 2 == 0 { LossKind::Mse } else { LossKind::Mae };
            let apart = |a: &Dataset<f64>, b: &Dataset<f64>| a.x != b.x || a.y != b.y || a.weights != b.weights || a.variable_names != b.variable_names;
            if apart(w::engine(&q).dataset(), &train) || w::val_dataset(&q).is_some() != val.is_some() || w::val_dataset(&q).zip(val.as_ref()).is_some_and(|(a, b)| apart(a, b)) {
                return Err("the search has other rows".into());
            }
            let zero = baseline_loss_from_zero_expression::<f64, B, D>(&train, o.loss.as_ref());
            loop {
                rep.state(1);
                inspect(rep, w::engine(&q), &train, val.as_ref(), &o, kind, zero, if names { ["u", "v"] } else { ["x0", "x1"] })?;
                front::shown(rep, &mut q, val.is_some())?;
                let before = w::engine(&q).cycles_completed();
                if q.is_finished() != (before == w::engine(&q).total_cycles()) {
                    return Err(format!("finished: {}, after {before} of {} cycles", q.is_finished(), w::engine(&q).total_cycles()));
                }
                q.step(1).map_err(|e| format!("{e:?}"))?;
                if w::engine(&q).cycles_completed() == before {
                    break;
                }
                rep.trans(1);
            }
            if seed % 5 == 3 {
                rep.sample(|| {
                    let e = w::engine(&q);
                    format!("{ctx}: {} cycles, best {} of loss {}", e.cycles_completed(), show(&e.best().expr), e.best().loss)
                });
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(t)) => rep.violation("inspect", format!("{ctx}: {t}")),
            Err(p) => rep.violation("panic", format!("{ctx}: {p}")),
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn inspect(rep: &Report, e: &w::Engine, train: &Dataset<f64>, val: Option<&Dataset<f64>>, o: &Opts, kind: LossKind, zero: Option<f64>, vars: [&str; 2]) -> Result<(), String> {
    let front = e.hall_of_fame().pareto_front();
    let text_of = |t: &Tr| text(t, &vars);
    for k in [0, 1, 2, 3, front.len(), front.len() + 1, 250] {
        let s = w::snapshot(e, k);
        rep.valid(1);
        if s.total_cycles != o.niterations * o.populations || s.cycles_completed != e.cycles_completed() || s.total_evals != e.total_evals() {
            return Err(format!("snapshot says {} of {} cycles, {} evaluations", s.cycles_completed, s.total_cycles, s.total_evals));
        }
        let want: Vec<(String, usize, u64, u64)> = front[front.len().saturating_sub(k)..].iter().map(|m| (m.id.0.to_string(), m.complexity, m.loss.to_bits(), m.cost.to_bits())).collect();
        let got: Vec<_> = s.pareto_points.iter().map(|p| (p.id.clone(), p.complexity, p.loss.to_bits(), p.cost.to_bits())).collect();
        if got != want {
            return Err(format!("the {k} best of the front are {want:?}, listed {got:?}"));
        }
        let b = e.best();
        let t = parse(&b.expr)?;
        if s.best.id != b.id.0.to_string() || s.best.loss.to_bits() != b.loss.to_bits() || s.best.cost.to_bits() != b.cost.to_bits() || s.best.complexity != b.complexity || !text_of(&t).contains(&s.best.equation) {
            return Err(format!("best is {} of loss {}, reported {:?}", t.show(), b.loss, s.best));
        }
    }
    // Everything listed can be looked up and evaluated, and gives what was listed.
    for m in e.hall_of_fame().members().chain(std::iter::once(e.best())) {
        rep.valid(1);
        let id = m.id.0;
        let Some(f) = w::find_member_by_id(e, id) else { return Err(format!("member {id} is listed but not found")) };
        let t = parse(&m.expr)?;
        if expr_key(&f.expr) != expr_key(&m.expr) {
            return Err(format!("member {id} is {}, found {}", t.show(), show(&f.expr)));
        }
        let s = w::summary_from_member(e, &f);
        if s.id != id.to_string() || !text_of(&t).contains(&s.equation) || s.complexity != m.complexity || s.loss.to_bits() != m.loss.to_bits() || s.cost.to_bits() != m.cost.to_bits() {
            return Err(format!("member {id} is {}, summary {s:?}", t.show()));
        }
        for d in std::iter::once(train).chain(val) {
            let want: Vec<f64> = (0..d.n_rows).map(|r| t.eval(&d.x.column(r).to_vec())).collect();
            let y = catching(|| w::eval_member_on_dataset(d, &f));
            match &y {
                Ok(Some(y)) if y.len() == d.n_rows && y.iter().zip(&want).all(|(a, b)| close(*a, *b, 1e-9, 1e-12)) => {
                    let q = w::compute_metrics(y, d);
                    let wv = d.weights.as_ref().map(|w| w.to_vec());
                    let mse = ref_loss(LossKind::Mse, &want, &d.y.to_vec(), wv.as_deref());
                    if !close(q.mse, mse, 1e-9, 1e-12) {
                        return Err(format!("{}: mean squared error {} instead of {mse}", t.show(), q.mse));
                    }
                    if std::ptr::eq(d, train) {
                        let own = if matches!(kind, LossKind::Mse) { q.mse } else { q.mae };
                        if !close(own, m.loss, 1e-9, 1e-12) {
                            return Err(format!("{}: listed with loss {}, evaluated {own}", t.show(), m.loss));
                        }
                    }
                }
                _ => return Err(format!("{} evaluates to {y:?} instead of {want:?}", t.show())),
            }
        }
        truthful(m, train, zero, o, kind, 1e-9)?;
    }
    for id in [u64::MAX, 1 << 50] {
        if w::find_member_by_id(e, id).is_some() {
            return Err(format!("member {id} does not exist but is found"));
        }
    }
    Ok(())
}

/// How an expression may be written: fully parenthesised infix, prefix calls.
fn text(t: &Tr, vars: &[&str; 2]) -> Vec<String> {
    use dynamic_expressions::strings::{string_tree, StringTreeOptions};
    let names: Vec<String> = vars.iter().map(|s| s.to_string()).collect();
    vec![string_tree::<f64, B, D>(&t.expr(false), StringTreeOptions { variable_names: Some(&names), pretty: false })]
}
