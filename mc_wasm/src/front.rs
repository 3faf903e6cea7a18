//! The functions the browser calls, with the values it passes and receives.
use super::*;
use symbolic_regression_wasm::{builtin_operator_registry, default_core_options, default_search_options, WasmSearch};
pub use wasm_bindgen::JsValue;

/// A JSON value as the page would hold it.
pub fn js(v: &Value) -> JsValue {
    match v {
        Value::Null => JsValue::Null,
        Value::Bool(b) => JsValue::Bool(*b),
        Value::Number(n) => JsValue::Number(n.as_f64().unwrap()),
        Value::String(s) => JsValue::String(s.clone()),
        Value::Array(a) => JsValue::Array(a.iter().map(js).collect()),
        Value::Object(o) => JsValue::Object(o.iter().map(|(k, v)| (k.clone(), js(v))).collect()),
    }
}

/// What the page reads: property access on plain objects; anything else is not what it expects.
pub fn seen(v: &JsValue) -> Value {
    match v {
        JsValue::Undefined | JsValue::Null => Value::Null,
        JsValue::Bool(b) => json!(b),
        JsValue::Number(x) if x.fract() == 0.0 && x.abs() < 1e15 => json!(*x as i64),
        JsValue::Number(x) if x.is_finite() => json!(x),
        JsValue::Number(x) => json!(format!("{x}")),
        JsValue::String(s) => json!(s),
        JsValue::Array(a) => Value::Array(a.iter().map(seen).collect()),
        JsValue::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), seen(v))).collect()),
        v => json!(format!("not a plain object: {v:?}")),
    }
}

fn num(x: f64) -> Value {
    seen(&JsValue::Number(x))
}

pub fn names(list: &[&str]) -> JsValue {
    JsValue::Array(list.iter().map(|s| JsValue::from_str(s)).collect())
}

pub fn open(text: &str, opts: JsValue, u: &[&str], b: &[&str], t: &[&str]) -> Result<WasmSearch, String> {
    match catching(|| WasmSearch::new(text.to_string(), opts, names(u), names(b), names(t))) {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(JsValue::String(e))) => Err(e),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(p) => Err(format!("panicked: {p}")),
    }
}

const TABLE: &str = "a,b,y\n0.5,1,2\n1,-1,0.25\n-0.75,0.125,1\n2,3,-1\n0,1.5,0.5\n";

/// C37: what the page sets is what the search holds.
pub fn options_reach(rep: &Report) {
    let fs = fields();
    let ms = mutations();
    let n = fs.len() + ms.len();
    let mut subsets: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..n {
        subsets.push(vec![i]);
        for j in i + 1..n {
            if thorough() || (i + j) % 3 == 0 {
                subsets.push(vec![i, j]);
            }
        }
    }
    let small = ["populations", "population_size"];
    par_for(rep, &subsets, |_, s| {
        let mut v = Map::new();
        let mut mw = Map::new();
        let mut want = defaults();
        want.insert("progress".into(), json!(false));
        for k in small {
            if !s.is_empty() {
                v.insert(k.into(), json!(2));
                want.insert(k.into(), json!(2));
            }
        }
        for &i in s {
            if i < fs.len() {
                v.insert(fs[i].0.into(), fs[i].2.clone());
                if fs[i].0 != "progress" {
                    want.insert(fs[i].0.into(), fs[i].2.clone());
                }
            } else {
                let (name, d) = ms[i - fs.len()];
                mw.insert(name.into(), json!(d + 0.5));
                want.insert(format!("mw_{name}"), json!(d + 0.5));
            }
        }
        if !mw.is_empty() {
            v.insert("mutation_weights".into(), Value::Object(mw));
        }
        let v = Value::Object(v);
        rep.state(1);
        rep.trans(s.len() as u64);
        rep.valid(1);
        match open(TABLE, js(&v), &["neg", "cos"], &["add", "mul"], &["fma"]) {
            Ok(q) => {
                let d = differ(&held(w::engine(&q).options()), &want);
                rep.check(d.is_empty(), || "front".into(), || format!("a search created with {v}: {d:?}"));
            }
            Err(e) => rep.violation("front", format!("a search with {v}: {e}")),
        }
    });
    // No form data at all: the defaults.
    for nothing in [JsValue::Undefined, JsValue::Null, js(&json!({}))] {
        let mut want = defaults();
        want.insert("progress".into(), json!(false));
        let d = open(TABLE, nothing.clone(), &["neg"], &["add"], &[]).map(|q| differ(&held(w::engine(&q).options()), &want));
        rep.state(1);
        rep.valid(1);
        rep.check(d.as_ref().is_ok_and(|d| d.is_empty()), || "front-none".into(), || format!("a search created with {nothing:?}: {d:?}"));
    }
    // Data that cannot be read is refused: nothing else is searched with instead.
    let mut wrong: Vec<(String, Value)> = Vec::new();
    for (f, d, _) in &fs {
        let whole = !d.is_boolean() && !["warmup_maxsize_by", "parsimony", "adaptive_parsimony_scaling", "crossover_probability", "perturbation_factor", "probability_negate_constant", "tournament_selection_p", "alpha", "optimizer_probability", "fraction_replaced", "fraction_replaced_hof", "fraction_replaced_guesses"].contains(f);
        let mut values = vec![json!("abc"), json!([1]), json!({"a": 1})];
        if d.is_boolean() {
            values.extend([json!(1), json!("true")]);
        } else {
            values.extend([json!(true), json!("")]);
        }
        if whole {
            values.extend([json!(2.5), json!(-1), json!(1e300)]);
        }
        wrong.extend(values.into_iter().map(|v| (f.to_string(), json!({*f: v}))));
    }
    for k in ["validation_fraction", "huber_delta", "lp_p", "quantile_tau", "epsilon_insensitive_eps"] {
        wrong.push((k.into(), json!({k: "abc"})));
    }
    for k in ["y_column", "weights_column"] {
        wrong.extend([json!(-1), json!(0.5), json!("a")].map(|v| (k.to_string(), json!({k: v}))));
    }
    wrong.extend([json!(3), json!("a"), json!([0.5]), json!([-1])].map(|v| ("x_columns".to_string(), json!({"x_columns": v}))));
    wrong.push(("has_headers".into(), json!({"has_headers": "yes"})));
    wrong.push(("loss_kind".into(), json!({"loss_kind": 3})));
    for (m, _) in &ms {
        wrong.push((format!("mw_{m}"), json!({"mutation_weights": {*m: "abc"}})));
    }
    for v in [json!(3), json!("options"), json!(true)] {
        wrong.push(("options".into(), v));
    }
    par_for(rep, &wrong, |_, (k, v)| {
        rep.state(1);
        rep.valid(1);
        // With other settings, which must not be lost silently.
        let mut all = json!({"populations": 2, "population_size": 3, "seed": 9, "loss_kind": "mae"});
        match v {
            Value::Object(o) => o.iter().for_each(|(k, v)| {
                all[k] = v.clone();
            }),
            v => all = v.clone(),
        }
        let r = open(TABLE, js(&all), &["neg"], &["add"], &[]);
        rep.check(r.is_err(), || format!("unreadable:{k}"), || {
            let o = w::engine(r.as_ref().ok().unwrap()).options();
            format!("options {all} cannot be read, but a search is created, with {} populations and seed {}", o.populations, o.seed)
        });
    });
    // The page's defaults: a plain object with every field, from which a search with the defaults results.
    let all = catching(default_search_options).map_err(|e| format!("panicked: {e}")).and_then(|r| r.map_err(|e| format!("{e:?}")));
    let core = catching(default_core_options).map_err(|e| format!("panicked: {e}")).and_then(|r| r.map_err(|e| format!("{e:?}")));
    rep.state(2);
    rep.valid(2);
    let own = [("has_headers", json!(true)), ("x_columns", json!(null)), ("y_column", json!(null)), ("weights_column", json!(null)), ("validation_fraction", json!(0)), ("loss_kind", json!("mse")), ("huber_delta", json!(1)), ("lp_p", json!(2)), ("quantile_tau", json!(0.5)), ("epsilon_insensitive_eps", json!(0.1))];
    let flat = |v: &Value| -> Map<String, Value> {
        let mut m = Map::new();
        for (k, x) in v.as_object().into_iter().flatten() {
            match (k.as_str(), x.as_object()) {
                ("mutation_weights", Some(o)) => o.iter().for_each(|(k, x)| {
                    m.insert(format!("mw_{k}"), x.clone());
                }),
                _ => {
                    m.insert(k.clone(), x.clone());
                }
            }
        }
        m
    };
    match (&all, &core) {
        (Ok(all), Ok(core)) => {
            let mut want = defaults();
            let got = seen(core);
            let d = differ(&flat(&got), &want);
            rep.check(got.is_object() && d.is_empty(), || "default-core".into(), || format!("the default options of the core, as the page sees them: {d:?}"));
            let got = seen(all);
            let f = flat(&got);
            let bad: Vec<&str> = own.iter().filter(|(k, v)| f.get(*k).unwrap_or(&Value::Null) != v).map(|(k, _)| *k).collect();
            let d = differ(&f.iter().filter(|(k, _)| own.iter().all(|(n, _)| n != k)).map(|(k, v)| (k.clone(), v.clone())).collect(), &want);
            rep.check(got.is_object() && bad.is_empty() && d.is_empty(), || "default-form".into(), || format!("the form's default options, as the page sees them: {} lacks {bad:?}; {d:?}", if got.is_object() { "an object that".to_string() } else { got.to_string() }));
            // Handed back, they give a search with the defaults.
            want.insert("progress".into(), json!(false));
            let d = open(TABLE, all.clone(), &["neg"], &["add"], &[]).map(|q| differ(&held(w::engine(&q).options()), &want));
            rep.check(d.as_ref().is_ok_and(|d| d.is_empty()), || "default-back".into(), || format!("a search created with the default options: {d:?}"));
        }
        r => rep.violation("default-form", format!("{r:?}")),
    }
    operators(rep);
}

/// The operators offered are those of the operator set, and those chosen reach the search.
fn operators(rep: &Report) {
    let reg = match catching(builtin_operator_registry) {
        Ok(Ok(r)) => seen(&r),
        r => {
            rep.violation("registry", format!("{r:?}"));
            return;
        }
    };
    let mut want = Vec::new();
    for arity in 1..=B::MAX_ARITY {
        for &id in B::ops_with_arity(arity) {
            let o = OpId { arity, id };
            want.push(json!({"arity": arity, "name": B::name(o), "display": B::display(o), "infix": B::infix(o), "commutative": B::commutative(o), "associative": B::associative(o), "complexity": B::complexity(o)}));
        }
    }
    rep.state(want.len() as u64);
    rep.valid(want.len() as u64);
    let listed = reg.as_array().cloned().unwrap_or_default();
    let same = listed.len() == want.len() && want.iter().all(|w| listed.iter().filter(|l| *l == w).count() == 1);
    rep.check(same, || "registry".into(), || format!("operators offered: {reg}"));
    let small = || js(&json!({"populations": 1, "population_size": 2, "maxsize": 5}));
    // Each alone, by its name.
    for l in &listed {
        let (Some(name), Some(arity)) = (l["name"].as_str(), l["arity"].as_u64()) else { continue };
        let mut lists: [Vec<&str>; 3] = Default::default();
        lists[arity as usize - 1].push(name);
        rep.state(1);
        rep.valid(1);
        let got = open(TABLE, small(), &lists[0], &lists[1], &lists[2]).map(|q| op_list(&w::engine(&q).options().operators).iter().map(|o| (o.arity as u64, B::name(*o))).collect::<Vec<_>>());
        rep.check(got == Ok(vec![(arity, name)]), || "operator".into(), || format!("a search with the operator {name}/{arity} has {got:?}"));
    }
    // Every choice from a few, in both orders.
    let few: [&[&str]; 3] = [&["neg", "cos", "exp"], &["add", "mul", "sub"], &["fma", "clamp"]];
    let mut work = Vec::new();
    for m in 0..1u32 << 8 {
        for rev in [false, true] {
            work.push((m, rev));
        }
    }
    par_for(rep, &work, |_, &(m, rev)| {
        let pick = |list: &[&'static str], at: usize| -> Vec<&'static str> {
            let mut v: Vec<_> = list.iter().enumerate().filter(|(i, _)| m >> (at + i) & 1 == 1).map(|(_, n)| *n).collect();
            if rev {
                v.reverse();
            }
            v
        };
        let lists = [pick(few[0], 0), pick(few[1], 3), pick(few[2], 6)];
        let want: BTreeSet<(u8, &str)> = lists.iter().enumerate().flat_map(|(a, l)| l.iter().map(move |n| (a as u8 + 1, *n))).collect();
        rep.state(1);
        rep.valid(1);
        let got = open(TABLE, small(), &lists[0], &lists[1], &lists[2]).map(|q| {
            let l = op_list(&w::engine(&q).options().operators);
            (l.len(), l.iter().map(|o| (o.arity, B::name(*o))).collect::<BTreeSet<_>>())
        });
        // A search without operators is refused.
        let fine = if want.is_empty() { got.as_ref().is_err_and(|e| !e.starts_with("panicked")) } else { got == Ok((want.len(), want.clone())) };
        rep.check(fine, || "operators".into(), || format!("a search with the operators {lists:?} has {got:?}"));
        // One of them in a list of another arity, or one that does not exist, is refused.
        for (at, name) in [(0, "add"), (1, "cos"), (2, "mul"), (0, "nothing"), (1, "nothing"), (2, "nothing")] {
            let mut l = lists.clone();
            l[at].push(name);
            let r = open(TABLE, small(), &l[0], &l[1], &l[2]);
            rep.valid(1);
            rep.check(r.is_err(), || "operators-refused".into(), || format!("a search with the operators {l:?} is created"));
        }
    });
}

/// C38: from the text and the form to the rows trained and validated on.
pub fn rows_reach(rep: &Report) {
    let mut work = Vec::new();
    for n_cols in 1..=tier(4usize, 5) {
        for n_rows in [0usize, 1, 3, 5] {
            for y in std::iter::once(None).chain((0..=n_cols).map(Some)) {
                for wc in std::iter::once(None).chain((0..=n_cols).map(Some)) {
                    for head in [false, true] {
                        for vf in [0.0, 0.4] {
                            work.push((n_cols, n_rows, y, wc, head, vf));
                        }
                    }
                }
            }
        }
    }
    par_for(rep, &work, |_, &(n_cols, n_rows, y, wc, head, vf)| {
        let mut lists: Vec<Option<Vec<usize>>> = vec![None];
        for len in 0..=2usize {
            for_each_tuple(n_cols + 1, len, |v| lists.push(Some(v.to_vec())));
        }
        let cell = |r: usize, c: usize| (10 * r + c) as f64 * 0.5 - 2.0;
        let mut text = String::new();
        if head {
            text += &(0..n_cols).map(|c| format!("col{c}")).collect::<Vec<_>>().join(",");
            text += "\n";
        }
        for r in 0..n_rows {
            text += &(0..n_cols).map(|c| format!("{}", cell(r, c))).collect::<Vec<_>>().join(",");
            text += "\n";
        }
        for x in lists {
            let yc = y.unwrap_or(n_cols - 1);
            let xs: BTreeSet<usize> = match &x {
                Some(v) => v.iter().copied().collect(),
                None => (0..n_cols).filter(|c| *c != yc && Some(*c) != wc).collect(),
            };
            let ok = n_rows > 0 && n_cols >= 2 && yc < n_cols && wc.is_none_or(|c| c < n_cols && c != yc) && !xs.is_empty() && xs.iter().all(|c| *c < n_cols && *c != yc && Some(*c) != wc);
            let form = json!({"has_headers": head, "x_columns": x, "y_column": y, "weights_column": wc, "validation_fraction": vf, "populations": 1, "population_size": 2, "maxsize": 3, "seed": 5});
            rep.state(1);
            rep.trans((n_rows * n_cols) as u64);
            rep.valid(1);
            let ctx = || format!("{text:?} with {form}");
            match open(&text, js(&form), &["neg"], &["add"], &[]) {
                Err(e) => {
                    rep.check(!ok && !e.is_empty() && !e.starts_with("panicked"), || "front-refused".into(), || format!("{}: {e}", ctx()));
                }
                Ok(q) => {
                    let split = match catching(|| q.get_split_indices()) {
                        Ok(Ok(s)) => seen(&s),
                        r => {
                            rep.violation("front-split", format!("{}: {r:?}", ctx()));
                            continue;
                        }
                    };
                    let rows = |k: &str| -> Vec<usize> { split[k].as_array().into_iter().flatten().filter_map(|v| v.as_u64()).map(|v| v as usize).collect() };
                    let (train, val) = (rows("train"), rows("val"));
                    let mut all: Vec<usize> = train.iter().chain(&val).copied().collect();
                    all.sort();
                    let n_val = ((vf * n_rows as f64).round() as usize).min(n_rows.saturating_sub(1));
                    let xs: Vec<usize> = xs.iter().copied().collect();
                    let vars: Vec<String> = xs.iter().enumerate().map(|(i, c)| if head { format!("col{c}") } else { format!("x{i}") }).collect();
                    let good = |d: &Dataset<f64>, rows: &[usize]| {
                        d.n_rows == rows.len()
                            && d.n_features == xs.len()
                            && d.variable_names == vars
                            && d.weights.is_some() == wc.is_some()
                            && rows.iter().enumerate().all(|(i, &r)| {
                                d.y[i] == cell(r, yc) && xs.iter().enumerate().all(|(j, &c)| d.x[(j, i)] == cell(r, c)) && d.weights.as_ref().is_none_or(|w| w[i] == cell(r, wc.unwrap()))
                            })
                    };
                    let v = w::val_dataset(&q);
                    let fine = ok && all == (0..n_rows).collect::<Vec<_>>() && val.len() == n_val && good(w::engine(&q).dataset(), &train) && v.is_some() == !val.is_empty() && v.is_none_or(|v| good(v, &val));
                    rep.check(fine, || "front-rows".into(), || format!("{}: split {split}, training on {:?}, validating on {v:?}", ctx(), w::engine(&q).dataset()));
                }
            }
        }
    });
    // The split is that of the seed and the fraction chosen, and the seed matters.
    let rows = 9;
    let text = format!("a,b\n{}", (0..rows).map(|r| format!("{r},{}\n", r * r)).collect::<String>());
    let seeds: Vec<u64> = (0..tier(40, 400)).collect();
    for f in [0.2, 0.5, 0.75] {
        let mut splits = BTreeSet::new();
        for &seed in &seeds {
            rep.state(1);
            rep.valid(1);
            let q = open(&text, js(&json!({"seed": seed, "validation_fraction": f, "populations": 1, "population_size": 2})), &["neg"], &["add"], &[]);
            let got = q.and_then(|q| q.get_split_indices().map(|s| seen(&s)).map_err(|e| format!("{e:?}")));
            let want = w::make_split_indices(rows, f, seed);
            let want = json!({"train": want.train, "val": want.val});
            rep.check(got.as_ref() == Ok(&want), || "front-seed".into(), || format!("the split of {rows} rows by {f} with seed {seed} is {got:?} instead of {want}"));
            splits.insert(want.to_string());
        }
        rep.check(splits.len() > 5, || "front-seed-dead".into(), || format!("{} seeds give {} splits of {rows} rows by {f}", seeds.len(), splits.len()));
    }
    for bad in ["", "\n", "a,b\n", "a,b\n1,x\n", "a,b\n1,2,3\n", "a,b\n1\n", "a,b\n1,nan\n"] {
        rep.state(1);
        rep.valid(1);
        let r = open(bad, js(&json!({"populations": 1, "population_size": 2})), &["neg"], &["add"], &[]);
        rep.check(r.as_ref().is_err_and(|e| !e.starts_with("panicked")), || "front-csv".into(), || format!("a search over {bad:?}: {:?}", r.err()));
    }
}

/// C43: what the page is shown of a search, through the calls it makes.
pub fn shown(rep: &Report, q: &mut WasmSearch, val: bool) -> Result<(), String> {
    let call = |r: Result<Result<JsValue, JsValue>, String>| -> Result<Value, String> {
        match r {
            Ok(Ok(v)) => Ok(seen(&v)),
            Ok(Err(e)) => Err(format!("refused: {e:?}")),
            Err(p) => Err(format!("panicked: {p}")),
        }
    };
    let engine = w::engine(q);
    let (best, front) = (engine.best().clone(), engine.hall_of_fame().pareto_front());
    let point = |m: &Member| json!({"id": m.id.0.to_string(), "complexity": m.complexity, "loss": num(m.loss), "cost": num(m.cost)});
    let summary = |e: &w::Engine, m: &Member| {
        let mut p = point(m);
        p["equation"] = json!(w::summary_from_member(e, m).equation);
        p
    };
    let mut members: Vec<Member> = engine.hall_of_fame().members().cloned().collect();
    members.push(best.clone());
    for k in [0usize, 1, 2, front.len(), front.len() + 3] {
        rep.valid(2);
        let from = front.len().saturating_sub(k);
        let want: Vec<Value> = front[from..].iter().map(|m| summary(w::engine(q), m)).collect();
        let got = call(catching(|| q.best_equations(k)))?;
        if got != Value::Array(want.clone()) {
            return Err(format!("the {k} best equations are {}, shown {got}", Value::Array(want)));
        }
        q.set_pareto_k(k);
        let got = call(catching(|| q.step(0)))?;
        let e = w::engine(q);
        let want = json!({
            "total_cycles": e.total_cycles(), "cycles_completed": e.cycles_completed(), "total_evals": e.total_evals(),
            "best": summary(e, &best), "pareto_points": front[from..].iter().map(point).collect::<Vec<_>>(),
        });
        if got != want {
            return Err(format!("the state is {want}, shown {got}"));
        }
    }
    for m in &members {
        let id = m.id.0.to_string();
        for which in ["train", "val"] {
            rep.valid(1);
            let got = call(catching(|| q.evaluate_member(id.clone(), which.to_string())));
            let d = if which == "train" { Some(w::engine(q).dataset()) } else { w::val_dataset(q) };
            if d.is_some() != (which == "train" || val) {
                return Err("validation rows where none were asked for, or the reverse".into());
            }
            let Some(d) = d else {
                if !matches!(&got, Err(e) if e.starts_with("refused")) {
                    return Err(format!("no validation rows, but evaluating {id} on them gives {got:?}"));
                }
                continue;
            };
            let t = parse(&m.expr)?;
            let want: Vec<f64> = (0..d.n_rows).map(|r| t.eval(&d.x.column(r).to_vec())).collect();
            let got = match got {
                Ok(g) => g,
                Err(e) if want.iter().all(|v| v.is_finite()) => return Err(format!("{} on {which}: {e}", t.show())),
                Err(_) => continue,
            };
            let y: Vec<f64> = got["yhat"].as_array().into_iter().flatten().filter_map(|v| v.as_f64()).collect();
            if y.len() != want.len() || !y.iter().zip(&want).all(|(a, b)| close(*a, *b, 1e-9, 1e-12)) {
                return Err(format!("{} on {which} is {want:?}, shown {got}", t.show()));
            }
            let k = w::compute_metrics(&want, d);
            for (name, v) in [("mse", k.mse), ("mae", k.mae), ("rmse", k.rmse), ("r2", k.r2), ("corr", k.corr), ("min_abs_err", k.min_abs_err), ("max_abs_err", k.max_abs_err), ("n", k.n as f64)] {
                let shown = got["metrics"][name].as_f64().unwrap_or(f64::NAN);
                if !close(shown, v, 1e-6, 1e-9) {
                    return Err(format!("{} on {which}: {name} is {v}, shown {shown}", t.show()));
                }
            }
        }
    }
    for (id, which) in [("99999999999", "train"), ("x", "train"), ("", "train"), ("-1", "train"), (&*best.id.0.to_string(), "test"), (&*best.id.0.to_string(), "")] {
        rep.valid(1);
        let got = call(catching(|| q.evaluate_member(id.to_string(), which.to_string())));
        if !matches!(&got, Err(e) if e.starts_with("refused")) {
            return Err(format!("evaluating member {id:?} on {which:?} gives {got:?}"));
        }
    }
    Ok(())
}
