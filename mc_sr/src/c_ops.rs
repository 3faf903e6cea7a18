//! C39: operator selections.
use crate::common::*;
use dynamic_expressions::operator_enum::builtin;
use dynamic_expressions::HasOp;
use symbolic_regression::{OperatorLibrary, OperatorSelectError as E};

symbolic_regression::custom_opset! {
    pub struct Own<T = f64>;

    1 => {
        halve { display: "½", eval: |[x]| 0.5 * x, partial: |[_x]| 0.5 },
        flip { display: "~", infix: "-", eval: |[x]| -x, partial: |[_x]| -1.0 },
    },
    2 => {
        minus { infix: "-", eval: |[x, y]| x - y, partial: |[_x, _y], i| if i == 0 { 1.0 } else { -1.0 } },
    },
    3 => {
        mix { eval: |[x, y, z]| x * y + (1.0 - x) * z, partial: |[x, y, z], i| match i { 0 => y - z, 1 => x, _ => 1.0 - x } },
    },
}

/// Every operator of a set that a token names.
fn named<O: OperatorSet>(tok: &str) -> Vec<OpId> {
    let t = tok.trim();
    let mut out = Vec::new();
    for a in 1..=O::MAX_ARITY {
        for &id in O::ops_with_arity(a) {
            let op = OpId { arity: a, id };
            let m = O::meta(op).unwrap();
            if t.to_ascii_lowercase() == m.name.to_ascii_lowercase() || t == m.display || m.infix == Some(t) {
                out.push(op);
            }
        }
    }
    out
}

#[derive(Debug, PartialEq, Clone)]
enum Bad {
    Unknown,
    Ambiguous,
    TooLarge,
    Duplicate,
    Empty,
}

fn kind(e: &E) -> Bad {
    match e {
        E::Lookup(dynamic_expressions::LookupError::Unknown(_)) => Bad::Unknown,
        E::Lookup(dynamic_expressions::LookupError::Ambiguous { .. }) => Bad::Ambiguous,
        E::ArityMismatch { .. } => Bad::Unknown,
        E::ArityTooLarge { .. } => Bad::TooLarge,
        E::Duplicate(_) => Bad::Duplicate,
        E::Empty => Bad::Empty,
    }
}

/// What selecting these tokens (each among the operators of its arity, if given) must give.
fn expected<O: OperatorSet>(d: usize, toks: &[(Option<u8>, &str)]) -> Result<Vec<OpId>, Vec<Bad>> {
    let mut bad = Vec::new();
    let mut out: Vec<OpId> = Vec::new();
    if toks.is_empty() {
        return Err(vec![Bad::Empty]);
    }
    for (a, t) in toks {
        let m: Vec<OpId> = named::<O>(t).into_iter().filter(|o| a.is_none_or(|a| a == o.arity)).collect();
        match m.as_slice() {
            [] => bad.push(Bad::Unknown),
            [o] => {
                if o.arity as usize > d {
                    bad.push(Bad::TooLarge);
                }
                if out.contains(o) {
                    bad.push(Bad::Duplicate);
                }
                out.push(*o);
            }
            _ => bad.push(Bad::Ambiguous),
        }
    }
    if bad.is_empty() {
        Ok(out)
    } else {
        Err(bad)
    }
}

fn judge<const D2: usize>(rep: &Report, ctx: &dyn Fn() -> String, got: Result<Operators<D2>, E>, want: Result<Vec<OpId>, Vec<Bad>>) {
    rep.state(1);
    rep.valid(1);
    if let (Ok(_), Ok(w)) = (&got, &want) {
        rep.trans(w.len() as u64);
        if w.len() > 2 {
            rep.sample(|| format!("{}: selected {w:?}", ctx()));
        }
    }
    let ok = match (&got, &want) {
        (Ok(g), Ok(w)) => {
            let lists: Vec<Vec<OpId>> = (1..=D2).map(|a| w.iter().filter(|o| o.arity as usize == a).copied().collect()).collect();
            let counts = (1..=D2).all(|a| g.nops(a) == lists[a - 1].len()) && (0..=D2 + 2).all(|m| g.total_ops_up_to(m) == lists.iter().take(m).map(|l| l.len()).sum::<usize>());
            g.ops_by_arity.to_vec() == lists && counts
        }
        (Err(e), Err(w)) => w.contains(&kind(e)) && !e.to_string().is_empty(),
        _ => false,
    };
    rep.check(ok, || "select".into(), || format!("{}: got {:?}, expected {want:?}", ctx(), got.as_ref().map(|g| &g.ops_by_arity)));
}

fn lists<'a>(alphabet: &[&'a str], max: usize) -> Vec<Vec<&'a str>> {
    let mut out = Vec::new();
    for n in 0..=max {
        for_each_tuple(alphabet.len(), n, |v| out.push(v.iter().map(|&i| alphabet[i]).collect()));
    }
    out
}

fn select<O: OperatorSet, const D2: usize>(rep: &Report, set: &str, alphabet: &[&str], max: usize, max_by: usize) {
    for l in lists(alphabet, max) {
        let want = expected::<O>(D2, &l.iter().map(|t| (None, *t)).collect::<Vec<_>>());
        judge(rep, &|| format!("from_names({l:?}) of {set}, D = {D2}"), Operators::<D2>::from_names::<O>(&l), want);
    }
    let by = lists(alphabet, max_by);
    for u in &by {
        for b in &by {
            for t in by.iter().filter(|t| t.len() <= 1) {
                let mut toks: Vec<(Option<u8>, &str)> = Vec::new();
                toks.extend(u.iter().map(|x| (Some(1), *x)));
                toks.extend(b.iter().map(|x| (Some(2), *x)));
                toks.extend(t.iter().map(|x| (Some(3), *x)));
                let want = expected::<O>(D2, &toks);
                judge(rep, &|| format!("from_names_by_arity({u:?}, {b:?}, {t:?}) of {set}, D = {D2}"), Operators::<D2>::from_names_by_arity::<O>(u, b, t), want);
            }
        }
    }
}

fn same<const D2: usize>(rep: &Report, what: &str, got: &Operators<D2>, want: &[OpId]) {
    let lists: Vec<Vec<OpId>> = (1..=D2).map(|a| want.iter().filter(|o| o.arity as usize == a).copied().collect()).collect();
    rep.state(1);
    rep.valid(1);
    rep.check(got.ops_by_arity.to_vec() == lists, || "builder".into(), || format!("{what}: {:?} instead of {lists:?}", got.ops_by_arity));
}

pub fn c39(rep: &Report) {
    let alpha = ["+", "-", "neg", " COS ", "fma", "*", "abs2", "Sub", "bogus", ""];
    let own = ["½", "-", "~", "flip", "MINUS", "mix", "halve"];
    let n = tier(4, 5);
    let nb = tier(2, 2);
    let jobs: Vec<Box<dyn Fn() + Sync + Send + '_>> = vec![
        Box::new(|| select::<B, 1>(rep, "the built-in set", &alpha, n, nb)),
        Box::new(|| select::<B, 2>(rep, "the built-in set", &alpha, n, nb)),
        Box::new(|| select::<B, 3>(rep, "the built-in set", &alpha, n, nb)),
        Box::new(|| select::<Own, 1>(rep, "a custom set", &own, n, 2)),
        Box::new(|| select::<Own, 2>(rep, "a custom set", &own, n, 2)),
        Box::new(|| select::<Own, 3>(rep, "a custom set", &own, n, 2)),
    ];
    par_for(rep, &jobs, |_, j| j());

    // Builders, macro and library.
    let id = |n: &str, a: u8| op(n, a);
    let four = [id("add", 2), id("sub", 2), id("mul", 2), id("div", 2)];
    same(rep, "sr_default_binary", &Operators::<2>::builder::<B>().sr_default_binary().build(), &four);
    same(rep, "OperatorLibrary, D = 2", &OperatorLibrary::sr_default::<B, 2>(), &four);
    same(rep, "OperatorLibrary, D = 3", &OperatorLibrary::sr_default::<B, 3>(), &four);
    same(rep, "OperatorLibrary, D = 1", &OperatorLibrary::sr_default::<B, 1>(), &[]);
    same(rep, "builder", &Operators::<3>::builder::<B>().unary::<builtin::Cos>().binary::<builtin::Sub>().unary::<builtin::Neg>().nary::<3, builtin::Fma>().binary::<builtin::Add>().build(), &[id("cos", 1), id("neg", 1), id("sub", 2), id("add", 2), id("fma", 3)]);
    same(rep, "sr_ops!", &symbolic_regression::sr_ops!(B, D = 3; 1 => (builtin::Exp, builtin::Neg), 2 => (builtin::Mul,), 3 => (builtin::Fma)), &[id("exp", 1), id("neg", 1), id("mul", 2), id("fma", 3)]);
    same(rep, "sr_ops!", &symbolic_regression::sr_ops!(B, D = 2; 2 => (builtin::Div, builtin::Add)), &[id("div", 2), id("add", 2)]);
    let refuse = |what: &str, r: bool| {
        rep.state(1);
        rep.valid(1);
        rep.check(r, || "refuse".into(), || format!("{what} is accepted"));
    };
    refuse("unary() with a binary operator", catching(|| Operators::<3>::builder::<B>().unary::<builtin::Add>()).is_err());
    refuse("binary() with a unary operator", catching(|| Operators::<3>::builder::<B>().binary::<builtin::Cos>()).is_err());
    refuse("nary::<2>() with a ternary operator", catching(|| Operators::<3>::builder::<B>().nary::<2, builtin::Fma>()).is_err());
    refuse("a ternary operator with D = 2", catching(|| Operators::<2>::builder::<B>().nary::<3, builtin::Fma>()).is_err());
    refuse("a binary operator with D = 1", catching(|| Operators::<1>::builder::<B>().binary::<builtin::Add>()).is_err());
    refuse("push() of a binary operator with D = 1", catching(|| Operators::<1>::new().push(id("add", 2))).is_err());
    refuse("push() of an operator of arity 0", catching(|| Operators::<1>::new().push(OpId { arity: 0, id: 0 })).is_err());
    let _ = <B as HasOp<builtin::Add>>::op_id();

    // Sampling: every selection up to the bound, every draw.
    let names: Vec<(&str, u8)> = vec![("neg", 1), ("cos", 1), ("exp", 1), ("add", 2), ("sub", 2), ("mul", 2), ("div", 2), ("fma", 3), ("clamp", 3)];
    let names: Vec<(&str, u8)> = names.into_iter().filter(|(n, a)| B::lookup_with_arity(n, *a).is_ok()).collect();
    let masks: Vec<u32> = (1..1u32 << names.len()).collect();
    par_for(rep, &masks, |_, &mask| {
        let picked: Vec<(&str, u8)> = names.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, n)| *n).collect();
        let o = ops(&picked);
        for max in 1..=4usize {
            let able: Vec<OpId> = op_list(&o).into_iter().filter(|x| x.arity as usize <= max).collect();
            if able.is_empty() {
                rep.check(catching(|| o.sample_arity(&mut Rng::with_seed(1), max)).is_err(), || "sample-none".into(), || format!("{picked:?}: an arity up to {max} is sampled"));
                continue;
            }
            let mut mass: BTreeMap<usize, f64> = BTreeMap::new();
            let s = mc::explore(&mc::Config::default(), || {
                let a = o.sample_arity(&mut Rng::with_seed(1), max);
                *mass.entry(a).or_insert(0.0) += mc::weight();
                true
            });
            rep.state(mass.len() as u64);
            rep.trans(s.choices);
            for a in 1..=3usize {
                rep.valid(1);
                let want = able.iter().filter(|x| x.arity as usize == a).count() as f64 / able.len() as f64;
                let got = mass.get(&a).copied().unwrap_or(0.0);
                rep.check((got - want).abs() < 1e-9, || "sample-arity".into(), || format!("{picked:?}: arity {a} of at most {max} sampled with probability {got} instead of {want}"));
            }
        }
        for a in 1..=3usize {
            let all: Vec<OpId> = op_list(&o).into_iter().filter(|x| x.arity as usize == a).collect();
            if all.is_empty() {
                continue;
            }
            let mut mass: BTreeMap<u16, f64> = BTreeMap::new();
            mc::explore(&mc::Config::default(), || {
                let x = o.sample_op(&mut Rng::with_seed(1), a);
                if x.arity as usize == a {
                    *mass.entry(x.id).or_insert(0.0) += mc::weight();
                }
                true
            });
            rep.valid(1);
            let ok = mass.len() == all.len() && all.iter().all(|x| (mass.get(&x.id).copied().unwrap_or(0.0) - 1.0 / all.len() as f64).abs() < 1e-9);
            rep.check(ok, || "sample-op".into(), || format!("{picked:?}: operators of arity {a} sampled with probabilities {mass:?}"));
        }
    });
}
