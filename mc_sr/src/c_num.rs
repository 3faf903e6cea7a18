//! C24, C25, C40: constant optimisation, losses, optimisers.
use super::c_f32;
use super::common::*;
use dynamic_expressions::GradContext;
use ndarray::Array1;
use std::cell::{Cell, RefCell};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};

pub fn kinds() -> Vec<LossKind> {
    vec![
        LossKind::Mse,
        LossKind::Mae,
        LossKind::Rmse,
        LossKind::Huber { delta: 1.0 },
        LossKind::Huber { delta: 0.25 },
        LossKind::LogCosh,
        LossKind::Lp { p: 1.0 },
        LossKind::Lp { p: 1.5 },
        LossKind::Lp { p: 3.0 },
        LossKind::Quantile { tau: 0.5 },
        LossKind::Quantile { tau: 0.1 },
        LossKind::Quantile { tau: 0.9 },
        LossKind::EpsilonInsensitive { eps: 0.1 },
        LossKind::EpsilonInsensitive { eps: 0.0 },
    ]
}

// ---------------------------------------------------------------- C25

/// One-sided slopes of the point loss in the prediction, at residual r = yhat - y.
fn slopes(k: LossKind, r: f64) -> (f64, f64) {
    let s = if r > 0.0 { 1.0 } else { -1.0 };
    let both = |v| (v, v);
    match k {
        LossKind::Mse | LossKind::Rmse => both(2.0 * r),
        LossKind::Mae => {
            if r == 0.0 {
                (-1.0, 1.0)
            } else {
                both(s)
            }
        }
        LossKind::Huber { delta } => both(r.clamp(-delta, delta)),
        LossKind::LogCosh => both(r.tanh()),
        LossKind::Lp { p } => {
            if r != 0.0 {
                both(s * p * r.abs().powf(p - 1.0))
            } else if p > 1.0 {
                both(0.0)
            } else {
                (-p, p)
            }
        }
        LossKind::Quantile { tau } => {
            if r == 0.0 {
                (-tau, 1.0 - tau)
            } else if r > 0.0 {
                both(1.0 - tau)
            } else {
                both(-tau)
            }
        }
        LossKind::EpsilonInsensitive { eps } => {
            if r.abs() > eps {
                both(s)
            } else if r.abs() < eps {
                both(0.0)
            } else if r == 0.0 {
                (-1.0, 1.0)
            } else if r > 0.0 {
                (0.0, 1.0)
            } else {
                (-1.0, 0.0)
            }
        }
    }
}

pub fn c25(rep: &Report) {
    rep.assume("weights are non-negative; a weight vector of total zero gives loss zero");
    let res: Vec<f64> = tier(
        vec![0.0, 1e-300, 1e-9, 0.1, -0.1, 0.25, -0.25, 0.7, -0.7, 1.0, -1.0, 1.5, -3.0, 19.9, 20.1, 50.0, -50.0, 800.0, -800.0, 1e10, 1e120],
        vec![0.0, 1e-300, 1e-9, -1e-9, 0.1, -0.1, 0.25, -0.25, 0.7, -0.7, 1.0, -1.0, 1.5, -3.0, 19.9, 20.1, 50.0, -50.0, 800.0, -800.0, 1e10, 1e120, -1e120],
    );
    let ws = [0.0, 0.5, 3.0];
    let ks = kinds();
    let nmax = 4usize;
    let mut work = Vec::new();
    for k in &ks {
        for n in 0..=nmax {
            for w in [false, true] {
                work.push((*k, n, w));
            }
        }
    }
    par_for(rep, &work, |_, &(k, n, weighted)| {
        let loss = make_loss::<f64>(k);
        let loss32 = make_loss::<f32>(k);
        let g: Vec<f64> = if n >= 3 { res.iter().copied().step_by(n - 1).collect() } else { res.clone() };
        for_each_tuple(g.len(), n, |ri| {
            if rep.stop() {
                return;
            }
            let r: Vec<f64> = ri.iter().map(|&i| g[i]).collect();
            for y0 in [0.0, 2.5] {
                if y0 != 0.0 && r.iter().any(|v| v.abs() > 1e15 || (*v != 0.0 && v.abs() < 1e-8)) {
                    continue; // the residual would not survive the rounding of y + r
                }
                let y: Vec<f64> = (0..n).map(|i| y0 * (1.0 + i as f64)).collect();
                let yh: Vec<f64> = y.iter().zip(&r).map(|(y, r)| y + r).collect();
                for_each_tuple(if weighted { ws.len() } else { 1 }, n, |wi| {
                    let w: Option<Vec<f64>> = weighted.then(|| wi.iter().map(|&i| ws[i]).collect());
                    one_loss(rep, k, loss.as_ref(), loss32.as_ref(), &yh, &y, w.as_deref());
                });
            }
        });
    });
    // Many rows: one that stands out at every place, and generic residuals and weights.
    let mut work = Vec::new();
    for k in &ks {
        for n in [16usize, 17, 33, 64, 65, 100, 101, 128, 130, 257, 1000, 4097, 70_001] {
            for w in [false, true] {
                work.push((*k, n, w));
            }
        }
    }
    par_for(rep, &work, |_, &(k, n, weighted)| {
        let loss = make_loss::<f64>(k);
        let loss32 = make_loss::<f32>(k);
        let y: Vec<f64> = (0..n).map(|i| ((i * 37 + 11) % 64) as f64 / 16.0 - 2.0).collect();
        let r: Vec<f64> = (0..n).map(|i| ((i * 29 + 5) % 128) as f64 / 32.0 - 2.0).collect();
        let w: Option<Vec<f64>> = weighted.then(|| (0..n).map(|i| ((i * 13 + 3) % 16) as f64 / 4.0).collect());
        let places: Vec<usize> = if n <= 257 { (0..n).collect() } else { vec![0, 1, 63, 64, 65, 255, 256, 999, n / 2, n - 2, n - 1] };
        for at in places {
            let yh: Vec<f64> = (0..n).map(|i| y[i] + r[i] + if i == at { 40.0 } else { 0.0 }).collect();
            one_loss(rep, k, loss.as_ref(), loss32.as_ref(), &yh, &y, w.as_deref());
            if let Some(w) = &w {
                let mut w = w.clone();
                w[at] = 8.0;
                one_loss(rep, k, loss.as_ref(), loss32.as_ref(), &yh, &y, Some(&w));
            }
            let lone: Vec<f64> = (0..n).map(|i| if i == at { 0.5 } else { 0.0 }).collect();
            one_loss(rep, k, loss.as_ref(), loss32.as_ref(), &lone, &vec![0.0; n], w.as_deref());
        }
    });
    // Costs.
    for loss in [0.0, 1e-9, 0.005, 0.5, 3.0, 1e30, f64::INFINITY] {
        for cx in [0usize, 1, 7, 30] {
            for pars in [0.0, 1e-3, 0.5] {
                for ub in [false, true] {
                    for base in [None, Some(0.0), Some(0.009), Some(0.01), Some(0.5), Some(20.0), Some(f64::NAN), Some(f64::INFINITY)] {
                        let got = loss_to_cost::<f64>(loss, cx, pars, ub, base);
                        let want = ref_cost(loss, cx, pars, ub, base);
                        rep.state(1);
                        rep.valid(1);
                        rep.check(close(got, want, 1e-12, 0.0), || "cost".into(), || format!("cost of loss {loss}, complexity {cx}, parsimony {pars}, baseline {base:?} (used: {ub}): {got} instead of {want}"));
                    }
                }
            }
        }
    }
    // Names.
    let names: [(&str, LossKind); 11] = [
        ("mse", LossKind::Mse),
        ("mae", LossKind::Mae),
        ("rmse", LossKind::Rmse),
        ("huber", LossKind::Huber { delta: 1.0 }),
        ("logcosh", LossKind::LogCosh),
        ("lp", LossKind::Lp { p: 2.0 }),
        ("quantile", LossKind::Quantile { tau: 0.5 }),
        ("epsilon-insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
        ("epsilon_insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
        ("eps-insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
        ("eps_insensitive", LossKind::EpsilonInsensitive { eps: 0.1 }),
    ];
    for (s, k) in names {
        for v in [s.to_string(), s.to_uppercase(), format!("  {s}\t")] {
            rep.state(1);
            rep.valid(1);
            rep.check(LossKind::parse(&v) == Some(k), || "parse".into(), || format!("{v:?} parses as {:?}", LossKind::parse(&v)));
        }
        let bad = format!("{s}x");
        rep.check(LossKind::parse(&bad).is_none(), || "parse".into(), || format!("{bad:?} parses as {:?}", LossKind::parse(&bad)));
    }
    rep.check(LossKind::parse("").is_none(), || "parse".into(), || "an empty name parses".into());
}

fn one_loss(rep: &Report, k: LossKind, loss: &dyn LossFn<f64>, loss32: &dyn LossFn<f32>, yh: &[f64], y: &[f64], w: Option<&[f64]>) {
    let n = y.len();
    let want = if n == 0 { 0.0 } else { ref_loss(k, yh, y, w) };
    let got = loss.loss(yh, y, w);
    rep.state(1);
    rep.trans(n as u64);
    rep.valid(if n == 0 { 1 } else { 2 });
    if n == 3 && w.is_some_and(|w| w[0] != w[2]) && want != 0.0 && want < 1e3 && y[0] != 0.0 {
        rep.sample(|| format!("{k:?}, predictions {yh:?}, targets {y:?}, weights {w:?}: loss {got}"));
    }
    let ctx = || format!("{k:?}, predictions {yh:?}, targets {y:?}, weights {w:?}");
    // ln(cosh r) is exact to rounding of cosh r, so small values have an absolute error.
    rep.check(close(got, want, 1e-9, 1e-15), || format!("loss:{k:?}"), || format!("{}: loss {got:?} instead of {want:?}", ctx()));
    let mut d = vec![f64::NAN; n];
    loss.dloss_dyhat(yh, y, w, &mut d);
    let wsum: f64 = w.map(|w| w.iter().sum()).unwrap_or(n as f64);
    for i in 0..n {
        let wi = w.map(|w| w[i]).unwrap_or(1.0);
        let (mut lo, mut hi) = slopes(k, yh[i] - y[i]);
        let scale = if wsum == 0.0 { 0.0 } else { wi / wsum };
        let mut kink = false;
        if matches!(k, LossKind::Rmse) {
            if want == 0.0 {
                // |r| at its minimum: any slope between -1 and 1 times the square root of the share.
                (lo, hi) = (-scale.sqrt(), scale.sqrt());
                kink = true;
            } else if !want.is_finite() {
                continue;
            } else {
                lo = lo * scale / (2.0 * want);
                hi = hi * scale / (2.0 * want);
            }
        } else {
            lo *= scale;
            hi *= scale;
        }
        kink |= lo != hi;
        let tol = 1e-9 * lo.abs().max(hi.abs()) + 1e-15;
        let ok = d[i] >= lo - tol && d[i] <= hi + tol;
        rep.check(ok, || format!("slope:{k:?}"), || format!("{}: derivative {} is {:?}, expected {lo:?} to {hi:?}", ctx(), i, d[i]));
        let _ = kink;
    }
    // Single precision follows, where the inputs are exact in it.
    let f = |v: &[f64]| v.iter().map(|&x| x as f32).collect::<Vec<f32>>();
    let (yh32, y32) = (f(yh), f(y));
    let w32 = w.map(f);
    let back: Vec<f64> = yh32.iter().map(|&v| v as f64).collect();
    let yb: Vec<f64> = y32.iter().map(|&v| v as f64).collect();
    if back.iter().all(|v| v.abs() < 1e5) {
        let want = if n == 0 { 0.0 } else { ref_loss(k, &back, &yb, w) };
        let got = loss32.loss(&yh32, &y32, w32.as_deref()) as f64;
        rep.check(close(got, want, 2e-5_f64.max(1.5e-7 * n as f64), 2e-6), || format!("loss32:{k:?}"), || format!("{} in f32: loss {got:?} instead of {want:?}", ctx()));
    }
}

// ---------------------------------------------------------------- C40

type F = fn(&[f64]) -> Option<f64>;
type G = fn(&[f64]) -> Vec<f64>;

struct Obj {
    name: &'static str,
    n: usize,
    f: F,
    g: G,
    starts: &'static [&'static [f64]],
    /// Smooth, strictly convex, finite everywhere near the starts: enough iterations find the minimum.
    convex: bool,
}

/// Quadratic in any number of parameters, each coupled to the next.
fn chain_f(x: &[f64]) -> Option<f64> {
    let own: f64 = x.iter().enumerate().map(|(i, v)| (1.0 + (i % 4) as f64) * (v - 0.25 * i as f64 - 1.0).powi(2)).sum();
    Some(own + x.windows(2).map(|p| 0.5 * p[0] * p[1]).sum::<f64>())
}

fn chain_g(x: &[f64]) -> Vec<f64> {
    (0..x.len())
        .map(|i| {
            let mut g = 2.0 * (1.0 + (i % 4) as f64) * (x[i] - 0.25 * i as f64 - 1.0);
            if i > 0 {
                g += 0.5 * x[i - 1];
            }
            if i + 1 < x.len() {
                g += 0.5 * x[i + 1];
            }
            g
        })
        .collect()
}

fn objectives() -> Vec<Obj> {
    vec![
        Obj { name: "3(x-2)^2+1", n: 1, f: |x| Some(3.0 * (x[0] - 2.0).powi(2) + 1.0), g: |x| vec![6.0 * (x[0] - 2.0)], starts: &[&[0.0], &[2.0], &[-40.0], &[1e6], &[2.0000001]], convex: true },
        Obj { name: "0.01(x+5)^2", n: 1, f: |x| Some(0.01 * (x[0] + 5.0).powi(2)), g: |x| vec![0.02 * (x[0] + 5.0)], starts: &[&[0.0], &[50.0], &[-5.0]], convex: true },
        Obj { name: "exp(x)-x", n: 1, f: |x| Some(x[0].exp() - x[0]), g: |x| vec![x[0].exp() - 1.0], starts: &[&[0.5], &[-3.0], &[3.0]], convex: true },
        Obj { name: "sin(x)+x^2/10", n: 1, f: |x| Some(x[0].sin() + 0.1 * x[0] * x[0]), g: |x| vec![x[0].cos() + 0.2 * x[0]], starts: &[&[0.0], &[3.0], &[6.0], &[-9.0]], convex: false },
        Obj { name: "x^4-x^2", n: 1, f: |x| Some(x[0].powi(4) - x[0] * x[0]), g: |x| vec![4.0 * x[0].powi(3) - 2.0 * x[0]], starts: &[&[0.0], &[0.1], &[2.0], &[-1.0]], convex: false },
        Obj { name: "|x-1|", n: 1, f: |x| Some((x[0] - 1.0).abs()), g: |x| vec![if x[0] > 1.0 { 1.0 } else if x[0] < 1.0 { -1.0 } else { 0.0 }], starts: &[&[0.0], &[1.0], &[7.3]], convex: false },
        Obj { name: "(sqrt(x)-2)^2", n: 1, f: |x| if x[0] >= 0.0 { Some((x[0].sqrt() - 2.0).powi(2)) } else { None }, g: |x| vec![(x[0].sqrt() - 2.0) / x[0].sqrt()], starts: &[&[1.0], &[30.0], &[-1.0], &[1e-3]], convex: false },
        Obj { name: "x-ln x, NaN outside", n: 1, f: |x| Some(x[0] - x[0].ln()), g: |x| vec![1.0 - 1.0 / x[0]], starts: &[&[0.2], &[3.0], &[-1.0]], convex: false },
        Obj { name: "x (unbounded)", n: 1, f: |x| Some(x[0]), g: |_| vec![1.0], starts: &[&[0.0], &[-3.0]], convex: false },
        Obj { name: "a^2+10(b+2)^2", n: 2, f: |x| Some(x[0] * x[0] + 10.0 * (x[1] + 2.0).powi(2)), g: |x| vec![2.0 * x[0], 20.0 * (x[1] + 2.0)], starts: &[&[1.0, 0.0], &[0.0, -2.0], &[-30.0, 12.0]], convex: true },
        Obj { name: "a^2+ab+b^2-a", n: 2, f: |x| Some(x[0] * x[0] + x[0] * x[1] + x[1] * x[1] - x[0]), g: |x| vec![2.0 * x[0] + x[1] - 1.0, x[0] + 2.0 * x[1]], starts: &[&[0.0, 0.0], &[5.0, -5.0]], convex: true },
        Obj { name: "rosenbrock", n: 2, f: |x| Some((1.0 - x[0]).powi(2) + 100.0 * (x[1] - x[0] * x[0]).powi(2)), g: |x| vec![-2.0 * (1.0 - x[0]) - 400.0 * x[0] * (x[1] - x[0] * x[0]), 200.0 * (x[1] - x[0] * x[0])], starts: &[&[-1.2, 1.0], &[0.0, 0.0], &[1.0, 1.0]], convex: false },
        Obj { name: "a+b-ln a-ln b, None outside", n: 2, f: |x| if x[0] > 0.0 && x[1] > 0.0 { Some(x[0] + x[1] - x[0].ln() - x[1].ln()) } else { None }, g: |x| vec![1.0 - 1.0 / x[0], 1.0 - 1.0 / x[1]], starts: &[&[0.1, 3.0], &[5.0, 5.0], &[-1.0, 1.0]], convex: false },
        Obj { name: "|a|+|b-1|", n: 2, f: |x| Some(x[0].abs() + (x[1] - 1.0).abs()), g: |x| vec![x[0].signum(), (x[1] - 1.0).signum()], starts: &[&[1.0, 0.3], &[-2.0, 4.0]], convex: false },
        Obj { name: "a^2+2b^2+3c^2+ab+bc-c", n: 3, f: |x| Some(x[0] * x[0] + 2.0 * x[1] * x[1] + 3.0 * x[2] * x[2] + x[0] * x[1] + x[1] * x[2] - x[2]), g: |x| vec![2.0 * x[0] + x[1], 4.0 * x[1] + x[0] + x[2], 6.0 * x[2] + x[1] - 1.0], starts: &[&[1.0, 1.0, 1.0], &[-7.0, 0.0, 3.0]], convex: true },
        Obj { name: "chain of 5", n: 5, f: chain_f, g: chain_g, starts: &[&[0.0; 5], &[3.0; 5]], convex: true },
        Obj { name: "chain of 9", n: 9, f: chain_f, g: chain_g, starts: &[&[0.0; 9], &[-2.0; 9]], convex: true },
        Obj { name: "chain of 17", n: 17, f: chain_f, g: chain_g, starts: &[&[0.0; 17]], convex: true },
        Obj { name: "chain of 40", n: 40, f: chain_f, g: chain_g, starts: &[&[0.0; 40]], convex: true },
        Obj { name: "constant", n: 2, f: |_| Some(4.0), g: |_| vec![0.0, 0.0], starts: &[&[1.0, 2.0]], convex: false },
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// Calls from this one on fail.
    From(usize, u8),
    /// Only this call fails.
    At(usize, u8),
}

struct Run {
    r: Option<(Vec<f64>, f64, usize)>,
    calls: usize,
}

fn minimise(o: &Obj, x0: &[f64], lim: (usize, usize, f64), fault: Fault) -> Run {
    let calls = Cell::new(0usize);
    let fails = || {
        let k = calls.get();
        calls.set(k + 1);
        match fault {
            Fault::From(n, m) if k >= n => Some(m),
            Fault::At(n, m) if k == n => Some(m),
            _ => None,
        }
    };
    let bad = |m: u8| match m {
        0 => None,
        1 => Some(f64::NAN),
        _ => Some(f64::INFINITY),
    };
    let mut f = |x: &[f64]| match fails() {
        Some(m) => bad(m),
        None => (o.f)(x),
    };
    let mut fg = |x: &[f64], g: &mut [f64]| match fails() {
        Some(m) => {
            g.fill(f64::NAN);
            bad(m)
        }
        None => {
            let v = (o.f)(x)?;
            g.copy_from_slice(&(o.g)(x));
            Some(v)
        }
    };
    let r = if o.n == 1 { newton_1d(x0[0], &mut f, &mut fg, lim) } else { bfgs(x0, &mut f, &mut fg, lim) };
    Run { r, calls: calls.get() }
}

pub fn c40(rep: &Report) {
    rep.assume("objectives are deterministic; one parameter is optimised by Newton's method, several by BFGS, as the search does");
    let objs = objectives();
    let mut work = Vec::new();
    for (i, o) in objs.iter().enumerate() {
        for s in o.starts {
            work.push((i, *s));
        }
    }
    let iters: Vec<usize> = tier((0..=40).chain([80, 400]).collect(), (0..=120).chain([400, 1000]).collect());
    let limits: Vec<usize> = tier((1..=600).collect(), (1..=2000).collect());
    par_for(rep, &work, |_, &(oi, x0)| {
        let o = &objs[oi];
        let f0 = (o.f)(x0).filter(|v| v.is_finite());
        // `must`: a result is required.
        let judge = |r: &Run, ctx: &dyn Fn() -> String, must: bool, limit: usize| -> Option<f64> {
            rep.state(1);
            rep.trans(r.calls as u64);
            let Some((x, m, c)) = &r.r else {
                rep.check(!must, || format!("none:{}", o.name), || format!("{}: no result", ctx()));
                return None;
            };
            rep.valid(1);
            rep.check(x.len() == o.n, || format!("len:{}", o.name), || format!("{}: minimiser {x:?}", ctx()));
            match f0 {
                None => {
                    rep.check(false, || format!("start:{}", o.name), || format!("{}: the start has no finite value, but the result is {x:?}", ctx()));
                }
                Some(f0) => {
                    let v = (o.f)(x);
                    rep.check(v.map(f64::to_bits) == Some(m.to_bits()), || format!("value:{}", o.name), || format!("{}: minimum {m} at {x:?}, where the objective is {v:?}", ctx()));
                    rep.check(*m <= f0, || format!("worse:{}", o.name), || format!("{}: minimum {m}, start {f0}", ctx()));
                }
            }
            rep.check(*c == r.calls, || format!("calls:{}", o.name), || format!("{}: {c} calls reported, {} made", ctx(), r.calls));
            if limit > 0 {
                rep.check(r.calls <= limit + 3, || format!("limit:{}", o.name), || format!("{}: {} calls", ctx(), r.calls));
            }
            Some(*m)
        };
        let monotone = |prev: &mut Option<f64>, m: Option<f64>, ctx: &dyn Fn() -> String| {
            if let Some(p) = *prev {
                rep.check(m.is_some_and(|m| m <= p), || format!("lost:{}", o.name), || format!("{}: {m:?}, with less budget {p}", ctx()));
            }
            if let (Some(m), p) = (m, *prev) {
                *prev = Some(p.map_or(m, |p| p.min(m)));
            }
        };
        let mut prev = None;
        for &it in &iters {
            let lim = (it, 0, 1e-8);
            let ctx = || format!("{} from {x0:?}, {it} iterations", o.name);
            let r = minimise(o, x0, lim, Fault::None);
            let again = minimise(o, x0, lim, Fault::None);
            rep.check(r.r == again.r, || "deterministic".into(), || format!("{}: two runs differ", ctx()));
            let m = judge(&r, &ctx, it > 0 && f0.is_some(), 0);
            monotone(&mut prev, m, &ctx);
            if it == 0 || f0.is_none() {
                continue;
            }
            // Faults at every call.
            for kind in 0..3u8 {
                let mut best = None;
                for k in 0..r.calls.min(tier(600, 2000)) {
                    let ctx = || format!("{} from {x0:?}, {it} iterations, calls from {k} on fail with {}", o.name, ["nothing", "NaN", "infinity"][kind as usize]);
                    let q = minimise(o, x0, lim, Fault::From(k, kind));
                    let m = judge(&q, &ctx, k > 0, 0);
                    monotone(&mut best, m, &ctx);
                    let ctx = || format!("{} from {x0:?}, {it} iterations, call {k} fails with {}", o.name, ["nothing", "NaN", "infinity"][kind as usize]);
                    let q = minimise(o, x0, lim, Fault::At(k, kind));
                    judge(&q, &ctx, k > 0, 0);
                }
                monotone(&mut best, m, &ctx);
            }
        }
        let mut prev = None;
        for &l in &limits {
            let ctx = || format!("{} from {x0:?}, call limit {l}", o.name);
            let r = minimise(o, x0, (1000, l, 1e-8), Fault::None);
            let m = judge(&r, &ctx, f0.is_some(), l);
            monotone(&mut prev, m, &ctx);
        }
        if o.convex {
            let r = minimise(o, x0, (300, 0, 1e-8), Fault::None);
            if let Some((x, _, _)) = &r.r {
                let g = (o.g)(x).iter().fold(0.0f64, |a, v| a.max(v.abs()));
                rep.check(g <= 1e-5, || format!("converge:{}", o.name), || format!("{} from {x0:?}: after {} calls the gradient is still {g:e} at {x:?}", o.name, r.calls));
            }
        }
        rep.sample(|| format!("{} from {x0:?}: {:?}", o.name, minimise(o, x0, (8, 0, 1e-8), Fault::None).r));
    });
}

// ---------------------------------------------------------------- C24

/// A loss that counts how often it is computed.
struct Counted {
    inner: LossObject<f64>,
    calls: Arc<AtomicUsize>,
}

impl LossFn<f64> for Counted {
    fn loss(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> f64 {
        self.calls.fetch_add(1, Ordering::Relaxed);
        self.inner.loss(yhat, y, w)
    }
    fn dloss_dyhat(&self, yhat: &[f64], y: &[f64], w: Option<&[f64]>, out: &mut [f64]) {
        self.inner.dloss_dyhat(yhat, y, w, out)
    }
}

struct OptCase {
    t: Tr,
    share: bool,
    kind: LossKind,
    weighted: bool,
    batch: bool,
    restarts: usize,
    iterations: usize,
    limit: usize,
    rows: usize,
    /// Expected relative excess over the least-squares optimum, if reachable.
    linear: bool,
}

pub fn c24(rep: &Report) {
    rep.assume("the member's recorded loss is up to date on the data set it is optimised on, except where stated; finite data");
    let o2 = [op("add", 2), op("mul", 2), op("div", 2)];
    let o1 = [op("exp", 1), op("sin", 1), op("sqrt", 1), op("log", 1)];
    let all: Vec<OpId> = if OWN { vec![op("exp", 1), op("mul", 2), op("join", 4)] } else { o1.iter().chain(&o2).copied().collect() };
    let consts = [0.5, -1.3];
    let mut shapes: Vec<Tr> = trees(&[Tr::V(0), c(consts[0]), c(consts[1])], &all, 5 + OWN as usize);
    shapes.retain(|t| {
        let mut k = Vec::new();
        t.consts(&mut k);
        !k.is_empty() || t.size() <= 2
    });
    let add = |a: Tr, b: Tr| Tr::O(2, op("add", 2).id, vec![a, b]);
    let mul = |a: Tr, b: Tr| Tr::O(2, op("mul", 2).id, vec![a, b]);
    let lin = vec![
        c(0.5),
        mul(c(0.5), Tr::V(0)),
        add(c(3.0), Tr::V(0)),
        add(mul(c(-1.3), Tr::V(0)), c(0.5)),
        add(add(mul(c(-1.3), Tr::V(0)), c(0.5)), mul(c(2.0), Tr::V(1))),
    ];
    let mut work: Vec<OptCase> = Vec::new();
    let base = |t: &Tr| OptCase { t: t.clone(), share: true, kind: LossKind::Mse, weighted: false, batch: false, restarts: 0, iterations: 8, limit: 10_000, rows: 5, linear: false };
    for t in &lin {
        for weighted in [false, true] {
            for restarts in [0, 1] {
                work.push(OptCase { weighted, restarts, linear: true, ..base(t) });
            }
        }
        for kind in kinds() {
            for weighted in [false, true] {
                work.push(OptCase { kind, weighted, restarts: 1, ..base(t) });
            }
        }
        for limit in 0..=12 {
            for iterations in [0, 1, 2, 8] {
                work.push(OptCase { limit, iterations, restarts: 1, ..base(t) });
            }
        }
    }
    // Many rows, and more constants than usual.
    let monomials: Vec<Tr> = vec![Tr::V(0), Tr::V(1), mul(Tr::V(0), Tr::V(0)), mul(Tr::V(0), Tr::V(1)), mul(Tr::V(1), Tr::V(1))];
    let wide = |n: usize| (0..n).fold(c(0.4), |t, k| add(t, mul(c(0.3 - 0.2 * k as f64), monomials[k].clone())));
    for rows in [33usize, 65, 130, 300] {
        for weighted in [false, true] {
            for t in &lin {
                work.push(OptCase { rows, weighted, linear: true, ..base(t) });
                work.push(OptCase { rows, weighted, restarts: 1, kind: LossKind::Mae, ..base(t) });
                work.push(OptCase { rows, weighted, batch: true, restarts: 1, ..base(t) });
            }
            for n in 3..=5 {
                work.push(OptCase { rows, weighted, iterations: 300, linear: true, ..base(&wide(n)) });
            }
        }
    }
    for t in &shapes {
        for share in [true, false] {
            work.push(OptCase { share, restarts: 1, ..base(t) });
            work.push(OptCase { share, kind: LossKind::Mae, weighted: true, restarts: 0, ..base(t) });
            work.push(OptCase { share, batch: true, restarts: 0, iterations: 3, ..base(t) });
            work.push(OptCase { share, restarts: 2, iterations: 2, limit: 9, weighted: true, ..base(t) });
        }
    }
    let sets: BTreeMap<usize, (Dataset<f64>, Dataset<f64>)> = [5usize, 33, 65, 130, 300].into_iter().map(|n| (n, (dataset(2, n), wdataset(2, n)))).collect();
    let fits = Cell::new(0u64);
    let _ = fits;
    par_for(rep, &work, |_, case| {
        let d = if case.weighted { &sets[&case.rows].1 } else { &sets[&case.rows].0 };
        let sub;
        let d = if case.batch {
            let mut b = Dataset::make_batch_buffer(d, if case.rows > 5 { case.rows / 2 } else { 3 });
            b.resample_from(d, &mut Rng::with_seed(4));
            sub = b;
            &sub
        } else {
            d
        };
        let mut o = quiet_options(Operators::new());
        o.operators = ops(&[("exp", 1), ("sin", 1), ("sqrt", 1), ("log", 1), ("add", 2), ("mul", 2), ("div", 2)]);
        if OWN {
            o.operators.push(op("join", 4));
        }
        let calls = Arc::new(AtomicUsize::new(0));
        o.loss = Arc::new(Counted { inner: make_loss(case.kind), calls: calls.clone() });
        o.optimizer_nrestarts = case.restarts;
        o.optimizer_iterations = case.iterations;
        o.optimizer_f_calls_limit = case.limit;
        o.parsimony = 0.01;
        let base_loss = baseline_loss_from_zero_expression::<f64, B, D>(d, o.loss.as_ref());
        let ds = TaggedDataset::new(d, base_loss);
        let start = evaluated(7, 11, case.t.expr(case.share), &ds, &o);
        let fp = fingerprint(&start);
        let ctx = |m: &Member| {
            format!(
                "{} ({:?}, weighted {}, batch {}, {} restarts, {} iterations, call limit {}) -> {} loss {}; choices {:?}",
                case.t.show(), case.kind, case.weighted, case.batch, case.restarts, case.iterations, case.limit, show(&m.expr), m.loss, mc::trace()
            )
        };
        let seen: RefCell<BTreeSet<String>> = RefCell::new(BTreeSet::new());
        let has = !start.expr.consts.is_empty();
        let menu = tier(vec![1e-3, 0.3, 0.8], vec![0.0, 1e-3, 0.3, 0.8]);
        // Two more draws decide one constant's perturbation.
        let cfg = mc::Config { f64_menu: menu, int_cap: 16, max_depth: tier(6, 8), max_runs: 0 };
        let s = mc::explore(&cfg, || {
            let mut m = start.clone();
            let mut ev = Evaluator::new(d.n_rows);
            let mut gc = GradContext::<f64, D>::new(d.n_rows);
            let mut birth = 50u64;
            let mut rng = Rng::with_seed(9);
            calls.store(0, Ordering::Relaxed);
            let (improved, evals) = optimize_constants(&mut rng, &mut m, OptimizeConstantsCtx { dataset: ds.clone(), options: &o, evaluator: &mut ev, grad_ctx: &mut gc, next_birth: &mut birth });
            let used = calls.load(Ordering::Relaxed);
            rep.valid(1);
            let mut bad = String::new();
            // Each start has a budget of its own (up to the step in progress); the member is evaluated before and after.
            if case.limit > 0 && used > (1 + case.restarts) * (case.limit + 4) + 4 {
                bad = format!("the loss is computed {used} times");
            } else if !improved {
                if fingerprint(&m) != fp || birth != 50 {
                    bad = format!("no improvement reported, but the member or the birth counter ({birth}) changed");
                }
            } else {
                let same = m.expr.nodes == start.expr.nodes && m.expr.consts.len() == start.expr.consts.len() && m.id == start.id && m.parent == start.parent && m.complexity == start.complexity;
                if !has {
                    bad = "improvement without constants".into();
                } else if !same {
                    bad = "more than the constants changed".into();
                } else if m.birth != 50 || birth != 51 {
                    bad = format!("birth {} and counter {birth}", m.birth);
                } else if !(m.loss < start.loss) {
                    bad = format!("loss {} is no improvement over {}", m.loss, start.loss);
                } else if !(m.cost < start.cost) {
                    bad = format!("cost {} is no improvement over {}", m.cost, start.cost);
                } else if m.expr.consts.iter().any(|v| !v.is_finite()) {
                    bad = "a constant is not finite".into();
                } else if let Err(e) = truthful(&m, d, base_loss, &o, case.kind, 1e-9) {
                    bad = e;
                } else if evals < 1.0 {
                    bad = format!("improved in {evals} evaluations");
                }
            }
            if !evals.is_finite() || evals < 0.0 {
                bad = format!("{evals} evaluations");
            }
            if bad.is_empty() && case.linear {
                let best = least_squares(case, d);
                if !(m.loss <= best * (1.0 + 1e-6) + 1e-9) {
                    bad = format!("loss {} where {best} is reachable", m.loss);
                }
            }
            rep.check(bad.is_empty(), || "optimise".into(), || format!("{}: {bad}", ctx(&m)));
            seen.borrow_mut().insert(fingerprint(&m));
            !rep.stop()
        });
        rep.state(seen.borrow().len() as u64);
        rep.trans(s.choices + s.runs);
        rep.note("members optimised", 1);
        if seen.borrow().len() > 2 {
            rep.sample(|| format!("{} ({:?}, weighted {}, batch {}, {} restarts, {} iterations, call limit {}): {} RNG outcomes, {} different results, one of them {}", case.t.show(), case.kind, case.weighted, case.batch, case.restarts, case.iterations, case.limit, s.runs, seen.borrow().len(), seen.borrow().last().unwrap()));
        }
        // Switched off: nothing happens.
        let mut off = o.clone();
        off.should_optimize_constants = false;
        let mut m = start.clone();
        let mut birth = 50u64;
        let r = optimize_constants(&mut Rng::with_seed(1), &mut m, OptimizeConstantsCtx { dataset: ds, options: &off, evaluator: &mut Evaluator::new(d.n_rows), grad_ctx: &mut GradContext::new(d.n_rows), next_birth: &mut birth });
        rep.check(!r.0 && fingerprint(&m) == fp && birth == 50, || "off".into(), || format!("{}: optimised although that is switched off", case.t.show()));
        single(rep, case, d, &o, &cfg);
    });
}

/// The same in single precision.
fn single(rep: &Report, case: &OptCase, d: &Dataset<f64>, o: &Opts, cfg: &mc::Config) {
    let d32 = c_f32::ds32(d);
    let o32 = c_f32::opts32(o, case.kind);
    let base = c_f32::baseline32(&d32, &o32);
    let ds = TaggedDataset::new(&d32, base);
    let mut start = c_f32::Member32::from_expr(MemberId(7), None, 11, c_f32::narrow_expr(&case.t.expr(case.share)), d.n_features);
    let _ = start.evaluate(&ds, &o32, &mut Evaluator::new(d.n_rows));
    let wide = |m: &c_f32::Member32| c_f32::widen(m, d.n_features);
    let fp = fingerprint(&wide(&start));
    let s = mc::explore(cfg, || {
        let mut m = start.clone();
        let mut gc = GradContext::<f32, D>::new(d.n_rows);
        let mut birth = 50u64;
        let (improved, _) = optimize_constants(&mut Rng::with_seed(9), &mut m, OptimizeConstantsCtx { dataset: ds, options: &o32, evaluator: &mut Evaluator::new(d.n_rows), grad_ctx: &mut gc, next_birth: &mut birth });
        rep.valid(1);
        let mut bad = String::new();
        if !improved {
            if fingerprint(&wide(&m)) != fp || birth != 50 {
                bad = format!("no improvement reported, but the member or the birth counter ({birth}) changed");
            }
        } else if m.expr.nodes != start.expr.nodes || m.expr.consts.len() != start.expr.consts.len() || m.id != start.id || m.parent != start.parent || m.complexity != start.complexity {
            bad = "more than the constants changed".into();
        } else if m.birth != 50 || birth != 51 {
            bad = format!("birth {} and counter {birth}", m.birth);
        } else if !(m.loss < start.loss) || m.cost > start.cost {
            bad = format!("loss {}, cost {}: no improvement over {} and {}", m.loss, m.cost, start.loss, start.cost);
        } else if let Err(e) = c_f32::truthful32(&wide(&m), &d32, base, o, case.kind) {
            bad = e;
        }
        if bad.is_empty() && case.linear {
            let best = least_squares(case, d);
            if !(m.loss as f64 <= best * (1.0 + 1e-3) + 1e-4) {
                bad = format!("loss {} where {best} is reachable", m.loss);
            }
        }
        rep.check(bad.is_empty(), || "optimise32".into(), || format!("in single precision: {} ({:?}, weighted {}, batch {}, {} restarts, {} iterations, call limit {}) -> {} loss {}; choices {:?}: {bad}", case.t.show(), case.kind, case.weighted, case.batch, case.restarts, case.iterations, case.limit, show(&c_f32::widen_expr(&m.expr)), m.loss, mc::trace()));
        !rep.stop()
    });
    rep.trans(s.choices + s.runs);
    rep.note("members optimised in single precision", 1);
}

/// Loss at the weighted least-squares solution of an expression linear in its constants.
fn least_squares(case: &OptCase, d: &Dataset<f64>) -> f64 {
    let mut k = Vec::new();
    case.t.consts(&mut k);
    let n = k.len();
    let row = |vals: &[f64], r: usize| {
        fn put(t: &Tr, vals: &[f64], i: &mut usize) -> Tr {
            match t {
                Tr::C(_) => {
                    *i += 1;
                    c(vals[*i - 1])
                }
                Tr::V(f) => Tr::V(*f),
                Tr::O(a, o, ch) => Tr::O(*a, *o, ch.iter().map(|x| put(x, vals, i)).collect()),
            }
        }
        let x: Vec<f64> = (0..d.n_features).map(|f| d.x[(f, r)]).collect();
        put(&case.t, vals, &mut 0).eval(&x)
    };
    // f(r, k) = f0(r) + sum k_i (f_i(r) - f0(r))
    let zero = vec![0.0; n];
    let mut a = vec![vec![0.0; n + 1]; n];
    let wts: Array1<f64> = d.weights.clone().unwrap_or_else(|| Array1::ones(d.n_rows));
    let basis = |r: usize| -> (f64, Vec<f64>) {
        let f0 = row(&zero, r);
        let fs = (0..n)
            .map(|i| {
                let mut e = zero.clone();
                e[i] = 1.0;
                row(&e, r) - f0
            })
            .collect();
        (f0, fs)
    };
    for r in 0..d.n_rows {
        let (f0, fs) = basis(r);
        for i in 0..n {
            for j in 0..n {
                a[i][j] += wts[r] * fs[i] * fs[j];
            }
            a[i][n] += wts[r] * fs[i] * (d.y[r] - f0);
        }
    }
    for i in 0..n {
        let p = (i..n).max_by(|&x, &y| a[x][i].abs().total_cmp(&a[y][i].abs())).unwrap();
        a.swap(i, p);
        for j in 0..n {
            if j != i {
                let q = a[j][i] / a[i][i];
                for l in i..=n {
                    a[j][l] -= q * a[i][l];
                }
            }
        }
    }
    let sol: Vec<f64> = (0..n).map(|i| a[i][n] / a[i][i]).collect();
    let yh: Vec<f64> = (0..d.n_rows).map(|r| row(&sol, r)).collect();
    ref_loss(LossKind::Mse, &yh, &d.y.to_vec(), d.weights.as_ref().map(|w| w.to_vec()).as_deref())
}
