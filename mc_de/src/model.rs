//! Reference semantics of expressions and bounded-exhaustive enumeration of them.
use dynamic_expressions::{OperatorSet, PNode, PostfixExpr};

/// An operator set together with an independent definition of its operators over f64.
pub trait Model: OperatorSet + Send + Sync + 'static {
    fn ev(arity: u8, id: u16, a: &[f64]) -> f64;
    fn pd(arity: u8, id: u16, a: &[f64], j: usize) -> f64;
}

dynamic_expressions::custom_opset! {
    pub struct TagOps<f64> {
        1 {
            ua { eval(a) { 0.9 * a[0] + 0.2 * a[0] * a[0] - 0.1 }, partial(a, _i) { 0.9 + 0.4 * a[0] }, }
            ub { eval(a) { -0.6 * a[0] + 0.3 }, partial(_a, _i) { -0.6 }, }
        }
        2 {
            ba { eval(a) { 0.7 * a[0] - 1.3 * a[1] + 0.11 * a[0] * a[1] },
                 partial(a, i) { if i == 0 { 0.7 + 0.11 * a[1] } else { -1.3 + 0.11 * a[0] } }, }
            bb { eval(a) { 0.5 * a[0] + 0.4 * a[1] * a[1] - 0.2 },
                 partial(a, i) { if i == 0 { 0.5 } else { 0.8 * a[1] } }, }
        }
        3 {
            ta { eval(a) { 0.3 * a[0] + 0.5 * a[1] * a[2] - 0.7 * a[2] + 0.05 },
                 partial(a, i) { match i { 0 => 0.3, 1 => 0.5 * a[2], _ => 0.5 * a[1] - 0.7 } }, }
        }
        4 {
            qa { eval(a) { 0.2 * a[0] - 0.3 * a[1] + 0.4 * a[2] * a[3] + 0.6 * a[3] },
                 partial(a, i) { match i { 0 => 0.2, 1 => -0.3, 2 => 0.4 * a[3], _ => 0.4 * a[2] + 0.6 } }, }
        }
        5 {
            pa { eval(a) { 0.1 * a[0] + 0.2 * a[1] - 0.3 * a[2] + 0.4 * a[3] * a[4] - 0.5 * a[4] },
                 partial(a, i) { match i { 0 => 0.1, 1 => 0.2, 2 => -0.3, 3 => 0.4 * a[4], _ => 0.4 * a[3] - 0.5 } }, }
        }
    }
}

// Written with the same floating-point operations in the same order as above, so that even
// overflowing or badly conditioned programs have one definite reference value.
impl Model for TagOps {
    fn ev(arity: u8, id: u16, a: &[f64]) -> f64 {
        match (arity, id) {
            (1, 0) => 0.9 * a[0] + 0.2 * a[0] * a[0] - 0.1,
            (1, 1) => -0.6 * a[0] + 0.3,
            (2, 0) => 0.7 * a[0] - 1.3 * a[1] + 0.11 * a[0] * a[1],
            (2, 1) => 0.5 * a[0] + 0.4 * a[1] * a[1] - 0.2,
            (3, 0) => 0.3 * a[0] + 0.5 * a[1] * a[2] - 0.7 * a[2] + 0.05,
            (4, 0) => 0.2 * a[0] - 0.3 * a[1] + 0.4 * a[2] * a[3] + 0.6 * a[3],
            (5, 0) => 0.1 * a[0] + 0.2 * a[1] - 0.3 * a[2] + 0.4 * a[3] * a[4] - 0.5 * a[4],
            _ => unreachable!(),
        }
    }
    fn pd(arity: u8, id: u16, a: &[f64], j: usize) -> f64 {
        match (arity, id, j) {
            (1, 0, 0) => 0.9 + 0.4 * a[0],
            (1, 1, 0) => -0.6,
            (2, 0, 0) => 0.7 + 0.11 * a[1],
            (2, 0, 1) => -1.3 + 0.11 * a[0],
            (2, 1, 0) => 0.5,
            (2, 1, 1) => 0.8 * a[1],
            (3, 0, 0) => 0.3,
            (3, 0, 1) => 0.5 * a[2],
            (3, 0, 2) => 0.5 * a[1] - 0.7,
            (4, 0, 0) => 0.2,
            (4, 0, 1) => -0.3,
            (4, 0, 2) => 0.4 * a[3],
            (4, 0, 3) => 0.4 * a[2] + 0.6,
            (5, 0, 0) => 0.1,
            (5, 0, 1) => 0.2,
            (5, 0, 2) => -0.3,
            (5, 0, 3) => 0.4 * a[4],
            (5, 0, 4) => 0.4 * a[3] - 0.5,
            _ => unreachable!(),
        }
    }
}

/// A tree node kind used by the enumerators.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sym {
    V(u16),
    /// Constant with a fixed index into the constants table.
    K(u16),
    /// Constant that gets the next fresh index.
    Fresh,
    O(u8, u16),
}

/// All postfix sequences of exactly `n` nodes over the alphabet.
pub struct Gen {
    by_size: Vec<Vec<Vec<Sym>>>,
}

impl Gen {
    pub fn new(leaves: &[Sym], ops: &[(u8, u16)], max: usize) -> Gen {
        let mut by_size: Vec<Vec<Vec<Sym>>> = vec![Vec::new(); max + 1];
        for n in 1..=max {
            let mut out = Vec::new();
            if n == 1 {
                for &l in leaves {
                    out.push(vec![l]);
                }
            }
            for &(ar, id) in ops {
                if n < 1 + ar as usize {
                    continue;
                }
                let mut cur: Vec<Sym> = Vec::new();
                fill(&by_size, n - 1, ar as usize, &mut cur, &mut |c| {
                    let mut v = c.to_vec();
                    v.push(Sym::O(ar, id));
                    out.push(v);
                });
            }
            by_size[n] = out;
        }
        Gen { by_size }
    }
    pub fn size(&self, n: usize) -> &[Vec<Sym>] {
        &self.by_size[n]
    }
    pub fn upto(&self, n: usize) -> Vec<Vec<Sym>> {
        (1..=n).flat_map(|i| self.by_size[i].iter().cloned()).collect()
    }
}

fn fill(by: &[Vec<Vec<Sym>>], total: usize, parts: usize, cur: &mut Vec<Sym>, f: &mut dyn FnMut(&[Sym])) {
    if parts == 0 {
        if total == 0 {
            f(cur);
        }
        return;
    }
    for first in 1..=total.saturating_sub(parts - 1) {
        let rest = total - first;
        for t in &by[first] {
            let l = cur.len();
            cur.extend_from_slice(t);
            fill(by, rest, parts - 1, cur, f);
            cur.truncate(l);
        }
    }
}

/// Deep expressions of few symbols: three to four combs of every length up to `len` (right combs
/// keep that many results alive at once, left combs only one), joined in every order of
/// association. Leaves are variables, constants or unary results.
pub fn comb_forests(len: usize, u: (u8, u16), b1: (u8, u16), b2: (u8, u16), four: bool) -> Vec<Vec<Sym>> {
    let un = Sym::O(u.0, u.1);
    let (b1, b2) = (Sym::O(b1.0, b1.1), Sym::O(b2.0, b2.1));
    let leaf = |k: usize| if k % 4 == 2 { Sym::Fresh } else { Sym::V((k % 3) as u16) };
    let mut combs: Vec<Vec<Sym>> = Vec::new();
    for n in 1..=len {
        for kind in 0..3 {
            if n == 1 && kind == 1 {
                continue;
            }
            let mut v = Vec::new();
            for k in 0..n {
                v.push(leaf(k + kind));
                // kind 2: every second leaf is a bare one
                if kind != 2 || k % 2 == 1 {
                    v.push(un);
                }
                if kind == 1 && k > 0 {
                    v.push(if k % 2 == 0 { b1 } else { b2 });
                }
            }
            if kind != 1 {
                v.extend((1..n).map(|k| if k % 2 == 0 { b1 } else { b2 }));
            }
            combs.push(v);
        }
    }
    let cat = |p: &[&[Sym]]| p.concat();
    let mut out = Vec::new();
    for a in &combs {
        for b in &combs {
            out.push(cat(&[a, b, &[b1]]));
            for c in &combs {
                out.push(cat(&[a, b, &[b1], c, &[b2]]));
                out.push(cat(&[a, b, c, &[b1, b2]]));
            }
        }
    }
    if four {
        let few: Vec<&Vec<Sym>> = combs.iter().step_by(2).collect();
        for a in &few {
            for b in &few {
                for c in &few {
                    for d in &few {
                        out.push(cat(&[a, b, &[b1], c, d, &[b2, b1]]));
                        out.push(cat(&[a, b, c, &[b1, b2], d, &[b2]]));
                        out.push(cat(&[a, b, c, d, &[b1, b2, b1]]));
                    }
                }
            }
        }
    }
    out
}

/// Expressions with more parts than a byte can count: `n` leaves (features, constants, both, or the
/// constants in reverse order) joined by one operator into a left comb, a right comb and a bushy tree.
/// `n - 1` is a multiple of the operator's arity less one.
pub fn vast(n: usize, op: (u8, u16)) -> Vec<Vec<Sym>> {
    let a = op.0 as usize;
    let o = Sym::O(op.0, op.1);
    let mut out = Vec::new();
    for label in 0..5 {
        let leaf = |k: usize| match label {
            0 => Sym::V(k as u16),
            1 => Sym::Fresh,
            2 if k % 2 == 0 => Sym::V((k / 2) as u16),
            3 => Sym::K((n - 1 - k) as u16),
            4 if k % 4 > 1 => Sym::V((k / 2) as u16),
            _ => Sym::Fresh,
        };
        let leaves: Vec<Sym> = (0..n).map(leaf).collect();
        let mut left = vec![leaves[0]];
        let mut right = Vec::new();
        for ch in leaves[1..].chunks(a - 1) {
            left.extend_from_slice(ch);
            left.push(o);
        }
        right.extend_from_slice(&leaves);
        right.extend((0..(n - 1) / (a - 1)).map(|_| o));
        let mut level: Vec<Vec<Sym>> = leaves.iter().map(|l| vec![*l]).collect();
        while level.len() > 1 {
            // the last group of a level may have to pass some trees on unjoined
            let mut next: Vec<Vec<Sym>> = Vec::new();
            for ch in level.chunks(a) {
                if ch.len() == a {
                    next.push([ch.concat(), vec![o]].concat());
                } else {
                    next.extend(ch.iter().cloned());
                }
            }
            level = next;
        }
        out.extend([left, right, level.pop().unwrap()]);
    }
    out
}

/// Small constants, all different.
pub fn fine_consts(n: usize) -> Vec<f64> {
    (0..n).map(|i| 0.0101 - 0.0000613 * i as f64).collect()
}

pub fn nodes_of(s: &[Sym]) -> (Vec<PNode>, usize) {
    let mut fresh = 0u16;
    let mut v = Vec::with_capacity(s.len());
    for x in s {
        v.push(match *x {
            Sym::V(f) => PNode::Var { feature: f },
            Sym::K(i) => {
                fresh = fresh.max(i + 1);
                PNode::Const { idx: i }
            }
            Sym::Fresh => {
                fresh += 1;
                PNode::Const { idx: fresh - 1 }
            }
            Sym::O(a, o) => PNode::Op { arity: a, op: o },
        });
    }
    (v, fresh as usize)
}

/// Relabel the leaves of a shape in order by `f(position of leaf)`.
pub fn relabel(s: &[Sym], f: impl Fn(usize) -> Sym) -> Vec<Sym> {
    let mut k = 0;
    s.iter()
        .map(|x| match x {
            Sym::O(..) => *x,
            _ => {
                k += 1;
                f(k - 1)
            }
        })
        .collect()
}

pub fn mk<T, Ops, const D: usize>(nodes: &[PNode], consts: &[T]) -> PostfixExpr<T, Ops, D>
where
    T: Clone,
{
    PostfixExpr::new(nodes.to_vec(), consts.to_vec(), Default::default())
}

#[derive(Clone, Debug)]
pub enum Tree {
    V(u16),
    K(u16),
    O(u8, u16, Vec<Tree>),
}

/// Parse postfix; `None` when it is not exactly one well-formed tree.
pub fn parse(nodes: &[PNode]) -> Option<Tree> {
    let mut st: Vec<Tree> = Vec::new();
    for n in nodes {
        match *n {
            PNode::Var { feature } => st.push(Tree::V(feature)),
            PNode::Const { idx } => st.push(Tree::K(idx)),
            PNode::Op { arity, op } => {
                let a = arity as usize;
                if a == 0 || st.len() < a {
                    return None;
                }
                let ch = st.split_off(st.len() - a);
                st.push(Tree::O(arity, op, ch));
            }
        }
    }
    if st.len() == 1 {
        st.pop()
    } else {
        None
    }
}

impl Tree {
    pub fn size(&self) -> usize {
        match self {
            Tree::O(_, _, c) => 1 + c.iter().map(|t| t.size()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Tree::O(_, _, c) => 1 + c.iter().map(|t| t.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }
    /// Value at one row; `ops_finite` turns false if some operator's result is not finite.
    pub fn eval<M: Model>(&self, x: &[f64], c: &[f64], ops_finite: &mut bool) -> f64 {
        match self {
            Tree::V(f) => x[*f as usize],
            Tree::K(i) => c[*i as usize],
            Tree::O(a, o, ch) => {
                let v: Vec<f64> = ch.iter().map(|t| t.eval::<M>(x, c, ops_finite)).collect();
                let r = M::ev(*a, *o, &v);
                if !r.is_finite() {
                    *ops_finite = false;
                }
                r
            }
        }
    }
    /// Value at one row with a running bound of its rounding error (infinite where an operator is not
    /// differentiable, so that nothing can be said).
    pub fn eval_err<M: Model>(&self, x: &[f64], c: &[f64]) -> (f64, f64) {
        match self {
            Tree::V(f) => (x[*f as usize], 0.0),
            Tree::K(i) => (c[*i as usize], 1e-15 * c[*i as usize].abs()),
            Tree::O(a, o, ch) => {
                let vs: Vec<(f64, f64)> = ch.iter().map(|t| t.eval_err::<M>(x, c)).collect();
                let v: Vec<f64> = vs.iter().map(|p| p.0).collect();
                let r = M::ev(*a, *o, &v);
                let mut e = 1e-15 * r.abs();
                for (j, p) in vs.iter().enumerate() {
                    if p.1 != 0.0 {
                        let pj = M::pd(*a, *o, &v, j);
                        // First-order analysis only makes sense for small errors.
                        e += if pj.is_nan() || !(p.1 < 1e-7) { f64::INFINITY } else if pj == 0.0 { 0.0 } else { pj.abs() * p.1 };
                    }
                }
                (r, e)
            }
        }
    }
    /// Value, derivative along `dir` (a variable or a constant index) and a running bound of the
    /// derivative's rounding error; the derivative is `None` when the subtree does not contain the
    /// direction.
    pub fn dual<M: Model>(&self, x: &[f64], c: &[f64], dir: Dir) -> (f64, Option<f64>, f64) {
        match self {
            Tree::V(f) => (x[*f as usize], if dir == Dir::Var(*f) { Some(1.0) } else { None }, 0.0),
            Tree::K(i) => (c[*i as usize], if dir == Dir::Const(*i) { Some(1.0) } else { None }, 0.0),
            Tree::O(a, o, ch) => {
                let vs: Vec<(f64, Option<f64>, f64)> = ch.iter().map(|t| t.dual::<M>(x, c, dir)).collect();
                let v: Vec<f64> = vs.iter().map(|p| p.0).collect();
                let r = M::ev(*a, *o, &v);
                let mut d = None;
                let mut e = 0.0;
                for (j, p) in vs.iter().enumerate() {
                    if let Some(dj) = p.1 {
                        let pj = M::pd(*a, *o, &v, j);
                        d = Some(d.unwrap_or(0.0) + pj * dj);
                        e += pj.abs() * (p.2 + 1e-13 * dj.abs());
                    }
                }
                (r, d, e)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dir {
    Var(u16),
    Const(u16),
}

pub fn show(nodes: &[PNode]) -> String {
    nodes
        .iter()
        .map(|n| match *n {
            PNode::Var { feature } => format!("x{feature}"),
            PNode::Const { idx } => format!("c{idx}"),
            PNode::Op { arity, op } => format!("op{arity}.{op}"),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Deterministic data: feature-major rows with distinct, generic values in about [-1.5, 1.5].
pub fn data(n_features: usize, n_rows: usize) -> ndarray::Array2<f64> {
    ndarray::Array2::from_shape_fn((n_features, n_rows), |(f, r)| {
        let t = (f as f64 * 0.737 + r as f64 * 0.3819 + 0.173).fract();
        let s = ((f * 31 + r * 17) % 7) as f64 / 7.0;
        3.0 * (0.7 * t + 0.3 * s) - 1.5
    })
}

pub fn consts(n: usize) -> Vec<f64> {
    (0..n).map(|i| 0.37 + 0.61 * i as f64 - if i % 2 == 1 { 2.3 } else { 0.0 }).collect()
}

pub fn row(x: &ndarray::Array2<f64>, r: usize) -> Vec<f64> {
    (0..x.nrows()).map(|f| x[(f, r)]).collect()
}
