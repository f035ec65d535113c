//! Tensor programs: a reference model (values, layouts, ownership, partial derivatives) and their execution.

use crate::arr::*;
use crate::dt::Dt;
use crate::engine::*;
use crate::model::*;
use redstone_ml::*;

#[derive(Clone, Debug, Hash, PartialEq)]
pub enum GOp {
    Neg { a: usize, own: bool },
    Scalar { op: char, s: i32, a: usize, own: bool },
    View { a: usize, op: VOp, own: bool },
    Bin { op: char, a: usize, b: usize, own: (bool, bool) },
    Dot(usize, usize),
    Mat(usize, usize),
    Bmm(usize, usize),
}

/// Scalars are given in quarters.
pub fn scalar_of(s: i32) -> f64 { s as f64 / 4.0 }

impl GOp {
    pub fn operands(&self) -> Vec<usize> {
        match *self {
            GOp::Neg { a, .. } | GOp::Scalar { a, .. } | GOp::View { a, .. } => vec![a],
            GOp::Bin { a, b, .. } | GOp::Dot(a, b) | GOp::Mat(a, b) | GOp::Bmm(a, b) => vec![a, b],
        }
    }
    pub fn consumed(&self) -> Vec<usize> {
        match *self {
            GOp::Neg { a, own } | GOp::Scalar { a, own, .. } | GOp::View { a, own, .. } => if own { vec![a] } else { vec![] },
            GOp::Bin { a, b, own, .. } => [(a, own.0), (b, own.1)].iter().filter(|x| x.1).map(|x| x.0).collect(),
            _ => vec![],
        }
    }
}

pub type Partials = Vec<(usize, Vec<(u32, u32, f64)>)>;

#[derive(Clone, Debug)]
pub struct Node {
    /// the layout, as a view of a fresh buffer
    pub view: MView,
    /// the layout depends on whether the operand's array is shared
    pub vague: bool,
    /// the elements in row-major order
    pub value: Vec<f64>,
    /// bounds the magnitudes that went into the values
    pub alive: bool,
    pub parent: Option<usize>,
    pub tracked: bool,
    pub partials: Partials,
    pub leaf: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Graph { pub nodes: Vec<Node>, pub leaves: usize, pub ops: Vec<GOp> }

/// Values of a leaf: multiples of a quarter of either sign, none near zero.
pub fn leaf_values(k: usize, n: usize) -> Vec<f64> {
    (0..n).map(|i| { let m = ((i * 7 + k * 5 + 3) % 11) as f64 / 4.0 + 0.5; if (i + k) % 3 == 1 { -m } else { m } }).collect()
}

impl Graph {
    pub fn new(shapes: &[Vec<usize>], mask: u32) -> Graph {
        let nodes = shapes.iter().enumerate().map(|(k, s)| Node {
            view: MView::root(s), vague: false, value: leaf_values(k, prod(s)), alive: true, parent: None, tracked: mask >> k & 1 == 1, partials: vec![], leaf: true,
        }).collect();
        Graph { nodes, leaves: shapes.len(), ops: vec![] }
    }
    /// Other contents and layouts of the inputs: 1 some zeros, 2 all ones, 3 all zeros, 4 as 0 but stored transposed, 5 equal inputs of +-1.
    pub fn with(shapes: &[Vec<usize>], mask: u32, variant: u8) -> Graph {
        let mut g = Graph::new(shapes, mask);
        for (k, n) in g.nodes.iter_mut().enumerate() {
            for (i, x) in n.value.iter_mut().enumerate() {
                match variant { 1 if (i + k) % 2 == 0 => *x = 0.0, 2 => *x = 1.0, 3 => *x = 0.0, 5 => *x = if i % 2 == 0 { 1.0 } else { -1.0 }, _ => {} }
            }
            if variant == 4 && n.view.shape.len() > 1 {
                let mut r = n.view.shape.clone();
                let last = r.len() - 1;
                r.swap(0, last);
                let Verdict::Must(v) = MView::root(&r).apply(&VOp::Transpose(0, -1)) else { unreachable!() };
                n.view = v;
                n.vague = true;
            }
        }
        g
    }
    pub fn shape(&self, i: usize) -> &[usize] { &self.nodes[i].view.shape }
    pub fn borrowed(&self, i: usize) -> bool { self.nodes.iter().any(|n| n.alive && n.parent == Some(i)) }
    pub fn root(&self) -> usize { self.nodes.len() - 1 }

    /// Do all results go into the last one?
    pub fn connected(&self) -> bool { self.unused() <= 1 }
    pub fn unused(&self) -> usize {
        let mut used = vec![false; self.nodes.len()];
        for op in &self.ops { for o in op.operands() { used[o] = true; } }
        (self.leaves..self.nodes.len()).filter(|&i| !used[i]).count()
    }

    /// The result of an operation, or None if it is not defined (or numerically delicate).
    pub fn eval(&self, op: &GOp) -> Option<Node> {
        if !self.expressible(op) { return None; }
        self.eval_expressible(op)
    }

    /// Do the borrow rules allow the operation?
    pub fn expressible(&self, op: &GOp) -> bool {
        for o in op.operands() { if !self.nodes[o].alive { return false; } }
        let gone = op.consumed();
        for &c in &gone { if self.borrowed(c) { return false; } }
        if gone.len() == 2 && gone[0] == gone[1] { return false; }
        if let GOp::Bin { a, b, own, .. } = *op {
            if a == b && (own.0 || own.1) { return false; }
            // an operand that borrows from a consumed one
            if own.0 && self.nodes[b].parent == Some(a) || own.1 && self.nodes[a].parent == Some(b) { return false; }
        }
        true
    }

    fn eval_expressible(&self, op: &GOp) -> Option<Node> {
        let tracked = op.operands().iter().any(|&o| self.nodes[o].tracked);
        let fresh = |shape: &[usize], value: Vec<f64>, partials: Partials| {
            if value.iter().any(|v| !v.is_finite() || v.abs() > 1e5) { return None; }
            Some(Node { view: MView::root(shape), vague: false, value, alive: true, parent: None, tracked, partials, leaf: false })
        };
        match op {
            GOp::Neg { a, .. } => { let n = &self.nodes[*a]; fresh(&n.view.shape, n.value.iter().map(|x| -x).collect(), vec![(*a, (0..n.value.len() as u32).map(|i| (i, i, -1.0)).collect())]) }
            GOp::Scalar { op, s, a, .. } => {
                let n = &self.nodes[*a];
                let s = scalar_of(*s);
                let (f, d): (Box<dyn Fn(f64) -> f64>, f64) = match op {
                    '+' => (Box::new(move |x| x + s), 1.0),
                    '-' => (Box::new(move |x| x - s), 1.0),
                    '*' => (Box::new(move |x| x * s), s),
                    _ => (Box::new(move |x| x / s), 1.0 / s),
                };
                fresh(&n.view.shape, n.value.iter().map(|x| f(*x)).collect(), vec![(*a, (0..n.value.len() as u32).map(|i| (i, i, d)).collect())])
            }
            GOp::View { a, op, own } => {
                let n = &self.nodes[*a];
                if n.vague && !matches!(op, VOp::View | VOp::Transpose(..) | VOp::T | VOp::Unsqueeze(_)) { return None; }
                let Verdict::Must(view) = n.view.apply(op) else { return None };
                // which element of the operand each element of the result is
                let Verdict::Must(pick) = MView::root(&n.view.shape).apply(op) else { return None };
                let value = select(&n.value, &pick.ids);
                let partials = vec![(*a, pick.ids.iter().enumerate().map(|(o, &i)| (o as u32, i, 1.0)).collect())];
                Some(Node { view, vague: n.vague || (*own && n.view.skey != row_major(&n.view.shape)), value, alive: true, parent: if *own { None } else { Some(*a) }, tracked, partials, leaf: false })
            }
            GOp::Bin { op, a, b, .. } => {
                let (x, y) = (&self.nodes[*a], &self.nodes[*b]);
                let shape = broadcast2(&x.view.shape, &y.view.shape)?;
                let ix = broadcast_data(&(0..x.value.len() as u32).collect::<Vec<_>>(), &x.view.shape, &shape);
                let iy = broadcast_data(&(0..y.value.len() as u32).collect::<Vec<_>>(), &y.view.shape, &shape);
                let (mut v, mut px, mut py) = (vec![], vec![], vec![]);
                for o in 0..ix.len() {
                    let (p, q) = (x.value[ix[o] as usize], y.value[iy[o] as usize]);
                    let (r, dp, dq) = match op { '+' => (p + q, 1.0, 1.0), '-' => (p - q, 1.0, -1.0), '*' => (p * q, q, p), _ => { if q.abs() < 0.05 { return None; } (p / q, 1.0 / q, -p / (q * q)) } };
                    v.push(r);
                    px.push((o as u32, ix[o], dp));
                    py.push((o as u32, iy[o], dq));
                }
                fresh(&shape, v, vec![(*a, px), (*b, py)])
            }
            GOp::Dot(a, b) => {
                let (x, y) = (&self.nodes[*a], &self.nodes[*b]);
                if x.view.shape.len() != 1 || x.view.shape != y.view.shape { return None; }
                let n = x.value.len() as u32;
                fresh(&[], vec![x.value.iter().zip(&y.value).map(|(p, q)| p * q).sum()], vec![(*a, (0..n).map(|i| (0, i, y.value[i as usize])).collect()), (*b, (0..n).map(|i| (0, i, x.value[i as usize])).collect())])
            }
            GOp::Mat(a, b) | GOp::Bmm(a, b) => {
                let (x, y) = (&self.nodes[*a], &self.nodes[*b]);
                let (sx, sy) = (&x.view.shape[..], &y.view.shape[..]);
                let (nb, n, m, l, out): (usize, usize, usize, usize, Vec<usize>) = match (op, sx, sy) {
                    (GOp::Mat(..), [m], [m2]) if m == m2 => (1, 1, *m, 1, vec![]),
                    (GOp::Mat(..), [n, m], [m2]) if m == m2 => (1, *n, *m, 1, vec![*n]),
                    (GOp::Mat(..), [n, m], [m2, l]) if m == m2 => (1, *n, *m, *l, vec![*n, *l]),
                    (GOp::Bmm(..), [b, n, m], [b2, m2, l]) if m == m2 && b == b2 => (*b, *n, *m, *l, vec![*b, *n, *l]),
                    _ => return None,
                };
                let mut v = vec![0.0; nb * n * l];
                let (mut px, mut py) = (vec![], vec![]);
                for b in 0..nb { for i in 0..n { for j in 0..m { for k in 0..l {
                    let (o, p, q) = ((b * n + i) * l + k, (b * n + i) * m + j, (b * m + j) * l + k);
                    v[o] += x.value[p] * y.value[q];
                    px.push((o as u32, p as u32, y.value[q]));
                    py.push((o as u32, q as u32, x.value[p]));
                } } } }
                fresh(&out, v, vec![(*a, px), (*b, py)])
            }
        }
    }

    /// Applies an operation to the model.
    pub fn push(&mut self, op: &GOp) -> bool {
        let Some(n) = self.eval(op) else { return false };
        for c in op.consumed() { self.nodes[c].alive = false; }
        self.nodes.push(n);
        self.ops.push(op.clone());
        true
    }

    /// Derivatives of the seed-weighted node `r` with respect to every node: value and total magnitude.
    pub fn gradients(&self, r: usize, seed: &[f64]) -> Vec<(Vec<f64>, Vec<f64>)> {
        let mut adj: Vec<(Vec<f64>, Vec<f64>)> = self.nodes.iter().map(|n| (vec![0.0; n.value.len()], vec![0.0; n.value.len()])).collect();
        for (i, &s) in seed.iter().enumerate() { adj[r].0[i] = s; adj[r].1[i] = s.abs(); }
        for k in (0..=r).rev() {
            let (g, m) = adj[k].clone();
            for (operand, ps) in &self.nodes[k].partials {
                for &(o, i, c) in ps {
                    adj[*operand].0[i as usize] += g[o as usize] * c;
                    adj[*operand].1[i as usize] += m[o as usize] * c.abs();
                }
            }
        }
        adj
    }
}

/// Which operations are enumerated.
#[derive(Clone, Copy)]
pub struct GAlpha { pub scalars: &'static [(char, i32)], pub bins: &'static [char], pub views: u8, pub neg: bool, pub linalg: bool, pub own: bool, pub own_leaves: bool, pub max_size: usize, pub max_dims: usize }

/// All view operations considered for a shape (level 1: a few, 2: all).
pub fn view_ops(shape: &[usize], level: u8, max_dims: usize) -> Vec<VOp> {
    if level == 0 { return vec![]; }
    let nd = shape.len();
    let n = prod(shape);
    let mut v = vec![VOp::View];
    let mut shapes = vec![vec![n]];
    if level > 1 {
        shapes.push(vec![1, n]);
        shapes.push(vec![n, 1]);
        for p in 2..n { if n % p == 0 { shapes.push(vec![p, n / p]); } }
        if n == 1 { shapes.push(vec![]); shapes.push(vec![1, 1, 1]); }
        if n % 4 == 0 { shapes.push(vec![2, n / 4, 2]); }
    } else if n == 4 { shapes.push(vec![2, 2]); }
    for s in shapes { if s != shape && s.len() <= max_dims { v.push(VOp::Reshape(s)); } }
    if level > 1 { v.push(VOp::Reshape(shape.to_vec())); }
    if shape.contains(&1) { v.push(VOp::Squeeze); }
    if nd < max_dims {
        v.push(VOp::Unsqueeze(0));
        if level > 1 { for a in 1..=nd { v.push(VOp::Unsqueeze(a as isize)); } v.push(VOp::Unsqueeze(-1)); }
    }
    if nd >= 2 {
        v.push(VOp::Transpose(0, 1));
        if level > 1 {
            v.push(VOp::T);
            for a in 0..nd { for b in a + 1..nd { if (a, b) != (0, 1) { v.push(VOp::Transpose(a as isize, b as isize)); } } }
            v.push(VOp::Transpose(-1, 0));
        } else if nd == 3 { v.push(VOp::Transpose(1, 2)); }
    }
    v
}

pub fn moves(g: &Graph, al: &GAlpha) -> Vec<GOp> {
    let mut out = candidates(g, al);
    out.retain(|op| match g.eval(op) { Some(n) => n.value.len() <= al.max_size && n.view.shape.len() <= al.max_dims, None => false });
    out
}

/// All operations that can be written down, whether or not they are defined.
pub fn candidates(g: &Graph, al: &GAlpha) -> Vec<GOp> {
    let mut out = vec![];
    let n = g.nodes.len();
    let own = |i: usize| al.own && (al.own_leaves || i >= g.leaves);
    for a in 0..n {
        if !g.nodes[a].alive { continue; }
        let forms: &[bool] = if own(a) { &[false, true] } else { &[false] };
        for &o in forms {
            if al.neg { out.push(GOp::Neg { a, own: o }); }
            for &(op, s) in al.scalars { out.push(GOp::Scalar { op, s, a, own: o }); }
            for op in view_ops(g.shape(a), al.views, al.max_dims) { out.push(GOp::View { a, op, own: o }); }
        }
        for b in 0..n {
            if !g.nodes[b].alive { continue; }
            for &op in al.bins {
                out.push(GOp::Bin { op, a, b, own: (false, false) });
                if own(a) { out.push(GOp::Bin { op, a, b, own: (true, false) }); }
                if own(b) { out.push(GOp::Bin { op, a, b, own: (false, true) }); }
                if own(a) && own(b) { out.push(GOp::Bin { op, a, b, own: (true, true) }); }
            }
            if al.linalg { out.push(GOp::Dot(a, b)); out.push(GOp::Mat(a, b)); out.push(GOp::Bmm(a, b)); }
        }
    }
    out
}

/// Visits every program of 1..=depth operations that extends `g` (with all results used).
pub fn programs(g: &Graph, al: &GAlpha, depth: usize, f: &mut dyn FnMut(&Graph)) {
    if depth == 0 { return; }
    for op in moves(g, al) {
        let mut h = g.clone();
        h.push(&op);
        if h.unused() > depth { continue; }
        if h.connected() { f(&h); }
        programs(&h, al, depth - 1, f);
    }
}

/// Executes tensor programs.
pub struct Exec<T: Dt + TensorDataType> { pub nodes: Vec<Option<Box<Tensor<'static, T>>>> }

impl<T: Dt + TensorDataType> Drop for Exec<T> {
    // views go before what they view
    fn drop(&mut self) { while let Some(x) = self.nodes.pop() { if let Some(t) = x { imp(move || drop(t)); } } }
}

pub trait FromF64: Sized { fn of(x: f64) -> Self; fn f64(self) -> f64; const EPS: f64; }
impl FromF64 for f32 { fn of(x: f64) -> f32 { x as f32 } fn f64(self) -> f64 { self as f64 } const EPS: f64 = 2e-4; }
impl FromF64 for f64 { fn of(x: f64) -> f64 { x } fn f64(self) -> f64 { self } const EPS: f64 = 1e-10; }

impl<T: Dt + TensorDataType + FromF64> Exec<T> {
    pub fn leaves(g: &Graph) -> Exec<T> {
        let mut e = Exec { nodes: vec![] };
        for n in &g.nodes[..g.leaves] {
            let data: Vec<T> = n.value.iter().map(|x| T::of(*x)).collect();
            let mut t = if n.vague {
                // stored with the first and last axes swapped
                let mut r = n.view.shape.clone();
                let last = r.len() - 1;
                r.swap(0, last);
                let buf: Vec<T> = indices(&r).into_iter().map(|mut i| { i.swap(0, last); data[ravel(&n.view.shape, &i)] }).collect();
                let t = tensor(&r, &buf);
                imp(move || t.transpose(0, -1))
            } else { tensor(&n.view.shape, &data) };
            if n.tracked { imp(|| { t.set_requires_grad(true); }); }
            e.nodes.push(Some(Box::new(t)));
        }
        e
    }
    pub fn t(&self, i: usize) -> &'static Tensor<'static, T> { unsafe { std::mem::transmute(&**self.nodes[i].as_ref().unwrap()) } }
    pub fn take(&mut self, i: usize) -> Tensor<'static, T> { *self.nodes[i].take().unwrap() }
    pub fn free(&mut self, i: usize) { let t = self.nodes[i].take(); imp(move || drop(t)); }

    pub fn view_ref(t: &'static Tensor<'static, T>, op: &VOp) -> Tensor<'static, T> {
        match op {
            VOp::Reshape(s) => t.reshape(s.clone()),
            VOp::View => t.view(),
            VOp::Squeeze => t.squeeze(),
            VOp::Unsqueeze(ax) => t.unsqueeze(*ax),
            VOp::T => t.T(),
            VOp::Transpose(x, y) => t.transpose(*x, *y),
            _ => unreachable!(),
        }
    }
    pub fn view_own(t: Tensor<'static, T>, op: &VOp) -> Tensor<'static, T> {
        match op {
            VOp::Reshape(s) => t.reshape(s.clone()),
            VOp::View => t.view(),
            VOp::Squeeze => t.squeeze(),
            VOp::Unsqueeze(ax) => t.unsqueeze(*ax),
            VOp::T => t.T(),
            VOp::Transpose(x, y) => t.transpose(*x, *y),
            _ => unreachable!(),
        }
    }

    /// Computes (without recording) the result; panics of the implementation are the case's.
    pub fn compute(&mut self, op: &GOp) -> Tensor<'static, T> {
        macro_rules! bin { ($op:expr, $a:expr, $b:expr) => { match $op { '+' => $a + $b, '-' => $a - $b, '*' => $a * $b, _ => $a / $b } } }
        step();
        match op {
            GOp::Neg { a, own: false } => { let t = self.t(*a); imp(|| -t) }
            GOp::Neg { a, own: true } => { let t = self.take(*a); imp(|| -t) }
            GOp::Scalar { op, s, a, own: false } => { let (t, s) = (self.t(*a), T::of(scalar_of(*s))); imp(|| bin!(op, t, s)) }
            GOp::Scalar { op, s, a, own: true } => { let (t, s) = (self.take(*a), T::of(scalar_of(*s))); imp(|| bin!(op, t, s)) }
            GOp::View { a, op, own: false } => { let t = self.t(*a); imp(|| Self::view_ref(t, op)) }
            GOp::View { a, op, own: true } => { let t = self.take(*a); imp(|| Self::view_own(t, op)) }
            GOp::Bin { op, a, b, own } => match own {
                (false, false) => { let (x, y) = (self.t(*a), self.t(*b)); imp(|| bin!(op, x, y)) }
                (true, false) => { let y = self.t(*b); let x = self.take(*a); imp(|| bin!(op, x, y)) }
                (false, true) => { let x = self.t(*a); let y = self.take(*b); imp(|| bin!(op, x, y)) }
                (true, true) => { let (x, y) = (self.take(*a), self.take(*b)); imp(|| bin!(op, x, y)) }
            },
            GOp::Dot(a, b) => { let (x, y) = (self.t(*a), self.t(*b)); imp(|| x.dot(y)) }
            GOp::Mat(a, b) => { let (x, y) = (self.t(*a), self.t(*b)); imp(|| x.matmul(y)) }
            GOp::Bmm(a, b) => { let (x, y) = (self.t(*a), self.t(*b)); imp(|| x.bmm(y)) }
        }
    }
    pub fn push(&mut self, op: &GOp) {
        let r = self.compute(op);
        self.nodes.push(Some(Box::new(r)));
    }
    pub fn run(g: &Graph) -> Exec<T> {
        let mut e = Exec::leaves(g);
        for op in &g.ops { e.push(op); }
        e
    }

    /// The gradient of a leaf, as plain numbers.
    pub fn gradient(&self, i: usize) -> Option<(Vec<usize>, Vec<f64>)> {
        let t = self.t(i);
        let g = imp(|| t.gradient())?;
        let out = (g.shape().to_vec(), read_by_index(&g).into_iter().map(|x| x.f64()).collect());
        imp(move || drop(g));
        Some(out)
    }
}

/// Are the numbers equal, up to rounding in quantities of magnitude `scale`?
pub fn close<T: FromF64>(got: &[f64], want: &[f64], scale: &[f64]) -> bool {
    got.len() == want.len() && got.iter().zip(want).zip(scale).all(|((g, w), m)| (g - w).abs() <= T::EPS * (1.0 + m))
}

/// Explanation of a program for reports.
pub fn show(g: &Graph) -> String {
    let shapes: Vec<&[usize]> = (0..g.leaves).map(|i| g.shape(i)).collect();
    let tracked: Vec<usize> = (0..g.leaves).filter(|&i| g.nodes[i].tracked).collect();
    let mut s = format!("inputs t0..t{} of shapes {shapes:?} (requiring gradients: {tracked:?})", g.leaves - 1);
    for (k, op) in g.ops.iter().enumerate() { s += &format!("; t{} = {op:?}", g.leaves + k); }
    s
}

pub fn seed_values(n: usize) -> Vec<f64> { (0..n).map(|i| ((i * 5 + 2) % 7) as f64 / 2.0 - 1.25).collect() }
