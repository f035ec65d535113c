//! C13: gradient bookkeeping over every history of forward computations, backward passes, resets and toggles.
use mc::*;
use redstone_ml::*;

#[derive(Clone, Debug, Hash)]
enum Ev {
    Forward(GOp),
    /// backward from a tensor, seed: 0 none, 1 given values, 2 the transposed copy of a seed
    Back(usize, u8),
    /// backward from a tensor, seeded with the gradient of another one
    BackGrad(usize, usize),
    /// backward with a seed of the wrong shape (which must be refused)
    Bad(usize, Vec<usize>),
    Zero(usize),
    Track(usize, bool),
}

/// What a tensor's derivative information is, in the model.
#[derive(Clone, Debug)]
enum Gn { None(usize), Acc(usize, Vec<f64>, Vec<f64>), Fun(Partials) }

#[derive(Clone)]
struct Model { g: Graph, gn: Vec<Gn>, cur: Vec<usize>, events: Vec<Ev>, mask: u32 }

impl Model {
    fn new(shapes: &[Vec<usize>], mask: u32) -> Model {
        let g = Graph::new(shapes, mask);
        let gn = (0..g.leaves).map(|i| if mask >> i & 1 == 1 { acc(&g, i) } else { Gn::None(i) }).collect();
        Model { cur: (0..g.leaves).collect(), g, gn, events: vec![], mask }
    }
    fn node(&self, t: usize) -> &Gn { &self.gn[self.cur[t]] }

    /// Would this backward pass reach a tensor whose tracking has been switched on since?
    fn stale(&self, t: usize) -> bool {
        let mut seen = vec![false; self.gn.len()];
        let mut todo = vec![self.cur[t]];
        while let Some(k) = todo.pop() {
            if std::mem::replace(&mut seen[k], true) { continue; }
            match &self.gn[k] {
                Gn::None(t) | Gn::Acc(t, ..) => if self.cur[*t] != k && self.g.nodes[*t].tracked { return true; },
                Gn::Fun(ps) => todo.extend(ps.iter().map(|p| p.0)),
            }
        }
        false
    }

    fn backward(&mut self, t: usize, seed: &[f64]) {
        let mut adj: Vec<Option<(Vec<f64>, Vec<f64>)>> = vec![None; self.gn.len()];
        let start = self.cur[t];
        adj[start] = Some((seed.to_vec(), seed.iter().map(|x| x.abs()).collect()));
        for k in (0..=start).rev() {
            let Some((v, m)) = adj[k].take() else { continue };
            match &mut self.gn[k] {
                Gn::None(_) => {}
                Gn::Acc(_, g, s) => for i in 0..v.len() { g[i] += v[i]; s[i] += m[i]; },
                Gn::Fun(ps) => for (p, triples) in ps.clone() {
                    let n = match &self.gn[p] { Gn::Acc(t, ..) | Gn::None(t) => self.g.nodes[*t].value.len(), Gn::Fun(_) => triples.iter().map(|x| x.1 as usize + 1).max().unwrap() };
                    let a = adj[p].get_or_insert_with(|| (vec![0.0; n], vec![0.0; n]));
                    for (o, i, c) in triples {
                        a.0[i as usize] += v[o as usize] * c;
                        a.1[i as usize] += m[o as usize] * c.abs();
                    }
                },
            }
        }
    }

    fn enabled(&self, e: &Ev) -> bool {
        match e {
            Ev::Forward(op) => self.g.eval(op).is_some(),
            Ev::Back(t, k) => !self.stale(*t) && (*k != 2 || self.g.shape(*t).len() == 2),
            Ev::BackGrad(t, l) => !self.stale(*t) && self.g.nodes[*t].tracked && matches!(self.node(*l), Gn::Acc(..)) && self.g.shape(*l) == self.g.shape(*t),
            Ev::Bad(t, s) => self.g.nodes[*t].tracked && s != self.g.shape(*t),
            Ev::Zero(t) => matches!(self.node(*t), Gn::Acc(..)),
            Ev::Track(t, _) => !self.g.borrowed(*t),
        }
    }

    fn apply(&mut self, e: &Ev) {
        match e {
            Ev::Forward(op) => {
                self.g.push(op);
                let t = self.g.root();
                self.cur.push(self.gn.len());
                let n = &self.g.nodes[t];
                let gn = if n.tracked { Gn::Fun(n.partials.iter().map(|(o, p)| (self.cur[*o], p.clone())).collect()) } else { Gn::None(t) };
                self.gn.push(gn);
            }
            Ev::Back(t, k) => { let s = seed(self.g.nodes[*t].value.len(), *k); self.backward(*t, &s); }
            Ev::BackGrad(t, l) => { let Gn::Acc(_, s, _) = self.node(*l).clone() else { unreachable!() }; self.backward(*t, &s); }
            Ev::Bad(..) => {}
            Ev::Zero(t) => { let k = self.cur[*t]; let Gn::Acc(_, g, s) = &mut self.gn[k] else { unreachable!() }; g.fill(0.0); s.fill(0.0); }
            Ev::Track(t, on) => if self.g.nodes[*t].tracked != *on {
                self.g.nodes[*t].tracked = *on;
                self.cur[*t] = self.gn.len();
                let gn = if *on { acc(&self.g, *t) } else { Gn::None(*t) };
                self.gn.push(gn);
            },
        }
        self.events.push(e.clone());
    }
}

fn acc(g: &Graph, t: usize) -> Gn { let n = g.nodes[t].value.len(); Gn::Acc(t, vec![0.0; n], vec![0.0; n]) }
fn seed(n: usize, k: u8) -> Vec<f64> { if k == 0 { vec![1.0; n] } else { seed_values(n) } }

#[derive(Clone, Copy)]
struct Al { ops: GAlpha, seeds: &'static [u8], bad: bool, backgrad: bool, track: u8 }

fn events(m: &Model, al: &Al) -> Vec<Ev> {
    let mut v = vec![];
    let n = m.g.nodes.len();
    for t in 0..n {
        for &k in al.seeds { v.push(Ev::Back(t, k)); }
        if al.backgrad { for l in 0..n { v.push(Ev::BackGrad(t, l)); } }
        if al.bad {
            let s = m.g.shape(t).to_vec();
            let mut bad = vec![vec![1; s.len()], [&[1], &s[..]].concat(), vec![prod(&s)], vec![], s.iter().map(|x| x + 1).collect(), [&s[..], &[1]].concat(), s.iter().rev().copied().collect()];
            if !s.is_empty() { bad.push(s[1..].to_vec()); }
            bad.retain(|b| *b != s);
            bad.sort();
            bad.dedup();
            for b in bad { v.push(Ev::Bad(t, b)); }
        }
        v.push(Ev::Zero(t));
        if al.track > 1 || (al.track == 1 && t < m.g.leaves) { v.push(Ev::Track(t, true)); v.push(Ev::Track(t, false)); }
    }
    for op in moves(&m.g, &al.ops) { v.push(Ev::Forward(op)); }
    v.retain(|e| m.enabled(e));
    v
}

/// Executes a history and compares everything at its end.
fn run<T: Dt + TensorDataType + FromF64>(m: &Model, shapes: &[Vec<usize>]) {
    let mut g = Graph::new(shapes, m.mask);
    let mut e: Exec<T> = Exec::leaves(&g);
    for ev in &m.events {
        step();
        match ev {
            Ev::Forward(op) => { g.push(op); e.push(op); }
            Ev::Back(t, 0) => { let x = e.t(*t); imp(|| x.backward()); }
            Ev::Back(t, k) => {
                let shape = g.shape(*t).to_vec();
                let vals: Vec<T> = seed(prod(&shape), 1).iter().map(|x| T::of(*x)).collect();
                let x = e.t(*t);
                if *k == 1 {
                    let s = fresh(&shape, &vals);
                    imp(|| x.backward_with(&s));
                    imp(move || drop(s));
                } else {
                    let (r, c) = (shape[0], shape[1]);
                    let s = fresh(&[c, r], &(0..r * c).map(|i| vals[(i % r) * c + i / r]).collect::<Vec<_>>());
                    let ss: &'static Arr<T> = unsafe { long(&s) };
                    let v = imp(|| ss.T());
                    imp(|| x.backward_with(&v));
                    imp(move || { drop(v); drop(s) });
                }
            }
            Ev::BackGrad(t, l) => {
                let (x, y) = (e.t(*t), e.t(*l));
                let s = imp(|| y.gradient()).unwrap_or_else(|| panic!("t{l} requires gradients but has none"));
                imp(|| x.backward_with(&s));
                imp(move || drop(s));
            }
            Ev::Bad(t, shape) => {
                let x = e.t(*t);
                let s = fresh(shape, &vec![T::of(2.0); prod(shape)]);
                if attempt(|| x.backward_with(&s)).is_ok() { panic!("a seed of shape {shape:?} is accepted for t{t} of shape {:?}", g.shape(*t)); }
                imp(move || drop(s));
            }
            Ev::Zero(t) => { let x = e.t(*t); imp(|| x.zero_gradient()); }
            Ev::Track(t, on) => { g.nodes[*t].tracked = *on; let x = e.nodes[*t].as_mut().unwrap(); imp(|| { x.set_requires_grad(*on); }); }
        }
    }
    for (i, n) in m.g.nodes.iter().enumerate() {
        let x = e.t(i);
        let (rg, leaf) = (imp(|| x.requires_grad()), imp(|| x.is_leaf()));
        if rg != n.tracked { panic!("t{i} {} gradients, expected otherwise", if rg { "requires" } else { "does not require" }); }
        // whether a result that became an input is a leaf is left open
        let opened = i >= m.g.leaves && matches!(m.node(i), Gn::Acc(..));
        let want = i < m.g.leaves || !n.tracked;
        if leaf != want && !opened { panic!("t{i} is{} a leaf", if leaf { "" } else { " not" }); }
        match m.node(i) {
            Gn::Acc(_, want, scale) => match e.gradient(i) {
                None => panic!("t{i} requires gradients but has none"),
                Some((s, got)) => {
                    if s != m.g.shape(i) { panic!("gradient of t{i} has shape {s:?}, expected {:?}", m.g.shape(i)); }
                    if !close::<T>(&got, want, scale) { panic!("gradient of t{i} is {got:?}, expected {want:?}"); }
                    outcome(&got.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
                }
            },
            Gn::None(_) => if e.gradient(i).is_some() { panic!("t{i} does not require gradients but has one"); },
            Gn::Fun(_) => {}
        }
    }
    if let Some(Ev::Forward(_)) = m.events.last() {
        let i = m.g.root();
        let x = e.t(i);
        let d = imp(|| x.detach());
        let got: Vec<f64> = read_by_index(&d).into_iter().map(|x| x.f64()).collect();
        if d.shape() != m.g.shape(i) || !close::<T>(&got, &m.g.nodes[i].value, &m.g.nodes[i].value.iter().map(|x| x.abs()).collect::<Vec<_>>()) { panic!("detaching t{i} gives {got:?} of shape {:?}, expected {:?} of shape {:?}", d.shape(), m.g.nodes[i].value, m.g.shape(i)); }
        imp(move || drop(d));
    }
}

fn explore(m: &Model, al: &Al, depth: usize, f: &mut dyn FnMut(&Model)) {
    if depth == 0 { return; }
    for e in events(m, al) {
        let mut n = m.clone();
        n.apply(&e);
        f(&n);
        explore(&n, al, depth - 1, f);
    }
}

fn space<T: Dt + TensorDataType + FromF64>(p: &mut Plan, shapes: Vec<Vec<usize>>, al: Al, depth: usize) {
    for mask in 0..1u32 << shapes.len() {
        let m = Model::new(&shapes, mask);
        for e in events(&m, &al) {
            let (m, shapes, e) = (m.clone(), shapes.clone(), e.clone());
            p.group(format!("{} {shapes:?} tracked {mask:b} depth {depth} from {e:?}", T::NAME), move |ctx| {
                let mut m = m.clone();
                m.apply(&e);
                let mut visit = |m: &Model| {
                    if ctx.stopped() { return; }
                    ctx.case(|| format!("{} inputs of shapes {shapes:?} (tracked mask {mask:b}); {:?}", T::NAME, m.events), || {
                        state(&(T::NAME, &shapes, mask, &m.events));
                        run::<T>(m, &shapes);
                    });
                };
                visit(&m);
                explore(&m, &al, depth - 1, &mut visit);
            });
        }
    }
}

const OPS: GAlpha = GAlpha { scalars: &[('+', 3), ('-', 2), ('*', -6), ('/', -2)], bins: &['+', '-', '*', '/'], views: 2, neg: true, linalg: true, own: false, own_leaves: false, max_size: 8, max_dims: 3 };
const WIDE: Al = Al { ops: OPS, seeds: &[0, 1, 2], bad: true, backgrad: true, track: 2 };
const MID: Al = Al { ops: GAlpha { scalars: &[('*', -6), ('+', 3)], bins: &['+', '*'], views: 1, neg: false, max_size: 4, max_dims: 2, ..OPS }, seeds: &[0, 1], bad: false, backgrad: true, track: 2 };
const SLIM: Al = Al { ops: GAlpha { scalars: &[('*', -6)], bins: &['*'], views: 0, neg: false, linalg: false, ..OPS }, seeds: &[1], bad: false, backgrad: false, track: 1 };
const LONG: Al = Al { ops: GAlpha { scalars: &[], bins: &['*'], views: 0, neg: false, linalg: false, ..OPS }, seeds: &[1], bad: false, backgrad: false, track: 1 };

fn main() {
    mc::engine::main("C13", |tier| {
        let d = tier.pick(0, 1);
        let mut p = Plan::new(format!("all histories of forward operations (full tensor alphabet), backward passes (unseeded, seeded, with a transposed seed, seeded with a gradient, with seeds of 8 wrong shapes), gradient resets and switching tracking on and off (of inputs and results), from every assignment of tracking: up to {} events of the full alphabet on 1-2 inputs of 7 shape combinations, {} of a middle one, {} of a small one, {} of the smallest; everything (gradients, flags) compared after each history", 2 + d, 3 + d, 4 + d, 5 + d));
        p.assume("a backward pass through a computation that was made before tracking of one of its inputs was switched on is not explored; whether results that are made inputs count as leaves is left open");
        let v = |s: &[&[usize]]| s.iter().map(|x| x.to_vec()).collect::<Vec<_>>();
        for s in [v(&[&[]]), v(&[&[2]]), v(&[&[2, 2]]), v(&[&[2], &[2]]), v(&[&[2, 2], &[2]]), v(&[&[2], &[2, 1]]), v(&[&[2, 3], &[]])] { space::<f64>(&mut p, s, WIDE, 2 + d); }
        space::<f32>(&mut p, v(&[&[2], &[1, 2]]), WIDE, 2);
        for s in [v(&[&[2]]), v(&[&[2], &[2]]), v(&[&[2, 2], &[2]])] { space::<f64>(&mut p, s, MID, 3 + d); }
        for s in [v(&[&[2]]), v(&[&[2], &[2]])] { space::<f64>(&mut p, s, SLIM, 4 + d); }
        space::<f64>(&mut p, v(&[&[2]]), LONG, 5 + d);
        p
    });
}
