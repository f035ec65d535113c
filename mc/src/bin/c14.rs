//! C14: a graph keeps what it needs alive; handed-out data stays valid.
use mc::*;
use redstone_ml::*;
use std::rc::Rc;

/// What becomes of a tensor before the backward pass.
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum Fate { Keep, DropEarly, DropLate, Extract, ExtractLate }

const FATES: [Fate; 5] = [Fate::Keep, Fate::DropEarly, Fate::DropLate, Fate::Extract, Fate::ExtractLate];

enum Held<T: Dt + TensorDataType> { Shared(Rc<NdArray<'static, T>>), Own(Arr<T>) }

struct World<'g, T: Dt + TensorDataType + FromF64> { g: &'g Graph, e: Exec<T>, extracted: Vec<Arr<T>> }

fn check_elements<T: Dt + FromF64>(what: &str, a: &NdArray<'_, T>, g: &Graph, i: usize) {
    let got: Vec<f64> = read_by_index(a).into_iter().map(|x| x.f64()).collect();
    let scale: Vec<f64> = g.nodes[i].value.iter().map(|x| 10.0 + x.abs()).collect();
    if a.shape() != g.shape(i) { panic!("{what} has shape {:?}, expected {:?}", a.shape(), g.shape(i)); }
    if !close::<T>(&got, &g.nodes[i].value, &scale) { panic!("{what} is {got:?}, expected {:?}", g.nodes[i].value); }
}

impl<'g, T: Dt + TensorDataType + FromF64> World<'g, T> {
    fn borrowed(&self, i: usize) -> bool { (0..self.e.nodes.len()).any(|j| self.e.nodes[j].is_some() && self.g.nodes[j].parent == Some(i)) }

    /// Disposes of the listed tensors, each as soon as nothing borrows from it any more.
    fn dispose(&mut self, mut due: Vec<(usize, bool)>, asc: bool) {
        if !asc { due.reverse(); }
        loop {
            let Some(k) = due.iter().position(|&(i, _)| self.e.nodes[i].is_some() && !self.borrowed(i)) else { break };
            let (i, extract) = due.remove(k);
            step();
            if extract {
                let t = self.e.take(i);
                let mut a = imp(move || t.into_ndarray());
                check_elements("the extracted array", &a, self.g, i);
                // its new owner overwrites it
                imp(|| a.fill(T::of(77.0)));
                self.extracted.push(a);
            } else {
                self.e.free(i);
            }
        }
    }

    fn teardown(mut self, asc: bool) {
        let n = self.e.nodes.len();
        self.dispose((0..n).map(|i| (i, false)).collect(), asc);
        for a in self.extracted.drain(..) {
            if read_by_index(&a).iter().any(|x| x.f64() != 77.0) { panic!("an extracted array changed after it was overwritten: {:?}", read_by_index(&a)); }
            imp(move || drop(a));
        }
    }
}

/// Index of the last operation that uses each tensor (its own, if none).
fn last_use(g: &Graph) -> Vec<usize> {
    let mut v: Vec<usize> = (0..g.nodes.len()).map(|i| if i < g.leaves { 0 } else { i - g.leaves }).collect();
    for (k, op) in g.ops.iter().enumerate() { for o in op.operands() { v[o] = k; } }
    v
}

fn disposable(g: &Graph) -> Vec<usize> { (0..g.root()).filter(|&i| g.nodes[i].alive).collect() }

fn run<T: Dt + TensorDataType + FromF64>(g: &Graph, fates: &[Fate], asc: bool, twice: bool, hand: Option<(usize, u8)>) {
    let lu = last_use(g);
    let mut w: World<T> = World { g, e: Exec::leaves(g), extracted: vec![] };
    let mut held: Option<Held<T>> = None;
    let mut take = |w: &World<T>, at: usize| if let Some((i, kind)) = hand {
        if i == at {
            let t = w.e.t(i);
            held = Some(if kind == 0 { Held::Shared(imp(|| t.get_ndarray())) } else { Held::Own(imp(|| t.detach())) });
        }
    };
    for i in 0..g.leaves { take(&w, i); }
    let nodes = disposable(g);
    let fate = |i: usize| nodes.iter().position(|&x| x == i).map(|k| fates[k]).unwrap_or(Fate::Keep);
    for (k, op) in g.ops.iter().enumerate() {
        w.e.push(op);
        take(&w, g.leaves + k);
        let due: Vec<_> = (0..g.leaves + k).filter(|&i| lu[i] == k && matches!(fate(i), Fate::DropEarly | Fate::Extract)).map(|i| (i, fate(i) == Fate::Extract)).collect();
        w.dispose(due, asc);
    }
    let due: Vec<_> = nodes.iter().filter(|&&i| fate(i) != Fate::Keep).map(|&i| (i, matches!(fate(i), Fate::Extract | Fate::ExtractLate))).collect();
    w.dispose(due, asc);
    let r = g.root();
    check_elements("the result", w.e.t(r).ndarray(), g, r);
    let vals = seed_values(g.nodes[r].value.len());
    let s = fresh(g.shape(r), &vals.iter().map(|x| T::of(*x)).collect::<Vec<T>>());
    let want = g.gradients(r, &vals);
    let mut passes = 0.0;
    // gradients handed out before a pass are views of them: still readable after it, showing the one before or after
    let mut seen: Vec<(usize, NdArray<'static, T>, Vec<f64>)> = vec![];
    loop {
        let t = w.e.t(r);
        step();
        imp(|| t.backward_with(&s));
        passes += 1.0;
        for (i, v, before) in seen.drain(..) {
            let (now, shape): (Vec<f64>, _) = (read_by_index(&v).into_iter().map(|x| x.f64()).collect(), v.shape().to_vec());
            let after: Vec<f64> = want[i].0.iter().map(|x| x * passes).collect();
            if shape != g.shape(i) || !(now == before || close::<T>(&now, &after, &want[i].1.iter().map(|x| x * passes).collect::<Vec<_>>())) { panic!("the gradient of t{i} handed out before pass {passes} now is {now:?}; it was {before:?} and should have become {after:?}"); }
            imp(move || drop(v));
        }
        for i in 0..g.leaves {
            if w.e.nodes[i].is_none() || !g.nodes[i].tracked { continue; }
            let Some((shape, got)) = w.e.gradient(i) else { panic!("t{i} requires gradients but has none") };
            let (wv, ws): (Vec<f64>, Vec<f64>) = (want[i].0.iter().map(|x| x * passes).collect(), want[i].1.iter().map(|x| x * passes).collect());
            if shape != g.shape(i) || !close::<T>(&got, &wv, &ws) { panic!("gradient of t{i} after {passes} passes is {got:?}, expected {wv:?}"); }
            outcome(&got.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
        }
        check_elements("the result", w.e.t(r).ndarray(), g, r);
        if !twice || passes > 1.0 { break; }
        for i in 0..g.leaves {
            if w.e.nodes[i].is_none() || !g.nodes[i].tracked { continue; }
            let t = w.e.t(i);
            if let Some(v) = imp(|| t.gradient()) { let now = read_by_index(&v).into_iter().map(|x| x.f64()).collect(); seen.push((i, v, now)); }
        }
        // everything but the result and the tracked inputs goes between the passes
        let due: Vec<_> = (0..r).filter(|&i| w.e.nodes[i].is_some() && !(i < g.leaves && g.nodes[i].tracked)).map(|i| (i, false)).collect();
        w.dispose(due, asc);
    }
    imp(move || drop(s));
    // the gradients outlive the result
    if w.e.nodes[r].is_some() && !w.borrowed(r) {
        w.e.free(r);
        for i in 0..g.leaves {
            if w.e.nodes[i].is_none() || !g.nodes[i].tracked { continue; }
            let Some((_, got)) = w.e.gradient(i) else { panic!("the gradient of t{i} is gone with the result") };
            let wv: Vec<f64> = want[i].0.iter().map(|x| x * passes).collect();
            if !close::<T>(&got, &wv, &want[i].1) { panic!("gradient of t{i} after the result is gone is {got:?}, expected {wv:?}"); }
        }
    }
    w.teardown(asc);
    match held {
        None => {}
        Some(Held::Shared(a)) => { check_elements("the shared array handed out", &a, g, hand.unwrap().0); imp(move || drop(a)); }
        Some(Held::Own(mut a)) => {
            check_elements("the detached array", &a, g, hand.unwrap().0);
            imp(|| a.fill(T::of(5.0)));
            imp(move || drop(a));
        }
    }
}

fn visit<T: Dt + TensorDataType + FromF64>(ctx: &mut Ctx, g: &Graph, fates: &[Fate], hands: bool) {
    if ctx.stopped() || !g.nodes[g.root()].tracked { return; }
    let nodes = disposable(g);
    let lu = last_use(g);
    let mut pick = vec![0usize; nodes.len()];
    loop {
        let f: Vec<Fate> = pick.iter().map(|&k| fates[k]).collect();
        // "late" is not different from "early" after the last operation
        let redundant = nodes.iter().zip(&f).any(|(&i, f)| matches!(f, Fate::DropLate | Fate::ExtractLate) && lu[i] + 1 == g.ops.len());
        if !redundant {
            for asc in [true, false] {
                if !asc && f.iter().filter(|x| **x != Fate::Keep).count() < 2 { continue; }
                ctx.case(|| format!("{} {}; fates of {nodes:?}: {f:?}, {}; backward from the last", T::NAME, show(g), if asc { "oldest first" } else { "newest first" }), || {
                    state(&(T::NAME, g.leaves, &g.ops, (0..g.leaves).map(|i| (g.shape(i).to_vec(), g.nodes[i].tracked)).collect::<Vec<_>>(), &f, asc));
                    run::<T>(g, &f, asc, false, None)
                });
            }
        }
        let Some(k) = (0..pick.len()).rev().find(|&k| pick[k] + 1 < fates.len()) else { break };
        pick[k] += 1;
        for x in &mut pick[k + 1..] { *x = 0; }
    }
    let keep = vec![Fate::Keep; nodes.len()];
    let early = vec![Fate::DropEarly; nodes.len()];
    ctx.case(|| format!("{} {}; two backward passes from the last, dropping the rest in between", T::NAME, show(g)), || run::<T>(g, &keep, true, true, None));
    if hands {
        for i in 0..g.nodes.len() { for kind in [0, 1] { for (f, asc) in [(&keep, true), (&early, false)] {
            ctx.case(|| format!("{} {}; t{i}.{}() kept until all else is gone (operands {})", T::NAME, show(g), ["get_ndarray", "detach"][kind as usize], if asc { "kept" } else { "dropped early" }), || run::<T>(g, f, asc, false, Some((i, kind))));
        } } }
    }
}

fn space<T: Dt + TensorDataType + FromF64>(p: &mut Plan, shapes: Vec<Vec<usize>>, al: GAlpha, depth: usize, fates: &'static [Fate], masks: bool) { space_of::<T>(p, shapes, al, depth, fates, masks, 0) }

fn space_of<T: Dt + TensorDataType + FromF64>(p: &mut Plan, shapes: Vec<Vec<usize>>, al: GAlpha, depth: usize, fates: &'static [Fate], masks: bool, variant: u8) {
    let n = shapes.len();
    let full = Graph::with(&shapes, (1 << n) - 1, variant);
    for op in moves(&full, &al) {
        let shapes = shapes.clone();
        p.group(format!("{} {shapes:?} inputs {variant} depth {depth} from {op:?}", T::NAME), move |ctx| {
            for mask in 1u32..1 << n {
                if !masks && mask + 1 != 1 << n { continue; }
                let mut g = Graph::with(&shapes, mask, variant);
                g.push(&op);
                visit::<T>(ctx, &g, fates, true);
                programs(&g, &al, depth - 1, &mut |g| visit::<T>(ctx, g, fates, masks));
            }
        });
    }
}

const ALL: GAlpha = GAlpha { scalars: &[('+', 3), ('*', -6), ('/', -2)], bins: &['+', '-', '*', '/'], views: 2, neg: true, linalg: true, own: true, own_leaves: true, max_size: 16, max_dims: 4 };
const SOME: GAlpha = GAlpha { scalars: &[('+', 3), ('*', -6)], bins: &['+', '*'], views: 1, neg: false, linalg: true, own: true, own_leaves: false, max_size: 8, max_dims: 3 };
const FEW: GAlpha = GAlpha { scalars: &[('+', 3)], bins: &['*'], views: 1, neg: false, linalg: false, own: false, own_leaves: false, max_size: 4, max_dims: 2 };

fn main() {
    mc::engine::main("C14", |tier| {
        let d = tier.pick(0, 1);
        let mut p = Plan::new(format!("all tensor programs (full alphabet, borrowing and consuming, of intermediates and inputs) of 1 operation on 16 and of 2 operations on {} shape combinations, of <= {} operations of smaller alphabets; every assignment of fates to the tensors (for one operation, and fewer fates for longer programs: kept; dropped right after the last use or at the end; turned into an array that is then overwritten, right after the last use or at the end), disposed oldest or newest first, as far as the borrow rules allow; then one backward pass (or two, dropping the rest in between); every tensor's shared and detached array kept until everything else is gone; every subset of tracked inputs", tier.pick(3, 9), 3 + d));
        p.assume("freed buffers are made inaccessible; disposals that the borrow checker refuses are not explored");
        p.memory = true;
        p.strict = true;
        let v = |s: &[&[usize]]| s.iter().map(|x| x.to_vec()).collect::<Vec<_>>();
        let pairs = [v(&[&[2], &[2]]), v(&[&[2, 2], &[2]]), v(&[&[2, 1], &[1, 2]]), v(&[&[2, 2], &[2, 2]]), v(&[&[], &[2]]), v(&[&[2, 3], &[3, 2]]), v(&[&[1, 2, 2], &[1, 2, 2]]), v(&[&[3], &[2, 3]]), v(&[&[1], &[1, 1]])];
        for s in pairs.iter().cloned().chain([v(&[&[]]), v(&[&[2]]), v(&[&[2, 2]]), v(&[&[2, 1]]), v(&[&[1, 3]]), v(&[&[2, 3]]), v(&[&[2, 1, 2]])]) { space::<f64>(&mut p, s, ALL, 1, &FATES, true); }
        space::<f32>(&mut p, v(&[&[2], &[2, 2]]), ALL, 1, &FATES, true);
        // inputs stored transposed; scalars 0 and 1
        for s in [v(&[&[2, 2], &[2]]), v(&[&[2, 3], &[3, 2]]), v(&[&[1, 2, 2], &[1, 2, 2]]), v(&[&[2, 3]])] { space_of::<f64>(&mut p, s, ALL, 1, &FATES, true, 4); }
        for s in [v(&[&[2]]), v(&[&[2, 2], &[2]])] { space::<f64>(&mut p, s, GAlpha { scalars: &[('+', 0), ('-', 0), ('*', 0), ('*', 4), ('/', 4), ('*', -4)], linalg: false, ..ALL }, 1, &FATES, true); }
        for s in pairs[..tier.pick(3, 9)].iter().cloned() { space::<f64>(&mut p, s, if d == 0 { SOME } else { ALL }, 2, if d == 0 { &FATES[..4] } else { &FATES }, true); }
        for s in [v(&[&[2]]), v(&[&[2, 2]])].into_iter().take(1 + d) { space::<f64>(&mut p, s, SOME, 3, if d == 0 { &FATES[..2] } else { &FATES[..4] }, false); }
        for s in [v(&[&[2], &[2]]), v(&[&[2, 2], &[2]])] { space::<f64>(&mut p, s, FEW, 3 + d, if d == 0 { &FATES[..2] } else { &FATES[..3] }, false); }
        p
    });
}
