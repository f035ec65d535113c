//! C18: tensor programs give what the same programs give on plain arrays.
use mc::*;
use redstone_ml::*;

/// The same programs on plain arrays.
struct Plain<T: Dt> { nodes: Vec<Option<Box<Arr<T>>>> }

impl<T: Dt> Drop for Plain<T> {
    fn drop(&mut self) { while let Some(x) = self.nodes.pop() { if let Some(a) = x { imp(move || drop(a)); } } }
}

impl<T: Dt + TensorDataType + FromF64> Plain<T> {
    fn leaves(g: &Graph) -> Plain<T> {
        Plain { nodes: g.nodes[..g.leaves].iter().map(|n| Some(Box::new({
            let data: Vec<T> = n.value.iter().map(|x| T::of(*x)).collect();
            if n.vague {
                let mut r = n.view.shape.clone();
                let last = r.len() - 1;
                r.swap(0, last);
                let buf: Vec<T> = indices(&r).into_iter().map(|mut i| { i.swap(0, last); data[ravel(&n.view.shape, &i)] }).collect();
                let a = fresh(&r, &buf);
                imp(move || a.transpose(0, -1))
            } else { fresh(&n.view.shape, &data) }
        }))).collect() }
    }
    fn a(&self, i: usize) -> &'static Arr<T> { unsafe { long(self.nodes[i].as_ref().unwrap()) } }
    fn take(&mut self, i: usize) -> Arr<T> { *self.nodes[i].take().unwrap() }
    fn compute(&mut self, op: &GOp) -> Result<Arr<T>, String> {
        macro_rules! bin { ($op:expr, $a:expr, $b:expr) => { match $op { '+' => $a + $b, '-' => $a - $b, '*' => $a * $b, _ => $a / $b } } }
        match op {
            GOp::Neg { a, own: false } => { let x = self.a(*a); attempt(|| -x) }
            GOp::Neg { a, own: true } => { let x = self.take(*a); attempt(|| -x) }
            GOp::Scalar { op, s, a, own: false } => { let (x, s) = (self.a(*a), T::of(scalar_of(*s))); attempt(|| bin!(op, x, s)) }
            GOp::Scalar { op, s, a, own: true } => { let (x, s) = (self.take(*a), T::of(scalar_of(*s))); attempt(|| bin!(op, x, s)) }
            GOp::View { a, op, own: false } => { let x = self.a(*a); attempt(|| apply_ref(x, op)) }
            GOp::View { a, op, own: true } => { let x = self.take(*a); attempt(|| apply_own(x, op)) }
            GOp::Bin { op, a, b, own } => match own {
                (false, false) => { let (x, y) = (self.a(*a), self.a(*b)); attempt(|| bin!(op, x, y)) }
                (true, false) => { let y = self.a(*b); let x = self.take(*a); attempt(|| bin!(op, x, y)) }
                (false, true) => { let x = self.a(*a); let y = self.take(*b); attempt(|| bin!(op, x, y)) }
                (true, true) => { let (x, y) = (self.take(*a), self.take(*b)); attempt(|| bin!(op, x, y)) }
            },
            GOp::Dot(a, b) => { let (x, y) = (self.a(*a), self.a(*b)); attempt(|| x.dot(y)) }
            GOp::Mat(a, b) => { let (x, y) = (self.a(*a), self.a(*b)); attempt(|| x.matmul(y)) }
            GOp::Bmm(a, b) => { let (x, y) = (self.a(*a), self.a(*b)); attempt(|| x.bmm(y)) }
        }
    }
}

fn same_array<T: Dt + FromF64>(what: &str, got: &NdArray<'_, T>, shape: &[usize], want: &[f64]) {
    if got.shape() != shape { panic!("{what} has shape {:?}, expected {shape:?}", got.shape()); }
    let v: Vec<f64> = read_by_index(got).into_iter().map(|x| x.f64()).collect();
    let ok = v.iter().zip(want).all(|(a, b)| a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= T::EPS * (10.0 + b.abs()));
    if !ok { panic!("{what} is {v:?}, expected {want:?}"); }
}

/// Runs the program, then one more operation (defined or not) on tensors and on arrays.
fn run<T: Dt + TensorDataType + FromF64>(g: &Graph, op: &GOp, full: bool) {
    let mut e: Exec<T> = Exec::leaves(g);
    let mut p: Plain<T> = Plain::leaves(g);
    // the program so far has been compared already
    for o in &g.ops {
        e.push(o);
        match p.compute(o) { Ok(a) => p.nodes.push(Some(Box::new(a))), Err(m) => panic!("arrays refuse {o:?}: {m}") }
        steps(1);
    }
    let vague = matches!(op, GOp::View { a, .. } if g.nodes[*a].vague || g.nodes[*a].view.skey != row_major(&g.nodes[*a].view.shape));
    let a = p.compute(op);
    let t = { let e = &mut e; step(); attempt(move || e.compute(op)) };
    match (a, t) {
        (Err(_), Err(_)) => {}
        (Ok(a), Ok(t)) => { p.nodes.push(Some(Box::new(a))); e.nodes.push(Some(Box::new(t))); }
        // whether a consumed view is copied (and so can be reshaped) is not part of the property
        (Ok(a), Err(_)) if vague => { imp(move || drop(a)); }
        (Err(_), Ok(t)) if vague => { imp(move || drop(t)); }
        (Ok(a), Err(m)) => { imp(move || drop(a)); panic!("{op:?} is refused for tensors ({m}) but not for arrays"); }
        (Err(m), Ok(t)) => { imp(move || drop(t)); panic!("{op:?} is accepted for tensors but not for arrays ({m})"); }
    }
    let wants: Vec<Option<(Vec<usize>, Vec<f64>)>> = p.nodes.iter().map(|a| a.as_ref().map(|a| (a.shape().to_vec(), read_by_index(a).into_iter().map(|x| x.f64()).collect()))).collect();
    let r = e.nodes.len() - 1;
    let compare = |e: &Exec<T>, when: &str| for i in 0..=r {
        let (Some(t), Some((shape, want))) = (&e.nodes[i], &wants[i]) else { continue };
        same_array(&format!("t{i} {when}"), t.ndarray(), shape, want);
        if t.shape() != &shape[..] || t.ndims() != shape.len() || t.size() != prod(shape) { panic!("t{i} {when}: shape {:?}, {} dimensions, size {}; expected shape {shape:?}", t.shape(), t.ndims(), t.size()); }
        if shape.is_empty() { let x = imp(|| t.value()); if x.key() != read_by_index(t.ndarray())[0].key() { panic!("value of t{i} is {x:?}"); } }
        outcome(&want.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
    };
    compare(&e, "forward");
    if r + 1 == g.nodes.len() + 1 && full {
        let Some((shape, want)) = &wants[r] else { return };
        let t = e.t(r);
        // conversions
        let d = imp(|| t.detach());
        same_array("the detached array", &d, shape, want);
        let s = imp(|| t.get_ndarray());
        same_array("the shared array", &s, shape, want);
        if !(want.iter().any(|x| x.is_nan())) {
            if !imp(|| *t == d) || !imp(|| d == *t) || !imp(|| *t == *t) { panic!("a tensor is not equal to its own detached array"); }
            // and to no array that differs
            let mut other = imp(|| d.clone());
            let last: Vec<usize> = shape.iter().map(|x| x - 1).collect();
            *get_mut(&mut other, &last) = T::of(12345.5);
            if imp(|| *t == other) || imp(|| other == *t) { panic!("a tensor equals an array that differs in its last element"); }
            imp(move || drop(other));
        }
        let (x, y) = (imp(|| format!("{t:?}")), imp(|| format!("{d:?}")));
        if x != y { panic!("the tensor prints as {x}, its array as {y}"); }
        imp(move || { drop(s); drop(d); drop(x); drop(y) });
        if imp(|| t.requires_grad()) {
            imp(|| t.backward());
            compare(&e, "after a backward pass");
            let s = fresh(shape, &seed_values(prod(shape)).iter().map(|x| T::of(*x)).collect::<Vec<T>>());
            imp(|| t.backward_with(&s));
            compare(&e, "after two backward passes");
            imp(move || drop(s));
        }
        if !e.nodes.iter().enumerate().any(|(j, n)| n.is_some() && j < g.nodes.len() && g.nodes[j].parent == Some(r)) {
            let t = e.take(r);
            let a = imp(move || t.into_ndarray());
            same_array("the extracted array", &a, shape, want);
            imp(move || drop(a));
        }
    }
}

/// View operations that are (mostly) not defined for the shape.
fn odd_views(g: &Graph, a: usize) -> Vec<VOp> {
    let s = g.shape(a).to_vec();
    let nd = s.len() as isize;
    let n = prod(&s);
    vec![VOp::Reshape(vec![n + 1]), VOp::Reshape(vec![]), VOp::Reshape([&s[..], &[2]].concat()), VOp::Unsqueeze(nd + 1), VOp::Unsqueeze(-nd - 2), VOp::Unsqueeze(-1), VOp::Transpose(0, nd), VOp::Transpose(-nd - 1, 0), VOp::Transpose(0, 0), VOp::T, VOp::Transpose(0, 1), VOp::Squeeze]
}

/// What the array version of a tensor borrows from (consuming a view of an array gives a view).
fn array_parent(g: &Graph, j: usize) -> Option<usize> {
    if j < g.leaves { return None; }
    match &g.ops[j - g.leaves] { GOp::View { a, own: false, .. } => Some(*a), GOp::View { a, own: true, .. } => array_parent(g, *a), _ => None }
}
fn expressible(g: &Graph, op: &GOp) -> bool {
    g.expressible(op) && !op.consumed().iter().any(|&c| (0..g.nodes.len()).any(|j| g.nodes[j].alive && array_parent(g, j) == Some(c)))
}

fn visit<T: Dt + TensorDataType + FromF64>(ctx: &mut Ctx, g: &Graph, al: &GAlpha, shapes: &[Vec<usize>], mask: u32) {
    if ctx.stopped() { return; }
    let mut ops = candidates(g, al);
    for a in 0..g.nodes.len() { for op in odd_views(g, a) { for own in [false, true] { ops.push(GOp::View { a, op: op.clone(), own }); } } }
    for op in &ops {
        if !expressible(g, op) { continue; }
        if let GOp::View { op: VOp::Reshape(s), .. } = op { if s.len() > al.max_dims { continue; } }
        if let Some(n) = g.eval(op) { if n.value.len() > al.max_size { continue; } }
        ctx.case(|| format!("{} {}; then {op:?}", T::NAME, show(g)), || {
            state(&(T::NAME, shapes, mask, &g.ops, op));
            run::<T>(g, op, true);
        });
    }
}

fn space<T: Dt + TensorDataType + FromF64>(p: &mut Plan, shapes: Vec<Vec<usize>>, al: GAlpha, depth: usize) { space_of::<T>(p, shapes, al, depth, 0) }

fn space_of<T: Dt + TensorDataType + FromF64>(p: &mut Plan, shapes: Vec<Vec<usize>>, al: GAlpha, depth: usize, variant: u8) {
    let n = shapes.len();
    for mask in 0u32..1 << n {
        let (s, full) = (shapes.clone(), Graph::with(&shapes, mask, variant));
        p.group(format!("{} {shapes:?} inputs {variant} tracked {mask:b} depth 1", T::NAME), move |ctx| visit::<T>(ctx, &Graph::with(&s, mask, variant), &al, &s, mask));
        if depth < 2 { continue; }
        for op in moves(&full, &al) {
            let shapes = shapes.clone();
            p.group(format!("{} {shapes:?} inputs {variant} tracked {mask:b} depth {depth} from {op:?}", T::NAME), move |ctx| {
                let mut g = Graph::with(&shapes, mask, variant);
                g.push(&op);
                visit::<T>(ctx, &g, &al, &shapes, mask);
                all_programs(&g, &al, depth - 2, &mut |g| visit::<T>(ctx, g, &al, &shapes, mask));
            });
        }
    }
}

/// Like `programs`, without asking that results are used.
fn all_programs(g: &Graph, al: &GAlpha, depth: usize, f: &mut dyn FnMut(&Graph)) {
    if depth == 0 { return; }
    for op in moves(g, al) {
        if !expressible(g, &op) { continue; }
        let mut h = g.clone();
        h.push(&op);
        f(&h);
        all_programs(&h, al, depth - 1, f);
    }
}

const ALL: GAlpha = GAlpha { scalars: &[('+', 3), ('-', 2), ('*', -6), ('/', -2)], bins: &['+', '-', '*', '/'], views: 2, neg: true, linalg: true, own: true, own_leaves: true, max_size: 64, max_dims: 5 };
const SOME: GAlpha = GAlpha { scalars: &[('+', 3), ('/', -2)], bins: &['-', '/'], views: 1, neg: true, max_size: 16, max_dims: 3, own_leaves: false, ..ALL };
const FEW: GAlpha = GAlpha { scalars: &[('*', -6)], bins: &['*'], views: 1, neg: false, linalg: false, max_size: 8, max_dims: 3, own_leaves: true, ..ALL };
const EDGE: GAlpha = GAlpha { scalars: &[('+', 0), ('-', 0), ('*', 0), ('*', 4), ('*', -4), ('/', 4), ('/', 0)], ..ALL };
const MANY_AXES: GAlpha = GAlpha { scalars: &[('*', -6)], max_size: 1024, max_dims: 13, linalg: false, ..ALL };
const LONG: GAlpha = GAlpha { views: 1, own: false, own_leaves: false, max_size: 100000, ..ALL };

fn main() {
    mc::engine::main("C18", |tier| {
        let d = tier.pick(0, 1);
        let mut p = Plan::new(format!("all tensor programs (full alphabet, borrowing and consuming, defined or not) of 1 operation on all pairs of shapes of <= 3 axes of length 1..3, of 2 operations on {} shape combinations, of {} operations of smaller alphabets, with every assignment of tracking, run in lock-step with the same program on plain arrays; refusals compared; then detached, shared and extracted arrays, equality, printing, and all values again after one and two backward passes; lengths up to {} and 5000, 70001 for single operations; inputs containing zeros, all one, all zero, equal or stored transposed, scalars 0 and 1, inputs of 5 to 12 axes (one operation); f64 and f32", tier.pick(4, 9), 3 + d, tier.pick(300, 1000)));
        p.assume("whether a consuming view operation copies (and so whether its result can be reshaped) is left open; results are compared up to rounding");
        let v = |s: &[&[usize]]| s.iter().map(|x| x.to_vec()).collect::<Vec<_>>();
        let small: Vec<Vec<usize>> = shapes_upto(3, &[1, 2, 3]);
        for a in &small { for b in &small { space::<f64>(&mut p, vec![a.clone(), b.clone()], if a.len() + b.len() <= 4 { ALL } else { SOME }, 1); } }
        for s in [v(&[&[2], &[2, 2]]), v(&[&[], &[3]]), v(&[&[2, 2], &[2, 2]])] { space::<f32>(&mut p, s, ALL, 1); }
        let combos = [v(&[&[2], &[2]]), v(&[&[2, 2], &[2]]), v(&[&[2, 1], &[1, 2]]), v(&[&[2, 3], &[3, 2]]), v(&[&[], &[2]]), v(&[&[1, 2, 2], &[1, 2, 2]]), v(&[&[3], &[2, 3]]), v(&[&[1], &[1, 1]]), v(&[&[2, 2, 2]])];
        for s in &combos[..tier.pick(4, 9)] { space::<f64>(&mut p, s.clone(), if d == 0 { SOME } else { ALL }, 2); }
        for s in [v(&[&[2, 2]]), v(&[&[2, 1]]), v(&[&[]])] { space::<f64>(&mut p, s, ALL, 2); }
        for s in [v(&[&[2, 2]]), v(&[&[2], &[2]]), v(&[&[1, 2], &[2]])] { space::<f64>(&mut p, s, FEW, 3 + d); }
        // special contents, layouts and scalars; many axes
        for variant in 1..=5 { for s in [v(&[&[], &[]]), v(&[&[2], &[2]]), v(&[&[2, 2], &[2]]), v(&[&[2, 3], &[3, 2]]), v(&[&[2, 2, 3], &[2, 3, 2]])] { space_of::<f64>(&mut p, s, EDGE, 1, variant); } }
        space_of::<f64>(&mut p, v(&[&[2, 2]]), SOME, 2, 4);
        space::<f64>(&mut p, v(&[&[2], &[1]]), EDGE, 1);
        for s in [v(&[&[2, 1, 2, 1, 2], &[2, 2, 1, 2, 1]]), v(&[&[2, 1, 2, 2, 1], &[2, 1]]), v(&[&[2, 2, 2, 2, 2, 2], &[2, 2, 2]]), v(&[&[2, 3, 1, 2, 1, 2, 1], &[3, 1, 2, 2, 1, 1]]), v(&[&[2, 1, 1, 2, 1, 1, 2, 1, 1], &[1, 2, 1]]), v(&[&[1, 1, 2, 1, 1, 1, 1, 2, 1, 1, 1, 1], &[2]])] {
            for variant in [0, 4] { space_of::<f64>(&mut p, s.clone(), MANY_AXES, 1, variant); }
        }
        for n in lengths(40, tier.pick(300, 1000)).into_iter().chain([5000, 70001]) {
            for s in [vec![vec![n], vec![n]], vec![vec![n], vec![]], vec![vec![n, 2], vec![2]], vec![vec![2, n], vec![n]]] { space::<f64>(&mut p, s, LONG, 1); }
        }
        for (n, m, l) in [(5, 7, 3), (1, 17, 9), (16, 16, 16), (17, 8, 33), (33, 4, 17)] {
            space::<f64>(&mut p, vec![vec![n, m], vec![m, l]], LONG, 1);
            space::<f64>(&mut p, vec![vec![3, n, m], vec![3, m, l]], LONG, 1);
        }
        p
    });
}
