//! C11: memory is freed exactly once and never used after it is freed.
//!
//! Explicit histories over a small heap of arrays, views, tensors and shared arrays.  The model knows which
//! object borrows which (only histories the borrow checker accepts are explored) and what each object must
//! contain; the guard allocator makes freed memory inaccessible and checks every release.
use mc::*;
use redstone_ml::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Kind3 { A, T, R }

/// Operations on an array (A), a tensor (T) or a shared array (R).
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Act {
    Free,
    // borrowing views
    Vw, Row0, Tail, Tr, Rep, Flat, EinView,
    // consuming
    CView, CFlat, CTr, CUnsq, CSq,
    // copies
    Copied, Flattened, AsType, First,
    // results
    Plus, AddOwn, AddOwn2, Minus, NegOwn, Total, Mat,
    // in place
    Fill, PlusEq,
    // leaving
    IntoVec,
    // rejected
    BadRef, BadOwn, BadAdd, BadIndex,
    // tensors
    TView, TFlat, TTr, TAdd, TMul, TScale, TNeg, TMat, TAddOwn, TGrad, TToggle, TBackward, TZero, TGradient, TDetach, TInto, TShare, TCFlat, TCTr, TCView, TBad, TBadOwn, TBadSeed,
}
use self::Act::*;

const ARRAY_OPS: &[Act] = &[Free, Vw, Row0, Tail, Tr, Rep, Flat, EinView, CView, CFlat, CTr, CUnsq, CSq, Copied, Flattened, AsType, First, Plus, AddOwn, AddOwn2, Minus, NegOwn, Total, Mat, Fill, PlusEq, IntoVec, BadRef, BadOwn, BadAdd, BadIndex];
const ARRAY_FEW: &[Act] = &[Free, Vw, Row0, Tr, CView, CFlat, CTr, Copied, AddOwn, NegOwn, Fill, IntoVec, BadOwn];
const TENSOR_OPS: &[Act] = &[Free, TView, TFlat, TTr, TAdd, TMul, TScale, TNeg, TMat, TAddOwn, TGrad, TToggle, TBackward, TZero, TGradient, TDetach, TInto, TShare, TCFlat, TCTr, TCView, TBad, TBadOwn, TBadSeed];
const TENSOR_FEW: &[Act] = &[Free, TView, TFlat, TMul, TAddOwn, TGrad, TBackward, TGradient, TInto, TShare, TCFlat, TCTr];

/// What the model knows about an object.
#[derive(Clone, Debug)]
struct M { kind: Kind3, view: MView, buf: usize, parent: Option<usize>, owned: bool, alive: bool, grad: bool, leaf: bool,
    /// whether it is laid out contiguously is not known (a consumed tensor is copied if it is shared, and otherwise not)
    vague: bool }

#[derive(Clone, Debug, Default)]
struct World { objs: Vec<M>, bufs: Vec<Vec<f32>> }

impl World {
    fn borrowed(&self, i: usize) -> bool { self.objs.iter().any(|o| o.alive && o.parent == Some(i)) }
    fn content(&self, i: usize) -> Vec<f32> { select(&self.bufs[self.objs[i].buf], &self.objs[i].view.ids) }
    fn fresh(&mut self, kind: Kind3, shape: &[usize], data: Vec<f32>) -> usize {
        self.bufs.push(data);
        self.objs.push(M { kind, view: MView::root(shape), buf: self.bufs.len() - 1, parent: None, owned: true, alive: true, grad: false, leaf: kind == Kind3::T, vague: false });
        self.objs.len() - 1
    }
    fn derive(&mut self, i: usize, view: MView) -> usize {
        let o = M { view, parent: Some(i), owned: false, leaf: false, ..self.objs[i].clone() };
        self.objs.push(o);
        self.objs.len() - 1
    }
    fn live(&self) -> usize { self.objs.iter().filter(|o| o.alive).count() }

    fn view_op(op: Act, v: &MView) -> Option<VOp> {
        Some(match op {
            Vw | CView | TView | TCView => VOp::View,
            Row0 => VOp::SliceAlong(0, Ix::At(0)),
            Tail => VOp::SliceAlong(-1, Ix::From(1)),
            Tr | CTr | TTr | TCTr => VOp::Transpose(0, -1),
            Rep => { let mut s = vec![2]; s.extend(&v.shape); VOp::Broadcast(s) }
            Flat | CFlat | TFlat | TCFlat => VOp::Reshape(vec![v.size()]),
            CUnsq => VOp::Unsqueeze(0),
            CSq => VOp::Squeeze,
            _ => return None,
        })
    }

    /// Can the operation be applied (by the borrow rules and the types)?
    fn enabled(&self, i: usize, op: Act, max_live: usize) -> bool {
        let o = &self.objs[i];
        if !o.alive { return false; }
        let free = !self.borrowed(i);
        let room = self.live() < max_live;
        let nd = o.view.shape.len();
        let must = |op| matches!(Self::view_op(op, &o.view).map(|v| o.view.apply(&v)), Some(Verdict::Must(_)));
        if o.vague && matches!(op, Flat | CFlat | TFlat | TCFlat | CSq) { return false; }
        if (ARRAY_OPS.contains(&op) && op != Free) != (o.kind == Kind3::A) && op != Free { return false; }
        match op {
            Free | IntoVec | BadOwn | TBadOwn => free,
            Row0 | Tail | Tr | Rep | Flat | Vw | TView | TFlat | TTr => room && must(op) && o.view.size() <= 12,
            CView | CFlat | CTr | CUnsq | CSq | TCFlat | TCTr | TCView => free && must(op),
            EinView => room && nd == 2,
            Copied | Flattened | AsType | Plus | Minus | Total | TAdd | TMul | TScale | TNeg | TDetach | TShare => room,
            First => room && nd > 0,
            Mat | TMat => room && nd == 2 && o.view.shape[0] == o.view.shape[1],
            AddOwn | NegOwn | TAddOwn | TInto => free,
            AddOwn2 => free && self.objs.iter().enumerate().any(|(j, q)| self.partner(i, j, q)),
            Fill | PlusEq => free && !o.view.ro,
            BadRef | BadIndex | TBad => true,
            BadAdd => nd > 0 && *o.view.shape.last().unwrap() > 1,
            TGrad => free && !o.grad && o.leaf,
            TToggle => free && o.grad && o.leaf,
            TBackward | TZero | TBadSeed => true,
            TGradient => room && o.grad && o.leaf,
        }
    }
    fn partner(&self, i: usize, j: usize, q: &M) -> bool { j != i && q.alive && q.kind == Kind3::A && !self.borrowed(j) && q.view.shape == self.objs[i].view.shape && q.parent != Some(i) && self.objs[i].parent != Some(j) }

    /// The effect on the model.  (The gradients themselves are not modelled here.)
    fn apply(&mut self, i: usize, op: Act) {
        let o = self.objs[i].clone();
        let c = self.content(i);
        let n = o.view.size();
        let kill = |w: &mut World, i: usize| w.objs[i].alive = false;
        match op {
            Free | IntoVec | BadOwn | TBadOwn => kill(self, i),
            Vw | Row0 | Tail | Tr | Rep | Flat | TView | TFlat | TTr => {
                let v = match o.view.apply(&Self::view_op(op, &o.view).unwrap()) { Verdict::Must(v) => v, _ => unreachable!() };
                let k = self.derive(i, v);
                self.objs[k].grad = o.grad;
            }
            EinView => { let v = match o.view.apply(&VOp::Transpose(0, 1)) { Verdict::Must(v) => v, _ => unreachable!() }; self.derive(i, v); }
            CView | CFlat | CTr | CUnsq | CSq => {
                let v = match o.view.apply(&Self::view_op(op, &o.view).unwrap()) { Verdict::Must(v) => v, _ => unreachable!() };
                kill(self, i);
                let k = self.derive(i, v);
                self.objs[k].parent = o.parent;
                self.objs[k].owned = o.owned;
            }
            TCFlat | TCTr | TCView => {
                let v = match o.view.apply(&Self::view_op(op, &o.view).unwrap()) { Verdict::Must(v) => v, _ => unreachable!() };
                let data = select(&self.bufs[o.buf], &v.ids);
                kill(self, i);
                let k = self.fresh(Kind3::T, &v.shape, data);
                self.objs[k].grad = o.grad;
                self.objs[k].leaf = false;
                self.objs[k].vague = o.vague || op == TCTr || v.ids != MView::root(&v.shape).ids;
            }
            Copied | AsType => { self.fresh(Kind3::A, &o.view.shape, c); }
            Flattened => { self.fresh(Kind3::A, &[n], c); }
            First => { let k = n / o.view.shape[0]; self.fresh(Kind3::A, &o.view.shape[1..], c[..k].to_vec()); }
            Plus => { self.fresh(Kind3::A, &o.view.shape, c.iter().map(|x| x + x).collect()); }
            AddOwn => { kill(self, i); self.fresh(Kind3::A, &o.view.shape, c.iter().map(|x| x + 1.0).collect()); }
            AddOwn2 => {
                let j = (0..self.objs.len()).find(|&j| self.partner(i, j, &self.objs[j])).unwrap();
                let d = self.content(j);
                kill(self, i);
                kill(self, j);
                self.fresh(Kind3::A, &o.view.shape, c.iter().zip(&d).map(|(x, y)| x + y).collect());
            }
            Minus => { self.fresh(Kind3::A, &o.view.shape, c.iter().map(|x| -x).collect()); }
            NegOwn => { kill(self, i); self.fresh(Kind3::A, &o.view.shape, c.iter().map(|x| -x).collect()); }
            Total => { self.fresh(Kind3::A, &[], vec![c.iter().sum()]); }
            Mat => { let r = matmul(&c, o.view.shape[0]); self.fresh(Kind3::A, &o.view.shape, r); }
            Fill => { for &k in &o.view.ids { let x = &mut self.bufs[o.buf][k as usize]; if !x.is_nan() { *x = 6.0; } } }
            PlusEq => { for &k in &o.view.ids { self.bufs[o.buf][k as usize] += 2.0; } }
            BadRef | BadAdd | BadIndex | TBad | TBadSeed | TBackward | TZero => {}
            TAdd => self.tfresh(&o, c.iter().map(|x| x + x).collect(), None),
            TMul => self.tfresh(&o, c.iter().map(|x| x * x).collect(), None),
            TScale => self.tfresh(&o, c.iter().map(|x| x * 0.5).collect(), None),
            TNeg => self.tfresh(&o, c.iter().map(|x| -x).collect(), None),
            TMat => { let r = matmul(&c, o.view.shape[0]); self.tfresh(&o, r, None) }
            TAddOwn => { kill(self, i); self.tfresh(&o, c.iter().map(|x| x + x * 2.0).collect(), None) }
            TGrad => self.objs[i].grad = true,
            TToggle => self.objs[i].grad = false,
            // a view of the accumulated gradient, borrowed from the tensor; contents are not modelled
            TGradient => { let k = self.fresh(Kind3::A, &o.view.shape, vec![f32::NAN; n]); self.objs[k].parent = Some(i); self.objs[k].owned = false; }
            TDetach => { let k = self.fresh(Kind3::A, &o.view.shape, c); self.objs[k].vague = o.vague; }
            TInto => { kill(self, i); let k = self.fresh(Kind3::A, &o.view.shape, c); self.objs[k].vague = o.vague; }
            TShare => { self.fresh(Kind3::R, &o.view.shape, c); }
        }
    }
    fn tfresh(&mut self, o: &M, data: Vec<f32>, _: Option<()>) {
        let k = self.fresh(Kind3::T, &o.view.shape, data);
        self.objs[k].grad = o.grad;
        self.objs[k].leaf = false;
    }
}

fn matmul(c: &[f32], n: usize) -> Vec<f32> {
    let mut r = vec![0.0; n * n];
    for i in 0..n { for j in 0..n { for k in 0..n { r[i * n + j] += c[i * n + k] * c[k * n + j]; } } }
    r
}

enum Real { None, A(Box<Arr<f32>>), T(Box<Tensor<'static, f32>>), R(Rc<Arr<f32>>) }

struct Machine { objs: Vec<Real> }

impl Machine {
    fn a(&self, i: usize) -> &'static Arr<f32> { match &self.objs[i] { Real::A(a) => unsafe { long(a) }, Real::R(r) => unsafe { long(r) }, _ => panic!("harness") } }
    fn t(&self, i: usize) -> &'static Tensor<'static, f32> { match &self.objs[i] { Real::T(t) => unsafe { std::mem::transmute(&**t) }, _ => panic!("harness") } }
    fn take_a(&mut self, i: usize) -> Arr<f32> { match std::mem::replace(&mut self.objs[i], Real::None) { Real::A(a) => *a, _ => panic!("harness") } }
    fn take_t(&mut self, i: usize) -> Tensor<'static, f32> { match std::mem::replace(&mut self.objs[i], Real::None) { Real::T(t) => *t, _ => panic!("harness") } }
    fn push_a(&mut self, a: Arr<f32>) { self.objs.push(Real::A(Box::new(a))); }
    fn push_t(&mut self, t: Tensor<'static, f32>) { self.objs.push(Real::T(Box::new(t))); }

    fn apply(&mut self, w: &World, i: usize, op: Act) {
        let v = &w.objs[i].view;
        step();
        match op {
            Free => { let o = std::mem::replace(&mut self.objs[i], Real::None); drop_real(o); }
            Vw | Row0 | Tail | Tr | Rep | Flat => { let a = self.a(i); let x = imp(|| apply_ref(a, &World::view_op(op, v).unwrap())); self.push_a(x); }
            EinView => { let a = self.a(i); let x = imp(|| einsum_view(a, ("ij", "ji"))); self.push_a(x.expect("einsum_view gave nothing")); }
            CView | CFlat | CTr | CUnsq | CSq => { let a = self.take_a(i); let x = imp(|| apply_own(a, &World::view_op(op, v).unwrap())); self.push_a(x); }
            Copied => { let a = self.a(i); let x = imp(|| a.clone()); self.push_a(x); }
            Flattened => { let a = self.a(i); let x = imp(|| a.flatten()); self.push_a(x); }
            AsType => { let a = self.a(i); let x = imp(|| a.astype::<f32>()); self.push_a(x); }
            First => { let a = self.a(i); let x = imp(|| a.iter().next().unwrap()); self.push_a(unsafe { forget_lifetime(x) }); }
            Plus => { let a = self.a(i); let x = imp(|| a + a); self.push_a(x); }
            AddOwn => { let a = self.take_a(i); let x = imp(|| a + 1.0); self.push_a(x); }
            AddOwn2 => {
                let j = (0..w.objs.len()).find(|&j| w.partner(i, j, &w.objs[j])).unwrap();
                let (a, b) = (self.take_a(i), self.take_a(j));
                let x = imp(|| a + b);
                self.push_a(x);
            }
            Minus => { let a = self.a(i); let x = imp(|| -a); self.push_a(x); }
            NegOwn => { let a = self.take_a(i); let x = imp(|| -a); self.push_a(x); }
            Total => { let a = self.a(i); let x = imp(|| a.sum()); self.push_a(x); }
            Mat => { let a = self.a(i); let x = imp(|| a.matmul(a)); self.push_a(x); }
            Fill => if let Real::A(a) = &mut self.objs[i] { imp(|| a.fill(6.0)) },
            PlusEq => if let Real::A(a) = &mut self.objs[i] { imp(|| **a += 2.0) },
            IntoVec => {
                let (owned, contiguous) = (w.objs[i].owned, !w.objs[i].vague && v.ids.windows(2).all(|p| p[1] == p[0] + 1));
                let a = self.take_a(i);
                match attempt(move || a.into_data_vector()) {
                    Ok(x) => {
                        if !owned { panic!("a view gave up its data vector"); }
                        if !agrees(&x, &w.content(i)) { panic!("into_data_vector: {x:?}, expected {:?}", w.content(i)); }
                        if x.capacity() < x.len() { panic!("data vector has capacity {} < {}", x.capacity(), x.len()); }
                        imp(move || drop(x));
                    }
                    Err(e) => if owned && contiguous { panic!("into_data_vector refused: {e}") },
                }
            }
            // requests that cannot be met (whether they are rejected is C10's business)
            BadRef => { let a = self.a(i); let _ = (attempt(|| a.reshape(vec![7, 5])), attempt(|| a.slice_along(Axis(9), 0)), attempt(|| a.broadcast_to(&[7, 5, 6])), attempt(|| a.sum_along(8))); }
            BadOwn => { let a = self.take_a(i); let _ = attempt(move || a.reshape(vec![7, 5])); }
            BadAdd => {
                let a = self.a(i);
                let b = imp(|| Arr::<f32>::zeros([9usize]));
                let _ = attempt(|| a + &b);
                let _ = attempt(move || a + b);
            }
            BadIndex => { let a = self.a(i); let _ = attempt(|| a[[9; 3]]); }

            TView => { let t = self.t(i); let x = imp(|| t.view()); self.push_t(x); }
            TFlat => { let t = self.t(i); let x = imp(|| t.reshape(vec![v.size()])); self.push_t(x); }
            TTr => { let t = self.t(i); let x = imp(|| t.transpose(0, -1)); self.push_t(x); }
            TAdd => { let t = self.t(i); let x = imp(|| t + t); self.push_t(x); }
            TMul => { let t = self.t(i); let x = imp(|| t * t); self.push_t(x); }
            TScale => { let t = self.t(i); let x = imp(|| t / 2.0); self.push_t(x); }
            TNeg => { let t = self.t(i); let x = imp(|| -t); self.push_t(x); }
            TMat => { let t = self.t(i); let x = imp(|| t.matmul(t)); self.push_t(x); }
            TAddOwn => { let t = self.take_t(i); let x = imp(|| { let b = &t * 2.0; t + b }); self.push_t(x); }
            TGrad => if let Real::T(t) = &mut self.objs[i] { imp(|| { t.set_requires_grad(true); }) },
            TToggle => if let Real::T(t) = &mut self.objs[i] { imp(|| { t.set_requires_grad(false); }) },
            TBackward => { let t = self.t(i); imp(|| t.backward()); }
            TZero => { let t = self.t(i); imp(|| t.zero_gradient()); }
            TGradient => { let t = self.t(i); let g = imp(|| t.gradient()); self.push_a(g.expect("no gradient")); }
            TDetach => { let t = self.t(i); let x = imp(|| t.detach()); self.push_a(x); }
            TInto => { let t = self.take_t(i); let x = imp(|| t.into_ndarray()); self.push_a(x); }
            TShare => { let t = self.t(i); let x = imp(|| t.get_ndarray()); self.objs.push(Real::R(x)); }
            TCFlat => { let t = self.take_t(i); let x = imp(|| t.reshape(vec![v.size()])); self.push_t(x); }
            TCTr => { let t = self.take_t(i); let x = imp(|| t.transpose(0, -1)); self.push_t(x); }
            TCView => { let t = self.take_t(i); let x = imp(|| t.view()); self.push_t(x); }
            TBad => {
                let t = self.t(i);
                let b = imp(|| Tensor::<f32>::zeros([9usize]));
                let _ = (attempt(|| t.reshape(vec![7, 5])), attempt(|| t.transpose(7, 0)), attempt(|| t.bmm(&b)), attempt(|| t.dot(&b)));
                imp(move || drop(b));
            }
            TBadOwn => { let t = self.take_t(i); let _ = attempt(move || t.transpose(7, 0)); }
            TBadSeed => { let t = self.t(i); let _ = attempt(|| t.backward_with(&NdArray::ones([7usize, 5]))); }
        }
    }

    fn check(&self, w: &World) {
        for (i, o) in w.objs.iter().enumerate() {
            if !o.alive { continue; }
            let a: &Arr<f32> = match &self.objs[i] { Real::T(t) => t.ndarray(), _ => self.a(i) };
            let want = w.content(i);
            if a.shape() != &o.view.shape[..] { panic!("object {i}: shape {:?}, expected {:?}", a.shape(), o.view.shape); }
            let got = read_by_index(a);
            if !agrees(&got, &want) { panic!("object {i}: {got:?}, expected {want:?}"); }
        }
    }
}

/// Gradients are not modelled (NaN): any value will do, but they have to be readable.
fn agrees(got: &[f32], want: &[f32]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(g, w)| w.is_nan() || g == w) }

fn drop_real(o: Real) { match o { Real::None => {} Real::A(a) => imp(move || drop(a)), Real::T(t) => imp(move || drop(t)), Real::R(r) => imp(move || drop(r)) } }

#[derive(Clone)]
struct Start { kind: Kind3, shapes: Vec<Vec<usize>>, ops: &'static [Act], depth: usize, max_live: usize }

fn init(s: &Start) -> World {
    let mut w = World::default();
    for (k, sh) in s.shapes.iter().enumerate() { w.fresh(s.kind, sh, (0..prod(sh)).map(|i| (i + 1 + 2 * k) as f32).collect()); }
    w
}

fn run(s: &Start, h: &[(usize, Act)], finish: usize) {
    let mut w = init(s);
    let mut m = Machine { objs: vec![] };
    for (k, o) in w.objs.iter().enumerate() {
        let d = &w.bufs[k];
        match s.kind { Kind3::A => m.push_a(fresh(&o.view.shape, d)), _ => m.push_t(tensor(&o.view.shape, d)) }
    }
    for &(i, op) in h {
        m.apply(&w, i, op);
        w.apply(i, op);
    }
    m.check(&w);
    // drop what is left: newest first, or oldest first as far as the borrows allow
    loop {
        let mut order: Vec<usize> = (0..w.objs.len()).filter(|&i| w.objs[i].alive).collect();
        if order.is_empty() { break; }
        if finish == 0 { order.reverse(); }
        let i = *order.iter().find(|&&i| !w.borrowed(i)).expect("harness: borrow cycle");
        let o = std::mem::replace(&mut m.objs[i], Real::None);
        drop_real(o);
        w.objs[i].alive = false;
        m.check(&w);
    }
}

fn ops_for(s: &Start, kind: Kind3) -> &'static [Act] {
    match kind { Kind3::A => if s.ops.len() > 15 { ARRAY_OPS } else { ARRAY_FEW }, Kind3::T => if s.ops.len() > 15 { TENSOR_OPS } else { TENSOR_FEW }, Kind3::R => &[Free] }
}

fn moves(s: &Start, w: &World) -> Vec<(usize, Act)> {
    let mut out = vec![];
    for i in 0..w.objs.len() {
        if !w.objs[i].alive { continue; }
        for &op in ops_for(s, w.objs[i].kind) { if w.enabled(i, op, s.max_live) { out.push((i, op)); } }
    }
    out
}

fn explore(ctx: &mut Ctx, s: &Start, w: &World, h: &mut Vec<(usize, Act)>) {
    if ctx.stopped() { return; }
    for finish in 0..2 {
        if finish == 1 && w.live() < 2 { continue; }
        let hist = h.clone();
        ctx.case(|| format!("{:?} objects of shapes {:?}, history {hist:?}, then drop {} first", s.kind, s.shapes, ["newest", "oldest"][finish]), || {
            state(&(finish, s.kind, &s.shapes, &hist));
            run(s, &hist, finish);
        });
    }
    if h.len() >= s.depth { return; }
    for (i, op) in moves(s, w) {
        let mut w2 = w.clone();
        w2.apply(i, op);
        h.push((i, op));
        explore(ctx, s, &w2, h);
        h.pop();
    }
}

fn start(p: &mut Plan, s: Start) {
    let w = init(&s);
    for a in moves(&s, &w) {
        let mut w1 = w.clone();
        w1.apply(a.0, a.1);
        let next = moves(&s, &w1);
        // one group per first operation, and per second one where histories are long
        if s.depth >= 4 {
            for b in next {
                let (s, w1) = (s.clone(), w1.clone());
                p.group(format!("{:?} {:?} depth {} from {a:?} {b:?}", s.kind, s.shapes, s.depth), move |ctx| {
                    let mut w2 = w1.clone();
                    w2.apply(b.0, b.1);
                    explore(ctx, &s, &w2, &mut vec![a, b]);
                });
            }
        } else {
            let (s, w1) = (s.clone(), w1.clone());
            p.group(format!("{:?} {:?} depth {} from {a:?}", s.kind, s.shapes, s.depth), move |ctx| explore(ctx, &s, &w1, &mut vec![a]));
        }
    }
}

/// Every way of making an array, of every element type, and every way of getting rid of it.
fn constructors<T: Dt + NumericDataType>(p: &mut Plan, literals: Vec<(&'static str, fn() -> Arr<T>)>) {
    p.group(format!("constructors of {}", T::NAME), move |ctx| {
        type Make<T> = Box<dyn Fn() -> Arr<T>>;
        let mut makers: Vec<(String, Make<T>)> = vec![];
        for n in [1usize, 2, 3, 5, 8, 33] {
            makers.push((format!("full {n}"), Box::new(move || NdArray::full(T::val(3), [n]))));
            makers.push((format!("zeros {n}x2"), Box::new(move || NdArray::zeros([n, 2]))));
            makers.push((format!("ones 1x{n}"), Box::new(move || NdArray::ones(vec![1, n]))));
            makers.push((format!("arange {n}"), Box::new(move || NdArray::arange(T::val(0), T::val(n as i64)))));
            makers.push((format!("arange_with_step {n}"), Box::new(move || NdArray::arange_with_step(T::val(0), T::val(2 * n as i64), T::val(2)))));
            makers.push((format!("randint {n}"), Box::new(move || NdArray::randint([n], T::val(0), T::val(5)))));
            makers.push((format!("astype {n}"), Box::new(move || NdArray::<u8>::ones([n]).astype::<T>())));
            makers.push((format!("flatten {n}"), Box::new(move || NdArray::<T>::ones([n, 3]).T().flatten())));
            makers.push((format!("clone {n}"), Box::new(move || (&NdArray::<T>::ones([n, 3])).T().clone())));
            makers.push((format!("sum_along {n}"), Box::new(move || NdArray::<T>::ones([n, 3]).sum_along(1))));
            makers.push((format!("add {n}"), Box::new(move || NdArray::<T>::ones([n, 1]) + NdArray::<T>::ones([1usize, 2]))));
            // a buffer with spare capacity
            makers.push((format!("spare capacity {n}"), Box::new(move || { let mut v: Vec<T> = Vec::with_capacity(n + 7); v.resize(n, T::val(1)); unsafe { NdArray::from_contiguous_owned_buffer(vec![n], v) } })));
        }
        makers.push(("scalar".into(), Box::new(|| NdArray::scalar(T::val(4)))));
        for (name, f) in literals.clone() { makers.push((name.into(), Box::new(f))); }
        for (name, make) in &makers {
            for end in 0..9 {
                ctx.case(|| format!("{name} of {} then ending {end}", T::NAME), || {
                    state(&("make", T::NAME, name, end));
                    let a = imp(make);
                    let want = read_by_index(&a);
                    let n = want.len();
                    let vec_of = |a: Arr<T>| { let v = imp(move || a.into_data_vector()); if !same(&v, &want) { panic!("data vector {v:?}, expected {want:?}"); } imp(move || drop(v)); };
                    step();
                    match end {
                        0 => imp(move || drop(a)),
                        1 => vec_of(a),
                        2 => vec_of(imp(move || a.reshape(vec![n]))),
                        3 => vec_of(imp(move || a.reshape(vec![n, 1]).squeeze().unsqueeze(0).view())),
                        4 => { let b = imp(move || a.reshape(vec![1, n]).T()); imp(move || drop(b)); }
                        5 => { let b = imp(move || a.view()); let c = imp(|| b.clone()); imp(move || drop(b)); vec_of(c); }
                        6 => { let v = { let a: &'static Arr<T> = unsafe { long(&a) }; imp(|| a.view()) }; if attempt(move || v.into_data_vector()).is_ok() { panic!("a view gave up its data vector"); } imp(move || drop(a)); }
                        7 => { let _ = attempt(move || a.reshape(vec![n + 1])); }
                        _ => {
                            // a vector taken out can grow and shrink like any other
                            let v = imp(move || { let mut v = a.into_data_vector(); v.push(T::val(9)); v.shrink_to_fit(); v.reserve(100); v });
                            if !same(&v[..n], &want) { panic!("data vector changed"); }
                            imp(move || drop(v));
                        }
                    }
                });
            }
        }
    });
}

fn main() {
    mc::engine::main("C11", |tier| {
        let t = tier == Tier::Thorough;
        let d = tier.pick(0, 1);
        let mut p = Plan::new(format!("all histories (that the borrow rules allow) of up to {} operations of 31 kinds on 1-2 arrays and up to {} operations of 24 kinds on 1-2 tensors (with the arrays, views, shared arrays and gradients that come of them, at most 4-5 objects alive), and of up to {} operations of reduced alphabets; each ended by dropping everything newest first and oldest first; contents of every live object compared with the model at the end and after every drop; every constructor of every numeric type with 9 ways of ending; histories contain rejected requests", 3 + d, 3 + d, 5 + d));
        p.assume("histories that the borrow checker refuses are not explored; freed buffers are made inaccessible and not reused until the allocator has cycled through its slots");
        p.memory = true;
        p.strict = true;
        let a = |shapes: Vec<Vec<usize>>, ops, depth| Start { kind: Kind3::A, shapes, ops, depth, max_live: 4 };
        for s in [vec![], vec![3], vec![1, 2], vec![2, 2], vec![2, 1, 2]] { start(&mut p, a(vec![s], ARRAY_OPS, 3 + d)); }
        start(&mut p, a(vec![vec![2, 2], vec![2, 2]], ARRAY_OPS, 2 + d));
        start(&mut p, a(vec![vec![2, 3]], ARRAY_FEW, 5));
        if t { start(&mut p, a(vec![vec![2, 2]], ARRAY_FEW, 6)); start(&mut p, a(vec![vec![3]], ARRAY_FEW, 6)); }
        let b = |shapes: Vec<Vec<usize>>, ops, depth| Start { kind: Kind3::T, shapes, ops, depth, max_live: 5 };
        for s in [vec![], vec![3], vec![2, 2]] { start(&mut p, b(vec![s], TENSOR_OPS, 3 + d)); }
        start(&mut p, Start { max_live: 3, ..b(vec![vec![2, 2]], TENSOR_FEW, 5) });
        start(&mut p, b(vec![vec![2], vec![2]], TENSOR_OPS, 2 + d));
        if t { start(&mut p, b(vec![vec![2]], TENSOR_FEW, 6)); }
        macro_rules! dt { ($($t:ty),*) => { $( constructors::<$t>(&mut p, vec![
            ("new array", || NdArray::new([1 as $t, 2 as $t, 3 as $t])),
            ("new nested vec", || NdArray::new(vec![vec![1 as $t, 2 as $t], vec![3 as $t, 4 as $t], vec![5 as $t, 6 as $t]])),
            ("new vec of arrays", || NdArray::new(vec![[1 as $t, 2 as $t], [3 as $t, 4 as $t], [5 as $t, 6 as $t]])),
            ("new array of vecs", || NdArray::new([vec![1 as $t, 2 as $t], vec![3 as $t, 4 as $t], vec![5 as $t, 6 as $t]])),
        ]); )* } }
        dt!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
        p
    });
}
