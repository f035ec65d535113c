//! The reference model: an array is a shape and the row-major list of the root elements it denotes.
//!
//! Every operation is defined by gathering element identities from multi-indices (no strides, offsets or
//! flags), following NumPy's semantics.  Element identities are positions in the root's row-major buffer.

pub fn prod(s: &[usize]) -> usize { s.iter().product() }

/// All multi-indices of a shape in row-major order.
pub fn indices(shape: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for &n in shape {
        let mut next = Vec::with_capacity(out.len() * n);
        for p in &out {
            for i in 0..n {
                let mut q = p.clone();
                q.push(i);
                next.push(q);
            }
        }
        out = next;
    }
    out
}

pub fn ravel(shape: &[usize], idx: &[usize]) -> usize {
    let mut r = 0;
    for (n, i) in shape.iter().zip(idx) { r = r * n + i; }
    r
}

/// NumPy broadcast of two shapes; None if incompatible.
pub fn broadcast2(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let mut out = vec![0; n];
    for k in 0..n {
        let x = if k < a.len() { a[a.len() - 1 - k] } else { 1 };
        let y = if k < b.len() { b[b.len() - 1 - k] } else { 1 };
        out[n - 1 - k] = if x == y || y == 1 { x } else if x == 1 { y } else { return None };
    }
    Some(out)
}

/// The elements of `data` (of shape `from`) seen through the broadcast shape `to`.
pub fn broadcast_data<T: Copy>(data: &[T], from: &[usize], to: &[usize]) -> Vec<T> {
    if from == to { return data.to_vec(); }
    indices(to).iter().map(|i| {
        let tail = &i[to.len() - from.len()..];
        let j: Vec<usize> = tail.iter().zip(from).map(|(&i, &n)| if n == 1 { 0 } else { i }).collect();
        data[ravel(from, &j)]
    }).collect()
}

pub fn broadcastable(from: &[usize], to: &[usize]) -> bool {
    from.len() <= to.len() && from.iter().rev().zip(to.iter().rev()).all(|(&a, &b)| a == 1 || a == b)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ix { At(usize), Range(usize, usize), From(usize), Full, Incl(usize, usize), To(usize), ToIncl(usize) }

impl Ix {
    /// (first, length, collapses) within an axis of length n, or None if it must be rejected.
    pub fn resolve(&self, n: usize) -> Option<(usize, usize, bool)> {
        let (a, b) = match *self {
            Ix::At(i) => return if i < n { Some((i, 1, true)) } else { None },
            Ix::Range(a, b) => (a, b),
            Ix::From(a) => (a, n),
            Ix::Full => (0, n),
            Ix::Incl(a, b) => (a, b.checked_add(1)?),
            Ix::To(b) => (0, b),
            Ix::ToIncl(b) => (0, b.checked_add(1)?),
        };
        if a < b && b <= n { Some((a, b - a, false)) } else { None }
    }

    /// Every in-range index expression for an axis of length n (`full`), or a representative subset.
    pub fn all(n: usize, full: bool) -> Vec<Ix> {
        let mut v = vec![];
        if full {
            for i in 0..n { v.push(Ix::At(i)); }
            v.push(Ix::Full);
            for a in 0..n { for b in a + 1..=n { v.push(Ix::Range(a, b)); v.push(Ix::Incl(a, b - 1)); } }
            for a in 0..n { v.push(Ix::From(a)); v.push(Ix::ToIncl(a)); v.push(Ix::To(a + 1)); }
        } else {
            v.push(Ix::Full);
            v.push(Ix::At(n - 1));
            if n > 1 { v.push(Ix::At(0)); v.push(Ix::From(1)); v.push(Ix::To(n - 1)); }
            if n > 2 { v.push(Ix::Range(1, n - 1)); v.push(Ix::At(1)); }
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum VOp {
    Slice(Vec<Ix>),
    SliceAlong(isize, Ix),
    Reshape(Vec<usize>),
    View,
    Squeeze,
    Unsqueeze(isize),
    T,
    Transpose(isize, isize),
    Broadcast(Vec<usize>),
    Diagonal,
    DiagonalAlong(isize, isize),
    OffsetDiagonal(isize),
    OffsetDiagonalAlong(isize, isize, isize),
}

impl VOp {
    /// Whether the operation also exists in a form that consumes the array.
    pub fn consumable(&self) -> bool {
        matches!(self, VOp::Reshape(_) | VOp::View | VOp::Squeeze | VOp::Unsqueeze(_) | VOp::T | VOp::Transpose(..))
    }
}

/// One step of a history: the operation, and whether it consumes the array.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Step { pub op: VOp, pub consume: bool }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MView {
    pub shape: Vec<usize>,
    pub ids: Vec<u32>,
    pub ro: bool,
    pub owned: bool,
    /// Distances between neighbours along each axis (only used to tell states apart and as the expected
    /// stride of axes with more than one element).
    pub skey: Vec<usize>,
}

/// What the model says about a request.
#[derive(Clone, Debug)]
pub enum Verdict {
    /// must succeed with this result
    Must(MView),
    /// may be refused, but if it succeeds must give this result
    May(MView),
    /// must be rejected
    Reject,
}

fn axis(a: isize, n: usize) -> Option<usize> {
    let n = n as isize;
    if a < -n || a >= n { None } else { Some((if a < 0 { a + n } else { a }) as usize) }
}

pub fn row_major(shape: &[usize]) -> Vec<usize> {
    let mut s = vec![1; shape.len()];
    for i in (0..shape.len().saturating_sub(1)).rev() { s[i] = s[i + 1] * shape[i + 1]; }
    s
}

impl MView {
    pub fn root(shape: &[usize]) -> MView {
        MView { shape: shape.to_vec(), ids: (0..prod(shape) as u32).collect(), ro: false, owned: true, skey: row_major(shape) }
    }

    pub fn size(&self) -> usize { self.ids.len() }
    pub fn at(&self, idx: &[usize]) -> u32 { self.ids[ravel(&self.shape, idx)] }

    /// If the elements in row-major order are equally spaced in the root: that distance.
    pub fn progression(&self) -> Option<usize> {
        if self.ids.len() < 2 { return Some(0); }
        let d = self.ids[1] as i64 - self.ids[0] as i64;
        if d < 0 { return None; }
        if self.ids.windows(2).all(|w| w[1] as i64 - w[0] as i64 == d) { Some(d as usize) } else { None }
    }

    pub fn has_singleton(&self) -> bool { self.shape.contains(&1) }

    fn gather(&self, shape: Vec<usize>, skey: Vec<usize>, f: impl Fn(&[usize]) -> Vec<usize>) -> MView {
        let ids = indices(&shape).iter().map(|o| self.at(&f(o))).collect();
        MView { shape, ids, ro: self.ro, owned: false, skey }
    }

    pub fn apply(&self, op: &VOp) -> Verdict {
        let nd = self.shape.len();
        match op {
            VOp::View => Verdict::Must(MView { owned: false, ..self.clone() }),
            VOp::Slice(ixs) => {
                if ixs.len() > nd { return Verdict::Reject; }
                let mut full = ixs.clone();
                full.resize(nd, Ix::Full);
                let mut rs = vec![];
                for (ix, &n) in full.iter().zip(&self.shape) {
                    match ix.resolve(n) { Some(r) => rs.push(r), None => return Verdict::Reject }
                }
                let keep: Vec<usize> = (0..nd).filter(|&a| !rs[a].2).collect();
                let shape: Vec<usize> = keep.iter().map(|&a| rs[a].1).collect();
                let skey = keep.iter().map(|&a| self.skey[a]).collect();
                Verdict::Must(self.gather(shape, skey, |o| {
                    let mut idx: Vec<usize> = rs.iter().map(|r| r.0).collect();
                    for (k, &a) in keep.iter().enumerate() { idx[a] += o[k]; }
                    idx
                }))
            }
            VOp::SliceAlong(a, ix) => {
                let Some(a) = axis(*a, nd) else { return Verdict::Reject };
                let mut ixs = vec![Ix::Full; a];
                ixs.push(ix.clone());
                self.apply(&VOp::Slice(ixs))
            }
            VOp::Reshape(shape) => {
                if *shape == self.shape { return Verdict::Must(MView { owned: false, ..self.clone() }); }
                if prod(shape) != self.size() { return Verdict::Reject; }
                let mut acc = self.skey.last().copied().unwrap_or(1);
                let mut skey = vec![0; shape.len()];
                for i in (0..shape.len()).rev() { skey[i] = acc; acc *= shape[i]; }
                let r = MView { shape: shape.clone(), ids: self.ids.clone(), ro: self.ro, owned: false, skey };
                if self.progression().is_some() && (!self.has_singleton() || self.skey == row_major(&self.shape)) { Verdict::Must(r) } else { Verdict::May(r) }
            }
            VOp::Squeeze => {
                let keep: Vec<usize> = (0..nd).filter(|&a| self.shape[a] != 1).collect();
                Verdict::Must(MView {
                    shape: keep.iter().map(|&a| self.shape[a]).collect(),
                    skey: keep.iter().map(|&a| self.skey[a]).collect(),
                    ids: self.ids.clone(), ro: self.ro, owned: false,
                })
            }
            VOp::Unsqueeze(a) => {
                let Some(a) = axis(*a, nd + 1) else { return Verdict::Reject };
                let mut shape = self.shape.clone();
                let mut skey = self.skey.clone();
                let d = if a == nd { 1 } else { skey[a] * shape[a] };
                shape.insert(a, 1);
                skey.insert(a, d);
                Verdict::Must(MView { shape, skey, ids: self.ids.clone(), ro: self.ro, owned: false })
            }
            VOp::T => self.apply(&VOp::Transpose(0, 1)),
            VOp::Transpose(a, b) => {
                let (Some(a), Some(b)) = (axis(*a, nd), axis(*b, nd)) else { return Verdict::Reject };
                let mut shape = self.shape.clone();
                shape.swap(a, b);
                let mut skey = self.skey.clone();
                skey.swap(a, b);
                Verdict::Must(self.gather(shape, skey, |o| { let mut i = o.to_vec(); i.swap(a, b); i }))
            }
            VOp::Broadcast(to) => {
                if !broadcastable(&self.shape, to) { return Verdict::Reject; }
                let k = to.len() - nd;
                let mut skey = vec![0; k];
                for a in 0..nd { skey.push(if self.shape[a] == 1 { 0 } else { self.skey[a] }); }
                let ids = broadcast_data(&self.ids, &self.shape, to);
                Verdict::Must(MView { shape: to.clone(), ids, ro: true, owned: false, skey })
            }
            VOp::Diagonal => self.apply(&VOp::OffsetDiagonalAlong(0, 0, 1)),
            VOp::DiagonalAlong(a, b) => self.apply(&VOp::OffsetDiagonalAlong(0, *a, *b)),
            VOp::OffsetDiagonal(k) => self.apply(&VOp::OffsetDiagonalAlong(*k, 0, 1)),
            VOp::OffsetDiagonalAlong(k, a, b) => {
                if nd < 2 { return Verdict::Reject; }
                let (Some(a), Some(b)) = (axis(*a, nd), axis(*b, nd)) else { return Verdict::Reject };
                if a == b { return Verdict::Reject; }
                // element i of the diagonal is at (i + max(-k, 0), i + max(k, 0)) on axes (a, b)
                let (ra, rb) = (k.checked_neg().unwrap_or(isize::MAX).max(0) as usize, (*k).max(0) as usize);
                if ra >= self.shape[a] || rb >= self.shape[b] { return Verdict::Reject; }
                let n = (self.shape[a] - ra).min(self.shape[b] - rb);
                let keep: Vec<usize> = (0..nd).filter(|&x| x != a && x != b).collect();
                let mut shape: Vec<usize> = keep.iter().map(|&x| self.shape[x]).collect();
                shape.push(n);
                let mut skey: Vec<usize> = keep.iter().map(|&x| self.skey[x]).collect();
                skey.push(self.skey[a] + self.skey[b]);
                Verdict::Must(self.gather(shape, skey, |o| {
                    let mut idx = vec![0; nd];
                    for (j, &x) in keep.iter().enumerate() { idx[x] = o[j]; }
                    let i = o[keep.len()];
                    idx[a] = i + ra;
                    idx[b] = i + rb;
                    idx
                }))
            }
        }
    }

    /// Result of a step that is expected to be possible (used to build catalogues).
    pub fn after(&self, s: &Step) -> Option<MView> {
        match self.apply(&s.op) {
            Verdict::Must(mut v) => { if s.consume { v.owned = self.owned; } Some(v) }
            _ => None,
        }
    }
}

/// Bounds of the enumeration of view operations.
#[derive(Clone, Copy)]
pub struct Alphabet {
    pub max_dims: usize,
    pub max_size: usize,
    /// enumerate all index expressions of every axis (otherwise representatives)
    pub full_ix: bool,
    pub consume: bool,
    /// longest prefix of axes sliced jointly
    pub joint: usize,
    /// include negative axes
    pub neg: bool,
}

fn factorisations(n: usize, dims: usize) -> Vec<Vec<usize>> {
    if dims == 0 { return if n == 1 { vec![vec![]] } else { vec![] }; }
    let mut out = vec![];
    for d in 1..=n {
        if n % d == 0 {
            for mut r in factorisations(n / d, dims - 1) { r.insert(0, d); out.push(r); }
        }
    }
    out
}

/// All operations enabled in a state, within the alphabet.
pub fn enabled(v: &MView, al: &Alphabet) -> Vec<Step> {
    let nd = v.shape.len();
    let mut ops = vec![VOp::View, VOp::Squeeze];
    let axes: Vec<isize> = if al.neg { (-(nd as isize)..nd as isize).collect() } else { (0..nd as isize).collect() };
    for &a in &axes {
        let n = v.shape[if a < 0 { (a + nd as isize) as usize } else { a as usize }];
        for ix in Ix::all(n, al.full_ix) { ops.push(VOp::SliceAlong(a, ix)); }
    }
    for k in 0..=nd.min(al.joint) {
        let mut acc: Vec<Vec<Ix>> = vec![vec![]];
        for a in 0..k {
            let mut next = vec![];
            for p in &acc { for ix in Ix::all(v.shape[a], al.full_ix && k == 1) {
                let mut q = p.clone();
                q.push(ix);
                next.push(q);
            } }
            acc = next;
        }
        for p in acc { ops.push(VOp::Slice(p)); }
    }
    let many = al.max_dims > 8;
    if many {
        // arrays of many axes: representative reshapes and whole-array slices
        let n = v.size();
        let mut rev = v.shape.clone();
        rev.reverse();
        let flat: Vec<usize> = v.shape.iter().copied().filter(|&x| x != 1).collect();
        let mut front = vec![1; al.max_dims - flat.len()];
        front.extend(&flat);
        let mut back = flat.clone();
        back.resize(al.max_dims, 1);
        let mut spread = vec![];
        for &x in &flat { spread.extend([1, x, 1]); }
        if spread.len() > al.max_dims { spread = flat.clone(); }
        for s in [vec![n], vec![1, n], vec![n, 1], v.shape.clone(), rev, flat, front, back, spread] { ops.push(VOp::Reshape(s)); }
        let pick = |f: &dyn Fn(usize, usize) -> Ix| VOp::Slice(v.shape.iter().enumerate().map(|(k, &n)| f(k, n)).collect());
        ops.push(pick(&|_, _| Ix::Full));
        ops.push(pick(&|_, n| Ix::At(n - 1)));
        ops.push(pick(&|k, n| if k % 2 == 0 { Ix::Range(n - 1, n) } else { Ix::Full }));
        ops.push(pick(&|k, n| if k % 3 == 0 { Ix::At(n - 1) } else { Ix::From(0) }));
        ops.push(pick(&|_, n| if n == 1 { Ix::At(0) } else { Ix::Full }));
    }
    for d in 0..=if many { 0 } else { al.max_dims } {
        for s in factorisations(v.size(), d) { ops.push(VOp::Reshape(s)); }
    }
    if nd < al.max_dims {
        for a in 0..=nd as isize { ops.push(VOp::Unsqueeze(a)); }
        if al.neg { for a in -(nd as isize) - 1..0 { ops.push(VOp::Unsqueeze(a)); } }
    }
    if nd >= 2 {
        ops.push(VOp::T);
        ops.push(VOp::Diagonal);
        for &a in &axes { for &b in &axes {
            if !al.neg && a > b { continue; }
            ops.push(VOp::Transpose(a, b));
        } }
        for a in 0..nd as isize { for b in 0..nd as isize { if a != b {
            let (na, nb) = (v.shape[a as usize] as isize, v.shape[b as usize] as isize);
            ops.push(VOp::DiagonalAlong(a, b));
            for k in -(na - 1)..nb {
                if a == 0 && b == 1 { ops.push(VOp::OffsetDiagonal(k)); }
                ops.push(VOp::OffsetDiagonalAlong(k, a, if al.neg && k == 1 { b - nd as isize } else { b }));
            }
        } } }
    } else if nd == 1 {
        for &a in &axes { ops.push(VOp::Transpose(a, 0)); }
    }
    // broadcast: repeat any subset of singleton axes, with or without new leading axes
    let mut targets: Vec<Vec<usize>> = vec![vec![]];
    for &n in &v.shape {
        let mut next = vec![];
        for t in &targets {
            for m in if n == 1 && !many { vec![1, 2, 3] } else { vec![n] } {
                let mut q: Vec<usize> = t.clone();
                q.push(m);
                next.push(q);
            }
        }
        targets = next;
    }
    if many {
        for (k, &n) in v.shape.iter().enumerate() { if n == 1 {
            for m in [2, 3] { let mut t = v.shape.clone(); t[k] = m; targets.push(t); }
        } }
    }
    for t in targets {
        for lead in [vec![], vec![1], vec![2], vec![3], vec![2, 2]] {
            let mut s: Vec<usize> = lead;
            s.extend(&t);
            if s.len() <= al.max_dims && prod(&s) <= al.max_size { ops.push(VOp::Broadcast(s)); }
        }
    }
    let mut out = vec![];
    for op in ops {
        if al.consume && op.consumable() { out.push(Step { op: op.clone(), consume: true }); }
        out.push(Step { op, consume: false });
    }
    out
}

pub struct Rec { pub path: Vec<Step>, pub view: MView, pub depth: usize }

/// Explicit-state breadth-first search of the model from a root shape: every distinct state reachable by
/// at most `depth` operations, with a shortest history reaching it.
pub fn catalogue(root: &[usize], al: &Alphabet, depth: usize) -> Vec<Rec> {
    let mut seen = std::collections::HashSet::new();
    let r = MView::root(root);
    seen.insert(r.clone());
    let mut out = vec![Rec { path: vec![], view: r, depth: 0 }];
    let mut i = 0;
    while i < out.len() {
        if out[i].depth < depth {
            for s in enabled(&out[i].view, al) {
                if let Some(v) = out[i].view.after(&s) {
                    if v.shape.len() <= al.max_dims && v.size() <= al.max_size && seen.insert(v.clone()) {
                        let mut path = out[i].path.clone();
                        path.push(s);
                        let d = out[i].depth + 1;
                        out.push(Rec { path, view: v, depth: d });
                    }
                }
            }
        }
        i += 1;
    }
    out
}

/// All shapes with at most `dims` axes, each of one of the given lengths.
pub fn shapes_upto(dims: usize, lens: &[usize]) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..dims {
        let mut next = vec![];
        for s in &last { for &n in lens { let mut t = s.clone(); t.push(n); next.push(t); } }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
