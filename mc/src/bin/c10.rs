//! C10: out-of-range requests panic and never touch memory outside the array.
//! Run twice: with overflow checks (profile release) and without (profile fast).
use mc::*;
use redstone_ml::*;

const HUGE: [usize; 4] = [usize::MAX, usize::MAX - 1, 1 << 63, (1 << 63) - 1];

/// Indices outside an axis of length n, including ones that wrap around when multiplied by its distance.
fn outside(n: usize, stride: usize) -> Vec<usize> {
    let mut v = vec![n, n + 1, 2 * n + 1, 1 << 32];
    v.extend(HUGE);
    if stride > 1 {
        // the product with the distance wraps around to a small number
        let q = (usize::MAX / stride).wrapping_add(1);
        v.extend([q, q + 1]);
        if stride % 2 == 1 { let mut inv = 1usize; for _ in 0..6 { inv = inv.wrapping_mul(2usize.wrapping_sub(stride.wrapping_mul(inv))); } v.push(inv); }
    }
    v.retain(|&i| i >= n);
    v
}

fn bad_ix(n: usize, stride: usize, deep: bool) -> Vec<Ix> {
    let mut v = vec![];
    for i in outside(n, stride) {
        v.push(Ix::At(i));
        v.push(Ix::From(i));
        v.push(Ix::ToIncl(i));
        v.push(Ix::Range(0, i.wrapping_add(1)));
        v.push(Ix::Incl(0, i));
        if !deep {
            v.push(Ix::To(i.saturating_add(1)));
            v.push(Ix::Range(n - 1, i.saturating_add(1)));
            v.push(Ix::Incl(n - 1, i));
            v.push(Ix::Range(i, i));
            v.push(Ix::Range(i, i.saturating_add(1)));
            v.push(Ix::Incl(i, i));
            v.push(Ix::Range(i, 1));
            v.push(Ix::Incl(i, 0));
        }
    }
    v.push(Ix::To(0));
    for a in 0..n.min(3) { v.push(Ix::Range(a, a)); for b in 0..a { v.push(Ix::Range(a, b)); v.push(Ix::Incl(a, b)); } }
    v.retain(|ix| ix.resolve(n).is_none());
    v
}

fn bad_axes(nd: usize) -> Vec<isize> {
    let n = nd as isize;
    vec![n, n + 1, -n - 1, -n - 2, isize::MAX, isize::MIN, isize::MIN + 1, n + (1 << 32), (1 << 62) + n]
}

fn inverse(odd: usize) -> usize {
    let mut inv = 1usize;
    for _ in 0..6 { inv = inv.wrapping_mul(2usize.wrapping_sub(odd.wrapping_mul(inv))); }
    inv
}

/// Shapes that do not have exactly `size` elements, including ones whose element count wraps around to it.
fn bad_shapes(size: usize) -> Vec<Vec<usize>> {
    let mut v = vec![
        vec![size + 1], vec![size, 2], vec![2, size], vec![0], vec![size, 0], vec![0, size], vec![size + 1, 1], vec![usize::MAX], vec![usize::MAX, 2], vec![1 << 32, 1 << 32],
        vec![1 << 32, 1 << 32, size], vec![1 << 63, 2], vec![size, 1 << 63, 2],
        // wrapping around to exactly `size`
        vec![3, size.wrapping_mul(inverse(3))], vec![size.wrapping_mul(inverse(5)), 5], vec![usize::MAX, usize::MAX, size], vec![usize::MAX, size.wrapping_neg()],
    ];
    if size % 2 == 0 { v.push(vec![2, (1 << 63) + size / 2]); v.push(vec![(1 << 63) + size / 2, 2]); }
    if size > 1 { v.push(vec![]); v.push(vec![size - 1]); v.push(vec![1]); v.push(vec![1, size - 1]); }
    v.retain(|s| s.iter().try_fold(1usize, |a, &b| a.checked_mul(b)) != Some(size));
    v
}

fn bad_requests(v: &MView, deep: bool) -> Vec<VOp> {
    let nd = v.shape.len();
    let mut out = vec![];
    for a in 0..nd {
        for ix in bad_ix(v.shape[a], v.skey[a], deep) {
            out.push(VOp::SliceAlong(a as isize, ix.clone()));
            let mut s: Vec<Ix> = v.shape[..a].iter().map(|&n| if deep { Ix::Full } else { Ix::At(n - 1) }).collect();
            s.push(ix);
            out.push(VOp::Slice(s.clone()));
            if !deep && a + 1 < nd {
                s.push(Ix::From(0));
                out.push(VOp::Slice(s));
            }
        }
    }
    for &a in &bad_axes(nd) {
        out.push(VOp::SliceAlong(a, Ix::At(0)));
        out.push(VOp::SliceAlong(a, Ix::Full));
        out.push(VOp::Transpose(a, 0));
        out.push(VOp::Transpose(-1, a));
        out.push(VOp::Transpose(a, a));
        out.push(VOp::DiagonalAlong(a, 0));
        out.push(VOp::DiagonalAlong(0, a));
        out.push(VOp::OffsetDiagonalAlong(0, a, 1));
        out.push(VOp::OffsetDiagonalAlong(0, -1, a));
    }
    for &a in &bad_axes(nd + 1) { out.push(VOp::Unsqueeze(a)); }
    let mut many = vec![Ix::Full; nd];
    many.push(Ix::Full);
    out.push(VOp::Slice(many.clone()));
    many[nd] = Ix::At(0);
    out.push(VOp::Slice(many));
    if nd < 2 { out.extend([VOp::T, VOp::Diagonal, VOp::OffsetDiagonal(0), VOp::OffsetDiagonal(1), VOp::OffsetDiagonalAlong(0, 0, 0), VOp::DiagonalAlong(0, 0)]); }
    else {
        for a in 0..nd as isize { for b in 0..nd as isize {
            if a == b { out.push(VOp::DiagonalAlong(a, b)); out.push(VOp::DiagonalAlong(a, b - nd as isize)); continue; }
            let (na, nb) = (v.shape[a as usize] as isize, v.shape[b as usize] as isize);
            for k in [nb, nb + 1, -na, -na - 1, isize::MAX, isize::MIN, isize::MIN + 1, 1 << 62, -(1 << 62)] {
                out.push(VOp::OffsetDiagonalAlong(k, a, b));
                if a == 0 && b == 1 { out.push(VOp::OffsetDiagonal(k)); }
            }
        } }
    }
    for s in bad_shapes(v.size()) { out.push(VOp::Reshape(s)); }
    // broadcasting: fewer axes, other lengths, too many elements
    for k in 0..nd {
        out.push(VOp::Broadcast(v.shape[k + 1..].to_vec()));
        for m in [0, 1, v.shape[k] - 1, v.shape[k] + 1, 2 * v.shape[k], usize::MAX] {
            let mut s = v.shape.clone();
            s[k] = m;
            if !broadcastable_big(&v.shape, &s) { out.push(VOp::Broadcast(s.clone())); s.insert(0, 2); out.push(VOp::Broadcast(s)); }
        }
    }
    if v.size() > 1 { let mut s = vec![usize::MAX]; s.extend(&v.shape); out.push(VOp::Broadcast(s)); }
    for lead in [[1 << 32, 1 << 32], [1 << 63, 2], [usize::MAX, usize::MAX]] { let mut s = lead.to_vec(); s.extend(&v.shape); out.push(VOp::Broadcast(s)); }
    out
}

fn broadcastable_big(from: &[usize], to: &[usize]) -> bool {
    to.len() >= from.len() && from.iter().rev().zip(to.iter().rev()).all(|(&a, &b)| a == b || a == 1)
        && to.iter().try_fold(1usize, |a, &b| a.checked_mul(b)).is_some()
}

fn unchanged<T: Dt>(c: &Chain<T>, v: &MView, root: &[usize], path: &[Step], data: &[T]) {
    if c.last().shape() != &v.shape[..] { panic!("after a rejected request: the shape has changed"); }
    let mut k = 0;
    for i in indices(&v.shape) {
        if get(c.last(), &i).key() != data[v.ids[k] as usize].key() { panic!("after a rejected request: the array's element {i:?} has changed"); }
        k += 1;
    }
    if c.links.len() > 1 {
        let mut first = MView::root(root);
        for s in path.iter().take_while(|s| s.consume) { first = first.after(s).unwrap(); }
        expect("root after a rejected request", c.root_ref(), &first.shape, &select(data, &first.ids));
    }
}

fn refuse<R>(what: impl Fn() -> String, f: impl FnOnce() -> R) {
    if attempt(f).is_ok() { panic!("{} was not rejected", what()); }
    step();
}

fn reject_state<T: Dt + NumericDataType>(ctx: &mut Ctx, root: &[usize], r: &Rec) {
    let data: Vec<T> = fill_values(prod(root), 1);
    let v = &r.view;
    let nd = v.shape.len();
    let deep = r.depth >= 2;
    ctx.case(|| format!("out-of-range views of {} of {}", show_path(root, &r.path), T::NAME), || {
        state(&("views", T::NAME, root, &v.shape, &v.ids, &v.skey, v.ro));
        let c = Chain::build(root, &data, &r.path);
        let a = c.last();
        for op in bad_requests(v, deep) {
            if let Ok(x) = attempt(|| apply_ref(a, &op)) {
                let s = x.shape().to_vec();
                std::mem::forget(x);
                panic!("{op:?} was not rejected, giving shape {s:?}");
            }
            step();
        }
        unchanged(&c, v, root, &r.path, &data);
    });
    if r.depth <= 1 {
        ctx.case(|| format!("out-of-range consuming views of {} of {}", show_path(root, &r.path), T::NAME), || {
            for op in bad_requests(v, true) {
                if !op.consumable() { continue; }
                let mut c = Chain::build(root, &data, &r.path);
                let a = c.take();
                if let Ok(x) = attempt(move || apply_own(a, &op)) {
                    let s = x.shape().to_vec();
                    std::mem::forget(x);
                    panic!("a consuming view was not rejected, giving shape {s:?}");
                }
                step();
            }
        });
    }
    ctx.case(|| format!("out-of-range elements and axes of {} of {}", show_path(root, &r.path), T::NAME), || {
        let mut c = Chain::build(root, &data, &r.path);
        // one axis out of range, the others at either end
        for k in 0..nd {
            for i in outside(v.shape[k], v.skey[k]) {
                for low in [true, false] {
                    let mut idx: Vec<usize> = v.shape.iter().map(|&n| if low { 0 } else { n - 1 }).collect();
                    idx[k] = i;
                    let a = c.last();
                    refuse(|| format!("reading element {idx:?}"), || *get_ref(a, &idx));
                    let m = c.last_mut();
                    refuse(|| format!("writing element {idx:?}"), || *get_mut(m, &idx) = T::val(77));
                    if nd == 1 {
                        refuse(|| format!("reading element {i}"), || c.last()[i]);
                        let m = c.last_mut();
                        refuse(|| format!("writing element {i}"), || m[i] = T::val(77));
                    }
                }
            }
        }
        // a compensated pair: too far along one axis, as if it went on along another
        if nd >= 2 { for k in 1..nd {
            let mut idx = vec![0; nd];
            idx[k] = v.shape[k];
            let m = c.last_mut();
            refuse(|| format!("writing element {idx:?}"), || *get_mut(m, &idx) = T::val(77));
        } }
        // wrong number of indices
        for n in 0..=(nd + 2).min(7) {
            if n == nd { continue; }
            let idx = vec![0; n];
            let a = c.last();
            refuse(|| format!("reading element {idx:?}"), || *get_ref(a, &idx));
            let m = c.last_mut();
            refuse(|| format!("writing element {idx:?}"), || *get_mut(m, &idx) = T::val(77));
        }
        if nd != 1 {
            refuse(|| "reading element 0 (one number)".into(), || c.last()[0]);
            let m = c.last_mut();
            refuse(|| "writing element 0 (one number)".into(), || m[0] = T::val(77));
        }
        let a = c.last();
        if v.size() != 1 { refuse(|| "value() of several elements".into(), || a.value()); }
        if v.size() > 1 && v.progression() != Some(1) { refuse(|| "data_slice() of scattered elements".into(), || a.data_slice().len()); }
        // axes
        let mut lists: Vec<Vec<isize>> = bad_axes(nd).into_iter().map(|x| vec![x]).collect();
        if nd > 0 {
            let z = nd as isize - 1;
            lists.extend([vec![0, 0], vec![0, -(nd as isize)], vec![z, -1], vec![0, nd as isize], vec![-(nd as isize) - 1, 0], vec![z, 0, z]]);
            if nd > 1 { lists.push(vec![0, 1, isize::MIN]); lists.push(vec![1, 0, 1]); }
            lists.push((0..=nd as isize).collect());
        }
        for l in &lists {
            refuse(|| format!("sum_along({l:?})"), || a.sum_along(l.clone()));
            refuse(|| format!("max_along({l:?})"), || a.max_along(l.clone()));
            if !deep {
                refuse(|| format!("product_along({l:?})"), || a.product_along(l.clone()));
                refuse(|| format!("min_along({l:?})"), || a.min_along(l.clone()));
                refuse(|| format!("min_magnitude_along({l:?})"), || a.min_magnitude_along(l.clone()));
                refuse(|| format!("max_magnitude_along({l:?})"), || a.max_magnitude_along(l.clone()));
            }
        }
        for &x in &bad_axes(nd) {
            refuse(|| format!("iter_along({x})"), || a.iter_along(Axis(x)).count());
            refuse(|| format!("trace_along({x}, 0)"), || a.trace_along(x, 0));
        }
        for x in [nd, nd + 1, usize::MAX, 1 << 63] {
            refuse(|| format!("nditer([{x}])"), || a.nditer(vec![x]).count());
            refuse(|| format!("nditer([0, {x}])"), || a.nditer(vec![0, x]).count());
        }
        if nd > 0 { refuse(|| "nditer([0, 0])".into(), || a.nditer(vec![0, 0]).count()); }
        // operands of other shapes
        if nd > 0 && v.shape[nd - 1] > 1 {
            let mut s = v.shape.clone();
            s[nd - 1] += 1;
            let b: Arr<T> = fresh(&s, &vec![T::val(1); prod(&s)]);
            refuse(|| format!("adding shape {s:?}"), || a + &b);
            refuse(|| format!("comparing order of operands of shape {s:?}"), || &b + a);
            let m = c.last_mut();
            refuse(|| format!("+= of shape {s:?}"), || *m += &b);
            imp(move || drop(b));
        }
        let mut s = v.shape.clone();
        s.insert(0, 2);
        let b: Arr<T> = fresh(&s, &vec![T::val(1); prod(&s)]);
        let m = c.last_mut();
        refuse(|| format!("+= of larger shape {s:?}"), || *m += &b);
        imp(move || drop(b));
        if v.ro {
            let m = c.last_mut();
            refuse(|| "writing to a readonly view".into(), || *get_mut(m, &vec![0; nd]) = T::val(77));
            let m = c.last_mut();
            refuse(|| "fill of a readonly view".into(), || m.fill(T::val(77)));
            let m = c.last_mut();
            refuse(|| "+= on a readonly view".into(), || *m += T::val(1));
        }
        unchanged(&c, v, root, &r.path, &data);
    });
}

/// Every operation on an accepted view: it must not depend on (or change) anything but the view's elements.
fn battery(ctx: &mut Ctx, root: &[usize], r: &Rec) {
    let v = &r.view;
    let n = prod(root);
    ctx.case(|| format!("all operations on {}", show_path(root, &r.path)), || {
        state(&("battery", root, &v.shape, &v.ids, &v.skey, v.ro));
        let mut inside = vec![false; n];
        for &i in &v.ids { inside[i as usize] = true; }
        let data = |other: f32| -> Vec<f32> { (0..n).map(|i| if inside[i] { (i % 7) as f32 - 2.0 } else { other }).collect() };
        let run = |data: &[f32]| -> Vec<Vec<u32>> {
            let mut out: Vec<Vec<u32>> = vec![];
            let mut c = Chain::build(root, data, &r.path);
            let a = c.last();
            let mut put = |x: Arr<f32>| { out.push(read_by_index(&x).iter().map(|x| x.to_bits()).collect()); step(); imp(move || drop(x)); };
            put(imp(|| a.clone()));
            put(imp(|| a.flatten()));
            put(imp(|| a + a));
            put(imp(|| a * 2.0));
            put(imp(|| -a));
            put(imp(|| a.sum()));
            put(imp(|| a.max()));
            put(imp(|| a.min_magnitude()));
            put(imp(|| a.product()));
            put(imp(|| a.mean()));
            for ax in 0..v.shape.len() as isize { put(imp(|| a.sum_along(ax))); put(imp(|| a.min_along(ax))); put(imp(|| a.mean_along(ax))); }
            put(imp(|| a.astype::<i32>().astype::<f32>()));
            if let Ok(x) = attempt(|| a.matmul(a)) { put(x); }
            if let Ok(x) = attempt(|| a.matmul(&apply_ref(a, &VOp::T))) { put(x); }
            if let Ok(x) = attempt(|| a.bmm(a)) { put(x); }
            if v.shape.len() >= 2 { put(imp(|| a.trace())); }
            let sub: String = "ijklmn"[..v.shape.len()].to_string();
            let rev: String = sub.chars().rev().collect();
            put(imp(|| einsum([a], ([sub.as_str()], rev.as_str()))));
            put(imp(|| einsum([a], ([sub.as_str()], ""))));
            put(imp(|| einsum([a, a], ([sub.as_str(), sub.as_str()], sub.as_str()))));
            put(imp(|| einsum([a, a, a], ([sub.as_str(), sub.as_str(), sub.as_str()], ""))));
            if !v.shape.is_empty() {
                let mut it = imp(|| a.iter());
                while let Some(x) = imp(|| it.next()) { put(x); }
                imp(move || drop(it));
            }
            out.push(read_by_iter(a).iter().map(|x| x.to_bits()).collect());
            let text = imp(|| format!("{a:?}"));
            out.push(text.bytes().map(|b| b as u32).collect());
            imp(move || drop(text));
            out.push(vec![imp(|| a == a) as u32]);
            if imp(|| a.is_contiguous()) { out.push(imp(|| a.data_slice()).iter().map(|x| x.to_bits()).collect()); }
            if !v.ro {
                let z = fresh(&v.shape, &vec![1f32; v.size()]);
                let m = c.last_mut();
                imp(|| *m += &z);
                imp(|| *m *= 3.0);
                out.push(read_by_index(c.last()).iter().map(|x| x.to_bits()).collect());
                let m = c.last_mut();
                imp(|| m.fill(5.0));
                imp(move || drop(z));
                out.push(read_by_index(c.last()).iter().map(|x| x.to_bits()).collect());
                if c.links.len() > 1 {
                    let mut first = MView::root(root);
                    for s in r.path.iter().take_while(|s| s.consume) { first = first.after(s).unwrap(); }
                    let want: Vec<f32> = first.ids.iter().map(|&i| if inside[i as usize] { 5.0 } else { data[i as usize] }).collect();
                    expect("the storage after writes through the view", c.root_ref(), &first.shape, &want);
                }
            }
            out
        };
        let (x, y) = (run(&data(1000.0)), run(&data(-3e7)));
        if x != y { panic!("results depend on elements outside of the array"); }
    });
}

fn constructors(ctx: &mut Ctx) {
    for s in [vec![1usize << 32, 1 << 32], vec![1 << 63, 2], vec![usize::MAX, usize::MAX], vec![3, inverse(3)], vec![3, inverse(3).wrapping_mul(4)], vec![usize::MAX, 3, usize::MAX], vec![2, (1 << 63) + 3], vec![(1 << 63) + 1, 2], vec![1 << 62, 4, 1], vec![1 << 33, 1, 1 << 31]] {
        ctx.case(|| format!("constructors with shape {s:?}"), || {
            let sh = || s.clone();
            refuse(|| "full".into(), || NdArray::<u8>::full(1, sh()).size());
            refuse(|| "zeros".into(), || NdArray::<f32>::zeros(sh()).size());
            refuse(|| "ones".into(), || NdArray::<i64>::ones(sh()).size());
            refuse(|| "rand".into(), || NdArray::<f32>::rand(sh()).size());
            refuse(|| "randn".into(), || NdArray::<f32>::randn(sh()).size());
            refuse(|| "uniform".into(), || NdArray::<f32>::uniform(sh(), 0.0, 1.0).size());
            refuse(|| "randint".into(), || NdArray::<i32>::randint(sh(), 0, 3).size());
            refuse(|| "tensor full".into(), || Tensor::<f32>::full(1.0, sh()).size());
            state(&("construct", &s));
        });
    }
    ctx.case(|| "operands whose common shape has too many elements".into(), || {
        let a = imp(|| NdArray::<f32>::scalar(2.0));
        let a: &'static Arr<f32> = unsafe { long(&a) };
        let x = imp(|| a.broadcast_to(&[1 << 33, 1]));
        let y = imp(|| a.broadcast_to(&[1, 1 << 33]));
        refuse(|| "addition".into(), || (&x + &y).size());
        let (x1, y1) = (imp(|| a.broadcast_to(&[1 << 33])), imp(|| a.broadcast_to(&[1 << 33])));
        refuse(|| "einsum".into(), || einsum([&x1, &y1], (["i", "j"], "ij")).size());
        imp(move || drop((x, y, x1, y1)));
    });
}

/// Tensors: the same out-of-range requests.
fn tensors(ctx: &mut Ctx, shape: &[usize]) {
    let n = prod(shape);
    let m = MView::root(shape);
    for grad in [false, true] {
        ctx.case(|| format!("out-of-range requests on a tensor of shape {shape:?}, tracked {grad}"), || {
            state(&("tensor", shape, grad));
            let mut t: Tensor<'static, f64> = tensor(shape, &fill_values(n, 1));
            imp(|| t.set_requires_grad(grad));
            {
                let tt: &'static Tensor<'static, f64> = unsafe { std::mem::transmute(&t) };
                for op in bad_requests(&m, true) {
                    if !op.consumable() { continue; }
                    refuse(|| format!("{op:?}"), || match &op {
                        VOp::Reshape(s) => tt.reshape(s.clone()).size(),
                        VOp::Unsqueeze(a) => tt.unsqueeze(*a).size(),
                        VOp::Transpose(a, b) => tt.transpose(*a, *b).size(),
                        VOp::T => tt.T().size(),
                        _ => panic!(),
                    });
                    refuse(|| format!("consuming {op:?}"), || { let t2 = tt + 0.0; match &op {
                        VOp::Reshape(s) => t2.reshape(s.clone()).size(),
                        VOp::Unsqueeze(a) => t2.unsqueeze(*a).size(),
                        VOp::Transpose(a, b) => t2.transpose(*a, *b).size(),
                        VOp::T => t2.T().size(),
                        _ => panic!(),
                    } });
                }
                if n != 1 { refuse(|| "value".into(), || tt.value()); }
                if shape.last().is_some_and(|&k| k > 1) {
                    let mut s = shape.to_vec();
                    *s.last_mut().unwrap() += 1;
                    let o = imp(|| Tensor::<f64>::ones(s));
                    refuse(|| "sum of mismatched tensors".into(), || { let _ = tt + &o; });
                    refuse(|| "matmul of mismatched tensors".into(), || { let _ = tt.matmul(&o); });
                    imp(move || drop(o));
                }
            }
            expect("the tensor afterwards", t.ndarray(), shape, &fill_values(n, 1));
            imp(move || drop(t));
        });
    }
}

fn main() {
    mc::engine::main("C10", |tier| {
        let checks = if cfg!(debug_assertions) { "enabled" } else { "disabled" };
        let mut p = Plan::new(format!("overflow checks {checks}; view states as in the standard space ({SPACE_TEXT}), in each: every view operation with an argument just outside, far outside, extreme (usize::MAX, isize::MIN, 2^63, 2^62, 2^32) or wrapping around to an in-range value, on every axis and in every index form; every element access (read, write) with an out-of-range coordinate on each axis or the wrong number of indices; all axis lists out of range or repeated; mismatched operands; shapes with too many elements for every constructor; the same on tensors; and every accepted operation run on two storages that differ only outside of the view"));
        p.assume("memory accesses are observed through guard pages directly after and canaries directly before every buffer, and through the dependence of results on storage outside of the view");
        p.memory = true;
        let t = tier == Tier::Thorough;
        for root in [&[][..], &[1], &[2], &[3], &[2, 2]] { visit::<i32>(&mut p, root, REP, tier.pick(2, 3), reject_state::<i32>); }
        for root in [&[2, 3][..], &[3, 2], &[1, 3], &[3, 3], &[2, 2, 2], &[2, 3, 2], &[1, 2, 1, 2]] { visit::<i32>(&mut p, root, BORROW, if t { 2 } else { 1 + (root.len() < 3) as usize }, reject_state::<i32>); }
        for root in [&[17][..], &[7, 9], &[5, 6, 7], &[2, 2, 2, 2, 2]] { visit::<i32>(&mut p, root, Alphabet { max_dims: 5, max_size: 400, ..BORROW }, 1, reject_state::<i32>); }
        macro_rules! dt { ($($t:ty),*) => { $( for root in [&[][..], &[3], &[2, 3]] { visit::<$t>(&mut p, root, BORROW, 1, reject_state::<$t>); } )* } }
        dt!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
        if t { standard::<f32>(&mut p, Tier::Quick, battery); } else {
            for root in [&[][..], &[1], &[3], &[2, 2]] { visit::<f32>(&mut p, root, FULL, 2, battery); }
            for root in [&[2, 3][..], &[3, 2], &[3, 1], &[2, 2, 2], &[2, 1, 3], &[2, 3, 2]] { visit::<f32>(&mut p, root, REP, 2, battery); }
            for root in [&[17][..], &[33], &[65], &[7, 9], &[33, 4], &[5, 6, 7], &[2, 2, 2, 2, 2]] { visit::<f32>(&mut p, root, Alphabet { max_dims: 5, max_size: 400, ..REP }, 1, battery); }
        }
        p.group("constructors", constructors);
        p.group("tensors", |ctx| for s in [&[][..], &[1], &[3], &[2, 3], &[1, 2], &[2, 2, 2]] { tensors(ctx, s) });
        p
    });
}
