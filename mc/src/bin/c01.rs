//! C01: elementwise operators broadcast like NumPy for every layout and element type.
use mc::*;
use std::rc::Rc;

fn lhs_data<T: HasOps>(n: usize) -> Vec<T> { (0..n).map(T::left).collect() }
fn rhs_data<T: HasOps>(n: usize) -> Vec<T> { (0..n).map(T::right).collect() }

/// The expected result, or None if some scalar operation panics.
fn expected<T: HasOps>(op: &Op<T>, sa: &[usize], a: &[T], sb: &[usize], b: &[T]) -> Option<(Vec<usize>, Vec<T>)> {
    let s = broadcast2(sa, sb).unwrap();
    let (x, y) = (broadcast_data(a, sa, &s), broadcast_data(b, sb, &s));
    let d: Option<Vec<T>> = x.iter().zip(&y).map(|(&p, &q)| (op.f)(p, q)).collect();
    Some((s, d?))
}

fn unchanged<T: Dt>(what: &str, c: &Chain<T>, root: &[usize], data: &[T]) { expect(what, c.root_ref(), root, data); }

/// One pair of operand layouts under one operator.
fn pair<T: HasOps>(op: &Op<T>, ra: &[usize], pa: &[Step], va: &MView, rb: &[usize], pb: &[Step], vb: &MView, forms: bool) {
    let (da, db): (Vec<T>, Vec<T>) = (lhs_data(prod(ra)), rhs_data(prod(rb)));
    let (xa, xb) = (select(&da, &va.ids), select(&db, &vb.ids));
    let Some((s, want)) = expected(op, &va.shape, &xa, &vb.shape, &xb) else { return };
    let mut ca = Chain::build(ra, &da, pa);
    let mut cb = Chain::build(rb, &db, pb);
    let r = imp(|| (op.rr)(ca.last(), cb.last()));
    expect("&a op &b", &r, &s, &want);
    step();
    imp(move || drop(r));
    {
        unchanged("left operand afterwards", &ca, ra, &da);
        unchanged("right operand afterwards", &cb, rb, &db);
    }
    if !forms { return; }
    let sc = xb[0];
    let wants: Option<Vec<T>> = xa.iter().map(|&p| (op.f)(p, sc)).collect();
    if let Some(w) = &wants {
        let r = imp(|| (op.rs)(ca.last(), sc));
        expect("&a op scalar", &r, &va.shape, w);
        step();
        imp(move || drop(r));
        unchanged("left operand afterwards", &ca, ra, &da);
    }
    let b = cb.take();
    let r = imp(|| (op.ro)(ca.last(), b));
    expect("&a op b", &r, &s, &want);
    step();
    imp(move || drop(r));
    drop(cb);
    let mut cb = Chain::build(rb, &db, pb);
    let a = ca.take();
    let r = imp(|| (op.or)(a, cb.last()));
    expect("a op &b", &r, &s, &want);
    step();
    imp(move || drop(r));
    drop(ca);
    let mut ca = Chain::build(ra, &da, pa);
    let (a, b) = (ca.take(), cb.take());
    let r = imp(|| (op.oo)(a, b));
    expect("a op b", &r, &s, &want);
    step();
    imp(move || drop(r));
    if let Some(w) = &wants {
        drop(ca);
        let mut ca = Chain::build(ra, &da, pa);
        let a = ca.take();
        let r = imp(|| (op.os)(a, sc));
        expect("a op scalar", &r, &va.shape, w);
        step();
        imp(move || drop(r));
    }
}

fn negate<T: HasOps>(ra: &[usize], pa: &[Step], va: &MView) {
    let Some((f, nr, no)) = T::neg() else { return };
    let da: Vec<T> = lhs_data(prod(ra));
    let want: Vec<T> = select(&da, &va.ids).into_iter().map(|x| f(x).unwrap()).collect();
    let mut ca = Chain::build(ra, &da, pa);
    let r = imp(|| nr(ca.last()));
    expect("-&a", &r, &va.shape, &want);
    step();
    imp(move || drop(r));
    unchanged("operand afterwards", &ca, ra, &da);
    let a = ca.take();
    let r = imp(|| no(a));
    expect("-a", &r, &va.shape, &want);
    step();
    imp(move || drop(r));
}

type Lay = Rc<Vec<(Vec<usize>, Rec)>>;

fn pairs<T: HasOps>(p: &mut Plan, lay: &Lay, other: &Lay, ops: usize, forms: bool, tag: &str) {
    let n = lay.len();
    let chunk = n.div_ceil(40).max(1);
    for k in 0..n.div_ceil(chunk) {
        let (lay, other) = (lay.clone(), other.clone());
        p.group(format!("{} {tag} layouts {}..", T::NAME, k * chunk), move |ctx| {
            let all = T::ops();
            for i in k * chunk..((k + 1) * chunk).min(n) {
                let (ra, a) = &lay[i];
                state(&(T::NAME, &a.view.shape, &a.view.skey, a.view.ids[0] != 0));
                ctx.case(|| format!("- {}", show_path(ra, &a.path)), || negate::<T>(ra, &a.path, &a.view));
                for (rb, b) in other.iter() {
                    if broadcast2(&a.view.shape, &b.view.shape).is_none() { continue; }
                    for op in &all[..ops.min(all.len())] {
                        ctx.case(|| format!("{} {} {} of {}", show_path(ra, &a.path), op.name, show_path(rb, &b.path), T::NAME), || {
                            state(&(T::NAME, op.name, &a.view.shape, &a.view.skey, &b.view.shape, &b.view.skey));
                            outcome(&(op.name, broadcast2(&a.view.shape, &b.view.shape)));
                            pair(op, ra, &a.path, &a.view, rb, &b.path, &b.view, forms);
                        });
                    }
                }
            }
        });
    }
}

/// Operands of many axes, permuted and broadcast against each other.
fn dense<T: HasOps>(p: &mut Plan) {
    for n in [7usize, 8, 12, 13, 16] {
        p.group(format!("{} operands of {n} axes", T::NAME), move |ctx| {
            let mut ls = dense_layouts(n);
            for root in [vec![2; n - 3], vec![1; n], (0..n).map(|i| 1 + i % 2).collect()] { ls.push((root.clone(), vec![], MView::root(&root))); }
            for op in &T::ops()[..if n > 13 { 1 } else { 2 }] { for la in &ls { for lb in &ls {
                if broadcast2(&la.2.shape, &lb.2.shape).is_none() { continue; }
                ctx.case(|| format!("{} {} {} of {}", show_path(&la.0, &la.1), op.name, show_path(&lb.0, &lb.1), T::NAME), || {
                    state(&("dense", n, T::NAME, op.name, &la.2.skey, &lb.2.skey));
                    pair(op, &la.0, &la.1, &la.2, &lb.0, &lb.1, &lb.2, n < 10);
                });
            } } }
        });
    }
}

/// Every length, for each combination of memory layouts.
fn sizes<T: HasOps>(p: &mut Plan, all: usize, max: usize) {
    for oi in 0..T::ops().len() {
        for part in 0..4 {
            p.group(format!("{} lengths op {oi} part {part}", T::NAME), move |ctx| {
                let op = &T::ops()[oi];
                for n in lengths(all, max).into_iter().chain(far_lengths(max)).skip(part).step_by(4) {
                    let big = n > 1100;
                    for la in long_layouts(n) {
                        if oi == 0 { ctx.case(|| format!("- {}", show_path(&la.0, &la.1)), || negate::<T>(&la.0, &la.1, &la.2)); }
                        for lb in long_layouts(n) {
                            ctx.case(|| format!("{} {} {} of {}", show_path(&la.0, &la.1), op.name, show_path(&lb.0, &lb.1), T::NAME), || {
                                state(&("len", n, T::NAME, op.name, &la.2.skey, &lb.2.skey));
                                pair(op, &la.0, &la.1, &la.2, &lb.0, &lb.1, &lb.2, !big && n % 8 == 3);
                            });
                        }
                        ctx.case(|| format!("{} {} scalar of {}", show_path(&la.0, &la.1), op.name, T::NAME), || {
                            let e: Vec<usize> = vec![];
                            pair(op, &la.0, &la.1, &la.2, &e, &[], &MView::root(&[]), !big);
                        });
                    }
                    if !(n <= 40 || n % 64 < 2 && n < 1100 || ctx.tier == Tier::Thorough && n <= 5000) { continue; }
                    let m = [2usize, 3, 5][n % 3];
                    for la in long_layouts2(n, m) { for lb in long_layouts2(n, m) {
                        ctx.case(|| format!("{} {} {} of {}", show_path(&la.0, &la.1), op.name, show_path(&lb.0, &lb.1), T::NAME), || {
                            state(&("len2", n, T::NAME, op.name, &la.2.skey, &lb.2.skey));
                            pair(op, &la.0, &la.1, &la.2, &lb.0, &lb.1, &lb.2, false);
                        });
                    } }
                }
            });
        }
    }
}

/// Large arrays, for the types with specialised kernels.
fn huge<T: HasOps>(p: &mut Plan) {
    for n in [8193usize, 16385, 65537, 100003] {
        p.group(format!("{} length {n}", T::NAME), move |ctx| {
            for op in &T::ops() {
                let l = long_layouts(n);
                for (i, j) in [(0, 0), (0, 2), (2, 0), (2, 3), (0, 4), (4, 0)] {
                    let (la, lb) = (&l[i], &l[j]);
                    ctx.case(|| format!("{} {} {} of {}", show_path(&la.0, &la.1), op.name, show_path(&lb.0, &lb.1), T::NAME), || {
                        state(&("len", n, T::NAME, op.name, &la.2.skey, &lb.2.skey));
                        pair(op, &la.0, &la.1, &la.2, &lb.0, &lb.1, &lb.2, i == 0);
                    });
                }
            }
        });
    }
}

/// All pairs of values (all 256 x 256 for 8-bit types, boundary values for the others), through each kernel.
fn values<T: HasOps>(p: &mut Plan, vals: Vec<T>) {
    for oi in 0..T::ops().len() {
        let vals = vals.clone();
        p.group(format!("{} values op {oi}", T::NAME), move |ctx| {
            let op = &T::ops()[oi];
            for &a in &vals {
                ctx.case(|| format!("{a:?} {} every value of {}", op.name, T::NAME), || {
                    let bs: Vec<T> = vals.iter().copied().filter(|&b| (op.f)(a, b).is_some()).collect();
                    if bs.is_empty() { return; }
                    let want: Vec<T> = bs.iter().map(|&b| (op.f)(a, b).unwrap()).collect();
                    state(&("val", T::NAME, op.name, a.key()));
                    let n = bs.len();
                    let l = fresh(&[n], &vec![a; n]);
                    let s = fresh(&[], &[a]);
                    let r = fresh(&[n], &bs);
                    let two: Vec<T> = bs.iter().flat_map(|&b| [b, b]).collect();
                    let r2 = Chain::build(&[n, 2], &two, &[Step { op: VOp::SliceAlong(1, Ix::At(1)), consume: false }]);
                    for (what, x) in [("contiguous", imp(|| (op.rr)(&l, &r))), ("constant", imp(|| (op.rr)(&s, &r))), ("strided", imp(|| (op.rr)(&l, r2.last()))), ("constant, strided", imp(|| (op.rr)(&s, r2.last())))] {
                        expect(what, &x, &[n], &want);
                        steps(n as u64);
                        imp(move || drop(x));
                    }
                    for (k, &b) in bs.iter().enumerate() {
                        let x = imp(|| (op.rs)(&s, b));
                        expect("scalar", &x, &[], &want[k..k + 1]);
                        imp(move || drop(x));
                        let one = fresh(&[2], &[a, a]);
                        let x = imp(|| (op.rs)(&one, b));
                        expect("array op scalar", &x, &[2], &[want[k], want[k]]);
                        steps(2);
                        imp(move || { drop(x); drop(one) });
                    }
                    imp(move || { drop(l); drop(s); drop(r) });
                });
            }
            if oi == 0 {
                if let Some((f, nr, _)) = T::neg() {
                    ctx.case(|| format!("- every value of {}", T::NAME), || {
                        let xs: Vec<T> = vals.iter().copied().filter(|&x| f(x).is_some()).collect();
                        let want: Vec<T> = xs.iter().map(|&x| f(x).unwrap()).collect();
                        let a = fresh(&[xs.len()], &xs);
                        let r = imp(|| nr(&a));
                        expect("-", &r, &[xs.len()], &want);
                        imp(move || { drop(a); drop(r) });
                    });
                }
            }
        });
    }
}

/// Shapes: compatible ones broadcast, incompatible ones are rejected.
fn shapes<T: HasOps>(p: &mut Plan, list: Vec<Vec<usize>>, tag: &str) {
    let list = Rc::new(list);
    for i in 0..list.len() {
        let list = list.clone();
        p.group(format!("{} {tag} shapes {:?} with all", T::NAME, list[i]), move |ctx| {
            let sa = &list[i];
            for sb in list.iter() {
                for op in &T::ops() {
                    ctx.case(|| format!("{sa:?} {} {sb:?} of {}", op.name, T::NAME), || {
                        state(&("shape", T::NAME, op.name, sa, sb));
                        if broadcast2(sa, sb).is_some() {
                            return pair(op, sa, &[], &MView::root(sa), sb, &[], &MView::root(sb), false);
                        }
                        let (da, db): (Vec<T>, Vec<T>) = (lhs_data(prod(sa)), rhs_data(prod(sb)));
                        let (a, b) = (fresh(sa, &da), fresh(sb, &db));
                        let rejected = attempt(|| (op.rr)(&a, &b)).is_err();
                        if !rejected { panic!("operands that cannot be broadcast together are accepted"); }
                        outcome(&"rejected");
                        step();
                        expect("left operand", &a, sa, &da);
                        expect("right operand", &b, sb, &db);
                        imp(move || { drop(a); drop(b) });
                    });
                }
            }
        });
    }
}

/// Operands that are views of the same array.
fn aliased(p: &mut Plan, root: &'static [usize]) {
    let recs = Rc::new(layouts(&[root], BORROW, 1));
    for i in 0..recs.len() {
        let recs = recs.clone();
        p.group(format!("views of one array {root:?} {i}"), move |ctx| {
            let a = &recs[i].1;
            for (_, b) in recs.iter() {
                if broadcast2(&a.view.shape, &b.view.shape).is_none() { continue; }
                for op in &i32::ops() {
                    ctx.case(|| format!("{} {} {} (views of one array)", show_path(root, &a.path), op.name, show_path(root, &b.path)), || {
                        let data: Vec<i32> = (0..prod(root)).map(|k| 3 + k as i32 % 20).collect();
                        let (xa, xb) = (select(&data, &a.view.ids), select(&data, &b.view.ids));
                        let Some((s, want)) = expected(op, &a.view.shape, &xa, &b.view.shape, &xb) else { return };
                        let c = Chain::root(root, &data);
                        let base = c.last();
                        let x = a.path.first().map(|s| imp(|| apply_ref(base, &s.op)));
                        let y = b.path.first().map(|s| imp(|| apply_ref(base, &s.op)));
                        let r = imp(|| (op.rr)(x.as_ref().unwrap_or(base), y.as_ref().unwrap_or(base)));
                        expect("result", &r, &s, &want);
                        step();
                        unchanged("array afterwards", &c, root, &data);
                        imp(move || { drop(r); drop(x); drop(y) });
                    });
                }
            }
        });
    }
}

fn main() {
    mc::engine::main("C01", |tier| {
        let mut p = Plan::new("");
        let small: Lay = Rc::new(layouts(&[&[], &[2], &[3], &[2, 2], &[2, 3], &[3, 2], &[2, 2, 2], &[2, 1, 3], &[2, 3, 2]],
                                         Alphabet { max_dims: 4, max_size: 24, full_ix: false, consume: false, joint: 1, neg: false }, tier.pick(2, 3)));
        let tiny: Lay = Rc::new(layouts(&[&[], &[1], &[3], &[2, 3], &[2, 2, 3]], BORROW, 1));
        let mid: Lay = Rc::new(layouts(&[&[], &[2], &[3], &[2, 2], &[2, 3], &[3, 2], &[2, 2, 2], &[2, 3, 2]], BORROW, 1));
        let high: Lay = Rc::new(layouts(&[&[2, 1, 3, 2, 1, 2], &[2, 2, 2, 2, 2], &[2, 3, 1, 2, 3], &[3, 2, 2]],
                                        Alphabet { max_dims: 6, max_size: 80, full_ix: false, consume: false, joint: 1, neg: false }, 1));
        let high1: Lay = Rc::new(high.iter().filter(|(_, r)| r.path.is_empty() || r.path.iter().all(|s| matches!(s.op, VOp::Transpose(..) | VOp::SliceAlong(..) | VOp::Broadcast(_) | VOp::DiagonalAlong(..))))
            .map(|(a, r)| (a.clone(), Rec { path: r.path.clone(), view: r.view.clone(), depth: r.depth })).collect());
        p.bounds = format!("{} distinct layouts x compatible ones of {} (i32); {} x {} (all 14 numeric types, all operators and ownership forms); {} layouts of 5-d and 6-d arrays; arrays of 7 to 32 axes (one view operation) with fresh arrays of as many axes and views of small ones; permuted arrays of 7 to 16 axes of length 2 with each other; lengths 1..{} and around powers of two to {}, 5 one-dimensional and 7 two-dimensional layouts; all 65536 value pairs of 8-bit types, boundary values of the others; all pairs of shapes with <= 3 axes of lengths 1, 2, 3, 5, compatible or not; views of one array",
            small.len(), if tier == Tier::Quick { mid.len() } else { small.len() }, tiny.len(), tiny.len(), high.len(), tier.pick(70, 300), tier.pick(4097, 100003));
        p.assume("values on which the scalar operation itself panics (overflow, division by zero, excessive shifts) are outside the property");
        pairs::<i32>(&mut p, &small, if tier == Tier::Quick { &mid } else { &small }, 1, false, "small");
        if tier == Tier::Quick { pairs::<i32>(&mut p, &mid, &small, 1, false, "small right"); }
        pairs::<f32>(&mut p, &small, &tiny, 5, false, "mixed");
        macro_rules! each { ($($t:ty),*) => { $(
            pairs::<$t>(&mut p, &tiny, &tiny, 9, true, "tiny");
            sizes::<$t>(&mut p, tier.pick(70, 300), tier.pick(4097, 100003));
        )* } }
        each!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
        huge::<i32>(&mut p);
        dense::<i32>(&mut p);
        dense::<f32>(&mut p);
        huge::<f32>(&mut p);
        huge::<f64>(&mut p);
        pairs::<i32>(&mut p, &high, if tier == Tier::Quick { &high1 } else { &high }, 1, false, "high");
        pairs::<f64>(&mut p, &high1, &high1, 1, false, "high");
        let many: Lay = Rc::new(many_roots().iter().filter(|r| r.len() > 7).flat_map(|r| layouts(&[r], Alphabet { consume: false, joint: 0, ..MANY }, 1))
            .filter(|(_, r)| r.path.first().map_or(true, |s| matches!(s.op, VOp::Transpose(..) | VOp::SliceAlong(_, Ix::At(_)) | VOp::Broadcast(_) | VOp::Reshape(_) | VOp::DiagonalAlong(..)))).collect());
        let rows: Lay = Rc::new(layouts(&[&[], &[2], &[2, 1], &[2, 2, 1]], Alphabet { consume: false, joint: 0, ..REP }, 1));
        let roots: Lay = Rc::new(many_roots().iter().flat_map(|r| layouts(&[r], MANY, 0)).collect());
        pairs::<i32>(&mut p, &many, &roots, 1, false, "many axes");
        pairs::<i32>(&mut p, &roots, &many, 1, false, "many axes");
        pairs::<f32>(&mut p, &many, &rows, 1, false, "many axes");
        pairs::<f32>(&mut p, &rows, &many, 1, false, "many axes");
        values::<i8>(&mut p, (i8::MIN..=i8::MAX).collect());
        values::<u8>(&mut p, (u8::MIN..=u8::MAX).collect());
        macro_rules! vals { ($($t:ty),*) => { $( values::<$t>(&mut p, <$t>::special()); )* } }
        vals!(i16, i32, i64, i128, isize, u16, u32, u64, u128, usize, f32, f64);
        shapes::<i32>(&mut p, shapes_upto(3, &[1, 2, 3]).into_iter().chain([vec![5], vec![4, 5], vec![5, 1], vec![2, 4, 1]]).collect(), "all");
        shapes::<f32>(&mut p, shapes_upto(2, &[1, 2, 3]), "all");
        shapes::<u64>(&mut p, shapes_upto(2, &[1, 2, 3]), "all");
        shapes::<i32>(&mut p, vec![vec![2, 3, 1, 2], vec![1, 2, 3, 1, 2], vec![2, 1, 2, 3, 1, 2], vec![3, 2], vec![2, 2], vec![3, 1, 1], vec![2, 2, 3, 1, 2], vec![2, 2, 2, 2, 2, 2]], "high");
        const ROOTS: [&[usize]; 4] = [&[4], &[3, 3], &[2, 2, 2], &[2, 3]];
        for root in ROOTS { aliased(&mut p, root); }
        p
    });
}
