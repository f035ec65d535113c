//! C02: compound assignment updates exactly the target's elements.
use mc::*;
use std::rc::Rc;

fn lhs_data<T: HasOps>(n: usize) -> Vec<T> { (0..n).map(T::left).collect() }
fn rhs_data<T: HasOps>(n: usize) -> Vec<T> { (0..n).map(T::right).collect() }

/// The root's contents after assigning `op` with `rhs` (already broadcast) through the view.
fn after<T: HasOps>(op: &Op<T>, root: &[T], v: &MView, rhs: &[T]) -> Option<Vec<T>> {
    let mut out = root.to_vec();
    for (k, &id) in v.ids.iter().enumerate() { out[id as usize] = (op.f)(root[id as usize], rhs[k])?; }
    Some(out)
}

fn check_root<T: Dt>(what: &str, c: &Chain<T>, root: &[usize], want: &[T]) { expect(what, c.root_ref(), root, want); }

/// target op= operand, for one pair of layouts.
fn assign<T: HasOps>(op: &Op<T>, ra: &[usize], pa: &[Step], va: &MView, rb: &[usize], pb: &[Step], vb: &MView, forms: bool) {
    let (da, db): (Vec<T>, Vec<T>) = (lhs_data(prod(ra)), rhs_data(prod(rb)));
    let xb = select(&db, &vb.ids);
    let fits = broadcastable(&vb.shape, &va.shape);
    if va.ro || !fits {
        let mut ca = Chain::build(ra, &da, pa);
        let cb = Chain::build(rb, &db, pb);
        let r = attempt(|| (op.ar)(ca.last_mut(), cb.last()));
        if r.is_ok() {
            panic!("{}", if va.ro { "assignment to a readonly view is accepted" } else { "an operand that cannot be broadcast to the target is accepted" });
        }
        outcome(&("refused", va.ro));
        step();
        check_root("target storage after the refusal", &ca, ra, &da);
        check_root("operand after the refusal", &cb, rb, &db);
        if va.ro && forms {
            if attempt(|| (op.asc)(ca.last_mut(), T::right(1))).is_ok() { panic!("scalar assignment to a readonly view is accepted"); }
            step();
            let mut cb = cb;
            let b = cb.take();
            if attempt(|| (op.ao)(ca.last_mut(), b)).is_ok() { panic!("assignment to a readonly view is accepted"); }
            check_root("target storage after the refusal", &ca, ra, &da);
        }
        return;
    }
    let y = broadcast_data(&xb, &vb.shape, &va.shape);
    let Some(want) = after(op, &da, va, &y) else { return };
    {
        let mut ca = Chain::build(ra, &da, pa);
        let cb = Chain::build(rb, &db, pb);
        imp(|| (op.ar)(ca.last_mut(), cb.last()));
        step();
        check_root("target storage", &ca, ra, &want);
        check_root("operand", &cb, rb, &db);
        expect("target", ca.last(), &va.shape, &select(&want, &va.ids));
    }
    if forms {
        let mut ca = Chain::build(ra, &da, pa);
        let mut cb = Chain::build(rb, &db, pb);
        let b = cb.take();
        imp(|| (op.ao)(ca.last_mut(), b));
        step();
        check_root("target storage (owned operand)", &ca, ra, &want);
        let s = T::right(4);
        let y = vec![s; va.ids.len()];
        if let Some(want) = after(op, &da, va, &y) {
            let mut ca = Chain::build(ra, &da, pa);
            imp(|| (op.asc)(ca.last_mut(), s));
            step();
            check_root("target storage (scalar)", &ca, ra, &want);
            expect("target (scalar)", ca.last(), &va.shape, &select(&want, &va.ids));
        }
    }
}

type Lay = Rc<Vec<(Vec<usize>, Rec)>>;

fn pairs<T: HasOps>(p: &mut Plan, lay: &Lay, other: &Lay, ops: usize, forms: bool, tag: &str) {
    let n = lay.len();
    let chunk = n.div_ceil(40).max(1);
    for k in 0..n.div_ceil(chunk) {
        let (lay, other) = (lay.clone(), other.clone());
        p.group(format!("{} {tag} targets {}..", T::NAME, k * chunk), move |ctx| {
            let all = T::ops();
            for i in k * chunk..((k + 1) * chunk).min(n) {
                let (ra, a) = &lay[i];
                for (rb, b) in other.iter() {
                    for op in &all[..ops.min(all.len())] {
                        ctx.case(|| format!("{} {}= {} of {}", show_path(ra, &a.path), op.name, show_path(rb, &b.path), T::NAME), || {
                            state(&(T::NAME, op.name, &a.view.shape, &a.view.skey, a.view.ids[0] != 0, a.view.ro, &b.view.shape, &b.view.skey));
                            outcome(&(op.name, &a.view.shape, &b.view.shape));
                            assign(op, ra, &a.path, &a.view, rb, &b.path, &b.view, forms);
                        });
                    }
                }
            }
        });
    }
}

/// Operands of many axes, permuted and broadcast against each other.
fn dense<T: HasOps>(p: &mut Plan) {
    for n in [7usize, 8, 12, 13, 16] {
        p.group(format!("{} operands of {n} axes", T::NAME), move |ctx| {
            let mut ls = dense_layouts(n);
            for root in [vec![2; n - 3], vec![1; n], (0..n).map(|i| 1 + i % 2).collect()] { ls.push((root.clone(), vec![], MView::root(&root))); }
            for op in &T::ops()[..if n > 13 { 1 } else { 2 }] { for la in &ls { for lb in &ls {
                ctx.case(|| format!("{} {}= {} of {}", show_path(&la.0, &la.1), op.name, show_path(&lb.0, &lb.1), T::NAME), || {
                    state(&("dense", n, T::NAME, op.name, &la.2.skey, &lb.2.skey));
                    assign(op, &la.0, &la.1, &la.2, &lb.0, &lb.1, &lb.2, lb.1.is_empty());
                });
            } } }
        });
    }
}

fn sizes<T: HasOps>(p: &mut Plan, all: usize, max: usize) {
    for oi in 0..T::ops().len() {
        for part in 0..4 {
            p.group(format!("{} lengths op {oi} part {part}", T::NAME), move |ctx| {
                let op = &T::ops()[oi];
                for n in lengths(all, max).into_iter().chain(far_lengths(max)).skip(part).step_by(4) {
                    for la in long_layouts(n) { for lb in long_layouts(n) {
                        if la.2.ro && n > 2 { continue; }
                        ctx.case(|| format!("{} {}= {} of {}", show_path(&la.0, &la.1), op.name, show_path(&lb.0, &lb.1), T::NAME), || {
                            state(&("len", n, T::NAME, op.name, &la.2.skey, &lb.2.skey));
                            assign(op, &la.0, &la.1, &la.2, &lb.0, &lb.1, &lb.2, lb.1.is_empty());
                        });
                    } }
                    if !(n <= 24 || n % 64 < 2 && n < 1100) { continue; }
                    let m = [2usize, 3, 5][n % 3];
                    for la in long_layouts2(n, m) { for lb in long_layouts2(n, m) {
                        if la.2.ro && n > 2 { continue; }
                        ctx.case(|| format!("{} {}= {} of {}", show_path(&la.0, &la.1), op.name, show_path(&lb.0, &lb.1), T::NAME), || {
                            state(&("len2", n, T::NAME, op.name, &la.2.skey, &lb.2.skey));
                            assign(op, &la.0, &la.1, &la.2, &lb.0, &lb.1, &lb.2, lb.1.is_empty());
                        });
                    } }
                }
            });
        }
    }
}

fn values<T: HasOps>(p: &mut Plan, vals: Vec<T>) {
    for oi in 0..T::ops().len() {
        let vals = vals.clone();
        p.group(format!("{} values op {oi}", T::NAME), move |ctx| {
            let op = &T::ops()[oi];
            for &b in &vals {
                ctx.case(|| format!("every value of {} {}= {b:?}", T::NAME, op.name), || {
                    let xs: Vec<T> = vals.iter().copied().filter(|&a| (op.f)(a, b).is_some()).collect();
                    if xs.is_empty() { return; }
                    let n = xs.len();
                    let want: Vec<T> = xs.iter().map(|&a| (op.f)(a, b).unwrap()).collect();
                    state(&("val", T::NAME, op.name, b.key()));
                    let mut t = fresh(&[n], &xs);
                    imp(|| (op.asc)(&mut t, b));
                    expect("array op= scalar", &t, &[n], &want);
                    let mut t = fresh(&[n], &xs);
                    let r = fresh(&[n], &vec![b; n]);
                    imp(|| (op.ar)(&mut t, &r));
                    expect("array op= array", &t, &[n], &want);
                    let one = fresh(&[], &[b]);
                    let mut t = fresh(&[n], &xs);
                    imp(|| (op.ar)(&mut t, &one));
                    expect("array op= zero-dimensional array", &t, &[n], &want);
                    let two: Vec<T> = xs.iter().flat_map(|&x| [T::left(0), x]).collect();
                    let mut c = Chain::build(&[n, 2], &two, &[Step { op: VOp::SliceAlong(1, Ix::At(1)), consume: false }]);
                    imp(|| (op.ar)(c.last_mut(), &r));
                    let w2: Vec<T> = want.iter().flat_map(|&x| [T::left(0), x]).collect();
                    expect("strided target", c.root_ref(), &[n, 2], &w2);
                    for k in 0..n.min(20) {
                        let mut t = fresh(&[], &xs[k..k + 1]);
                        imp(|| (op.ar)(&mut t, &one));
                        expect("zero-dimensional target", &t, &[], &want[k..k + 1]);
                        let mut t2 = fresh(&[], &xs[k..k + 1]);
                        imp(|| (op.asc)(&mut t2, b));
                        expect("zero-dimensional target, scalar", &t2, &[], &want[k..k + 1]);
                        imp(move || { drop(t); drop(t2) });
                    }
                    steps(4 * n as u64);
                    imp(move || { drop(t); drop(r); drop(one) });
                });
            }
        });
    }
}

/// Histories: two or three assignments through different views of one array, each from a view of the
/// same array that does not overlap the target, or from a scalar.
fn histories<T: HasOps>(p: &mut Plan, root: &'static [usize], depth: usize) {
    let recs: Rc<Vec<Rec>> = Rc::new(catalogue(root, &Alphabet { joint: 0, ..BORROW }, 1).into_iter()
        .filter(|r| !r.path.iter().any(|s| matches!(s.op, VOp::Reshape(_)))).collect());
    // all single assignments: (target, operand or scalar, operator)
    let mut moves: Vec<(usize, Option<usize>, usize)> = vec![];
    for (i, a) in recs.iter().enumerate() {
        if a.view.ro { continue; }
        moves.push((i, None, i % 3));
        for (j, b) in recs.iter().enumerate() {
            if !broadcastable(&b.view.shape, &a.view.shape) || a.view.ids.iter().any(|x| b.view.ids.contains(x)) { continue; }
            moves.push((i, Some(j), (i + j) % 3));
        }
    }
    let moves = Rc::new(moves);
    for first in 0..moves.len() {
        let (recs, moves) = (recs.clone(), moves.clone());
        p.group(format!("{} histories of {root:?} starting with assignment {first}", T::NAME), move |ctx| {
            let mut rest: Vec<Vec<usize>> = vec![vec![first]];
            for _ in 1..depth { rest = rest.iter().flat_map(|h| (0..moves.len()).map(move |m| { let mut h = h.clone(); h.push(m); h })).collect(); }
            for h in rest {
                ctx.case(|| {
                    let mut s = format!("root{root:?} of {}:", T::NAME);
                    for &m in &h {
                        let (i, j, o) = moves[m];
                        s += &format!(" {} {}= {};", show_path(root, &recs[i].path), T::ops()[o].name, j.map_or("scalar".into(), |j| show_path(root, &recs[j].path)));
                    }
                    s
                }, || {
                    let ops = T::ops();
                    let mut data: Vec<T> = (0..prod(root)).map(|k| T::val(5 + k as i64)).collect();
                    let c = Chain::root(root, &data);
                    let base = c.last();
                    for &m in &h {
                        let (i, j, o) = moves[m];
                        let (a, op) = (&recs[i], &ops[o]);
                        let rhs = match j {
                            None => vec![T::val(2); a.view.ids.len()],
                            Some(j) => broadcast_data(&select(&data, &recs[j].view.ids), &recs[j].view.shape, &a.view.shape),
                        };
                        let Some(want) = after(op, &data, &a.view, &rhs) else { return };
                        let mut t = imp(|| match a.path.first() { Some(s) => apply_ref(base, &s.op), None => apply_ref(base, &VOp::View) });
                        match j {
                            None => imp(|| (op.asc)(&mut t, T::val(2))),
                            Some(j) => {
                                let r = imp(|| match recs[j].path.first() { Some(s) => apply_ref(base, &s.op), None => apply_ref(base, &VOp::View) });
                                imp(|| (op.ar)(&mut t, &r));
                                imp(move || drop(r));
                            }
                        }
                        step();
                        expect("storage", base, root, &want);
                        imp(move || drop(t));
                        data = want;
                        state(&(T::NAME, root, data.iter().map(|x| x.key()).collect::<Vec<_>>()));
                    }
                });
            }
        });
    }
}

fn main() {
    mc::engine::main("C02", |tier| {
        let mut p = Plan::new("");
        let al = Alphabet { max_dims: 4, max_size: 24, full_ix: false, consume: false, joint: 1, neg: false };
        let roots: [&[usize]; 8] = [&[], &[2], &[3], &[2, 2], &[2, 3], &[3, 2], &[2, 2, 2], &[2, 3, 2]];
        let small: Lay = Rc::new(layouts(&roots, al, 2));
        let mid: Lay = Rc::new(layouts(&roots, BORROW, 1));
        let tiny: Lay = Rc::new(layouts(&[&[], &[1], &[3], &[2, 3], &[2, 2, 3]], al, 1));
        let high: Lay = Rc::new(layouts(&[&[2, 1, 3, 2, 1, 2], &[2, 2, 2, 2, 2], &[3, 1, 2]], Alphabet { max_dims: 6, max_size: 80, joint: 0, ..al }, 1));
        p.bounds = format!("{} target layouts x {} operand layouts (i32) and {} x {} ({} of 5-d and 6-d arrays); arrays of 7 to 32 axes; {} x {} for all 14 numeric types, operators and operand forms, including every incompatible or readonly pair; lengths 1..{} and around powers of two to {}; all value pairs of 8-bit types, boundary values of the others; all histories of {} (3 for roots of 4 elements) assignments between non-overlapping views of one array",
            small.len(), mid.len(), mid.len(), small.len(), high.len(), tiny.len(), tiny.len(), tier.pick(70, 200), tier.pick(4097, 65537), 2);
        p.assume("operands do not overlap the target; values on which the scalar operation itself panics are outside the property");
        pairs::<i32>(&mut p, &small, &mid, 1, false, "small");
        if tier == Tier::Thorough { pairs::<i32>(&mut p, &small, &small, 3, false, "small small"); }
        pairs::<i32>(&mut p, &mid, &small, 1, false, "small right");
        pairs::<f32>(&mut p, &mid, &mid, 5, true, "mixed");
        pairs::<i32>(&mut p, &high, &high, 1, false, "high");
        let many: Lay = Rc::new(many_roots().iter().flat_map(|r| layouts(&[r], Alphabet { consume: false, joint: 0, ..MANY }, 1))
            .filter(|(_, r)| r.path.first().map_or(true, |s| matches!(s.op, VOp::Transpose(..) | VOp::SliceAlong(_, Ix::At(_)) | VOp::Reshape(_) | VOp::DiagonalAlong(..)))).collect());
        let rows: Lay = Rc::new(layouts(&[&[], &[2], &[2, 1], &[2, 2, 1]], Alphabet { joint: 0, ..al }, 1));
        let roots: Lay = Rc::new(many_roots().iter().flat_map(|r| layouts(&[r], MANY, 0)).collect());
        pairs::<i32>(&mut p, &many, &rows, 1, false, "many axes");
        pairs::<i32>(&mut p, &many, &roots, 1, false, "many axes");
        macro_rules! each { ($($t:ty),*) => { $(
            pairs::<$t>(&mut p, &tiny, &tiny, 9, true, "tiny");
            sizes::<$t>(&mut p, tier.pick(70, 200), tier.pick(4097, 65537));
        )* } }
        each!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
        dense::<i32>(&mut p);
        dense::<f64>(&mut p);
        values::<i8>(&mut p, (i8::MIN..=i8::MAX).collect());
        values::<u8>(&mut p, (u8::MIN..=u8::MAX).collect());
        macro_rules! vals { ($($t:ty),*) => { $( values::<$t>(&mut p, <$t>::special()); )* } }
        vals!(i16, i32, i64, i128, isize, u16, u32, u64, u128, usize, f32, f64);
        histories::<i64>(&mut p, &[4], 3);
        histories::<i64>(&mut p, &[2, 2], 3);
        histories::<f64>(&mut p, &[2, 3], 2);
        histories::<i64>(&mut p, &[2, 2, 2], 2);
        p
    });
}
