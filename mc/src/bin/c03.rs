//! C03: every composition of view operations denotes the elements NumPy would.
use mc::*;
use redstone_ml::*;
use std::rc::Rc;

/// Compares every observation of an array with the model.
fn check_view<T: Dt>(a: &'static Arr<T>, v: &MView, data: &[T]) {
    let want = select(data, &v.ids);
    expect("indexing", a, &v.shape, &want);
    if v.shape.len() == 1 {
        let n = v.shape[0];
        for i in 0..n {
            if a[i].key() != want[i].key() { panic!("indexing with a single number: element {i} is {:?}, expected {:?}", a[i], want[i]); }
        }
    }
    let it = read_by_iter(a);
    if !same(&it, &want) { panic!("iteration: {it:?}, expected {want:?}"); }
    if want.len() == 1 {
        let x = imp(|| a.value());
        if x.key() != want[0].key() { panic!("value: {x:?}, expected {:?}", want[0]); }
    }
    if a.is_contiguous() {
        let d = imp(|| a.data_slice());
        if !same(d, &want) { panic!("data_slice: {d:?}, expected {want:?}"); }
    }
}

fn run<T: Dt>(ctx: &mut Ctx, root: &[usize], recs: &[Rec], al: &Alphabet, expand: bool) {
    let data: Vec<T> = fill_values(prod(root), 1);
    for r in recs {
        // the state itself, reached by its history from a fresh root, every step compared
        ctx.case(|| format!("{} of {}", show_path(root, &r.path), T::NAME), || {
            let mut c = Chain::root(root, &data);
            let mut v = MView::root(root);
            check_view(c.last(), &v, &data);
            for s in &r.path {
                c.push(s);
                v = v.after(s).unwrap();
                state(&(root, &v));
                check_view(c.last(), &v, &data);
            }
            // the source is unchanged, and earlier views still denote what they did
            let mut w = MView::root(root);
            let mut views = vec![w.clone()];
            for s in &r.path { w = w.after(s).unwrap(); if s.consume { views.pop(); } views.push(w.clone()); }
            for (link, w) in c.links.iter().zip(&views) { check_view(unsafe { long(link) }, w, &data); }
            outcome(&(&v.shape, &v.ids));
        });
        if !expand { continue; }
        // every operation enabled in the state
        for s in enabled(&r.view, al) {
            ctx.case(|| format!("{} then {:?}{} of {}", show_path(root, &r.path), s.op, if s.consume { " (consuming)" } else { "" }, T::NAME), || {
                let mut c = Chain::build(root, &data, &r.path);
                let verdict = r.view.apply(&s.op);
                match (c.try_push(&s), verdict) {
                    (Ok(()), Verdict::Must(v)) | (Ok(()), Verdict::May(v)) => {
                        check_view(c.last(), &v, &data);
                        state(&(root, &v));
                        outcome(&(&v.shape, &v.ids));
                        if !s.consume && c.links.len() > 1 {
                            let src = unsafe { long(&c.links[c.links.len() - 2]) };
                            check_view(src, &r.view, &data);
                        }
                    }
                    (Err(_), Verdict::May(_)) | (Err(_), Verdict::Reject) => {}
                    (Err(e), Verdict::Must(_)) => panic!("refused: {e}"),
                    (Ok(()), Verdict::Reject) => panic!("accepted, but must be rejected"),
                }
            });
        }
    }
}

fn add<T: Dt>(p: &mut Plan, root: &[usize], al: Alphabet, depth: usize) {
    // distinct states reachable by < depth operations, each expanded by every enabled operation
    let recs = Rc::new(catalogue(root, &al, depth - 1));
    let chunk = (recs.len() / 64).clamp(1, 40);
    for k in 0..recs.len().div_ceil(chunk) {
        let (recs, root) = (recs.clone(), root.to_vec());
        p.group(format!("{} root {root:?} depth {depth} states {}..", T::NAME, k * chunk), move |ctx| {
            let hi = ((k + 1) * chunk).min(recs.len());
            run::<T>(ctx, &root, &recs[k * chunk..hi], &al, true)
        });
    }
}

fn main() {
    mc::engine::main("C03", |tier| {
        let mut p = Plan::new(format!(
            "histories of view operations (slice, slice_along, reshape, view, squeeze, unsqueeze, T, transpose, broadcast_to, the diagonal family; borrowing and consuming): breadth-first over all distinct view states of 17 root shapes with <= 4 axes, every enabled operation applied in every state, up to {} operations in sequence; the same with representative indices for 5- and 6-dimensional and large roots; depth 2 for each of the 15 element types; every operation on roots of 7 to 32 axes, pairs of operations for 7 axes", tier.pick("3 (2 for roots with more than 9 elements)", "4 (3 for roots with more than 9 elements)")));
        p.assume("states are merged when shape, denoted elements, neighbour distances, writability and ownership agree (the fields that determine an array's future)");
        let al = Alphabet { max_dims: 4, max_size: 24, full_ix: true, consume: true, joint: 3, neg: true };
        let rep = Alphabet { max_dims: 4, max_size: 24, full_ix: false, consume: true, joint: 2, neg: false };
        let more = tier.pick(0, 1);
        for root in [&[][..], &[1], &[2], &[3], &[4], &[2, 2], &[2, 3], &[3, 2], &[1, 3], &[3, 1]] {
            add::<i32>(&mut p, root, if prod(root) > 4 && tier == Tier::Quick { rep } else { al }, 3 + if prod(root) <= 4 { more } else { 0 });
            add::<i32>(&mut p, root, al, 2);
        }
        for root in [&[3, 3][..], &[2, 2, 2], &[2, 3, 2], &[3, 2, 2], &[2, 1, 3], &[1, 2, 1, 2], &[2, 2, 2, 2]] {
            add::<i32>(&mut p, root, al, 2);
            if more > 0 { add::<i32>(&mut p, root, rep, 3); }
        }
        let big = Alphabet { max_dims: 6, max_size: 200, full_ix: false, consume: true, joint: 6, neg: true };
        add::<i32>(&mut p, &[2, 2, 2, 2, 2], big, 1 + more);
        add::<i32>(&mut p, &[2, 1, 3, 2, 1, 2], Alphabet { joint: 2, ..big }, 2);
        let long = Alphabet { max_dims: 3, max_size: 5000, full_ix: false, consume: true, joint: 2, neg: false };
        for root in [&[17][..], &[64], &[65], &[129], &[7, 9], &[33, 4], &[4, 33], &[5, 6, 7]] { add::<i32>(&mut p, root, long, 2); }
        for root in [&[1025][..], &[70, 70]] { add::<i32>(&mut p, root, Alphabet { max_dims: 2, ..long }, 1); }
        for root in far_roots() { add::<i32>(&mut p, &root, FAR, 1); }
        for root in many_roots() { add::<i32>(&mut p, &root, Alphabet { neg: root.len() < 10, ..MANY }, 1); if root.len() == 7 && prod(&root) == 8 { add::<i32>(&mut p, &root, Alphabet { joint: 0, ..MANY }, 2); } }
        dense_axes::<i32>(&mut p, |ctx, root, r| run::<i32>(ctx, root, std::slice::from_ref(r), &FAR, false));
        macro_rules! dt { ($($t:ty),*) => { $(
            for root in [&[][..], &[3], &[2, 3], &[2, 1, 2]] { add::<$t>(&mut p, root, rep, 2); }
        )* } }
        dt!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, bool);
        p
    });
}
