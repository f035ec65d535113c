//! C06: iteration, copying, comparison and printing see each element once, in order.
use mc::*;
use redstone_ml::*;
use redstone_ml::tensor_iterator::NdIterator;

/// The sub-arrays for a set of axes: (shape of each, elements of each), in row-major order of the axes.
fn subarrays(v: &MView, axes: &[usize]) -> (Vec<usize>, Vec<Vec<u32>>) {
    let sel: Vec<usize> = (0..v.shape.len()).filter(|a| axes.contains(a)).collect();
    let rest: Vec<usize> = (0..v.shape.len()).filter(|a| !axes.contains(a)).collect();
    let outer: Vec<usize> = sel.iter().map(|&a| v.shape[a]).collect();
    let inner: Vec<usize> = rest.iter().map(|&a| v.shape[a]).collect();
    let subs = indices(&outer).iter().map(|o| {
        indices(&inner).iter().map(|i| {
            let mut idx = vec![0; v.shape.len()];
            for (k, &a) in sel.iter().enumerate() { idx[a] = o[k]; }
            for (k, &a) in rest.iter().enumerate() { idx[a] = i[k]; }
            v.at(&idx)
        }).collect()
    }).collect();
    (inner, subs)
}

fn check_subs<T: Dt>(what: &str, it: NdIterator<'static, T>, v: &MView, axes: &[usize], data: &[T]) {
    let (shape, subs) = subarrays(v, axes);
    let mut it = it;
    for (k, ids) in subs.iter().enumerate() {
        match imp(|| it.next()) {
            None => panic!("{what}: ends after {k} of {} sub-arrays", subs.len()),
            Some(x) => {
                expect(&format!("{what}: sub-array {k}"), &x, &shape, &select(data, ids));
                step();
                imp(move || drop(x));
            }
        }
    }
    if let Some(x) = imp(|| it.next()) { panic!("{what}: yields more than {} sub-arrays: {:?}", subs.len(), read_by_index(&x)); }
    imp(move || drop(it));
}

fn expected_debug<T: Dt>(shape: &[usize], data: &mut impl Iterator<Item=T>) -> String {
    if shape.is_empty() { return format!("{:?}", data.next().unwrap()); }
    let parts: Vec<String> = (0..shape[0]).map(|_| expected_debug(&shape[1..], data)).collect();
    format!("[{}]", parts.join(","))
}

/// Sets of axes: all of them, or for arrays of many axes those of one or two axes and those without one or none.
fn subsets(n: usize) -> Vec<Vec<usize>> {
    if n > 6 {
        let mut out = vec![vec![], (0..n).collect::<Vec<_>>()];
        for i in 0..n {
            out.push(vec![i]);
            out.push((0..n).filter(|&x| x != i).collect());
            out.push((i..n).collect());
            for j in i + 1..n { if n < 10 || j == i + 1 || j == n - 1 { out.push(vec![i, j]); } }
        }
        return out;
    }
    (0..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}

/// The iterator through the standard adaptors.
fn adaptors<T: Dt>(a: &'static Arr<T>, want: &[T]) {
    let n = want.len();
    let eq = |what: String, got: Vec<T>, exp: Vec<T>| { if !same(&got, &exp) { panic!("{what}: {got:?}, expected {exp:?}"); } step(); };
    let cap = |it: &mut dyn Iterator<Item=T>| -> Vec<T> { imp(|| it.take(2 * n + 2).collect()) };
    for k in 0..=n.min(7) + 1 {
        eq(format!("flatiter().skip({k})"), cap(&mut a.flatiter().skip(k)), want.iter().copied().skip(k).collect());
        eq(format!("flatiter().step_by({})", k + 1), cap(&mut a.flatiter().step_by(k + 1)), want.iter().copied().step_by(k + 1).collect());
        eq(format!("flatiter().take({k})"), cap(&mut a.flatiter().take(k)), want.iter().copied().take(k).collect());
        // nth, then the rest
        let mut it = imp(|| a.flatiter());
        let mut m = want.iter().copied();
        let (x, y) = (imp(|| it.nth(k)), m.nth(k));
        eq(format!("flatiter().nth({k})"), x.into_iter().collect(), y.into_iter().collect());
        eq(format!("flatiter() after nth({k})"), cap(&mut it), m.collect());
        let mut it = imp(|| a.flatiter_ptr());
        let (x, y) = (imp(|| it.nth(k)).map(|p| unsafe { *p }), want.get(k).copied());
        eq(format!("flatiter_ptr().nth({k})"), x.into_iter().collect(), y.into_iter().collect());
    }
    if imp(|| a.flatiter().count()) != n { panic!("flatiter().count() is not {n}"); }
    eq("flatiter().last()".into(), imp(|| a.flatiter().last()).into_iter().collect(), vec![want[n - 1]]);
    for used in [0, 1, n / 2, n] {
        let mut it = imp(|| a.flatiter());
        for _ in 0..used { imp(|| it.next()); }
        let (lo, hi) = imp(|| it.size_hint());
        let left = n.saturating_sub(used);
        if lo > left || hi.is_some_and(|h| h < left) { panic!("size_hint is ({lo}, {hi:?}) with {left} elements left"); }
        if used >= n { for _ in 0..3 { if imp(|| it.next()).is_some() { panic!("flatiter yields elements after its end"); } } }
    }
}

fn check_all<T: Dt>(a: &'static Arr<T>, v: &MView, data: &[T], deep: bool) {
    let want = select(data, &v.ids);
    let nd = v.shape.len();
    // element iteration
    let got = read_by_iter(a);
    if !same(&got, &want) { panic!("flatiter: {got:?}, expected {want:?}"); }
    step();
    let mut it = imp(|| a.flatiter_ptr());
    let mut n = 0;
    while let Some(p) = imp(|| it.next()) {
        if n >= want.len() { panic!("flatiter_ptr yields more than {} pointers", want.len()); }
        let expect = get_ref(a, &unravel(&v.shape, n)) as *const T;
        if p as *const T != expect { panic!("flatiter_ptr: pointer {n} is not that of element {n}"); }
        n += 1;
    }
    if n != want.len() { panic!("flatiter_ptr yields {n} of {} pointers", want.len()); }
    imp(move || drop(it));
    step();
    if deep { adaptors(a, &want); }
    // copies
    let c = imp(|| a.clone());
    expect("clone", &c, &v.shape, &want);
    step();
    let f = imp(|| a.flatten());
    expect("flatten", &f, &[want.len()], &want);
    step();
    // comparison (three forms), against an equal, an unequal and a differently shaped array
    if T::KIND != Kind::Float || want.iter().all(|x| x.key() != u128::MAX) {
        if !imp(|| *a == c) || !imp(|| c == *a) || !imp(|| &*a == c) || !imp(|| *a == &c) { panic!("an array differs from its copy"); }
        step();
    }
    if deep {
        for k in 0..want.len() {
            let mut other = want.clone();
            other[k] = if other[k].key() == T::val(100).key() { T::val(101) } else { T::val(100) };
            if other[k] == want[k] { continue; }
            let o = fresh(&v.shape, &other);
            if imp(|| *a == o) || imp(|| o == *a) || imp(|| &*a == o) || imp(|| *a == &o) { panic!("arrays that differ in element {k} only compare equal"); }
            step();
            imp(move || drop(o));
        }
        if let VOp::Unsqueeze(_) = VOp::Unsqueeze(0) {
            let mut s = v.shape.clone();
            s.push(1);
            let o = fresh(&s, &want);
            if imp(|| *a == o) || imp(|| o == *a) { panic!("arrays of shapes {:?} and {s:?} compare equal", v.shape); }
            step();
            imp(move || drop(o));
            if nd > 0 {
                let o = fresh(&[want.len()], &want);
                if v.shape.len() != 1 && (imp(|| *a == o) || imp(|| o == *a)) { panic!("arrays of shapes {:?} and [{}] compare equal", v.shape, want.len()); }
                imp(move || drop(o));
            }
            if v.shape.len() == 2 && v.shape[0] != v.shape[1] {
                let o = fresh(&[v.shape[1], v.shape[0]], &want);
                if imp(|| *a == o) || imp(|| o == *a) { panic!("arrays of different shapes compare equal"); }
                imp(move || drop(o));
            }
        }
    }
    imp(move || { drop(c); drop(f) });
    // printing
    let text: String = imp(|| format!("{a:?}")).chars().filter(|c| !c.is_whitespace()).collect();
    let exp: String = expected_debug(&v.shape, &mut want.iter().copied()).chars().filter(|c| !c.is_whitespace()).collect();
    if text != exp { panic!("prints as {text}, expected {exp}"); }
    step();
    // sub-arrays
    if nd > 0 {
        check_subs("iter", imp(|| a.iter()), v, &[0], data);
        for ax in 0..nd {
            check_subs("iter_along", imp(|| a.iter_along(ax as isize)), v, &[ax], data);
            check_subs("iter_along", imp(|| a.iter_along(Axis(ax as isize - nd as isize))), v, &[ax], data);
        }
        for (k, set) in subsets(nd).into_iter().enumerate() {
            if nd > 6 && want.len() > 5000 && k % 7 != 1 { continue; }
            check_subs("nditer", imp(|| a.nditer(set.clone())), v, &set, data);
            if deep && set.len() > 1 {
                let rev: Vec<usize> = set.iter().rev().copied().collect();
                check_subs("nditer (axes reversed)", imp(|| a.nditer(rev)), v, &set, data);
            }
            if set.len() == 2 { check_subs("nditer (array)", imp(|| a.nditer([set[0], set[1]])), v, &set, data); }
            if set.len() == 1 && set[0] < nd {
                let s = set[0];
                if attempt(|| a.nditer([s, s])).is_ok() { panic!("nditer accepts a repeated axis"); }
            }
        }
    }
}

fn unravel(shape: &[usize], mut n: usize) -> Vec<usize> {
    let mut i = vec![0; shape.len()];
    for k in (0..shape.len()).rev() { i[k] = n % shape[k]; n /= shape[k]; }
    i
}

fn visit_state<T: Dt>(ctx: &mut Ctx, root: &[usize], r: &Rec) {
    let data: Vec<T> = fill_values(prod(root), 1);
    ctx.case(|| format!("{} of {}", show_path(root, &r.path), T::NAME), || {
        let c = Chain::build(root, &data, &r.path);
        state(&(root, &r.view));
        outcome(&(&r.view.shape, &r.view.ids));
        check_all(c.last(), &r.view, &data, r.view.ids.len() <= 24);
    });
}

/// The four forms of comparison, both ways round.
fn compare<T: Dt>(what: &str, a: &Arr<T>, b: &Arr<T>, want: bool) {
    let r = [imp(|| *a == *b), imp(|| *b == *a), imp(|| &*a == *b), imp(|| *a == &*b), imp(|| &*b == *a), imp(|| *b == &*a)];
    if r.iter().any(|&x| x != want) { panic!("{what}: compare as {r:?}, expected {want}"); }
    if r.iter().any(|_| imp(|| *a != *b) == want) { panic!("{what}: != gives {want}"); }
    steps(7);
}

fn equal<T: Dt>(v: &MView, x: &[T], w: &MView, y: &[T]) -> bool {
    v.shape == w.shape && v.ids.iter().zip(&w.ids).all(|(&i, &j)| x[i as usize] == y[j as usize])
}

/// Data under which views of one array are equal or not in every combination.
fn patterns<T: Dt>(n: usize) -> Vec<Vec<T>> {
    let mut out = vec![
        fill_values(n, 1),
        vec![T::val(1); n],
        (0..n).map(|i| T::val((i % 2) as i64)).collect(),
        (0..n).map(|i| T::val((i * i % 3 == 1) as i64)).collect(),
    ];
    for k in 0..n { out.push((0..n).map(|i| T::val((i == k) as i64)).collect()); }
    out
}

/// Every pair of views of one array, and of two arrays.
fn pairs<T: Dt>(p: &mut Plan, root: &[usize], depth: usize, extra: impl Fn(usize) -> Vec<Vec<T>> + Clone + 'static) {
    let recs = std::rc::Rc::new(catalogue(root, &BORROW, depth));
    let chunk = (recs.len() / 24).max(1);
    for k in 0..recs.len().div_ceil(chunk) {
        let (recs, root, extra) = (recs.clone(), root.to_vec(), extra.clone());
        p.group(format!("{} pairs of views of {root:?} depth {depth} states {}..", T::NAME, k * chunk), move |ctx| {
            for r in &recs[k * chunk..((k + 1) * chunk).min(recs.len())] {
                let mut pats = patterns::<T>(prod(&root));
                pats.extend(extra(prod(&root)));
                for (m, data) in pats.iter().enumerate() {
                    ctx.case(|| format!("{} of {} with elements {data:?} against every view of the same array", show_path(&root, &r.path), T::NAME), || {
                        let a = Chain::build(&root, data, &r.path);
                        let x = a.last();
                        state(&("pairs", &root, &r.view, m));
                        // the other view is made from the same root
                        for q in recs.iter() {
                            if q.view.shape != r.view.shape && (m != 1 || prod(&q.view.shape) != prod(&r.view.shape)) { continue; }
                            let mut b: Vec<Box<Arr<T>>> = vec![];
                            for s in &q.path {
                                let from = b.last().map_or(a.root_ref(), |l| unsafe { long(l) });
                                b.push(Box::new(imp(|| apply_ref(from, &s.op))));
                            }
                            let y = b.last().map_or(a.root_ref(), |l| unsafe { long(l) });
                            let want = equal(&r.view, data, &q.view, data);
                            compare(&format!("against {}", show_path(&root, &q.path)), x, y, want);
                            outcome(&want);
                            while let Some(l) = b.pop() { imp(move || drop(l)); }
                        }
                    });
                }
            }
        });
    }
}

/// Element values for which equality is not bit equality.
fn float_equality(ctx: &mut Ctx) {
    let vals = [0.0f64, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0];
    for a in vals { for b in vals { for n in [1, 2, 3] { for k in 0..n {
        ctx.case(|| format!("compare arrays of length {n} with {a} and {b} at {k}"), || {
            let mut x = vec![1.5f64; n];
            let mut y = x.clone();
            x[k] = a;
            y[k] = b;
            let (p, q) = (fresh(&[n], &x), fresh(&[n], &y));
            let eq = imp(|| p == q);
            if eq != (a == b) { panic!("compares as {eq}"); }
            let (tp, tq) = (imp(|| Tensor::new(x.clone())), imp(|| Tensor::new(y.clone())));
            if imp(|| tp == tq) != (a == b) || imp(|| tp == q) != (a == b) || imp(|| p == tq) != (a == b) || imp(|| p == &tq) != (a == b) || imp(|| &p == tq) != (a == b) { panic!("tensors compare as {}", a != b); }
            steps(6);
            state(&("eq", a.key(), b.key(), n, k));
        });
    } } } }
}

fn main() {
    mc::engine::main("C06", |tier| {
        let mut p = Plan::new(format!("{SPACE_TEXT}; a smaller space for each of the 15 element types; in each state: element iteration (values and pointers, also through skip, step_by, take, nth, count, last, size_hint), clone, flatten, printing, comparison with its copy, with every array differing in one element and with other shapes, iteration along each axis (positive and negative) and over all subsets of axes; comparison of every pair of views (<= 2 operations) of one array for 9 root shapes, with all-equal, periodic, one-hot and (floating-point) NaN-bearing elements"));
        standard::<i32>(&mut p, tier, visit_state::<i32>);
        many_axes::<i32>(&mut p, visit_state::<i32>);
        far::<i32>(&mut p, visit_state::<i32>);
        moderate::<i32>(&mut p, visit_state::<i32>);
        moderate::<f32>(&mut p, visit_state::<f32>);
        moderate::<u8>(&mut p, visit_state::<u8>);
        dense_axes::<i32>(&mut p, visit_state::<i32>);
        macro_rules! dt { ($($t:ty),*) => { $( brief::<$t>(&mut p, visit_state::<$t>); )* } }
        dt!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, bool);
        let none = |_| vec![];
        for root in [&[4][..], &[2, 2], &[3, 3], &[2, 3], &[1, 2], &[2, 2, 2]] { pairs::<i32>(&mut p, root, 2, none); }
        for root in [&[1][..], &[2], &[3]] { pairs::<i32>(&mut p, root, 3, none); }
        let nan = |n| (0..=n).map(|k| (0..n).map(|i| if i == k || k == n { f64::NAN } else { 1.0 }).collect()).collect();
        for root in [&[4][..], &[2, 2], &[2, 3]] { pairs::<f64>(&mut p, root, tier.pick(1, 2), nan); }
        for root in [&[][..], &[1], &[2]] { pairs::<f64>(&mut p, root, 2, nan); }
        if tier == Tier::Thorough { for root in [&[5][..], &[6], &[3, 2, 1], &[2, 3, 2], &[4, 4]] { pairs::<i32>(&mut p, root, 2, none); } }
        macro_rules! dp { ($($t:ty),*) => { $( for root in [&[2][..], &[2, 2], &[2, 3]] { pairs::<$t>(&mut p, root, 1, |_| vec![]); } )* } }
        dp!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, bool);
        p.group("float equality", float_equality);
        p
    });
}
