//! C07: reductions equal the fold of exactly the selected elements.
use mc::*;
use redstone_ml::*;

trait Red: HasOps + NumericDataType + PartialOrd {
    fn mean_all(_: &NdArray<'_, Self>) -> Option<Arr<Self>> { None }
    fn mean_ax(_: &NdArray<'_, Self>, _: Vec<isize>) -> Option<Arr<Self>> { None }
    fn over(self, _n: usize) -> Self { unreachable!() }
    fn close(self, other: Self) -> bool { same_value(self, other) }
}
macro_rules! ints { ($($t:ty),*) => { $( impl Red for $t {} )* } }
ints!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
macro_rules! floats { ($($t:ty, $tol:expr);*) => { $( impl Red for $t {
    fn mean_all(a: &NdArray<'_, $t>) -> Option<Arr<$t>> { Some(a.mean()) }
    fn mean_ax(a: &NdArray<'_, $t>, ax: Vec<isize>) -> Option<Arr<$t>> { Some(a.mean_along(ax)) }
    fn over(self, n: usize) -> $t { self / n as $t }
    fn close(self, o: $t) -> bool { self == o || self.is_nan() && o.is_nan() || (self - o).abs() <= $tol * (self.abs() + o.abs()) }
} )* } }
floats!(f32, 1e-6; f64, 1e-14);

fn same_value<T: Red>(a: T, b: T) -> bool { a == b || a.key() == b.key() }

const KINDS: [&str; 7] = ["sum", "product", "min", "max", "min_magnitude", "max_magnitude", "mean"];

fn abs<T: Red>(x: T) -> Option<T> { if x < T::val(0) { (T::neg().unwrap().0)(x) } else { Some(x) } }

/// The fold, or None where the scalar operations overflow.
fn fold<T: Red>(kind: usize, xs: &[T]) -> Option<T> {
    let ops = T::ops();
    let (add, mul) = (ops.iter().find(|o| o.name == "+").unwrap().f, ops.iter().find(|o| o.name == "*").unwrap().f);
    let pick = |less: bool, mag: bool| -> Option<T> {
        let mut best: Option<T> = None;
        for &x in xs {
            let x = if mag { abs(x)? } else { x };
            best = Some(match best { None => x, Some(b) => if (x < b) == less && x != b { x } else { b } });
        }
        best
    };
    match kind {
        // no overflow in any order: the partial sums of the positive and of the negative elements exist
        0 | 6 => {
            let zero = T::val(0);
            let s = |neg: bool| xs.iter().filter(|&&x| (x < zero) == neg).try_fold(zero, |a, &x| add(a, x));
            let t = add(s(false)?, s(true)?)?;
            Some(if kind == 6 { t.over(xs.len()) } else { t })
        }
        1 => xs.iter().try_fold(T::val(1), |a, &x| mul(a, x)),
        2 => pick(true, false),
        3 => pick(false, false),
        4 => pick(true, true),
        5 => pick(false, true),
        _ => unreachable!(),
    }
}

fn whole<T: Red>(kind: usize, a: &NdArray<'_, T>) -> Option<Arr<T>> {
    Some(match kind { 0 => a.sum(), 1 => a.product(), 2 => a.min(), 3 => a.max(), 4 => a.min_magnitude(), 5 => a.max_magnitude(), _ => return T::mean_all(a) })
}
fn along<T: Red>(kind: usize, a: &NdArray<'_, T>, ax: Vec<isize>) -> Option<Arr<T>> {
    Some(match kind { 0 => a.sum_along(ax), 1 => a.product_along(ax), 2 => a.min_along(ax), 3 => a.max_along(ax), 4 => a.min_magnitude_along(ax), 5 => a.max_magnitude_along(ax), _ => return T::mean_ax(a, ax) })
}
/// One axis, in the argument forms a caller may use.
fn along_one<T: Red>(kind: usize, a: &NdArray<'_, T>, ax: isize, form: usize) -> Option<Arr<T>> {
    macro_rules! go { ($x:expr) => { match kind { 0 => a.sum_along($x), 1 => a.product_along($x), 2 => a.min_along($x), 3 => a.max_along($x), 4 => a.min_magnitude_along($x), 5 => a.max_magnitude_along($x), _ => return None } } }
    Some(match form { 0 => go!(ax), 1 => go!([ax]), 2 => go!(Axis(ax)), _ => go!(&vec![ax]) })
}

fn check<T: Red>(what: &str, r: &NdArray<'_, T>, shape: &[usize], want: &[T]) {
    if r.shape() != shape { panic!("{what}: shape {:?}, expected {shape:?}", r.shape()); }
    let got = read_by_index(r);
    if !got.iter().zip(want).all(|(&x, &y)| x.close(y)) { panic!("{what}: {got:?} (shape {shape:?}), expected {want:?}"); }
    step();
}

fn check_whole<T: Red>(a: &NdArray<'_, T>, xs: &[T], kinds: &[usize]) {
    for &k in kinds {
        if k == 6 && T::KIND != Kind::Float { continue; }
        let Some(w) = fold(k, xs) else { continue };
        let r = imp(|| whole(k, a)).unwrap();
        check(KINDS[k], &r, &[], &[w]);
        imp(move || drop(r));
    }
}

fn check_axes<T: Red>(a: &NdArray<'_, T>, shape: &[usize], xs: &[T], axes: &[isize], kinds: &[usize], forms: bool) {
    let nd = shape.len();
    let set: Vec<usize> = axes.iter().map(|&x| if x < 0 { (x + nd as isize) as usize } else { x as usize }).collect();
    let keep: Vec<usize> = (0..nd).filter(|x| !set.contains(x)).collect();
    let out: Vec<usize> = keep.iter().map(|&x| shape[x]).collect();
    let mut bins: Vec<Vec<T>> = vec![vec![]; prod(&out)];
    for (i, &x) in indices(shape).iter().zip(xs) {
        let o: Vec<usize> = keep.iter().map(|&k| i[k]).collect();
        bins[ravel(&out, &o)].push(x);
    }
    for &k in kinds {
        if k == 6 && (T::KIND != Kind::Float || axes.iter().any(|&x| x < 0)) { continue; }
        let Some(w) = bins.iter().map(|b| fold(k, b)).collect::<Option<Vec<T>>>() else { continue };
        let r = imp(|| along(k, a, axes.to_vec())).unwrap();
        check(&format!("{} along {axes:?}", KINDS[k]), &r, &out, &w);
        imp(move || drop(r));
        if forms && axes.len() == 1 && k < 6 {
            for form in 0..4 {
                let r = imp(|| along_one(k, a, axes[0], form)).unwrap();
                check(&format!("{} along {} (form {form})", KINDS[k], axes[0]), &r, &out, &w);
                imp(move || drop(r));
            }
        }
    }
}

fn axis_lists(nd: usize, orders: bool) -> Vec<Vec<isize>> {
    let mut out: Vec<Vec<isize>> = vec![];
    // all sets of axes; for arrays of many axes those of up to two axes, and those without up to two
    let sets: Vec<Vec<usize>> = if nd <= 6 { (0..1usize << nd).map(|m| (0..nd).filter(|i| m >> i & 1 == 1).collect()).collect() } else {
        let mut out = vec![vec![], (0..nd).collect::<Vec<_>>()];
        for i in 0..nd {
            out.push(vec![i]);
            out.push((0..nd).filter(|&x| x != i).collect());
            for j in i + 1..nd { if nd < 10 || j == i + 1 || j + i == nd - 1 { out.push(vec![i, j]); out.push((0..nd).filter(|&x| x != i && x != j).collect()); } }
        }
        out
    };
    for set in sets {
        let set: Vec<isize> = set.iter().map(|&i| i as isize).collect();
        let neg: Vec<isize> = set.iter().map(|x| x - nd as isize).collect();
        out.push(set.clone());
        if set.is_empty() { continue; }
        out.push(neg.clone());
        if orders && set.len() > 1 {
            out.push(set.iter().rev().copied().collect());
            out.push(set.iter().enumerate().map(|(k, &x)| if k % 2 == 0 { x } else { x - nd as isize }).collect());
            let mut rot = neg.clone();
            rot.rotate_left(1);
            out.push(rot);
        }
    }
    out
}

/// Contents: a mixture of signs; products of few non-unit elements.
fn mixed<T: Red>(n: usize, seed: usize) -> Vec<T> {
    (0..n).map(|i| { let x = ((i * 7 + seed * 5 + 3) % 11) as i64; if T::KIND == Kind::Unsigned { T::val(x) } else { T::val(x - 5) } }).collect()
}
fn factors<T: Red>(n: usize, seed: usize) -> Vec<T> {
    (0..n).map(|i| match (i + seed) % n.max(5) { 0 => T::val(2), 2 => T::val(3), 3 if T::KIND != Kind::Unsigned => T::val(-1), 4 => T::val(5), _ => T::val(1) }).collect()
}

fn visit_state<T: Red>(ctx: &mut Ctx, root: &[usize], r: &Rec) {
    ctx.case(|| format!("reductions of {} of {}", show_path(root, &r.path), T::NAME), || {
        let v = &r.view;
        let nd = v.shape.len();
        let n = v.ids.len();
        state(&(T::NAME, root, v));
        outcome(&(&v.shape, &v.skey));
        for seed in 0..2 {
            let data: Vec<T> = mixed(prod(root), seed);
            let c = Chain::build(root, &data, &r.path);
            let xs = select(&data, &v.ids);
            check_whole(c.last(), &xs, &[0, 2, 3, 4, 5, 6]);
            if seed == 0 && n > 260 {
                for (k, ax) in axis_lists(nd, false).into_iter().enumerate() {
                    if nd > 4 && k % (n / 300).clamp(1, 40) != 0 { continue; }
                    check_axes(c.last(), &v.shape, &xs, &ax, if k % 2 == 0 { &[0, 2, 5] } else { &[0, 3, 4] }, false);
                }
            }
            if seed == 0 && n <= 260 {
                let kinds: &[usize] = if nd <= 4 { &[0, 2, 3, 4, 5, 6] } else { &[0, 3] };
                for ax in axis_lists(nd, nd <= 4) { check_axes(c.last(), &v.shape, &xs, &ax, kinds, r.depth < 2); }
                if r.depth < 2 { for bad in [nd as isize, nd as isize + 1, -(nd as isize) - 1] {
                    for k in 0..6 {
                        if imp_rejects(k, c.last(), vec![bad]) { continue; }
                        panic!("{} accepts axis {bad}", KINDS[k]);
                    }
                    if nd > 0 && !imp_rejects(0, c.last(), vec![0, bad]) { panic!("sum accepts axes [0, {bad}]"); }
                }
                for a in 0..nd as isize {
                    for k in 0..6 {
                        for list in [vec![a, a], vec![a, a - nd as isize], vec![a - nd as isize, a]] {
                            if !imp_rejects(k, c.last(), list.clone()) { panic!("{} accepts the repeated axes {list:?}", KINDS[k]); }
                        }
                    }
                    if T::KIND == Kind::Float && attempt(|| T::mean_ax(c.last(), vec![a, a])).is_ok() { panic!("mean accepts a repeated axis"); }
                }
                if T::KIND == Kind::Float && attempt(|| T::mean_ax(c.last(), vec![nd as isize])).is_ok() { panic!("mean accepts axis {nd}"); } }
            }
            expect_same_root(&c, root, &data, &r.path);
        }
        {
            let data: Vec<T> = factors(prod(root), n % 5);
            let c = Chain::build(root, &data, &r.path);
            let xs = select(&data, &v.ids);
            check_whole(c.last(), &xs, &[1]);
            if n <= 260 { for ax in axis_lists(nd, false) { check_axes(c.last(), &v.shape, &xs, &ax, &[1], false); } }
        }
        // an extreme at each position in turn
        if n <= 24 {
            for k in 0..n {
                for e in [0i64, 1] {
                    let mut data: Vec<T> = (0..prod(root)).map(|_| T::val(20)).collect();
                    data[v.ids[k] as usize] = T::val(if e == 0 { 3 } else { 60 });
                    let c = Chain::build(root, &data, &r.path);
                    check_whole(c.last(), &select(&data, &v.ids), &[2, 3, 4, 5]);
                }
            }
        }
    });
}

fn expect_same_root<T: Red>(c: &Chain<T>, root: &[usize], data: &[T], path: &[Step]) {
    let mut first = MView::root(root);
    for s in path.iter().take_while(|s| s.consume) { first = first.after(s).unwrap(); }
    expect("the array afterwards", c.root_ref(), &first.shape, &select(data, &first.ids));
}

fn imp_rejects<T: Red>(k: usize, a: &NdArray<'_, T>, ax: Vec<isize>) -> bool {
    attempt(|| along(k, a, ax.clone())).is_err()
}

/// All tuples of boundary values.
fn specials<T: Red>(p: &mut Plan) {
    let vals: Vec<T> = T::special().into_iter().filter(|x| x == x).collect();
    for first in 0..vals.len() {
        let vals = vals.clone();
        p.group(format!("{} boundary values starting with {:?}", T::NAME, vals[first]), move |ctx| {
            let mut tuples: Vec<Vec<T>> = vec![vec![vals[first]]];
            for &b in &vals { tuples.push(vec![vals[first], b]); for &c in &vals { tuples.push(vec![vals[first], b, c]); } }
            for t in tuples {
                ctx.case(|| format!("reductions of {t:?} of {}", T::NAME), || {
                    let n = t.len();
                    state(&("special", T::NAME, t.iter().map(|x| x.key()).collect::<Vec<_>>()));
                    let kinds: &[usize] = if T::KIND == Kind::Float && n > 2 { &[2, 3, 4, 5] } else { &[0, 1, 2, 3, 4, 5] };
                    let a = fresh(&[n], &t);
                    check_whole(&a, &t, kinds);
                    check_axes(&a, &[n], &t, &[0], kinds, true);
                    imp(move || drop(a));
                    let two: Vec<T> = t.iter().flat_map(|&x| [T::left(0), x]).collect();
                    let c = Chain::build(&[n, 2], &two, &[Step { op: VOp::SliceAlong(1, Ix::At(1)), consume: false }]);
                    check_whole(c.last(), &t, kinds);
                    drop(c);
                    // each row of a matrix, and a layout without uniform distance
                    let rep: Vec<T> = t.iter().flat_map(|&x| [x, x]).collect();
                    let m = fresh(&[n, 2], &rep);
                    check_axes(&m, &[n, 2], &rep, &[0], kinds, true);
                    check_axes(&m, &[n, 2], &rep, &[1], &kinds[kinds.len() - 4..], true);
                    imp(move || drop(m));
                    let mut pad: Vec<T> = vec![];
                    for &x in &t { pad.extend([x, x, T::left(1)]); }
                    let c = Chain::build(&[n, 3], &pad, &[Step { op: VOp::SliceAlong(1, Ix::To(2)), consume: false }]);
                    check_whole(c.last(), &rep, &[2, 3, 4, 5]);
                });
            }
        });
    }
}

fn sizes<T: Red>(p: &mut Plan, all: usize, max: usize) {
    for part in 0..8 {
        p.group(format!("{} lengths part {part}", T::NAME), move |ctx| {
            for n in lengths(all, max).into_iter().chain(far_lengths(max)).skip(part).step_by(8) {
                let mut ls: Vec<_> = long_layouts(n);
                if n <= 300 || n % 512 == 1 { ls.extend(long_layouts2(n, [2, 3, 7][n % 3])); ls.extend(long_layouts2([2, 3, 7][n % 3], n)); }
                for (root, path, v) in ls {
                    ctx.case(|| format!("reductions of {} of {}", show_path(&root, &path), T::NAME), || {
                        state(&("len", T::NAME, n, &v.shape, &v.skey));
                        let m = v.ids.len();
                        let mut spots: Vec<usize> = if m <= 40 { (0..m).collect() } else { vec![0, 1, m / 3, m / 2, m - 3, m - 2, m - 1] };
                        spots.dedup();
                        for k in spots {
                            // one non-zero (for the sum), a single extreme, a single factor
                            let mut data: Vec<T> = vec![T::val(0); prod(&root)];
                            let spot = v.ids[k] as usize;
                            data[spot] = T::val(1);
                            let mut c = Chain::build(&root, &data, &path);
                            check_whole(c.last(), &select(&data, &v.ids), &[0, 3, 5, 6]);
                            if v.shape.len() == 2 && k % 3 == 0 {
                                let xs = select(&data, &v.ids);
                                for ax in [vec![0], vec![1], vec![-1], vec![0, 1]] { check_axes(c.last(), &v.shape, &xs, &ax, &[0, 3], false); }
                            }
                            let put = |c: &mut Chain<T>, data: &mut Vec<T>, a: T, b: T| {
                                for (i, d) in data.iter_mut().enumerate() { *d = if i == spot { b } else { a }; }
                                *c = Chain::build(&root, data, &path);
                            };
                            put(&mut c, &mut data, T::val(1), T::val(2));
                            check_whole(c.last(), &select(&data, &v.ids), &[1]);
                            put(&mut c, &mut data, T::val(9), T::val(4));
                            check_whole(c.last(), &select(&data, &v.ids), &[2, 4]);
                        }
                        if n <= 140 {
                            let data: Vec<T> = mixed(prod(&root), n);
                            let c = Chain::build(&root, &data, &path);
                            let xs = select(&data, &v.ids);
                            check_whole(c.last(), &xs, &[0, 2, 3, 4, 5, 6]);
                        }
                    });
                }
            }
        });
    }
}

fn main() {
    mc::engine::main("C07", |tier| {
        let mut p = Plan::new(format!("{SPACE_TEXT}; a smaller space for each of the 14 numeric types; in each state all 7 reductions over the whole array and along every set of axes (ascending, reversed, rotated, negative, mixed), an extreme at each position in turn, repeated and out-of-range axes; all arrays of <= 3 boundary values of every type; lengths 1..70 and around powers of two, with the decisive element at every position (of short arrays; 7 positions of long ones)"));
        p.assume("element values are chosen so that every order of evaluation gives the same result; NaN, and the magnitude of the most negative integer, are outside the property");
        standard::<i32>(&mut p, tier, visit_state::<i32>);
        many_axes::<i32>(&mut p, visit_state::<i32>);
        far::<i32>(&mut p, visit_state::<i32>);
        dense_axes::<i32>(&mut p, visit_state::<i32>);
        macro_rules! dt { ($($t:ty),*) => { $( brief::<$t>(&mut p, visit_state::<$t>); moderate::<$t>(&mut p, visit_state::<$t>); specials::<$t>(&mut p); sizes::<$t>(&mut p, tier.pick(70, 300), tier.pick(4097, 65537)); )* } }
        dt!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
        p
    });
}
