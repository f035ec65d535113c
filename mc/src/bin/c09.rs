//! C09: dot, matmul, bmm, trace and diagonal equal their definitions.
use mc::*;
use redstone_ml::*;
use std::rc::Rc;

trait Mat: HasOps + NumericDataType + PartialOrd {
    fn dot(a: &Arr<Self>, b: &Arr<Self>) -> Arr<Self>;
    fn matmul(a: &Arr<Self>, b: &Arr<Self>) -> Arr<Self>;
    fn bmm(a: &Arr<Self>, b: &Arr<Self>) -> Arr<Self>;
    fn dot_own(a: &Arr<Self>, b: Arr<Self>) -> Arr<Self>;
    fn matmul_own(a: &Arr<Self>, b: Arr<Self>) -> Arr<Self>;
    fn bmm_own(a: &Arr<Self>, b: Arr<Self>) -> Arr<Self>;
    fn wide(self) -> f64;
    fn limit() -> f64;
}
macro_rules! mat { ($($t:ty, $lim:expr);*) => { $( impl Mat for $t {
    fn dot(a: &Arr<$t>, b: &Arr<$t>) -> Arr<$t> { a.dot(b) }
    fn matmul(a: &Arr<$t>, b: &Arr<$t>) -> Arr<$t> { a.matmul(b) }
    fn bmm(a: &Arr<$t>, b: &Arr<$t>) -> Arr<$t> { a.bmm(b) }
    fn dot_own(a: &Arr<$t>, b: Arr<$t>) -> Arr<$t> { a.dot(b) }
    fn matmul_own(a: &Arr<$t>, b: Arr<$t>) -> Arr<$t> { a.matmul(b) }
    fn bmm_own(a: &Arr<$t>, b: Arr<$t>) -> Arr<$t> { a.bmm(b) }
    fn wide(self) -> f64 { self as f64 }
    fn limit() -> f64 { $lim }
} )* } }
mat!(i8, 127.0; i16, 32767.0; i32, 2147483647.0; i64, 9e18; i128, 9e18; isize, 9e18;
     u8, 255.0; u16, 65535.0; u32, 4294967295.0; u64, 9e18; u128, 9e18; usize, 9e18; f32, 16777216.0; f64, 9007199254740992.0);

enum Want<T> { Is(Vec<usize>, Vec<T>), Reject, Skip }

fn product<T: Mat>(a: &[T], b: &[T], n: usize, ai: impl Fn(usize) -> usize, bi: impl Fn(usize) -> usize, out: &mut Vec<T>) -> bool {
    let (mut s, mut m) = (T::val(0), 0f64);
    for k in 0..n {
        let (x, y) = (a[ai(k)], b[bi(k)]);
        m += (x.wide() * y.wide()).abs();
        if m > T::limit() { return false; }
        s = s + x * y;
    }
    out.push(s);
    true
}

/// which: 0 dot, 1 matmul, 2 bmm
fn define<T: Mat>(which: usize, sa: &[usize], a: &[T], sb: &[usize], b: &[T]) -> Want<T> {
    let mut out = vec![];
    let mut ok = true;
    let shape = match (which, sa, sb) {
        (0 | 1, &[n], &[m]) if n == m => { ok &= product(a, b, n, |k| k, |k| k, &mut out); vec![] }
        (1, &[r, n], &[m]) if n == m => { for i in 0..r { ok &= product(a, b, n, |k| i * n + k, |k| k, &mut out); } vec![r] }
        (1, &[r, n], &[m, c]) if n == m => {
            for i in 0..r { for j in 0..c { ok &= product(a, b, n, |k| i * n + k, |k| k * c + j, &mut out); } }
            vec![r, c]
        }
        (2, &[z, r, n], &[y, m, c]) if z == y && n == m => {
            for q in 0..z { for i in 0..r { for j in 0..c { ok &= product(a, b, n, |k| (q * r + i) * n + k, |k| (q * n + k) * c + j, &mut out); } } }
            vec![z, r, c]
        }
        _ => return Want::Reject,
    };
    if ok { Want::Is(shape, out) } else { Want::Skip }
}

fn values<T: Mat>(n: usize, salt: usize) -> Vec<T> {
    (0..n).map(|i| {
        let v = [2i64, 1, 3, -1, 2, -3, 1, 4, 3, 1, -2][(i * 7 + salt * 3 + i / 5) % 11];
        if T::KIND == Kind::Unsigned { T::val(v.abs()) } else { T::val(v) }
    }).collect()
}

const NAMES: [&str; 3] = ["dot", "matmul", "bmm"];
fn call<T: Mat>(which: usize, a: &Arr<T>, b: &Arr<T>) -> Arr<T> { match which { 0 => T::dot(a, b), 1 => T::matmul(a, b), _ => T::bmm(a, b) } }
fn call_own<T: Mat>(which: usize, a: &Arr<T>, b: Arr<T>) -> Arr<T> { match which { 0 => T::dot_own(a, b), 1 => T::matmul_own(a, b), _ => T::bmm_own(a, b) } }

type Lay = (Vec<usize>, Vec<Step>, MView);

fn both<T: Mat>(l: &Lay, r: &Lay, own: bool, pat: usize) {
    let make = |n: usize, salt: usize| -> Vec<T> {
        match pat {
            0 => values(n, salt),
            // (no order of summation may overflow: few non-zero elements for the narrow types)
            1 => (0..n).map(|i| T::val(if T::KIND == Kind::Unsigned || std::mem::size_of::<T>() < 4 { (i % (n / 50).max(9) == 4 || i + 1 == n) as i64 } else { ((i + salt) % 2) as i64 * 2 - 1 })).collect(),
            _ => (0..n).map(|i| T::val((i + 1 == n || i == n / 2 || i == 0) as i64 * 3)).collect(),
        }
    };
    let (da, db) = (make(prod(&l.0), 0), make(prod(&r.0), 1));
    let (a, b) = (Chain::build(&l.0, &da, &l.1), Chain::build(&r.0, &db, &r.1));
    let (xa, xb) = (select(&da, &l.2.ids), select(&db, &r.2.ids));
    for which in 0..3 {
        match define(which, &l.2.shape, &xa, &r.2.shape, &xb) {
            Want::Skip => {}
            Want::Is(shape, data) => {
                let x = imp(|| call(which, a.last(), b.last()));
                expect(NAMES[which], &x, &shape, &data);
                step();
                imp(move || drop(x));
                if own {
                    let mut b2 = Chain::build(&r.0, &db, &r.1);
                    let v = b2.take();
                    let x = imp(|| call_own(which, a.last(), v));
                    expect(NAMES[which], &x, &shape, &data);
                    imp(move || drop(x));
                }
            }
            Want::Reject => {
                if let Ok(x) = attempt(|| call(which, a.last(), b.last())) {
                    panic!("{} of shapes {:?} and {:?} was not rejected but gave shape {:?}", NAMES[which], l.2.shape, r.2.shape, x.shape());
                }
                step();
            }
        }
    }
    expect("left operand afterwards", a.last(), &l.2.shape, &xa);
    expect("right operand afterwards", b.last(), &r.2.shape, &xb);
}

fn suitable(a: &[usize], b: &[usize]) -> bool {
    match (a, b) {
        (&[n], &[m]) | (&[_, n], &[m]) | (&[_, n], &[m, _]) => n == m,
        (&[z, _, n], &[y, m, _]) => z == y && n == m,
        _ => false,
    }
}

fn pairs<T: Mat>(p: &mut Plan, left: Rc<Vec<Lay>>, right: Rc<Vec<Lay>>) {
    let chunk = (left.len() / 64).max(1);
    for k in 0..left.len().div_ceil(chunk) {
        let (left, right) = (left.clone(), right.clone());
        p.group(format!("{} pairs of {}x{} layouts, part {k}", T::NAME, left.len(), right.len()), move |ctx| {
            for l in &left[k * chunk..((k + 1) * chunk).min(left.len())] {
                for r in right.iter() {
                    // unsuitable operands: the fresh arrays (and single views) of each shape
                    if !suitable(&l.2.shape, &r.2.shape) && l.1.len() + r.1.len() > 1 { continue; }
                    ctx.case(|| format!("products of {} and {} of {}", show_path(&l.0, &l.1), show_path(&r.0, &r.1), T::NAME), || {
                        state(&(T::NAME, &l.2.shape, &l.2.skey, &r.2.shape, &r.2.skey));
                        both::<T>(l, r, true, 0);
                    });
                }
            }
        });
    }
}

fn pick(roots: &[&[usize]], depth: usize, keep: impl Fn(&MView) -> bool) -> Rc<Vec<Lay>> {
    // a product can only tell operands apart by shape and distances
    let mut seen = std::collections::HashSet::new();
    Rc::new(layouts(roots, BORROW, depth).into_iter().filter(|(_, r)| keep(&r.view) && seen.insert((r.view.shape.clone(), r.view.skey.clone(), r.path.is_empty()))).map(|(root, r)| (root, r.path, r.view)).collect())
}

fn sweep<T: Mat>(p: &mut Plan, all: usize, max: usize) {
    for part in 0..4 {
        p.group(format!("{} lengths part {part}", T::NAME), move |ctx| {
            for n in lengths(all, max).into_iter().chain(far_lengths(max)).skip(part).step_by(4) {
                let m = [1, 2, 3, 5][n % 4];
                let one = long_layouts(n);
                let wide = long_layouts2(m, n);
                let tall = long_layouts2(n, m);
                let mut go = |ls: &[Lay], rs: &[Lay]| for (i, l) in ls.iter().enumerate() { for (j, r) in rs.iter().enumerate() {
                    if n > 300 && (i + j) % 3 != 0 { continue; }
                    ctx.case(|| format!("products of {} and {} of {}", show_path(&l.0, &l.1), show_path(&r.0, &r.1), T::NAME), || {
                        state(&("len", T::NAME, &l.2.shape, &l.2.skey, &r.2.shape, &r.2.skey));
                        for pat in 0..if n <= 70 || n > 5000 { 3 } else { 2 } { both::<T>(l, r, false, pat); }
                    });
                } };
                go(&one, &one);
                go(&wide, &one);
                go(&wide, &tall);
                if n <= 300 {
                    go(&tall, &long_layouts(m));
                    go(&tall, &long_layouts2(m, 3));
                    go(&long_layouts2(3, m), &wide);
                }
            }
        });
    }
}

/// Batched products of every small batch, row, inner and column count, in every storage order.
fn batches<T: Mat>(p: &mut Plan, max: usize) {
    for z in 1..=max {
        p.group(format!("{} batches of {z}", T::NAME), move |ctx| {
            let three = |a: usize, b: usize, c: usize| -> Vec<Lay> {
                let bo = |op| Step { op, consume: false };
                let mut out: Vec<Lay> = vec![];
                let mut add = |root: Vec<usize>, path: Vec<Step>| {
                    let mut v = MView::root(&root);
                    for s in &path { v = v.after(s).unwrap(); }
                    out.push((root, path, v));
                };
                add(vec![a, b, c], vec![]);
                add(vec![a, c, b], vec![bo(VOp::Transpose(1, 2))]);
                add(vec![b, a, c], vec![bo(VOp::Transpose(0, 1))]);
                add(vec![c, b, a], vec![bo(VOp::Transpose(0, 2))]);
                add(vec![b, c], vec![bo(VOp::Broadcast(vec![a, b, c]))]);
                add(vec![a + 1, b + 1, c + 1], vec![bo(VOp::Slice(vec![Ix::Range(1, a + 1), Ix::Range(0, b), Ix::Range(1, c + 1)]))]);
                add(vec![a, b, c, 2], vec![bo(VOp::SliceAlong(3, Ix::At(1)))]);
                out
            };
            for r in 1..=max { for n in 1..=max { for c in 1..=max {
                for l in three(z, r, n) { for q in three(z, n, c) {
                    ctx.case(|| format!("products of {} and {} of {}", show_path(&l.0, &l.1), show_path(&q.0, &q.1), T::NAME), || {
                        state(&("batch", T::NAME, &l.2.shape, &l.2.skey, &q.2.shape, &q.2.skey));
                        both::<T>(&l, &q, false, 0);
                    });
                } }
            } } }
        });
    }
}

/// Matrices with several long sides.
fn medium<T: Mat>(p: &mut Plan, r: usize, n: usize, c: usize, pats: &'static [usize]) {
    p.group(format!("{} {r}x{n} by {n}x{c}", T::NAME), move |ctx| {
        let mut go = |ls: &[Lay], rs: &[Lay]| for l in ls { for q in rs {
            ctx.case(|| format!("products of {} and {} of {}", show_path(&l.0, &l.1), show_path(&q.0, &q.1), T::NAME), || {
                state(&("medium", T::NAME, &l.2.shape, &l.2.skey, &q.2.shape, &q.2.skey));
                for &pat in pats { both::<T>(l, q, false, pat); }
            });
        } };
        go(&long_layouts2(r, n), &long_layouts2(n, c));
        go(&long_layouts2(r, n), &long_layouts(n));
        let batch = |a: usize, b: usize, c: usize| -> Vec<Lay> {
            let bo = |op| Step { op, consume: false };
            let mut out: Vec<Lay> = vec![];
            let mut add = |root: Vec<usize>, path: Vec<Step>| { let mut v = MView::root(&root); for s in &path { v = v.after(s).unwrap(); } out.push((root, path, v)); };
            add(vec![a, b, c], vec![]);
            add(vec![a, c, b], vec![bo(VOp::Transpose(1, 2))]);
            add(vec![b, a, c], vec![bo(VOp::Transpose(0, 1))]);
            add(vec![c, b, a], vec![bo(VOp::Transpose(0, 2))]);
            add(vec![b, c], vec![bo(VOp::Broadcast(vec![a, b, c]))]);
            out
        };
        if r * n * c < 40000 { go(&batch(3, r, n), &batch(3, n, c)); }
    });
}

fn diagonals<T: Mat>(ctx: &mut Ctx, root: &[usize], r: &Rec) {
    let v = &r.view;
    let nd = v.shape.len() as isize;
    ctx.case(|| format!("diagonals and traces of {} of {}", show_path(root, &r.path), T::NAME), || {
        state(&("diag", T::NAME, root, &v.shape, &v.ids, v.ro));
        let data: Vec<T> = values(prod(root), 2);
        let c = Chain::build(root, &data, &r.path);
        let a = c.last();
        let look = |what: String, op: VOp, diag: &dyn Fn() -> Arr<T>, tr: &dyn Fn() -> Arr<T>| {
            match v.apply(&op) {
                Verdict::Must(d) => {
                    let x = imp(diag);
                    let el = select(&data, &d.ids);
                    expect(&what, &x, &d.shape, &el);
                    step();
                    imp(move || drop(x));
                    let k = *d.shape.last().unwrap();
                    let mut sums = vec![];
                    for row in el.chunks(k) {
                        if row.iter().map(|x| x.wide().abs()).sum::<f64>() > T::limit() { return; }
                        sums.push(row.iter().fold(T::val(0), |s, &x| s + x));
                    }
                    let t = imp(tr);
                    expect(&format!("trace for {what}"), &t, &d.shape[..d.shape.len() - 1], &sums);
                    step();
                    imp(move || drop(t));
                }
                Verdict::Reject => {
                    if attempt(diag).is_ok() { panic!("{what} was not rejected"); }
                    if attempt(tr).is_ok() { panic!("trace for {what} was not rejected"); }
                    step();
                }
                _ => {}
            }
        };
        look("diagonal".into(), VOp::Diagonal, &|| a.diagonal(), &|| a.trace());
        let lim = v.shape.iter().copied().max().unwrap_or(0) as isize + 1;
        let offs: Vec<isize> = if lim <= 8 { (-lim..=lim).chain(if nd <= 2 { vec![isize::MAX, isize::MIN + 1] } else { vec![] }).collect() } else { vec![-lim, -lim + 1, -lim + 2, -3, -1, 0, 1, 3, lim - 2, lim - 1, lim] };
        for &k in &offs { look(format!("offset_diagonal({k})"), VOp::OffsetDiagonal(k), &|| a.offset_diagonal(k), &|| a.offset_trace(k)); }
        // deeper states: the valid requests only, most of them with non-negative axes
        let deep = r.depth >= 2;
        for x in -nd - 1..=nd { for y in -nd - 1..=nd {
            if deep && (x < -1 || y < -1 || x == nd || y == nd || x == y) { continue; }
            look(format!("diagonal_along({x}, {y})"), VOp::DiagonalAlong(x, y), &|| a.diagonal_along(x, y), &|| a.trace_along(x, y));
            let good = x != y && (-nd..nd).contains(&x) && (-nd..nd).contains(&y);
            for &k in if good { &offs[..] } else { &[0, 1][..] } {
                if deep && k.unsigned_abs() as isize >= lim - 1 { continue; }
                look(format!("offset_diagonal_along({k}, {x}, {y})"), VOp::OffsetDiagonalAlong(k, x, y), &|| a.offset_diagonal_along(k, Axis(x), Axis(y)), &|| a.offset_trace_along(k, Axis(x), Axis(y))); }
        } }
        expect("array afterwards", a, &v.shape, &select(&data, &v.ids));
    });
}

fn main() {
    mc::engine::main("C09", |tier| {
        let mut p = Plan::new(format!("dot, matmul and bmm of every pair of distinct layouts (1-3 view operations on 11 small roots, 0 to 4 axes, suitable or not), of all batches, rows, inner and column counts <= {} in 7 storage orders each, of inner lengths 1..{} and around powers of two; diagonal and trace with every offset and every pair of axes (valid or not) in every view state of the standard space ({SPACE_TEXT}); all 14 numeric types", tier.pick(4, 6), tier.pick(70, 300)));
        p.assume("element values are chosen so that every order of evaluation is exact");
        let t = tier == Tier::Thorough;
        let small: [&[usize]; 11] = [&[], &[1], &[2], &[3], &[4], &[2, 2], &[2, 3], &[3, 2], &[3, 1], &[1, 2, 3], &[2, 2, 3]];
        let d = pick(&small, 2, |v| v.size() <= 12 && v.shape.len() <= 4);
        pairs::<i32>(&mut p, d.clone(), d.clone());
        pairs::<f32>(&mut p, d.clone(), d.clone());
        let mat = pick(&[&[2, 2, 2], &[2, 3, 2], &[3, 2, 2], &[3, 3], &[4, 3], &[2, 4]], if t { 3 } else { 2 }, |v| (1..=3).contains(&v.shape.len()) && v.size() <= 12);
        pairs::<i32>(&mut p, mat.clone(), mat.clone());
        if t { pairs::<f64>(&mut p, mat.clone(), mat.clone()); }
        let few = pick(&[&[3], &[2, 2], &[2, 3], &[2, 1, 2]], 1, |v| v.shape.len() <= 3);
        macro_rules! dt { ($($t:ty),*) => { $(
            pairs::<$t>(&mut p, few.clone(), few.clone());
            sweep::<$t>(&mut p, tier.pick(40, 140), tier.pick(257, 4097));
            batches::<$t>(&mut p, tier.pick(3, 4));
            brief::<$t>(&mut p, diagonals::<$t>);
        )* } }
        dt!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize, f64);
        batches::<i32>(&mut p, tier.pick(4, 6));
        batches::<f32>(&mut p, tier.pick(4, 6));
        sweep::<i32>(&mut p, tier.pick(70, 300), tier.pick(1025, 8193));
        sweep::<f32>(&mut p, tier.pick(70, 300), tier.pick(4097, 65537));
        macro_rules! md { ($($t:ty),*) => { $( medium::<$t>(&mut p, 17, 9, 20, &[0, 1, 2]); medium::<$t>(&mut p, 8, 33, 12, &[0, 1, 2]); )* } }
        md!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
        for (r, n, c) in [(33, 40, 17), (64, 64, 64), (65, 5, 70), (5, 130, 65), (100, 1, 100), (1, 64, 100)] { medium::<i32>(&mut p, r, n, c, &[0]); medium::<f32>(&mut p, r, n, c, &[0]); medium::<f64>(&mut p, r, n, c, &[0]); }
        far::<i32>(&mut p, diagonals::<i32>);
        standard::<i32>(&mut p, tier, diagonals::<i32>);
        for root in many_roots() { visit::<i32>(&mut p, &root, MANY, if root.len() < 10 { 1 } else { 0 }, diagonals::<i32>); }
        p
    });
}
