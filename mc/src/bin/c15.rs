//! C15: deterministic constructors produce exactly the documented contents.
use mc::*;
use redstone_ml::*;

/// A nesting: the lengths of its lists.
#[derive(Clone, Debug)]
enum Tree { Leaf(usize), Node(Vec<Tree>) }

/// All nestings of a given depth whose lists have one of the given lengths.
fn trees(depth: usize, lens: &[usize]) -> Vec<Tree> {
    if depth == 1 { return lens.iter().map(|&n| Tree::Leaf(n)).collect(); }
    let sub = trees(depth - 1, lens);
    let mut out = vec![];
    for &n in lens {
        let mut pick = vec![0; n];
        loop {
            out.push(Tree::Node(pick.iter().map(|&i: &usize| sub[i].clone()).collect()));
            let Some(k) = (0..n).rev().find(|&k| pick[k] + 1 < sub.len()) else { break };
            pick[k] += 1;
            for x in &mut pick[k + 1..] { *x = 0; }
        }
    }
    out
}

/// The nesting of a given shape.
fn rect(shape: &[usize]) -> Tree {
    if shape.len() == 1 { Tree::Leaf(shape[0]) } else { Tree::Node((0..shape[0]).map(|_| rect(&shape[1..])).collect()) }
}

impl Tree {
    /// Its shape, if all lists on each level have the same non-zero length.
    fn shape(&self) -> Option<Vec<usize>> {
        match self {
            Tree::Leaf(0) => None,
            Tree::Leaf(n) => Some(vec![*n]),
            Tree::Node(v) => {
                let s: Vec<Option<Vec<usize>>> = v.iter().map(|t| t.shape()).collect();
                let first = s.first()?.clone()?;
                if s.iter().any(|x| x.as_ref() != Some(&first)) { return None; }
                let mut out = vec![v.len()];
                out.extend(first);
                Some(out)
            }
        }
    }
    fn lists(&self) -> &[Tree] { match self { Tree::Node(v) => v, _ => panic!("harness: leaf") } }
}

trait Build: Sized { fn list(t: &Tree, next: &mut i64) -> Vec<Self>; }
macro_rules! build_leaf { ($($t:ty),*) => { $(
    impl Build for $t {
        fn list(t: &Tree, next: &mut i64) -> Vec<$t> {
            let Tree::Leaf(n) = t else { panic!("harness: node") };
            (0..*n).map(|_| { *next += 1; <$t as Dt>::val(*next) }).collect()
        }
    }
)* } }
build_leaf!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, bool);
impl<B: Build> Build for Vec<B> {
    fn list(t: &Tree, next: &mut i64) -> Vec<Vec<B>> { t.lists().iter().map(|t| B::list(t, next)).collect() }
}

fn values<T: Dt>(n: usize) -> Vec<T> { (0..n).map(|i| T::val(i as i64 + 1)).collect() }

fn judge<T: Dt>(want: Option<Vec<usize>>, got: Result<Arr<T>, String>) {
    match (want, got) {
        (Some(s), Ok(a)) => { expect("array", &a, &s, &values::<T>(prod(&s))); state(&(T::NAME, &s)); check_owned(&a); }
        (Some(s), Err(e)) => panic!("a nesting of shape {s:?} is refused: {e}"),
        (None, Ok(a)) => panic!("a ragged or empty nesting is accepted, with shape {:?}", a.shape()),
        (None, Err(_)) => outcome("refused"),
    }
}

fn judge_t<T: Dt + TensorDataType>(want: Option<Vec<usize>>, got: Result<Tensor<'static, T>, String>) {
    if let Ok(t) = &got {
        if t.requires_grad() || !t.is_leaf() { panic!("a fresh tensor is tracked or no leaf"); }
        let s = t.shape().to_vec();
        if let Some(w) = &want { if &s != w { panic!("tensor: shape is {s:?}, expected {w:?}"); } }
    }
    judge::<T>(want, got.map(|t| t.into_ndarray()))
}

/// What every freshly constructed array promises.
fn check_owned<T: Dt>(a: &NdArray<'_, T>) {
    if a.is_view() { panic!("a fresh array is a view"); }
    if !a.is_contiguous() { panic!("a fresh array is not contiguous"); }
    if a.size() != prod(a.shape()) || a.ndims() != a.shape().len() { panic!("size or ndims disagree with the shape"); }
    let it = read_by_iter(a);
    if !same(&it, &read_by_index(a)) { panic!("iteration disagrees with indexing"); }
}

macro_rules! nestings {
    ($p:ident, $t:ty, $name:expr, $depth:expr, $ty:ty, $trees:expr, $($tensor:tt)?) => {{
        let all: Vec<Tree> = $trees;
        $p.group(format!("{} vectors nested {} deep {}", <$t>::NAME, $depth, $name), move |ctx| {
            for t in &all {
                ctx.case(|| format!("NdArray::<{}>::new of vectors {t:?}", <$t>::NAME), || {
                    let data = <$ty as Build>::list(t, &mut 0);
                    step();
                    judge::<$t>(t.shape(), attempt(|| NdArray::new(data)));
                });
                $( ctx.case(|| format!("Tensor::<{}>::new of vectors {t:?}", <$t>::NAME), || {
                    let data = <$ty as Build>::list(t, &mut 0);
                    step();
                    judge_t::<$t>(t.shape(), attempt(|| $tensor::new(data)));
                }); )?
            }
        });
    }};
}

/// One fixed-size array type: all of its lengths are in the type.
macro_rules! fixed {
    ($p:ident, $t:ty, $shape:expr, $ty:ty, $($tensor:tt)?) => {
        $p.group(format!("{} arrays {}", <$t>::NAME, stringify!($ty)), move |ctx| {
            let shape: Vec<usize> = $shape.to_vec();
            let want = if prod(&shape) == 0 { None } else { Some(shape.clone()) };
            let make = || -> $ty { let mut k = 0; <$ty as Fixed<$t>>::make(&mut || { k += 1; <$t as Dt>::val(k) }) };
            ctx.case(|| format!("NdArray::<{}>::new of arrays {shape:?}", <$t>::NAME), || { step(); let d = make(); judge::<$t>(want.clone(), attempt(|| NdArray::new(d))) });
            $( ctx.case(|| format!("Tensor::<{}>::new of arrays {shape:?}", <$t>::NAME), || { step(); let d = make(); judge_t::<$t>(want.clone(), attempt(|| $tensor::new(d))) }); )?
        });
    };
}
trait Fixed<T> { fn make(f: &mut dyn FnMut() -> T) -> Self; }
macro_rules! fixed_leaf { ($($t:ty),*) => { $( impl Fixed<$t> for $t { fn make(f: &mut dyn FnMut() -> $t) -> $t { f() } } )* } }
fixed_leaf!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, bool);
impl<T, A: Fixed<T>, const N: usize> Fixed<T> for [A; N] { fn make(f: &mut dyn FnMut() -> T) -> Self { std::array::from_fn(|_| A::make(f)) } }

macro_rules! fixed_all { ($p:ident, $t:ty, $($tensor:tt)?) => {
    fixed!($p, $t, [0], [$t; 0], $($tensor)?); fixed!($p, $t, [1], [$t; 1], $($tensor)?); fixed!($p, $t, [7], [$t; 7], $($tensor)?); fixed!($p, $t, [33], [$t; 33], $($tensor)?);
    fixed!($p, $t, [1, 1], [[$t; 1]; 1], $($tensor)?); fixed!($p, $t, [2, 3], [[$t; 3]; 2], $($tensor)?); fixed!($p, $t, [3, 0], [[$t; 0]; 3], $($tensor)?); fixed!($p, $t, [0, 3], [[$t; 3]; 0], $($tensor)?);
    fixed!($p, $t, [5, 1], [[$t; 1]; 5], $($tensor)?);
    fixed!($p, $t, [2, 3, 4], [[[$t; 4]; 3]; 2], $($tensor)?); fixed!($p, $t, [3, 1, 2], [[[$t; 2]; 1]; 3], $($tensor)?); fixed!($p, $t, [1, 0, 2], [[[$t; 2]; 0]; 1], $($tensor)?);
    fixed!($p, $t, [2, 3, 1, 2], [[[[$t; 2]; 1]; 3]; 2], $($tensor)?);
    fixed!($p, $t, [1, 2, 3, 2, 2], [[[[[$t; 2]; 2]; 3]; 2]; 1], $($tensor)?);
    fixed!($p, $t, [2, 1, 2, 2, 1, 3], [[[[[[$t; 3]; 1]; 2]; 2]; 1]; 2], $($tensor)?);
    fixed!($p, $t, [2, 1, 2, 2, 1, 2, 2], [[[[[[[$t; 2]; 2]; 1]; 2]; 2]; 1]; 2], $($tensor)?);
    fixed!($p, $t, [1, 2, 1, 2, 2, 1, 2, 2], [[[[[[[[$t; 2]; 2]; 1]; 2]; 2]; 1]; 2]; 1], $($tensor)?);
} }

/// Arrays of vectors and vectors of arrays.
macro_rules! mixed { ($p:ident, $t:ty) => {
    $p.group(format!("{} arrays of vectors and vectors of arrays", <$t>::NAME), move |ctx| {
        for t in trees(2, &[0, 1, 2, 3]) {
            if t.lists().len() != 3 { continue; }
            ctx.case(|| format!("NdArray::<{}>::new of an array of vectors {t:?}", <$t>::NAME), || {
                let d: [Vec<$t>; 3] = Vec::<$t>::list(&t, &mut 0).try_into().unwrap();
                step();
                judge::<$t>(t.shape(), attempt(|| NdArray::new(d)));
            });
        }
        for t in trees(3, &[0, 1, 2]) {
            if t.lists().len() != 2 { continue; }
            ctx.case(|| format!("NdArray::<{}>::new of an array of vectors of vectors {t:?}", <$t>::NAME), || {
                let d: [Vec<Vec<$t>>; 2] = Vec::<Vec<$t>>::list(&t, &mut 0).try_into().unwrap();
                step();
                judge::<$t>(t.shape(), attempt(|| NdArray::new(d)));
            });
            if t.lists().iter().all(|l| l.lists().len() == 2) {
                ctx.case(|| format!("NdArray::<{}>::new of a vector of arrays of vectors {t:?}", <$t>::NAME), || {
                    let d: Vec<[Vec<$t>; 2]> = Vec::<Vec<$t>>::list(&t, &mut 0).into_iter().map(|v| v.try_into().unwrap()).collect();
                    step();
                    judge::<$t>(t.shape(), attempt(|| NdArray::new(d)));
                });
                ctx.case(|| format!("NdArray::<{}>::new of an array of arrays of vectors {t:?}", <$t>::NAME), || {
                    let d: Vec<[Vec<$t>; 2]> = Vec::<Vec<$t>>::list(&t, &mut 0).into_iter().map(|v| v.try_into().unwrap()).collect();
                    let d: [[Vec<$t>; 2]; 2] = d.try_into().unwrap();
                    step();
                    judge::<$t>(t.shape(), attempt(|| NdArray::new(d)));
                });
            }
        }
        for n in 0..5 {
            let want = |inner: &[usize]| if n == 0 || prod(inner) == 0 { None } else { Some([&[n][..], inner].concat()) };
            ctx.case(|| format!("NdArray::<{}>::new of {n} arrays of 3", <$t>::NAME), || {
                let d: Vec<[$t; 3]> = (0..n).map(|i| std::array::from_fn(|j| <$t as Dt>::val((3 * i + j + 1) as i64))).collect();
                step();
                judge::<$t>(want(&[3]), attempt(|| NdArray::new(d)));
            });
            ctx.case(|| format!("NdArray::<{}>::new of {n} arrays of 2 arrays of 2", <$t>::NAME), || {
                let d: Vec<[[$t; 2]; 2]> = (0..n).map(|i| std::array::from_fn(|j| std::array::from_fn(|k| <$t as Dt>::val((4 * i + 2 * j + k + 1) as i64)))).collect();
                step();
                judge::<$t>(want(&[2, 2]), attempt(|| NdArray::new(d)));
            });
            ctx.case(|| format!("NdArray::<{}>::new of {n} empty arrays", <$t>::NAME), || {
                let d: Vec<[$t; 0]> = (0..n).map(|_| []).collect();
                step();
                judge::<$t>(want(&[0]), attempt(|| NdArray::new(d)));
            });
        }
    });
} }

/// The argument forms of a shape.
macro_rules! forms { ($shape:expr, |$s:ident| $make:expr, $see:expr) => {{
    let shape: &Vec<usize> = $shape;
    { let $s = shape.clone(); $see("a vector", attempt(|| $make)); }
    { let $s = shape; $see("a borrowed vector", attempt(|| $make)); }
    { let $s = &shape[..]; $see("a slice", attempt(|| $make)); }
    match shape[..] {
        [] => { let $s: [usize; 0] = []; $see("an array", attempt(|| $make)); }
        [a] => { { let $s = [a]; $see("an array", attempt(|| $make)); } let $s = a; $see("a number", attempt(|| $make)); }
        [a, b] => { let $s = [a, b]; $see("an array", attempt(|| $make)); }
        [a, b, c] => { let $s = [a, b, c]; $see("an array", attempt(|| $make)); }
        [a, b, c, d] => { let $s = [a, b, c, d]; $see("an array", attempt(|| $make)); }
        [a, b, c, d, e] => { let $s = [a, b, c, d, e]; $see("an array", attempt(|| $make)); }
        _ => {}
    }
    if shape.windows(2).all(|w| w[0] < 1000 && w[1] == w[0] + 1) && !shape.is_empty() && shape[0] < 1000 { let $s = shape[0]..shape[shape.len() - 1] + 1; $see("a range", attempt(|| $make)); }
}} }

fn filled<'s, T: Dt>(what: &'static str, shape: &'s [usize], v: T) -> impl Fn(&'static str, Result<Arr<T>, String>) + 's {
    let size = shape.iter().try_fold(1usize, |a, &b| a.checked_mul(b)).unwrap_or(0);
    move |form, got| {
        step();
        match got {
            Ok(a) if size == 0 => panic!("{what} with shape {shape:?} ({form}) is accepted, giving shape {:?}", a.shape()),
            Err(e) if size != 0 => panic!("{what} with shape {shape:?} ({form}) is refused: {e}"),
            Ok(a) => { expect(&format!("{what} ({form})"), &a, shape, &vec![v; size]); check_owned(&a); state(&(T::NAME, shape, what)); }
            Err(_) => outcome("refused"),
        }
    }
}

macro_rules! fills { ($p:ident, $t:ty, $shapes:expr, $($tensor:tt)?) => {{
    let shapes: Vec<Vec<usize>> = $shapes.clone();
    $p.group(format!("{} full, zeros, ones, scalar", <$t>::NAME), move |ctx| {
        for s in &shapes {
            for i in [0, 1, 5, -3] {
                let v = <$t as Dt>::val(i);
                ctx.case(|| format!("NdArray::<{}>::full({v:?}, {s:?})", <$t>::NAME), || forms!(s, |x| NdArray::<$t>::full(v, x), filled("full", s, v)));
                $( ctx.case(|| format!("Tensor::<{}>::full({v:?}, {s:?})", <$t>::NAME), || forms!(s, |x| $tensor::<$t>::full(v, x).into_ndarray(), filled("full", s, v))); )?
            }
            ctx.case(|| format!("NdArray::<{}>::zeros and ones({s:?})", <$t>::NAME), || {
                forms!(s, |x| NdArray::<$t>::zeros(x), filled("zeros", s, <$t>::from(false)));
                forms!(s, |x| NdArray::<$t>::ones(x), filled("ones", s, <$t>::from(true)));
            });
            $( ctx.case(|| format!("Tensor::<{}>::zeros and ones({s:?})", <$t>::NAME), || {
                forms!(s, |x| $tensor::<$t>::zeros(x).into_ndarray(), filled("zeros", s, <$t>::from(false)));
                forms!(s, |x| $tensor::<$t>::ones(x).into_ndarray(), filled("ones", s, <$t>::from(true)));
            }); )?
        }
        for i in -5..6 {
            let v = <$t as Dt>::val(i);
            ctx.case(|| format!("NdArray::<{}>::scalar({v:?})", <$t>::NAME), || filled("scalar", &[], v)("a number", attempt(|| NdArray::<$t>::scalar(v))));
            $( ctx.case(|| format!("Tensor::<{}>::scalar({v:?})", <$t>::NAME), || filled("scalar", &[], v)("a number", attempt(|| $tensor::<$t>::scalar(v).into_ndarray()))); )?
        }
    });
}} }

/// Integer ranges.  `None`: any refusal or an empty array; the numbers are exact.
fn range_of(start: i128, stop: i128, step: i128) -> Option<Vec<i128>> {
    if step == 0 { return None; }
    let mut out = vec![];
    let mut x = start;
    while if step > 0 { x < stop } else { x > stop } { out.push(x); let Some(y) = x.checked_add(step) else { break }; x = y; if out.len() > 100_000 { panic!("harness: range too long"); } }
    if out.is_empty() { None } else { Some(out) }
}

macro_rules! int_case { ($ctx:ident, $t:ty, $start:expr, $stop:expr, $step:expr) => {{
    let (a, b, s): ($t, $t, $t) = ($start, $stop, $step);
    // a span that the type cannot represent is outside the claim
    if b.checked_sub(a).is_some() {
        $ctx.case(|| format!("arange_with_step::<{}>({a}, {b}, {s})", <$t>::NAME), || {
            step();
            let want = range_of(a as i128, b as i128, s as i128);
            let infinite = s == 0 && a < b;
            match (want, attempt(|| NdArray::<$t>::arange_with_step(a, b, s))) {
                (Some(w), Ok(r)) => { let w: Vec<$t> = w.into_iter().map(|x| x as $t).collect(); if r.shape() != [w.len()] { panic!("shape is {:?}, expected {} elements", r.shape(), w.len()); } expect("arange_with_step", &r, &[w.len()], &w); }
                (Some(w), Err(e)) => panic!("a range of {} elements is refused: {e}", w.len()),
                (None, Ok(r)) => if r.shape() != [0] || infinite { panic!("an empty, inverted or endless range gives shape {:?}", r.shape()) },
                (None, Err(_)) => outcome("refused"),
            }
            if s == 1 {
                match (range_of(a as i128, b as i128, 1), attempt(|| NdArray::<$t>::arange(a, b))) {
                    (Some(w), Ok(r)) => { let w: Vec<$t> = w.into_iter().map(|x| x as $t).collect(); expect("arange", &r, &[w.len()], &w); check_owned(&r); }
                    (Some(w), Err(e)) => panic!("arange of {} elements is refused: {e}", w.len()),
                    (None, Ok(r)) => if r.shape() != [0] { panic!("an empty or inverted range gives shape {:?}", r.shape()) },
                    (None, Err(_)) => {}
                }
            }
        });
    }
}} }

macro_rules! byte_ranges { ($p:ident, $t:ty, $steps:expr) => {{
    let steps: Vec<$t> = $steps;
    for start in <$t>::MIN..=<$t>::MAX {
        let steps = steps.clone();
        $p.group(format!("{} ranges from {start}", <$t>::NAME), move |ctx| {
            for stop in <$t>::MIN..=<$t>::MAX { for &s in &steps { int_case!(ctx, $t, start, stop, s); } }
        });
    }
}} }

macro_rules! wide_ranges { ($p:ident, $t:ty) => {
    $p.group(format!("{} ranges", <$t>::NAME), move |ctx| {
        let (lo, hi) = (<$t>::MIN, <$t>::MAX);
        let mut ends: Vec<$t> = vec![lo, lo + 1, lo + 7, hi - 7, hi - 1, hi, 0, 1, 2, 5, 16, 100, 127, 128, hi / 2, hi / 2 + 1, hi / 3];
        if lo < 0 as $t { for x in [1 as $t, 2, 5, 16, 100] { ends.push((0 as $t).wrapping_sub(x)); } ends.push(lo / 2); ends.push(lo / 3); }
        let near: Vec<$t> = ends.iter().flat_map(|&e| (0..12).flat_map(move |d| [e.checked_add(d as $t), e.checked_sub(d as $t)])).flatten().collect();
        for &a in &ends { for &b in ends.iter().chain(&near) {
            let mut steps: Vec<$t> = vec![0, 1, 2, 3, 7, hi, hi - 1, hi / 2, hi / 2 + 1, hi / 3, hi / 7];
            if lo < 0 as $t { steps.extend([1 as $t, 2, 3, 7].map(|x| (0 as $t).wrapping_sub(x))); steps.extend([lo, lo + 1, lo / 2, lo / 3]); }
            for s in steps {
                // only ranges of a checkable number of elements
                let Some(d) = b.checked_sub(a) else { continue };
                let n = if s == 0 { 0 } else { d.checked_div(s).map_or(u128::MAX, |q| if q < 0 as $t { 0 } else { q as u128 }) };
                if n > 2000 { continue; }
                int_case!(ctx, $t, a, b, s);
            }
        } }
    });
} }

/// Floating-point ranges and evenly spaced sequences, on a grid of numbers `k / den`.
macro_rules! float_ranges { ($p:ident, $t:ty, $dens:expr, $kmax:expr, $smax:expr) => {
    for den in $dens {
        for k in -$kmax..=$kmax {
            $p.group(format!("{} ranges from {k}/{den}", <$t>::NAME), move |ctx| {
                let exact = (den as u32).is_power_of_two();
                for m in -$kmax..=$kmax { for s in -$smax..=$smax {
                    let (a, b, st) = (k as $t / den as $t, m as $t / den as $t, s as $t / den as $t);
                    ctx.case(|| format!("arange_with_step::<{}>({a}, {b}, {st})", <$t>::NAME), || {
                        step();
                        float_arange::<$t>(a, b, st, exact, &|a, b, s| (b as f64 - a as f64) / s as f64, attempt(|| NdArray::<$t>::arange_with_step(a, b, st)));
                        if st == 1.0 { float_arange::<$t>(a, b, st, exact, &|a, b, s| (b as f64 - a as f64) / s as f64, attempt(|| Tensor::<$t>::arange(a, b).into_ndarray())); }
                    });
                } }
            });
        }
    }
} }

/// Long ranges: every element is within rounding of start + i * step, however many precede it.
macro_rules! long_ranges { ($p:ident, $t:ty) => {
    for n in [97usize, 128, 1000, 1025, 5000, 70001] {
        $p.group(format!("{} ranges of {n} elements", <$t>::NAME), move |ctx| {
            for a in [0.0, 1.0, -3.7, 1000.0, -0.1, 1e-3, 1e6] as [$t; 7] { for st in [0.1, 0.01, 0.3, 1.0 / 3.0, 1e-3, 1.0, 2.5, -0.1, -0.7, -1.0, 1e3, -1e-5] as [$t; 12] {
                let b = a + st * (n as $t - 0.5);
                ctx.case(|| format!("arange_with_step::<{}>({a}, {b}, {st})", <$t>::NAME), || {
                    step();
                    let q = |a: $t, b: $t, s: $t| (b as f64 - a as f64) / s as f64;
                    float_arange::<$t>(a, b, st, false, &q, attempt(|| NdArray::<$t>::arange_with_step(a, b, st)));
                    if st == 1.0 { float_arange::<$t>(a, b, st, false, &q, attempt(|| NdArray::<$t>::arange(a, b))); float_arange::<$t>(a, b, st, false, &q, attempt(|| Tensor::<$t>::arange(a, b).into_ndarray())); }
                });
            } }
        });
    }
} }

/// Long integer ranges.
macro_rules! long_int_ranges { ($p:ident, $($t:ty),*) => { $(
    $p.group(format!("{} long ranges", <$t>::NAME), move |ctx| {
        for n in [97u64, 128, 1000, 1025, 5000, 30011, 70001] { for s in [1i64, 2, 3, 7, 100, -1, -2, -3, -100] { for a in [0i64, 1, 5, -3, -30000, 100_000, 30000] {
            let b = a + s * n as i64 - s.signum() * (s.abs() / 2);
            let (Ok(x), Ok(y), Ok(st)) = (<$t>::try_from(a), <$t>::try_from(b), <$t>::try_from(s)) else { continue };
            int_case!(ctx, $t, x, y, st);
        } } }
    });
)* } }

trait F: Dt + FloatDataType { fn f(self) -> f64; const EPS: f64; }
impl F for f32 { fn f(self) -> f64 { self as f64 } const EPS: f64 = f32::EPSILON as f64; }
impl F for f64 { fn f(self) -> f64 { self } const EPS: f64 = f64::EPSILON; }

fn float_arange<T: F>(a: T, b: T, s: T, exact: bool, quotient: &dyn Fn(T, T, T) -> f64, got: Result<Arr<T>, String>) {
    if s.f() == 0.0 {
        if let Ok(r) = got { if r.shape() != [0] || a.f() < b.f() { panic!("step 0 gives shape {:?}", r.shape()); } }
        return;
    }
    let q = quotient(a, b, s);
    if q <= 0.0 {
        if let Ok(r) = got { if r.shape() != [0] { panic!("an empty or inverted range gives shape {:?}", r.shape()); } }
        return;
    }
    let r = match got { Ok(r) => r, Err(e) => panic!("refused: {e}") };
    if r.ndims() != 1 { panic!("{} dimensions", r.ndims()); }
    let n = r.shape()[0];
    // exactly ceil(q) elements, unless rounding can push the quotient over an integer
    let slack = 8.0 * T::EPS * (q + (a.f().abs() + b.f().abs()) / s.f().abs());
    let ok = if exact { n as f64 == q.ceil() } else { n as f64 >= (q - slack).ceil() && n as f64 <= (q + slack).ceil() };
    if !ok { panic!("{n} elements, expected {} ((stop - start) / step = {q})", q.ceil()); }
    if n > 0 { check_owned(&r); }
    for (i, x) in read_by_index(&r).into_iter().enumerate() {
        let w = a.f() + i as f64 * s.f();
        let tol = if exact { 0.0 } else { 4.0 * T::EPS * (a.f().abs() + (i as f64 * s.f()).abs()) };
        if (x.f() - w).abs() > tol || x.f().is_nan() { panic!("element {i} is {}, expected {w}", x.f()); }
    }
}

fn spaced<T: F>(what: &str, a: T, b: T, n: usize, parts: usize, last: bool, got: Result<Arr<T>, String>) {
    step();
    if n == 0 {
        if let Ok(r) = got { if r.shape() != [0] { panic!("{what} of 0 elements has shape {:?}", r.shape()); } }
        return;
    }
    let r = match got { Ok(r) => r, Err(e) => panic!("{what} is refused: {e}") };
    if r.shape() != [n] { panic!("{what} has shape {:?}, expected {n} elements", r.shape()); }
    check_owned(&r);
    let v = read_by_index(&r);
    if v[0].f() != a.f() { panic!("{what} starts at {}, not {}", v[0].f(), a.f()); }
    let size = a.f().abs().max(b.f().abs()).max(f64::MIN_POSITIVE);
    for (i, x) in v.iter().enumerate() {
        let w = if parts == 0 { a.f() } else { a.f() * ((parts - i) as f64 / parts as f64) + b.f() * (i as f64 / parts as f64) };
        if !((x.f() - w).abs() <= 8.0 * T::EPS * size) { panic!("{what}: element {i} is {}, expected {w}", x.f()); }
    }
    if last && n > 1 && !((v[n - 1].f() - b.f()).abs() <= 4.0 * T::EPS * size) { panic!("{what} ends at {}, not {}", v[n - 1].f(), b.f()); }
    state(&(T::NAME, n, what));
}

macro_rules! linspaces { ($p:ident, $t:ty, $nmax:expr) => {
    for num in lengths(64, $nmax).into_iter().chain([0, 10007, 70001]) {
        $p.group(format!("{} evenly spaced, {num} elements", <$t>::NAME), move |ctx| {
            let ends: Vec<$t> = vec![0.0, -0.0, 1.0, -1.0, 2.0, 3.0, 10.0, 0.1, 0.3, 0.7, -0.9, 1.0 / 3.0, 7.3, 100.0, 1e-3, -1e6, 16777216.0, 1e20, -3.3e-20, 5e-5];
            for &a in &ends { for &b in &ends {
                ctx.case(|| format!("linspace::<{}>({a}, {b}, {num})", <$t>::NAME), || {
                    spaced("linspace", a, b, num, num.saturating_sub(1), true, attempt(|| NdArray::<$t>::linspace(a, b, num)));
                    spaced("tensor linspace", a, b, num, num.saturating_sub(1), true, attempt(|| Tensor::<$t>::linspace(a, b, num).into_ndarray()));
                });
                ctx.case(|| format!("linspace_exclusive::<{}>({a}, {b}, {num})", <$t>::NAME), || {
                    spaced("linspace_exclusive", a, b, num, num, false, attempt(|| NdArray::<$t>::linspace_exclusive(a, b, num)));
                    spaced("tensor linspace_exclusive", a, b, num, num, false, attempt(|| Tensor::<$t>::linspace_exclusive(a, b, num).into_ndarray()));
                });
            } }
        });
    }
} }

type V0<T> = T; type V1<T> = Vec<T>; type V2<T> = Vec<V1<T>>; type V3<T> = Vec<V2<T>>; type V4<T> = Vec<V3<T>>;
type V5<T> = Vec<V4<T>>; type V6<T> = Vec<V5<T>>; type V7<T> = Vec<V6<T>>;

macro_rules! deep { ($p:ident, $t:ty, $d:expr, $($tensor:tt)?) => {
    let of = |n: usize, lens: &[usize]| shapes_upto(n, lens).into_iter().filter(|s| s.len() == n).map(|s| rect(&s)).collect::<Vec<_>>();
    nestings!($p, $t, "(all lengths)", 1, V0<$t>, (0..=70).chain([1000, 10007, 70001]).map(Tree::Leaf).collect(), $($tensor)?);
    nestings!($p, $t, "(all nestings)", 2, V1<$t>, trees(2, &[0, 1, 2, 3]), $($tensor)?);
    nestings!($p, $t, "(all nestings)", 3, V2<$t>, trees(3, &[0, 1, 2]), $($tensor)?);
    nestings!($p, $t, "(rectangular)", 4, V3<$t>, of(4, &[1, 2, 3]), $($tensor)?);
    nestings!($p, $t, "(rectangular)", 5, V4<$t>, of(5, &[1, 2]), $($tensor)?);
    nestings!($p, $t, "(rectangular)", 6, V5<$t>, of(6, &[1, 2]), $($tensor)?);
    nestings!($p, $t, "(rectangular)", 7, V6<$t>, vec![rect(&[1, 2, 1, 2, 2, 1, 2])], $($tensor)?);
    nestings!($p, $t, "(rectangular)", 8, V7<$t>, vec![rect(&[2, 1, 1, 2, 1, 2, 1, 2])], $($tensor)?);
} }

fn main() {
    mc::engine::main("C15", |tier| {
        let mut p = Plan::new(format!("all nestings of vectors with list lengths 0..3 (depth 2), 0..2 (depth 3{}), ragged ones included, all rectangular ones with lengths 1..3 (depth 4) and 1..2 (depth 5, 6), one each of depth 7 and 8, all lengths <= 70; 17 fixed-size array types of <= 8 axes; arrays of vectors and vectors of arrays; 15 dtypes, arrays and tensors; all fill shapes of <= 4 axes of length 0..3 and 3 overflowing ones, in each form a shape can be given; all i8 and u8 ranges with all steps; boundary ranges of the wider integers; grids of float ranges; evenly spaced sequences of <= {} elements", tier.pick("", " and 4"), tier.pick(300, 1500)));
        p.assume("integer ranges whose span the type cannot represent are outside the claim; a range without elements may be refused or empty; the length of a float range may be off by one where rounding moves the quotient over an integer");
        let mut shapes = shapes_upto(4, &[0, 1, 2, 3]);
        shapes.extend([vec![usize::MAX, 2], vec![1 << 32, 1 << 32], vec![1 << 63, 2, 1]]);
        shapes.extend([vec![70001], vec![263, 270], vec![257], vec![1000], vec![17, 65], vec![2, 3, 4], vec![3, 4, 5], vec![2, 1, 3, 1, 2]]);
        macro_rules! ty { ($t:ty, $($x:tt)?) => { deep!(p, $t, tier, $($x)?); fixed_all!(p, $t, $($x)?); fills!(p, $t, shapes, $($x)?); mixed!(p, $t); } }
        ty!(i8,); ty!(i16,); ty!(i32,); ty!(i64,); ty!(i128,); ty!(isize,); ty!(u8,); ty!(u16,); ty!(u32,); ty!(u64,); ty!(u128,); ty!(usize,); ty!(bool,);
        ty!(f32, Tensor); ty!(f64, Tensor);
        if tier == Tier::Thorough { nestings!(p, i16, "(all nestings)", 4, V3<i16>, trees(4, &[0, 1, 2]),); }
        byte_ranges!(p, i8, (-128i8..=127).collect());
        byte_ranges!(p, u8, (0..=255u8).collect());
        wide_ranges!(p, i16); wide_ranges!(p, i32); wide_ranges!(p, i64); wide_ranges!(p, i128); wide_ranges!(p, isize);
        wide_ranges!(p, u16); wide_ranges!(p, u32); wide_ranges!(p, u64); wide_ranges!(p, usize);
        let (k, s) = tier.pick((20, 14), (60, 30));
        float_ranges!(p, f32, [1, 2, 8, 10, 3], k, s);
        float_ranges!(p, f64, [1, 4, 64, 10, 7], k, s);
        long_ranges!(p, f32); long_ranges!(p, f64);
        long_int_ranges!(p, i16, i32, i64, i128, isize, u16, u32, u64, usize);
        linspaces!(p, f32, tier.pick(300, 1500));
        linspaces!(p, f64, tier.pick(300, 1500));
        p
    });
}
