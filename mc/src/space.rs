//! The state spaces shared by the checks that look at one array at a time.

use crate::dt::Dt;
use crate::engine::{Ctx, Plan, Tier};
use crate::model::*;
use std::rc::Rc;

pub const FULL: Alphabet = Alphabet { max_dims: 4, max_size: 24, full_ix: true, consume: true, joint: 3, neg: true };
pub const REP: Alphabet = Alphabet { max_dims: 4, max_size: 24, full_ix: false, consume: true, joint: 2, neg: false };
pub const BORROW: Alphabet = Alphabet { consume: false, ..REP };
const BIG: Alphabet = Alphabet { max_dims: 6, max_size: 200, full_ix: false, consume: true, joint: 3, neg: false };
const LONG: Alphabet = Alphabet { max_dims: 3, max_size: 5000, full_ix: false, consume: true, joint: 2, neg: false };

/// Adds groups that visit every distinct view state of `root` within `depth` operations.
pub fn visit<T: Dt>(p: &mut Plan, root: &[usize], al: Alphabet, depth: usize,
                    f: impl Fn(&mut Ctx, &[usize], &Rec) + Clone + 'static) {
    let recs = Rc::new(catalogue(root, &al, depth));
    let chunk = (recs.len() / 64).clamp(1, 64);
    for k in 0..recs.len().div_ceil(chunk) {
        let (recs, root, f) = (recs.clone(), root.to_vec(), f.clone());
        p.group(format!("{} root {root:?} depth {depth} states {}..", T::NAME, k * chunk), move |ctx| {
            for r in &recs[k * chunk..((k + 1) * chunk).min(recs.len())] { f(ctx, &root, r); }
        });
    }
}

/// The standard space: all view states of small roots up to depth 2-3, representative ones of
/// high-dimensional and long roots.
pub fn standard<T: Dt>(p: &mut Plan, tier: Tier, f: impl Fn(&mut Ctx, &[usize], &Rec) + Clone + 'static) {
    for root in [&[][..], &[1], &[2], &[3], &[4], &[2, 2]] { visit::<T>(p, root, FULL, tier.pick(3, 4), f.clone()); }
    for root in [&[2, 3][..], &[3, 2], &[1, 3], &[3, 1], &[3, 3]] {
        visit::<T>(p, root, FULL, 2, f.clone());
        visit::<T>(p, root, REP, 3, f.clone());
    }
    for root in [&[2, 2, 2][..], &[2, 3, 2], &[3, 2, 2], &[2, 1, 3], &[1, 2, 1, 2], &[2, 2, 2, 2], &[4, 3, 2], &[3, 2, 1, 2]] {
        visit::<T>(p, root, REP, tier.pick(2, 3), f.clone());
    }
    visit::<T>(p, &[2, 2, 2, 2, 2], BIG, tier.pick(1, 2), f.clone());
    visit::<T>(p, &[2, 1, 3, 2, 1, 2], BIG, tier.pick(1, 2), f.clone());
    for root in [&[17][..], &[64], &[65], &[129], &[7, 9], &[33, 4], &[4, 33], &[5, 6, 7]] { visit::<T>(p, root, LONG, 2, f.clone()); }
    for root in [&[1025][..], &[40, 30], &[12, 10, 11]] { visit::<T>(p, root, Alphabet { max_dims: 2, ..LONG }, 1, f.clone()); }
}

pub const MANY: Alphabet = Alphabet { max_dims: 32, max_size: 200, full_ix: false, consume: true, joint: 1, neg: false };

pub fn many_roots() -> Vec<Vec<usize>> {
    let at = |n: usize, twos: &[usize]| (0..n).map(|i| if twos.contains(&i) { 2 } else { 1 }).collect::<Vec<usize>>();
    vec![vec![2; 7], at(7, &[0, 2, 6]), at(8, &[1, 3, 7]), at(9, &[0, 4, 8]), at(12, &[0, 3, 11]), at(16, &[0, 7, 15]), at(17, &[1, 16]), at(31, &[0, 15, 30]), at(32, &[0, 16, 31])]
}

/// Arrays of 7 to 32 axes.
pub fn many_axes<T: Dt>(p: &mut Plan, f: impl Fn(&mut Ctx, &[usize], &Rec) + Clone + 'static) {
    for root in many_roots() { visit::<T>(p, &root, MANY, 1, f.clone()); }
}

/// Arrays of n axes of length 2 none of which can be merged with its neighbour, being permuted.
pub fn dense_layouts(n: usize) -> Vec<(Vec<usize>, Vec<Step>, MView)> {
    let last = n as isize - 1;
    let b = |op| Step { op, consume: false };
    let interleave: Vec<Step> = (0..last / 2).map(|i| b(VOp::Transpose(i, last - 1 - i))).chain((0..last).step_by(3).map(|i| b(VOp::Transpose(i, i + 1)))).collect();
    let reverse: Vec<Step> = (0..n as isize / 2).map(|i| b(VOp::Transpose(i, last - i))).collect();
    let sliced = [&reverse[..], &[b(VOp::SliceAlong(1, Ix::At(1)))]].concat();
    [vec![], reverse, vec![b(VOp::Transpose(0, last))], vec![b(VOp::Transpose(last / 2, 1))], interleave, sliced].into_iter().map(|path| {
        let root = vec![2; n];
        let mut view = MView::root(&root);
        for s in &path { view = view.after(s).unwrap(); }
        (root, path, view)
    }).collect()
}

pub fn dense_axes<T: Dt>(p: &mut Plan, f: impl Fn(&mut Ctx, &[usize], &Rec) + Clone + 'static) {
    for n in [8usize, 9, 12, 13, 16, 17] {
        for (root, path, view) in dense_layouts(n) {
            let r = Rec { depth: path.len(), path, view };
            let f = f.clone();
            p.group(format!("{} {n} axes {:?}", T::NAME, r.path), move |ctx| f(ctx, &root, &r));
        }
    }
}

/// Arrays of more elements than 16 bits can count.
pub fn far<T: Dt>(p: &mut Plan, f: impl Fn(&mut Ctx, &[usize], &Rec) + Clone + 'static) {
    for root in far_roots() { visit::<T>(p, &root, FAR, 1, f.clone()); }
}
pub const FAR: Alphabet = Alphabet { max_dims: 2, max_size: 80000, full_ix: false, consume: true, joint: 1, neg: false };
pub fn far_roots() -> Vec<Vec<usize>> { vec![vec![70001], vec![263, 270]] }

/// Matrices and cubes of moderate size.
pub fn moderate<T: Dt>(p: &mut Plan, f: impl Fn(&mut Ctx, &[usize], &Rec) + Clone + 'static) {
    visit::<T>(p, &[40, 50], Alphabet { max_dims: 2, joint: 1, ..LONG }, 1, f.clone());
    visit::<T>(p, &[17, 12, 15], Alphabet { max_dims: 3, joint: 0, consume: false, ..LONG }, 1, f.clone());
}

/// A small space, for the element types other than the principal one.
pub fn brief<T: Dt>(p: &mut Plan, f: impl Fn(&mut Ctx, &[usize], &Rec) + Clone + 'static) {
    for root in [&[][..], &[3], &[2, 3], &[2, 1, 2], &[2, 2, 3]] { visit::<T>(p, root, REP, 2, f.clone()); }
    for root in [&[70][..], &[9, 20]] { visit::<T>(p, root, Alphabet { max_dims: 2, ..LONG }, 1, f.clone()); }
}

pub const SPACE_TEXT: &str = "all distinct view states (slices, axis slices, reshapes, views, squeezes, unsqueezes, transposes, broadcasts, diagonals; borrowing and consuming) of 24 root shapes: <= 3 operations for roots of <= 4 elements and (representative indices) for 2-d roots, <= 2 operations for 3-d and 4-d roots, <= 1 for 5-d, 6-d and >1000-element roots, <= 2 for lengths 17..210, <= 1 for roots of 7 to 32 axes and of 70000 elements; 6 permutations of arrays of 8 to 17 axes of length 2";

/// Distinct layouts (shape, distances, whether offset, whether readonly) among the states of the given
/// roots; the kernels can only tell arrays apart by these.
pub fn layouts(roots: &[&[usize]], al: Alphabet, depth: usize) -> Vec<(Vec<usize>, Rec)> {
    let mut seen = std::collections::HashSet::new();
    let mut out = vec![];
    for root in roots {
        for r in catalogue(root, &al, depth) {
            let v = &r.view;
            if seen.insert((v.shape.clone(), v.skey.clone(), v.ids[0] != 0, v.ro)) { out.push((root.to_vec(), r)); }
        }
    }
    out
}

/// 1-dimensional layouts of length n, and two-dimensional ones of (about) n elements.
pub fn long_layouts(n: usize) -> Vec<(Vec<usize>, Vec<Step>, MView)> {
    let b = |op| Step { op, consume: false };
    let mut out = vec![];
    let mut add = |root: Vec<usize>, path: Vec<Step>| {
        let mut v = MView::root(&root);
        for s in &path { v = v.after(s).unwrap(); }
        out.push((root, path, v));
    };
    add(vec![n], vec![]);
    add(vec![n + 3], vec![b(VOp::Slice(vec![Ix::Range(2, n + 2)]))]);
    add(vec![n, 2], vec![b(VOp::SliceAlong(1, Ix::At(1)))]);
    add(vec![n, 3], vec![b(VOp::SliceAlong(1, Ix::At(0)))]);
    add(vec![], vec![b(VOp::Broadcast(vec![n]))]);
    out
}

/// Two-dimensional layouts with n rows and m columns.
pub fn long_layouts2(n: usize, m: usize) -> Vec<(Vec<usize>, Vec<Step>, MView)> {
    let b = |op| Step { op, consume: false };
    let mut out = vec![];
    let mut add = |root: Vec<usize>, path: Vec<Step>| {
        let mut v = MView::root(&root);
        for s in &path { v = v.after(s).unwrap(); }
        out.push((root, path, v));
    };
    add(vec![n, m], vec![]);
    add(vec![m, n], vec![b(VOp::T)]);
    add(vec![n, m + 1], vec![b(VOp::SliceAlong(1, Ix::From(1)))]);
    add(vec![m], vec![b(VOp::Broadcast(vec![n, m]))]);
    add(vec![n, 1], vec![b(VOp::Broadcast(vec![n, m]))]);
    add(vec![m + 1, n], vec![b(VOp::SliceAlong(0, Ix::To(m))), b(VOp::T)]);
    add(vec![n, m, 2], vec![b(VOp::SliceAlong(2, Ix::At(1)))]);
    out
}

/// Lengths around every power of two and unrolling factor up to a bound.
pub fn lengths(all: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=all).collect();
    for n in [96, 100, 127, 128, 129, 191, 192, 193, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 16385, 20000, 32768, 32769, 65535, 65536, 65537, 100003] {
        if n > all && n <= max { v.push(n); }
    }
    v
}

/// A few lengths beyond `max`, where 16-bit counts and large blocks matter.
pub fn far_lengths(max: usize) -> Vec<usize> { [10007, 65537, 70001].into_iter().filter(|&n| n > max).collect() }
