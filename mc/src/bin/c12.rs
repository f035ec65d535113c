//! C12: backward computes the exact gradient for every expression graph.
use mc::*;
use redstone_ml::*;

const ALL: GAlpha = GAlpha { scalars: &[('+', 3), ('-', 2), ('*', -6), ('/', -2)], bins: &['+', '-', '*', '/'], views: 2, neg: true, linalg: true, own: true, own_leaves: false, max_size: 64, max_dims: 4 };
const SOME: GAlpha = GAlpha { scalars: &[('+', 3), ('*', -6), ('/', -2)], views: 1, own: false, ..ALL };
const FEW: GAlpha = GAlpha { scalars: &[('/', -2)], bins: &['-', '*', '/'], views: 1, neg: false, linalg: true, own: false, max_size: 12, max_dims: 3, ..ALL };
const ARITH: GAlpha = GAlpha { scalars: &[('+', 3), ('*', -6)], bins: &['+', '-', '*', '/'], views: 0, neg: true, linalg: false, own: false, max_size: 12, max_dims: 3, ..ALL };
/// for reaching deep chains
const CHAIN: GAlpha = GAlpha { scalars: &[('*', -6)], bins: &['*', '-'], views: 1, neg: false, linalg: true, own: true, max_size: 8, max_dims: 2, ..ALL };

const THIN: GAlpha = GAlpha { scalars: &[], bins: &['*'], views: 0, neg: true, linalg: false, own: false, max_size: 2, max_dims: 1, ..ALL };
/// scalars that leave their operand or its gradient unchanged, or remove it
const EDGE: GAlpha = GAlpha { scalars: &[('+', 0), ('-', 0), ('*', 0), ('*', 4), ('*', -4), ('/', 4), ('/', -4), ('+', 4), ('*', 8)], views: 2, own: true, own_leaves: true, ..ALL };
const MANY_AXES: GAlpha = GAlpha { scalars: &[('*', -6)], views: 2, own: false, max_size: 1024, max_dims: 13, linalg: false, ..ALL };
const LONG: GAlpha = GAlpha { views: 1, own: false, max_size: 100000, ..ALL };

/// Runs the program and one backward pass, and compares the gradients of all inputs.
fn check<T: Dt + TensorDataType + FromF64>(g: &Graph, seed: usize) {
    let r = g.root();
    let shape = g.shape(r).to_vec();
    let n = prod(&shape);
    let e: Exec<T> = Exec::run(g);
    let vals = match seed { 0 => vec![1.0; n], 3 => vec![2.5; n], _ => seed_values(n) };
    let t = e.t(r);
    step();
    let of = |v: &[f64]| v.iter().map(|x| T::of(*x)).collect::<Vec<T>>();
    match seed {
        0 => imp(|| t.backward()),
        1 => { let s = fresh(&shape, &of(&vals)); imp(|| t.backward_with(&s)); imp(move || drop(s)); }
        2 => {
            // a seed stored column by column
            let mut rs = shape.clone();
            rs.reverse();
            let idx = indices(&rs);
            let data: Vec<f64> = idx.iter().map(|i| { let mut j = i.clone(); j.reverse(); vals[ravel(&shape, &j)] }).collect();
            let s = fresh(&rs, &of(&data));
            let ss: &'static Arr<T> = unsafe { long(&s) };
            let v = imp(|| ss.transpose(0, -1));
            imp(|| t.backward_with(&v));
            imp(move || { drop(v); drop(s) });
        }
        _ => {
            let s = fresh(&[], &of(&vals[..1]));
            let ss: &'static Arr<T> = unsafe { long(&s) };
            let v = imp(|| ss.broadcast_to(&shape));
            imp(|| t.backward_with(&v));
            imp(move || { drop(v); drop(s) });
        }
    }
    let want = g.gradients(r, &vals);
    for i in 0..g.leaves {
        if !g.nodes[i].alive { continue; }
        match (e.gradient(i), g.nodes[i].tracked) {
            (None, false) => {}
            (Some(_), false) => panic!("t{i} does not require gradients but has one"),
            (None, true) => panic!("t{i} requires gradients but has none"),
            (Some((s, got)), true) => {
                if s != g.shape(i) { panic!("gradient of t{i} has shape {s:?}, expected {:?}", g.shape(i)); }
                if !close::<T>(&got, &want[i].0, &want[i].1) { panic!("gradient of t{i} is {got:?}, expected {:?} (output seeded with {vals:?})", want[i].0); }
                outcome(&got.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
            }
        }
    }
}

fn space<T: Dt + TensorDataType + FromF64>(p: &mut Plan, shapes: Vec<Vec<usize>>, al: GAlpha, depth: usize, seeds: &'static [usize]) {
    space_of::<T>(p, shapes, al, depth, seeds, 0)
}

fn space_of<T: Dt + TensorDataType + FromF64>(p: &mut Plan, shapes: Vec<Vec<usize>>, al: GAlpha, depth: usize, seeds: &'static [usize], variant: u8) {
    let n = shapes.len();
    let full = Graph::with(&shapes, (1 << n) - 1, variant);
    // one group per first operation
    for op in moves(&full, &al) {
        let shapes = shapes.clone();
        p.group(format!("{} {shapes:?} inputs {variant} depth {depth} from {op:?}", T::NAME), move |ctx| {
            for mask in 1u32..1 << n {
                let mut g = Graph::with(&shapes, mask, variant);
                g.push(&op);
                let mut visit = |g: &Graph| {
                    if !g.nodes[g.root()].tracked || ctx.stopped() { return; }
                    for &seed in seeds {
                        if seed == 2 && g.shape(g.root()).len() != 2 { continue; }
                        if seed == 3 && g.nodes[g.root()].value.len() < 2 { continue; }
                        ctx.case(|| format!("{} {}{}; backward from the last, {}", T::NAME, ["", "zeros among the ", "all-one ", "all-zero ", "transposed ", "equal "][variant as usize], show(g), ["unseeded", "seeded", "with a transposed seed", "with a broadcast seed"][seed]), || {
                            state(&(T::NAME, mask, &shapes, &g.ops, seed, variant));
                            check::<T>(g, seed);
                        });
                    }
                };
                visit(&g);
                programs(&g, &al, depth - 1, &mut visit);
            }
        });
    }
}

fn main() {
    mc::engine::main("C12", |tier| {
        let d = tier.pick(0, 1);
        let mut p = Plan::new(format!("all tensor programs (operators + - * / between tensors with broadcasting and with scalars, negation, reshape/view/squeeze/unsqueeze/transpose, dot, matmul, bmm; borrowing and consuming forms; any operand reused) of 1 operation on all pairs of shapes of <= 3 axes of length 1..3 (4 axes of length 1..2); <= {} operations on 12 combinations of 2 inputs, <= {} on 9 combinations of 1-2 inputs with a smaller alphabet, <= {} on 1 input (<= 3 on 3 inputs) with the smallest, arithmetic chains of <= {}; lengths up to {} and 5000, 70001 for single operations; every non-empty subset of inputs requiring gradients; unseeded, seeded, transposed and broadcast seeds; inputs containing zeros, all one, all zero, equal, or stored transposed, and scalars 0 and 1, for <= 2 operations; inputs of 5 to 12 axes; f64 and f32", 2, 3, 4, 5 + d, tier.pick(300, 1000)));
        p.assume("gradients are compared up to rounding (1e-10 in f64, 2e-4 in f32, relative to the magnitudes summed); programs with divisors below 0.05 or values above 1e5 are left out");
        let v = |s: &[&[usize]]| s.iter().map(|x| x.to_vec()).collect::<Vec<_>>();
        // every operation on every pair of shapes
        let small: Vec<Vec<usize>> = shapes_upto(3, &[1, 2, 3]);
        for a in &small { for b in &small { space::<f64>(&mut p, vec![a.clone(), b.clone()], ALL, 1, &[0, 1, 2, 3]); } }
        let four: Vec<Vec<usize>> = shapes_upto(4, &[1, 2]);
        for a in &four { for b in &four { if a.len() == 4 || b.len() == 4 { space::<f64>(&mut p, vec![a.clone(), b.clone()], ALL, 1, &[0, 1]); } } }
        // two operations
        for s in [v(&[&[], &[2]]), v(&[&[2], &[2]]), v(&[&[2, 2], &[2]]), v(&[&[2, 1], &[2]]), v(&[&[2, 1], &[1, 2]]), v(&[&[2, 2], &[2, 2]]), v(&[&[2, 3], &[3]]), v(&[&[2, 3], &[3, 2]]), v(&[&[1, 2, 2], &[2, 2]]), v(&[&[2, 1, 2], &[2, 2]]), v(&[&[2, 2, 2], &[2, 2, 2]]), v(&[&[2, 1, 3], &[2, 3, 1]])] {
            space::<f64>(&mut p, s.clone(), ALL, 2, &[0, 1, 2]);
        }
        for s in [v(&[&[2], &[2, 2]]), v(&[&[1], &[3, 2]])] { space::<f32>(&mut p, s, ALL, 2, &[0, 1]); }
        // three operations
        for s in [v(&[&[2], &[2]]), v(&[&[], &[2]]), v(&[&[2, 2], &[2]]), v(&[&[1, 2], &[2, 1]]), v(&[&[2, 2], &[2, 2]]), v(&[&[2, 3], &[1, 3]])] { space::<f64>(&mut p, s, SOME, 3, &[1]); }
        for s in [v(&[&[2]]), v(&[&[2, 2]]), v(&[&[2, 1]])] { space::<f64>(&mut p, s, ALL, 3, &[0, 1]); }
        space::<f64>(&mut p, v(&[&[2, 2, 2], &[2, 2, 2]]), FEW, 3, &[1]);
        // four operations
        space::<f64>(&mut p, v(&[&[2]]), if d == 0 { FEW } else { SOME }, 4, &[1]);
        space::<f64>(&mut p, v(&[&[2, 2]]), FEW, 4, &[1]);
        space::<f64>(&mut p, v(&[&[2], &[]]), ARITH, 3 + d, &[1]);
        // three inputs
        for s in [v(&[&[2], &[2], &[2]]), v(&[&[2, 2], &[2], &[]]), v(&[&[2, 2], &[2, 2], &[2, 1]])] { space::<f64>(&mut p, s, FEW, 3, &[1]); }
        // long chains
        space::<f64>(&mut p, v(&[&[2]]), CHAIN, 4 + d, &[1]);
        space::<f64>(&mut p, v(&[&[2]]), THIN, 5 + d, &[1]);
        // special contents, layouts and scalars
        for variant in 1..=5 {
            for s in [v(&[&[], &[]]), v(&[&[2], &[2]]), v(&[&[2, 2], &[2]]), v(&[&[2, 2], &[2, 2]]), v(&[&[2, 3], &[3, 2]]), v(&[&[2, 2, 3], &[2, 3, 2]]), v(&[&[3], &[2, 3]]), v(&[&[2, 1], &[1, 2]])] {
                space_of::<f64>(&mut p, s.clone(), EDGE, 1, &[0, 1, 2], variant);
                if prod(&s[0]) <= 4 || d > 0 { space_of::<f64>(&mut p, s, if d == 0 { SOME } else { ALL }, 2, &[1], variant); }
            }
            for s in [v(&[&[2, 2], &[2]]), v(&[&[2, 3], &[3, 2]])] { space_of::<f32>(&mut p, s, EDGE, 1, &[0, 1], variant); }
        }
        for s in [v(&[&[], &[2]]), v(&[&[2], &[2]]), v(&[&[2, 2], &[2]]), v(&[&[2, 1, 2], &[2]])] { space::<f64>(&mut p, s, EDGE, 2, &[0, 1]); }
        // many axes
        for s in [v(&[&[2, 1, 2, 1, 2], &[2, 2, 1, 2, 1]]), v(&[&[2, 1, 2, 2, 1], &[2, 1]]), v(&[&[1, 2, 1, 2, 1, 2], &[2, 1, 2, 1, 2, 1]]), v(&[&[2, 2, 2, 2, 2, 2], &[2, 2, 2]]), v(&[&[2, 3, 1, 2, 1, 2, 1], &[3, 1, 2, 2, 1, 1]]), v(&[&[2, 1, 1, 2, 1, 1, 2, 1, 1], &[1, 2, 1]]), v(&[&[1, 1, 2, 1, 1, 1, 1, 2, 1, 1, 1, 1], &[2]])] {
            space::<f64>(&mut p, s.clone(), MANY_AXES, 1, &[0, 1]);
            space_of::<f64>(&mut p, s.clone(), MANY_AXES, 1, &[1], 4);
            if s[0].len() < 7 { space::<f64>(&mut p, s, GAlpha { views: 1, ..MANY_AXES }, 2, &[1]); }
        }
        // long operands
        let max = tier.pick(300, 1000);
        for n in lengths(40, max).into_iter().chain([5000, 70001]) {
            for s in [vec![vec![n], vec![n]], vec![vec![n], vec![]], vec![vec![n, 2], vec![2]], vec![vec![2, n], vec![n]], vec![vec![2, n], vec![2, 1]]] { space::<f64>(&mut p, s, LONG, 1, &[0, 1]); }
        }
        for (n, m, l) in [(5, 7, 3), (1, 17, 9), (16, 16, 16), (17, 8, 33), (20, 33, 1), (33, 4, 17), (3, 64, 5)] {
            space::<f64>(&mut p, vec![vec![n, m], vec![m, l]], LONG, 1, &[0, 1, 2]);
            space::<f64>(&mut p, vec![vec![n, m], vec![m]], LONG, 1, &[0, 1]);
            space::<f64>(&mut p, vec![vec![3, n, m], vec![3, m, l]], LONG, 1, &[0, 1]);
        }
        p
    });
}
