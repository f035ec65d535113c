//! C16: random constructors stay inside their documented range for every stream.
//!
//! The random source (`rand::thread_rng`) is replaced by a scripted one, see vendor/rand.
use mc::*;
use rand::rngs::set_script;
use redstone_ml::*;
use std::cell::Cell;
use std::rc::Rc;

/// Runs `f` while the random source delivers `word(k)` at its k-th request (its upper half if 32 bits are
/// asked for); returns also the number of requests.  A stream that is rejected for ever is outside the claim:
/// after `patience` requests it is continued with a mixed sequence.
fn with<R>(patience: u64, word: impl Fn(u64) -> u64 + 'static, f: impl FnOnce() -> R) -> (R, u64) {
    let count = Rc::new(Cell::new(0u64));
    let c = count.clone();
    set_script(Some(Box::new(move |bits| {
        let k = c.get();
        c.set(k + 1);
        let w = if k < patience { word(k) } else { mix(k) };
        if bits == 32 { w >> 32 } else { w }
    })));
    struct Off;
    impl Drop for Off { fn drop(&mut self) { set_script(None); } }
    let _off = Off;
    let r = f();
    (r, count.get())
}

/// A bijection of 64-bit words that is equidistributed in all its bits.
fn mix(k: u64) -> u64 {
    let mut z = k.wrapping_add(1).wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Boundary words: few or nearly all bits set, at both ends and in both halves.
fn words() -> Vec<u64> {
    let mut v = vec![0, u64::MAX, 1, u64::MAX - 1, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0x0000_0000_ffff_ffff, 0xffff_ffff_0000_0000, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa];
    for k in 0..64 { v.extend([1u64 << k, !(1u64 << k), u64::MAX << k, u64::MAX >> k]); }
    v.sort();
    v.dedup();
    v
}

trait F: Dt + FloatDataType + TensorDataType { fn f(self) -> f64; fn ends() -> Vec<Self>; }
impl F for f32 {
    fn f(self) -> f64 { self as f64 }
    fn ends() -> Vec<f32> { vec![0.0, -0.0, 1.0, -1.0, 0.1, -0.3, 0.5, 3.0, -5.0, 1.0 + f32::EPSILON, 1.0 - f32::EPSILON / 2.0, 16777216.0, 16777218.0, -16777216.0, 1e-38, 1e-40, f32::from_bits(1), -f32::from_bits(1), f32::MIN_POSITIVE, 1e30, 1e30 * (1.0 + f32::EPSILON), -1e30, 1e38, -1e38, f32::MAX, f32::MIN, 1000.0, 1000.0001, f32::INFINITY, f32::NEG_INFINITY] }
}
impl F for f64 {
    fn f(self) -> f64 { self }
    fn ends() -> Vec<f64> { vec![0.0, -0.0, 1.0, -1.0, 0.1, -0.3, 0.5, 3.0, -5.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 9007199254740992.0, 9007199254740994.0, -9007199254740992.0, 1e-307, 1e-320, f64::from_bits(1), -f64::from_bits(1), f64::MIN_POSITIVE, 1e300, 1e300 * (1.0 + f64::EPSILON), -1e300, f64::MAX, f64::MIN, 1000.0, 1000.0000001, f64::INFINITY, f64::NEG_INFINITY] }
}

fn in_range<T: F>(what: &str, v: &[T], low: T, high: T) {
    for (i, &x) in v.iter().enumerate() {
        if !(x.f() >= low.f() && x.f() < high.f()) { panic!("{what}: element {i} is {:e}, outside [{:e}, {:e})", x.f(), low.f(), high.f()); }
    }
}

fn shaped<T: Dt>(what: &str, a: &NdArray<'_, T>, shape: &[usize]) -> Vec<T> {
    if a.shape() != shape { panic!("{what}: shape is {:?}, expected {shape:?}", a.shape()); }
    if a.is_view() || !a.is_contiguous() { panic!("{what}: not a fresh array"); }
    let v = read_by_iter(a);
    if v.len() != prod(shape) { panic!("{what}: {} elements", v.len()); }
    v
}

/// `rand` and `uniform` on all 2^23 leading words (every single-precision draw).
fn mantissas<T: F>(p: &mut Plan, chunks: u64) {
    let per = (1u64 << 23) / chunks;
    let ranges: Vec<(T, T)> = [(0.0, 1.0), (-5.0, 3.0), (1000.0, 1000.001), (0.1, 0.7), (-1e30, 1e30)].iter().map(|&(a, b): &(f32, f32)| (<T as From<f32>>::from(a), <T as From<f32>>::from(b))).collect();
    for c in 0..chunks {
        let ranges = ranges.clone();
        p.group(format!("{} all leading words, part {c}", T::NAME), move |ctx| {
            for low in [0u64, (1 << 41) - 1] {
                let word = move |k: u64| ((c * per + k) << 41) | low;
                let n = per as usize;
                ctx.case(|| format!("NdArray::<{}>::rand([{n}]), words ({} + k) << 41 | {low:#x}", T::NAME, c * per), || {
                    steps(per);
                    let (a, _) = with(u64::MAX, word, || imp(|| NdArray::<T>::rand([n])));
                    in_range("rand", &shaped("rand", &a, &[n]), T::zero(), T::one());
                });
                for &(lo, hi) in &ranges {
                    ctx.case(|| format!("NdArray::<{}>::uniform([{n}], {lo:?}, {hi:?}), words ({} + k) << 41 | {low:#x}", T::NAME, c * per), || {
                        steps(per);
                        let (a, _) = with(u64::MAX, word, || imp(|| NdArray::<T>::uniform([n], lo, hi)));
                        in_range("uniform", &shaped("uniform", &a, &[n]), lo, hi);
                    });
                }
            }
        });
    }
}

/// Every boundary word for every pair of bounds.
fn bounds<T: F>(p: &mut Plan) {
    for lo in T::ends() {
        p.group(format!("{} uniform from {:e}", T::NAME, lo.f()), move |ctx| {
            let all = words();
            for hi in T::ends() {
                if lo.f() < hi.f() {
                    let span = hi - lo;
                    // rand 0.8.5 needs about 2^52 * |bound| / span steps to set up such a range
                    if T::NAME == "f64" && span.f() < lo.f().abs().max(hi.f().abs()) / (1u64 << 24) as f64 { continue; }
                    ctx.case(|| format!("uniform::<{}>([{}], {lo:?}, {hi:?}), boundary words", T::NAME, all.len()), || {
                        steps(all.len() as u64);
                        let w = all.clone();
                        let n = all.len();
                        let (r, _) = with(u64::MAX, move |k| w[k as usize % w.len()], || attempt(|| NdArray::<T>::uniform([n], lo, hi)));
                        match r {
                            Ok(a) => { in_range("uniform", &shaped("uniform", &a, &[n]), lo, hi); state(&(T::NAME, lo.key(), hi.key())); }
                            Err(e) => if Float::is_finite(span) { panic!("refused: {e}") },
                        }
                        let w = all.clone();
                        let (r, _) = with(u64::MAX, move |k| w[k as usize % w.len()], || attempt(|| Tensor::<T>::uniform([n], lo, hi).into_ndarray()));
                        if let Ok(a) = r { in_range("tensor uniform", &shaped("tensor uniform", &a, &[n]), lo, hi); } else if Float::is_finite(span) { panic!("tensor: refused") }
                    });
                } else {
                    ctx.case(|| format!("uniform::<{}>([3], {lo:?}, {hi:?}) (no such number)", T::NAME), || {
                        step();
                        if let (Ok(a), _) = with(64, |_| 0, || attempt(|| NdArray::<T>::uniform([3], lo, hi))) { panic!("accepted, giving {a:?}"); }
                    });
                }
            }
        });
    }
}
use num::Float;

/// Words that reach every value of a small range whatever bits are used, boundary words first.
fn spread(k: u64) -> u64 { if k < 4096 { (k << 52) | (k << 20) | k } else { mix(k) } }

macro_rules! randint_case { ($ctx:ident, $t:ty, $lo:expr, $hi:expr, $ws:expr, $attain:expr) => {{
    let (lo, hi): ($t, $t) = ($lo, $hi);
    if lo < hi {
        $ctx.case(|| format!("randint::<{}>([n], {lo}, {hi})", <$t>::NAME), || {
            let n = $ws.len();
            steps(n as u64);
            let ws = $ws.clone();
            let (r, _) = with(n as u64, move |k| ws[k as usize % ws.len()], || attempt(|| NdArray::<$t>::randint([n], lo, hi)));
            let v = match r { Ok(a) => shaped("randint", &a, &[n]), Err(e) => panic!("refused: {e}") };
            if let Some(x) = v.iter().find(|&&x| !(x >= lo && x < hi)) { panic!("{x} is outside [{lo}, {hi})"); }
            state(&(<$t>::NAME, lo, hi));
            let span = (hi as i128).wrapping_sub(lo as i128) as u128;
            if $attain && span <= 256 {
                let n = 1024 + 12 * span as usize;
                let (a, _) = with(u64::MAX, spread2, || imp(|| NdArray::<$t>::randint([n], lo, hi)));
                let mut seen = [false; 256];
                for x in a.flatiter() {
                    if !(x >= lo && x < hi) { panic!("{x} is outside [{lo}, {hi})"); }
                    seen[(x as i128).wrapping_sub(lo as i128) as usize] = true;
                }
                steps(n as u64);
                if let Some(k) = (0..span as usize).find(|&k| !seen[k]) { panic!("{} is never produced", (lo as i128).wrapping_add(k as i128)); }
            }
        });
    } else {
        $ctx.case(|| format!("randint::<{}>([2], {lo}, {hi}) (empty or inverted)", <$t>::NAME), || {
            step();
            if let (Ok(a), _) = with(64, |_| 0, || attempt(|| NdArray::<$t>::randint([2], lo, hi))) { panic!("accepted, giving {a:?}"); }
        });
    }
}} }
/// 512 boundary-spread words, then an equidistributed sequence.
fn spread2(k: u64) -> u64 { if k < 512 { spread(k * 8) } else { mix(k) } }

macro_rules! byte_ints { ($p:ident, $t:ty) => {
    for lo in <$t>::MIN..=<$t>::MAX {
        $p.group(format!("{} integers from {lo}", <$t>::NAME), move |ctx| {
            let ws = words();
            for hi in <$t>::MIN..=<$t>::MAX { randint_case!(ctx, $t, lo, hi, ws, true); }
        });
    }
} }

macro_rules! wide_ints { ($p:ident, $($t:ty),*) => { $(
    $p.group(format!("{} integers", <$t>::NAME), move |ctx| {
        let ws = words();
        let (lo, hi) = (<$t>::MIN, <$t>::MAX);
        let mut ends: Vec<$t> = vec![lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, 0, 1, 2, 3, 10, 100, 127, hi / 2, hi / 2 + 1, hi / 3];
        #[allow(unused_comparisons)] if lo < 0 { for x in [1 as $t, 2, 3, 10, 100] { ends.push((0 as $t).wrapping_sub(x)); } ends.push(lo / 2); }
        for k in 0..<$t>::BITS { let x = (1 as $t) << k; ends.extend([x, x.wrapping_sub(1), x.wrapping_add(1)]); }
        ends.sort(); ends.dedup();
        for &a in &ends { for &b in &ends { randint_case!(ctx, $t, a, b, ws, true); } }
        for &a in &ends { for d in 0..40 { if let Some(b) = a.checked_add(d as $t) { randint_case!(ctx, $t, a, b, ws, true); } } }
    });
)* } }

fn float_ints<T: F>(p: &mut Plan) {
    p.group(format!("{} integers", T::NAME), |ctx| {
        let ws = words();
        let ends: Vec<T> = (-26..=26).map(|k| <T as From<f32>>::from(k as f32 / 4.0)).chain([100.0, 127.75, -100.5, 1e6, -1e6, 8388608.0, 16777216.0, 1e20].map(|x: f32| <T as From<f32>>::from(x))).collect();
        for &lo in &ends { for &hi in &ends {
            let span = hi.f().ceil() - lo.f().ceil();
            if lo.f() < hi.f() && span > 0.0 {
                ctx.case(|| format!("randint::<{}>([n], {lo:?}, {hi:?})", T::NAME), || {
                    let (n, w) = (ws.len(), ws.clone());
                    steps(n as u64);
                    let (r, _) = with(u64::MAX, move |k| w[k as usize % w.len()], || attempt(|| NdArray::<T>::randint([n], lo, hi)));
                    let v = match r { Ok(a) => shaped("randint", &a, &[n]), Err(e) => panic!("refused: {e}") };
                    in_range("randint", &v, lo, hi);
                    if let Some(x) = v.iter().find(|x| x.f().fract() != 0.0) { panic!("{x:?} is not whole"); }
                    state(&(T::NAME, lo.key(), hi.key()));
                    if span <= 256.0 {
                        let n = 1024 + 12 * span as usize;
                        let (a, _) = with(u64::MAX, spread2, || imp(|| NdArray::<T>::randint([n], lo, hi)));
                        let mut seen = [false; 257];
                        let v = shaped("randint", &a, &[n]);
                        in_range("randint", &v, lo, hi);
                        for x in v { if x.f().fract() != 0.0 { panic!("{x:?} is not whole"); } seen[(x.f() - lo.f().ceil()) as usize] = true; }
                        if let Some(k) = (0..span as usize).find(|&k| !seen[k]) { panic!("{} is never produced", lo.f().ceil() + k as f64); }
                    }
                });
            } else {
                ctx.case(|| format!("randint::<{}>([2], {lo:?}, {hi:?}) (no such integer)", T::NAME), || {
                    step();
                    if let (Ok(a), _) = with(64, |_| 0, || attempt(|| NdArray::<T>::randint([2], lo, hi))) { panic!("accepted, giving {a:?}"); }
                });
            }
        } }
    });
}

/// Normal samples: every layer of any 8-bit layered method with boundary mantissas, and short streams of boundary words.
fn normals<T: F>(p: &mut Plan, deep: bool) {
    let all = Rc::new(words());
    for part in 0..16u64 {
        let all = all.clone();
        p.group(format!("{} normal, layers {}..", T::NAME, part * 16), move |ctx| {
            for layer in part * 16..part * 16 + 16 { for &w in all.iter() { for second in [0, u64::MAX, 1 << 63, 0x0010_0000_0000_0000] {
                for first in [(w & !0xff) | layer, (w >> 8) | layer << 56] {
                    ctx.case(|| format!("randn::<{}>([2]), words {first:#x} {second:#x} {second:#x} ...", T::NAME), || {
                        step();
                        let (r, _) = with(24, move |k| if k == 0 { first } else { second }, || attempt(|| NdArray::<T>::randn([2])));
                        match r { Ok(a) => for x in shaped("randn", &a, &[2]) { if !Float::is_finite(x) || x.f().abs() > 100.0 { panic!("sample {x:?}"); } }, Err(e) => panic!("refused: {e}") }
                    });
                }
            } } }
        });
    }
    // all streams of boundary words of length 2 (3) that repeat
    for (k, _) in all.iter().enumerate() {
        let all = all.clone();
        p.group(format!("{} normal, streams from boundary word {k}", T::NAME), move |ctx| {
            for j in 0..all.len() { for l in if deep { 0..all.len() } else { 0..1 } {
                let s = if deep { vec![all[k], all[j], all[l]] } else { vec![all[k], all[j]] };
                ctx.case(|| format!("randn::<{}>([1]), words {s:x?} repeated", T::NAME), || {
                    step();
                    let s = s.clone();
                    let (r, _) = with(24, move |k| s[k as usize % s.len()], || attempt(|| NdArray::<T>::randn([1])));
                    match r { Ok(a) => for x in shaped("randn", &a, &[1]) { if !Float::is_finite(x) || x.f().abs() > 100.0 { panic!("sample {x:?}"); } }, Err(e) => panic!("refused: {e}") }
                });
            } }
        });
    }
}

/// Shape, one draw per element, and the shape of the distribution on an equidistributed stream.
fn shapes<T: F>(p: &mut Plan) {
    p.group(format!("{} shapes", T::NAME), |ctx| {
        let mut all: Vec<Vec<usize>> = shapes_upto(4, &[1, 2, 3]);
        all.extend([vec![65], vec![1000], vec![17, 9], vec![2, 1, 2, 1, 3], vec![5000], vec![70001], vec![263, 270]]);
        for s in all {
            let n = prod(&s);
            let judge = |what: &str, f: &dyn Fn() -> Arr<T>, lo: f64, hi: f64| {
                steps(n as u64);
                let (a, drawn) = with(u64::MAX, mix, || imp(f));
                let v = shaped(what, &a, &s);
                if (drawn as usize) < n { panic!("{what}: {drawn} draws for {n} elements"); }
                // distinct words: distinct samples (52 or 23 bits each: no collision is expected in this stream)
                let mut k: Vec<u128> = v.iter().map(|x| x.key()).collect();
                k.sort();
                let repeated = k.windows(2).filter(|w| w[0] == w[1]).count();
                if repeated > n / 200 + n * n / (1 << 22) { panic!("{what}: {repeated} of {n} elements repeat another although all draws differ"); }
                for x in v { if !(x.f() >= lo && x.f() < hi) { panic!("{what}: {x:?} is outside the range"); } }
                expect(what, &a, &s, &read_by_iter(&a));
            };
            ctx.case(|| format!("{} rand, uniform and randn of shape {s:?}", T::NAME), || {
                judge("rand", &|| NdArray::<T>::rand(&s), 0.0, 1.0);
                judge("rand (slice)", &|| NdArray::<T>::rand(&s[..]), 0.0, 1.0);
                judge("tensor rand", &|| Tensor::<T>::rand(s.clone()).into_ndarray(), 0.0, 1.0);
                let (lo, hi) = (<T as From<f32>>::from(-5.0), <T as From<f32>>::from(3.0));
                judge("uniform", &|| NdArray::<T>::uniform(&s, lo, hi), -5.0, 3.0);
                judge("tensor uniform", &|| Tensor::<T>::uniform(&s[..], lo, hi).into_ndarray(), -5.0, 3.0);
                judge("randn", &|| NdArray::<T>::randn(&s), -20.0, 20.0);
                judge("tensor randn", &|| Tensor::<T>::randn(s.clone()).into_ndarray(), -20.0, 20.0);
                let (a, drawn) = with(u64::MAX, mix, || imp(|| NdArray::<T>::randint(&s, lo, hi)));
                shaped("randint", &a, &s);
                if (drawn as usize) < n { panic!("randint: {drawn} draws for {n} elements"); }
            });
        }
    });
    p.group(format!("{} equidistributed stream", T::NAME), |ctx| {
        let n = 40000usize;
        let stats = |v: &[T]| { let m = v.iter().map(|x| x.f()).sum::<f64>() / n as f64; (m, (v.iter().map(|x| (x.f() - m).powi(2)).sum::<f64>() / n as f64).sqrt()) };
        ctx.case(|| format!("randn::<{}>([{n}]) of the equidistributed stream has mean 0 and standard deviation 1", T::NAME), || {
            steps(n as u64);
            let (a, _) = with(u64::MAX, mix, || imp(|| NdArray::<T>::randn([n])));
            let v = shaped("randn", &a, &[n]);
            let (m, sd) = stats(&v);
            if m.abs() > 0.05 || (sd - 1.0).abs() > 0.05 { panic!("mean {m}, standard deviation {sd}"); }
            let within = v.iter().filter(|x| x.f().abs() < 1.0).count() as f64 / n as f64;
            if (within - 0.6827).abs() > 0.02 { panic!("{within} of the samples within one standard deviation"); }
        });
        for (lo, hi) in [(0.0, 1.0), (-5.0, 3.0), (100.0, 101.0)] {
            ctx.case(|| format!("uniform::<{}>([{n}], {lo}, {hi}) of the equidistributed stream fills every sixteenth of the range equally", T::NAME), || {
                steps(n as u64);
                let (l, h) = (<T as From<f32>>::from(lo), <T as From<f32>>::from(hi));
                let (a, _) = with(u64::MAX, mix, || imp(|| if lo == 0.0 { NdArray::<T>::rand([n]) } else { NdArray::<T>::uniform([n], l, h) }));
                let mut bins = [0usize; 16];
                for x in shaped("uniform", &a, &[n]) { bins[(((x.f() - lo as f64) / (hi - lo) as f64) * 16.0) as usize] += 1; }
                if bins.iter().any(|&b| (b as f64 - n as f64 / 16.0).abs() > n as f64 / 16.0 * 0.15) { panic!("{bins:?}"); }
            });
        }
        for (lo, hi) in [(0i32, 3), (-5, 3), (-1, 1), (10, 26)] {
            ctx.case(|| format!("randint::<{}>([{n}], {lo}, {hi}) of the equidistributed stream gives every integer equally often", T::NAME), || {
                steps(n as u64);
                let (l, h) = (<T as From<f32>>::from(lo as f32), <T as From<f32>>::from(hi as f32));
                let (a, _) = with(u64::MAX, mix, || imp(|| NdArray::<T>::randint([n], l, h)));
                let (b, _) = with(u64::MAX, mix, || imp(|| NdArray::<i32>::randint([n], lo, hi)));
                let k = (hi - lo) as usize;
                let (mut x, mut y) = (vec![0usize; k], vec![0usize; k]);
                for v in a.flatiter() { x[(v.f() as i32 - lo) as usize] += 1; }
                for v in b.flatiter() { y[(v - lo) as usize] += 1; }
                let even = n as f64 / k as f64;
                if x.iter().chain(&y).any(|&b| (b as f64 - even).abs() > even * 0.15) { panic!("{x:?} {y:?}"); }
            });
        }
    });
}

/// Elements are drawn independently: every pair of values of two elements is attainable.
fn pairs(p: &mut Plan) {
    p.group("independence of integer elements", |ctx| {
        for (lo, hi) in [(0i8, 2), (0, 3), (-2, 2), (0, 5)] {
            ctx.case(|| format!("every pair of values of randint([2], {lo}, {hi})"), || {
                let k = (hi - lo) as u64;
                let mut seen = std::collections::HashSet::new();
                for a in 0..4 * k { for b in 0..4 * k {
                    step();
                    let w = move |i: u64| { let x = if i % 2 == 0 { a } else { b }; spread(x * 4096 / (4 * k)) };
                    let (r, _) = with(32, w, || imp(|| NdArray::<i8>::randint([2], lo, hi)));
                    seen.insert((r[[0]], r[[1]]));
                } }
                if seen.len() as u64 != k * k { panic!("only {} of {} pairs are attained", seen.len(), k * k); }
            });
        }
    });
}

fn main() {
    mc::engine::main("C16", |tier| {
        let mut p = Plan::new(format!("rand and uniform (5 ranges): all 2^23 leading words x 2 fillings, f32 and f64; uniform: all pairs of 28-30 boundary bounds x 260 boundary words; randint: all pairs of i8 and of u8 bounds, boundary pairs of the other integers, 61^2 pairs of (fractional) float bounds, x boundary words and > 1000 spread words for attainability; randn: all 256 layers x 260 boundary words x 4 continuations, and all streams of {} boundary words; shapes of <= 4 axes of length 1..3", tier.pick(2, 3)));
        p.assume("streams that the samplers of rand reject for ever are outside the claim (scripts turn into a mixed sequence); the samplers of rand 0.8.5 / rand_distr are part of the explored code; bounds whose difference overflows may be refused; f64 bounds closer than 2^-24 of their magnitude are left out (rand 0.8.5 takes up to 2^52 steps to prepare such a range)");
        mantissas::<f32>(&mut p, 128);
        mantissas::<f64>(&mut p, 128);
        bounds::<f32>(&mut p);
        bounds::<f64>(&mut p);
        byte_ints!(p, i8);
        byte_ints!(p, u8);
        wide_ints!(p, i16, i32, i64, i128, isize, u16, u32, u64, u128, usize);
        float_ints::<f32>(&mut p);
        float_ints::<f64>(&mut p);
        normals::<f32>(&mut p, tier == Tier::Thorough);
        normals::<f64>(&mut p, false);
        shapes::<f32>(&mut p);
        shapes::<f64>(&mut p);
        pairs(&mut p);
        p
    });
}
