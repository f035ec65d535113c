//! C08: einsum equals its definition for every subscript program and operand layout.
use mc::*;
use redstone_ml::*;

trait Ein: HasOps + NumericDataType + PartialOrd {
    fn ein(ops: &[&'static Arr<Self>], subs: &[String], out: &str) -> Arr<Self>;
    fn ein_view(a: &'static Arr<Self>, sub: &str, out: &str) -> Option<Arr<Self>> { einsum_view(a, (sub, out)) }
    /// in a number system wide enough to judge overflow
    fn wide(self) -> f64;
    fn limit() -> f64;
}
macro_rules! ein { ($($t:ty, $lim:expr);*) => { $( impl Ein for $t {
    fn ein(ops: &[&'static Arr<$t>], subs: &[String], out: &str) -> Arr<$t> { einsum(ops, (subs, out)) }
    fn wide(self) -> f64 { self as f64 }
    fn limit() -> f64 { $lim }
} )* } }
ein!(i8, 127.0; i16, 32767.0; i32, 2147483647.0; i64, 9e18; i128, 9e18; isize, 9e18;
     u8, 255.0; u16, 65535.0; u32, 4294967295.0; u64, 9e18; u128, 9e18; usize, 9e18; f32, 16777216.0; f64, 9007199254740992.0);

/// One operand: its layout (a root and a path of view operations) and the model of it.
#[derive(Clone)]
struct Lay { root: Vec<usize>, path: Vec<Step>, view: MView }

fn lay(root: Vec<usize>, ops: Vec<VOp>) -> Lay {
    let path: Vec<Step> = ops.into_iter().map(|op| Step { op, consume: false }).collect();
    let mut view = MView::root(&root);
    for s in &path { view = view.after(s).unwrap(); }
    Lay { root, path, view }
}

/// The storage layouts an operand of this shape can have (as far as strides go).
fn lays(shape: &[usize]) -> Vec<Lay> {
    let nd = shape.len();
    let mut out = vec![lay(shape.to_vec(), vec![])];
    if nd == 0 {
        out.push(lay(vec![3], vec![VOp::Slice(vec![Ix::At(1)])]));
        return out;
    }
    if nd >= 2 {
        let z = nd as isize - 1;
        let ops = (0..nd as isize / 2).map(|i| VOp::Transpose(i, z - i)).collect();
        out.push(lay(shape.iter().rev().copied().collect(), ops));
        if nd == 3 { out.push(lay(vec![shape[1], shape[0], shape[2]], vec![VOp::Transpose(0, 1)])); }
    }
    // an offset window of a larger array
    out.push(lay(shape.iter().map(|n| n + 1).collect(), vec![VOp::Slice(shape.iter().map(|&n| Ix::Range(1, n + 1)).collect())]));
    // no axis of unit distance
    let mut s = shape.to_vec();
    s.push(2);
    out.push(lay(s, vec![VOp::SliceAlong(nd as isize, Ix::At(1))]));
    // repeated along the first, the last and all axes
    out.push(lay(shape[1..].to_vec(), vec![VOp::Broadcast(shape.to_vec())]));
    if nd >= 2 {
        let mut s = shape.to_vec();
        s[nd - 1] = 1;
        out.push(lay(s, vec![VOp::Broadcast(shape.to_vec())]));
        out.push(lay(vec![], vec![VOp::Broadcast(shape.to_vec())]));
    }
    out
}

/// The definition.  None if some intermediate result might not be representable.
fn define<T: Ein>(subs: &[String], out: &str, shapes: &[&[usize]], data: &[Vec<T>]) -> Option<(Vec<usize>, Vec<T>)> {
    let mut labels: Vec<u8> = vec![];
    let mut dims: Vec<usize> = vec![];
    for (s, sh) in subs.iter().zip(shapes) {
        for (c, &n) in s.bytes().zip(sh.iter()) { if !labels.contains(&c) { labels.push(c); dims.push(n); } }
    }
    let pos = |c: u8| labels.iter().position(|&l| l == c).unwrap();
    let oshape: Vec<usize> = out.bytes().map(|c| dims[pos(c)]).collect();
    let omap: Vec<usize> = out.bytes().map(pos).collect();
    let maps: Vec<Vec<usize>> = subs.iter().map(|s| s.bytes().map(pos).collect()).collect();
    let mut acc = vec![T::val(0); prod(&oshape)];
    let mut mag = vec![0f64; acc.len()];
    let n = labels.len();
    let mut ix = vec![0usize; n];
    let total: usize = dims.iter().product();
    for _ in 0..total {
        let mut p = T::val(1);
        let mut m = 1f64;
        for (k, map) in maps.iter().enumerate() {
            let mut f = 0;
            for (d, &l) in map.iter().enumerate() { f = f * shapes[k][d] + ix[l]; }
            let x = data[k][f];
            m *= x.wide().abs();
            if m > T::limit() { return None; }
            p = p * x;
        }
        let mut f = 0;
        for (d, &l) in omap.iter().enumerate() { f = f * oshape[d] + ix[l]; }
        mag[f] += m;
        if mag[f] > T::limit() { return None; }
        acc[f] = acc[f] + p;
        for k in (0..n).rev() {
            ix[k] += 1;
            if ix[k] < dims[k] { break; }
            ix[k] = 0;
        }
    }
    Some((oshape, acc))
}

fn values<T: Ein>(n: usize, salt: usize) -> Vec<T> {
    (0..n).map(|i| {
        let v = [2i64, 1, 3, -1, 2, -3, 1, 4, 3, 1, -2][(i * 7 + salt * 3 + i / 5) % 11];
        if T::KIND == Kind::Unsigned { T::val(v.abs()) } else { T::val(v) }
    }).collect()
}

fn run<T: Ein>(subs: &[String], out: &str, ls: &[&Lay]) {
    let n = ls.len();
    let data: Vec<Vec<T>> = (0..n).map(|k| {
        // few values for the narrow types, so that the products of many operands stay representable
        if n > 3 || T::limit() < 300.0 && n > 2 { (0..prod(&ls[k].root)).map(|i| T::val(1 + ((i + k) % 4 == 1) as i64)).collect() }
        else { values(prod(&ls[k].root), k) }
    }).collect();
    let sel: Vec<Vec<T>> = ls.iter().zip(&data).map(|(l, d)| select(d, &l.view.ids)).collect();
    let shapes: Vec<&[usize]> = ls.iter().map(|l| &l.view.shape[..]).collect();
    let Some((oshape, want)) = define(subs, out, &shapes, &sel) else { return };
    let chains: Vec<Chain<T>> = ls.iter().zip(&data).map(|(l, d)| Chain::build(&l.root, d, &l.path)).collect();
    let refs: Vec<&'static Arr<T>> = chains.iter().map(|c| c.last()).collect();
    let r = imp(|| T::ein(&refs, subs, out));
    expect("einsum", &r, &oshape, &want);
    step();
    if n == 1 {
        if let Some(v) = imp(|| T::ein_view(refs[0], &subs[0], out)) {
            expect("einsum_view", &v, &oshape, &want);
            // shares memory with the operand: every element lies at an element of it
            let a = refs[0];
            let base: Vec<usize> = indices(a.shape()).iter().map(|i| get_ref(a, i) as *const T as usize).collect();
            for i in indices(&oshape) {
                let at = get_ref(&v, &i) as *const T as usize;
                if !base.contains(&at) { panic!("einsum_view: element {i:?} is not an element of the operand"); }
            }
            step();
            imp(move || drop(v));
        }
    }
    imp(move || drop(r));
    for (k, c) in chains.iter().enumerate() { expect("operand afterwards", c.last(), shapes[k], &sel[k]); }
}

/// All strings over labels 0.. in order of first appearance, of the given length.
fn growth(len: usize, max_labels: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for s in &out {
            let m = s.iter().max().map_or(0, |x: &u8| *x as usize + 1);
            for c in 0..=m.min(max_labels - 1) { let mut t: Vec<u8> = s.clone(); t.push(c as u8); next.push(t); }
        }
        out = next;
    }
    out
}

/// All ordered selections of 0..n.
fn ordered_subsets(n: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for s in &last { for c in 0..n as u8 { if !s.contains(&c) { let mut t = s.clone(); t.push(c); next.push(t); } } }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

const NAMES: [&str; 4] = ["ijklmn", "zyxwvu", "aZbYcX", "CbBaAz"];

fn word(s: &[u8], names: &str) -> String { s.iter().map(|&c| names.as_bytes()[c as usize] as char).collect() }

fn tuples(k: usize, vals: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..k { out = out.iter().flat_map(|t: &Vec<usize>| vals.iter().map(move |&v| { let mut u = t.clone(); u.push(v); u })).collect(); }
    out
}

#[derive(Clone, Copy)]
struct Opts { dims: &'static [usize], all_dims: bool, lays: bool, names: bool }

/// Every program over operands of the given numbers of dimensions.
fn programs<T: Ein>(p: &mut Plan, ranks: &[usize], max_labels: usize, o: Opts) {
    let len: usize = ranks.iter().sum();
    let words = growth(len, max_labels);
    let chunk = (words.len() / 24).clamp(1, 8);
    for (k, ws) in words.chunks(chunk).enumerate() {
        let (ws, ranks) = (ws.to_vec(), ranks.to_vec());
        p.group(format!("{} einsum of ranks {ranks:?} words {}..", T::NAME, k * chunk), move |ctx| {
            for w in &ws {
                let nl = w.iter().max().map_or(0, |x| *x as usize + 1);
                let mut parts: Vec<Vec<u8>> = vec![];
                let mut at = 0;
                for &r in &ranks { parts.push(w[at..at + r].to_vec()); at += r; }
                for out in ordered_subsets(nl) {
                    let mut emit = |names: &str, dims: &[usize], all_lays: bool| {
                        let subs: Vec<String> = parts.iter().map(|q| word(q, names)).collect();
                        let o = word(&out, names);
                        let choices: Vec<Vec<Lay>> = parts.iter().map(|q| {
                            let s = q.iter().map(|&c| dims[c as usize]).collect::<Vec<_>>();
                            if all_lays { lays(&s) } else { vec![lay(s, vec![])] }
                        }).collect();
                        let mut pick = vec![0usize; choices.len()];
                        loop {
                            let ls: Vec<&Lay> = choices.iter().zip(&pick).map(|(c, &i)| &c[i]).collect();
                            ctx.case(|| format!("einsum {subs:?} -> {o:?} of {} operands {:?}", T::NAME, ls.iter().map(|l| show_path(&l.root, &l.path)).collect::<Vec<_>>()), || {
                                state(&(T::NAME, &subs, &o, dims, &pick));
                                run::<T>(&subs, &o, &ls);
                            });
                            let mut d = pick.len();
                            loop {
                                if d == 0 { return; }
                                d -= 1;
                                pick[d] += 1;
                                if pick[d] < choices[d].len() { break; }
                                pick[d] = 0;
                            }
                        }
                    };
                    let main: Vec<usize> = (0..nl).map(|i| o_dims(i)).collect();
                    emit(NAMES[0], &main, o.lays);
                    if o.names {
                        for n in &NAMES[1..] { emit(n, &main, false); }
                        let rev: Vec<usize> = (0..nl).map(|i| o_dims(nl - 1 - i) + i / 2).collect();
                        emit(NAMES[0], &rev, o.lays && nl <= 3);
                    }
                    if o.all_dims { for d in tuples(nl, o.dims) { emit(NAMES[0], &d, false); } }
                }
            }
        });
    }
}
fn o_dims(i: usize) -> usize { [2, 3, 2, 2, 3, 2][i] }

fn fixed<T: Ein>(ctx: &mut Ctx, parts: &[&str], outs: &[String], dim: impl Fn(u8) -> usize, all_lays: bool) {
    let subs: Vec<String> = parts.iter().map(|s| s.to_string()).collect();
    for out in outs {
        let choices: Vec<Vec<Lay>> = subs.iter().map(|q| {
            let s = q.bytes().map(&dim).collect::<Vec<_>>();
            if all_lays { lays(&s) } else { vec![lay(s, vec![])] }
        }).collect();
        let max = choices.iter().map(|c| c.len()).max().unwrap_or(1);
        // every layout of every operand, the other operands taking theirs in turn
        for v in 0..max {
            for shift in 0..if all_lays { subs.len().min(3) } else { 1 } {
                let ls: Vec<&Lay> = choices.iter().enumerate().map(|(k, c)| &c[(v + k * shift) % c.len()]).collect();
                ctx.case(|| format!("einsum {subs:?} -> {out:?} of {} operands {:?}", T::NAME, ls.iter().map(|l| show_path(&l.root, &l.path)).collect::<Vec<_>>()), || {
                    state(&(T::NAME, &subs, out, v, shift, ls.iter().map(|l| &l.view.shape).collect::<Vec<_>>()));
                    run::<T>(&subs, out, &ls);
                });
            }
        }
    }
}

fn subsets_of(labels: &str) -> Vec<String> {
    ordered_subsets(labels.len()).iter().map(|s| word(s, labels)).collect()
}

fn big<T: Ein>(p: &mut Plan, tier: Tier) {
    for (parts, labels) in [
        (vec!["abcde"], "abcde"), (vec!["ebdca"], "abcde"), (vec!["abacb"], "abc"), (vec!["aabbc"], "abc"),
        (vec!["abcd", "cdef"], "abcdef"), (vec!["abcde", "edf"], "abcdef"), (vec!["abc", "cba"], "abc"), (vec!["aab", "bcc"], "abc"),
        (vec!["ab", "bc", "cd"], "abcd"), (vec!["abc", "bcd", "cda"], "abcd"), (vec!["ab", "bc", "cd", "de"], "abcde"),
        (vec!["a", "b", "c", "d", "e"], "abcde"), (vec!["abc", "d", "cd", "", "a"], "abcd"),
    ] {
        p.group(format!("{} einsum {parts:?}", T::NAME), move |ctx| {
            let outs = subsets_of(labels);
            let outs: Vec<String> = if outs.len() > 400 && ctx.tier == Tier::Quick { outs.into_iter().filter(|o| o.len() <= 3 || o.len() >= 6).collect() } else { outs };
            fixed::<T>(ctx, &parts, &outs, |c| [2, 3, 2, 2, 1, 2][(c - b'a') as usize], labels.len() < 5);
        });
    }
    p.group(format!("{} many operands", T::NAME), move |ctx| {
        for n in 1..=15usize {
            fixed::<T>(ctx, &vec!["i"; n], &["i".into(), "".into()], |_| 3, true);
            fixed::<T>(ctx, &vec!["ij"; n], &["i".into(), "".into(), "j".into(), "ji".into(), "ij".into()], |c| if c == b'i' { 2 } else { 3 }, true);
            fixed::<T>(ctx, &vec![""; n], &["".into()], |_| 3, true);
            let alt: Vec<&str> = (0..n).map(|i| ["ij", "j", "", "i", "ji"][i % 5]).collect();
            let mut outs: Vec<String> = vec!["".into(), "i".into(), "ij".into()];
            if n == 1 { outs.push("ji".into()); } else { outs.extend(["j".into(), "ji".into()]); }
            fixed::<T>(ctx, &alt, &outs, |c| if c == b'i' { 2 } else { 3 }, true);
        }
        // matrix chains
        let names = "abcdefghijklm";
        for n in 2..=11usize {
            let parts: Vec<String> = (0..n).map(|i| names[i..i + 2].to_string()).collect();
            let refs: Vec<&str> = parts.iter().map(|s| &s[..]).collect();
            let (a, z) = (names[0..1].to_string(), names[n..n + 1].to_string());
            fixed::<T>(ctx, &refs, &[format!("{a}{z}"), format!("{z}{a}"), "".into(), a.clone(), z], |_| 2, n < 8);
        }
    });
    let _ = tier;
    // many axes and labels: an operand of up to 32 axes, two operands of up to 32 labels together
    p.group(format!("{} many labels", T::NAME), move |ctx| {
        let all = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
        let dim = |twos: Vec<u8>| move |c: u8| if twos.contains(&c) { 2 } else { 1 };
        for n in 7..=32usize {
            let s = &all[..n];
            let b = s.as_bytes();
            let rev: String = s.chars().rev().collect();
            let ends = format!("{}{}", b[n - 1] as char, b[0] as char);
            let outs = vec![String::new(), s.to_string(), rev.clone(), ends.clone(), s[1..].to_string(), s[..n - 1].to_string(), (b[n / 2] as char).to_string(), s[n / 2..].to_string()];
            for twos in [vec![b[0], b[n - 1]], vec![b[0], b[n / 2], b[n - 1]], vec![b[1], b[n - 2], b[n / 2]]] {
                fixed::<T>(ctx, &[s], &outs, dim(twos.clone()), n < 9);
                fixed::<T>(ctx, &[s, &rev], &outs, dim(twos.clone()), n < 9);
                fixed::<T>(ctx, &[&s[..n / 2], &s[n / 2..]], &outs, dim(twos.clone()), n < 9);
                fixed::<T>(ctx, &[s, &ends], &outs, dim(twos.clone()), n < 9);
                // a label repeated many times
                let rep: String = "a".repeat(n);
                fixed::<T>(ctx, &[&rep], &["".into(), "a".into()], |_| if n <= 9 { 2 } else { 1 }, n <= 8);
                let alt: String = (0..n).map(|i| if i % 2 == 0 { 'x' } else { 'y' }).collect();
                fixed::<T>(ctx, &[&alt], &["".into(), "x".into(), "y".into(), "yx".into(), "xy".into()], |c| if c == b'x' && n <= 16 { 2 } else { 1 }, n <= 8);
            }
        }
    });
}

/// Lengths: the inner kernels for every length.
fn sweep<T: Ein>(p: &mut Plan, all: usize, max: usize) {
    for part in 0..4 {
        p.group(format!("{} einsum lengths part {part}", T::NAME), move |ctx| {
            let progs: Vec<(Vec<&str>, &str)> = vec![
                (vec!["i"], ""), (vec!["i"], "i"), (vec!["i", "i"], ""), (vec!["i", "i"], "i"), (vec!["i", ""], "i"), (vec!["", "i"], "i"),
                (vec!["i", ""], ""), (vec!["", "i"], ""),
                (vec!["ij", "j"], "i"), (vec!["ij", "i"], "j"), (vec!["ij", "j"], ""), (vec!["i", "j"], "ij"), (vec!["i", "j"], "ji"), (vec!["ij", "ij"], "i"), (vec!["ij", "ij"], "ij"),
                (vec!["ij"], "i"), (vec!["ij"], "j"), (vec!["ij"], "ji"), (vec!["ij"], ""), (vec!["ij", "jk"], "ik"), (vec!["ij", "kj"], "ik"), (vec!["i", "i", "i"], ""), (vec!["i", "i", "i"], "i"),
                (vec!["j", "ij", "i"], ""), (vec!["ii"], "i"), (vec!["ii"], ""),
            ];
            for n in lengths(all, max).into_iter().chain(far_lengths(max)).skip(part).step_by(4) {
                for (parts, out) in &progs {
                    let two = parts.concat().contains('j');
                    if n > 300 && parts == &vec!["ii"] { continue; }
                    for swap in 0..1 + two as usize {
                        let dim = |c: u8| if (c == b'j') == (swap == 1) && c != b'k' { n } else { 2 };
                        let dim2 = |c: u8| if !two { n } else { dim(c) };
                        let subs: Vec<String> = parts.iter().map(|s| s.to_string()).collect();
                        let choices: Vec<Vec<Lay>> = subs.iter().map(|q| lays(&q.bytes().map(dim2).collect::<Vec<_>>())).collect();
                        let count = if n <= 70 { choices.iter().map(|c| c.len()).max().unwrap() } else { 2 };
                        for v in 0..count {
                            let ls: Vec<&Lay> = choices.iter().map(|c| &c[v % c.len()]).collect();
                            ctx.case(|| format!("einsum {subs:?} -> {out:?} of {} operands {:?}", T::NAME, ls.iter().map(|l| show_path(&l.root, &l.path)).collect::<Vec<_>>()), || {
                                state(&("len", T::NAME, &subs, out, n, v, swap));
                                run_light::<T>(&subs, out, &ls, n);
                            });
                        }
                    }
                }
            }
        });
    }
}

/// Several long labels at once.
fn medium<T: Ein>(p: &mut Plan, dims: [usize; 4]) {
    p.group(format!("{} einsum of lengths {dims:?}", T::NAME), move |ctx| {
        let progs: Vec<(Vec<&str>, &str)> = vec![
            (vec!["ij", "jk"], "ik"), (vec!["ij", "jk"], "ki"), (vec!["ij", "kj"], "ik"), (vec!["ji", "jk"], "ik"), (vec!["ij", "jk"], ""), (vec!["ij", "jk"], "j"), (vec!["ij", "jk"], "ijk"),
            (vec!["ij"], "ji"), (vec!["ij"], "i"), (vec!["ij"], "j"), (vec!["ij"], ""), (vec!["ij", "ij"], ""), (vec!["ij", "ji"], ""), (vec!["ij", "ij"], "ij"), (vec!["ij", "ji"], "ji"), (vec!["ij", "j"], "i"), (vec!["ij", "i"], "ij"),
            (vec!["ijk"], "kj"), (vec!["ijk"], "ik"), (vec!["ijk"], "kji"), (vec!["ijk"], "j"), (vec!["ijk"], ""), (vec!["ijk", "k"], "ij"), (vec!["ijk", "ij"], "k"), (vec!["ijk", "j"], "ki"), (vec!["lij", "ljk"], "lik"), (vec!["ijl", "ljk"], "ik"),
            (vec!["i", "j"], "ij"), (vec!["i", "j", "l"], "jil"), (vec!["ij", "j", "i"], ""), (vec!["ij", "jk", "kl"], "il"), (vec!["ij", "", "jl"], "li"), (vec!["iji"], "ij"), (vec!["ijj"], "i"), (vec!["ii", "ij"], "j"),
        ];
        for (parts, out) in &progs {
            let subs: Vec<String> = parts.iter().map(|s| s.to_string()).collect();
            let dim = |c: u8| dims[(c - b'i') as usize];
            let choices: Vec<Vec<Lay>> = subs.iter().map(|q| lays(&q.bytes().map(dim).collect::<Vec<_>>())).collect();
            for v in 0..choices.iter().map(|c| c.len()).max().unwrap() {
                for shift in 0..if subs.len() > 1 { 2 } else { 1 } {
                    let ls: Vec<&Lay> = choices.iter().enumerate().map(|(k, c)| &c[(v + k * shift) % c.len()]).collect();
                    ctx.case(|| format!("einsum {subs:?} -> {out:?} of {} operands {:?}", T::NAME, ls.iter().map(|l| show_path(&l.root, &l.path)).collect::<Vec<_>>()), || {
                        state(&("medium", T::NAME, &subs, out, dims, v, shift));
                        run_light::<T>(&subs, out, &ls, 6000);
                    });
                }
            }
        }
    });
}

/// As `run`, with values small enough for sums of any length in any type.
fn run_light<T: Ein>(subs: &[String], out: &str, ls: &[&Lay], n: usize) {
    let shapes: Vec<&[usize]> = ls.iter().map(|l| &l.view.shape[..]).collect();
    let pats: &[usize] = if n <= 70 || n > 5000 { &[0, 1, 2] } else { &[0, 1] };
    for &pat in pats {
        let data: Vec<Vec<T>> = (0..ls.len()).map(|k| {
            let m = prod(&ls[k].root);
            (0..m).map(|i| match pat {
                0 => T::val(1 + (i % 3) as i64),                                         // overflows the narrow types at some length
                // (no order of summation may overflow: few non-zero elements for the narrow types)
                1 if T::KIND == Kind::Unsigned || std::mem::size_of::<T>() < 4 => T::val((i % (m / 50).max(9) == 4 || i + 1 == m) as i64),
                1 => T::val(((i + k) % 2) as i64 * 2 - 1),
                _ => T::val((i + 1 == m || i == m / 2 || i == 0) as i64 * 3),
            }).collect()
        }).collect();
        let sel: Vec<Vec<T>> = ls.iter().zip(&data).map(|(l, d)| select(d, &l.view.ids)).collect();
        let Some((oshape, want)) = define(subs, out, &shapes, &sel) else { continue };
        let chains: Vec<Chain<T>> = ls.iter().zip(&data).map(|(l, d)| Chain::build(&l.root, d, &l.path)).collect();
        let refs: Vec<&'static Arr<T>> = chains.iter().map(|c| c.last()).collect();
        let r = imp(|| T::ein(&refs, subs, out));
        expect("einsum", &r, &oshape, &want);
        step();
        imp(move || drop(r));
    }
}

/// Is the program well formed for these shapes?
fn well_formed(subs: &[String], out: &str, shapes: &[&[usize]]) -> bool {
    if subs.len() != shapes.len() { return false; }
    let mut dims = std::collections::HashMap::new();
    for (s, sh) in subs.iter().zip(shapes) {
        if s.len() != sh.len() || !s.bytes().all(|c| c.is_ascii_alphabetic()) { return false; }
        for (c, &n) in s.bytes().zip(sh.iter()) { if *dims.entry(c).or_insert(n) != n { return false; } }
    }
    out.bytes().enumerate().all(|(i, c)| dims.contains_key(&c) && !out[..i].as_bytes().contains(&c))
}

fn strings(alpha: &str, max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        last = last.iter().flat_map(|s| alpha.chars().map(move |c| format!("{s}{c}"))).collect();
        out.extend(last.iter().cloned());
    }
    out
}

/// All pairs of subscript strings, well formed or not.
fn rejection(p: &mut Plan) {
    for shape in [vec![], vec![2], vec![3], vec![2, 2], vec![2, 3], vec![1, 2], vec![2, 3, 2], vec![2, 2, 2]] {
        p.group(format!("all subscripts for shape {shape:?}"), move |ctx| {
            for s in strings("ijk", 4) {
                for o in strings("ijkx", 3) {
                    judge(ctx, &[shape.clone()], vec![s.clone()], o.clone());
                }
            }
            for s in ["1", "i1", "i-", "-", "i,j", "i>", "\u{e9}", "I", "é", "i?", "_", "0", "..", "i..", ".", "...", "i ", " ", " i"] {
                for o in ["", "i", "I", "?", "1", "0", "é", "_", "ii", ".", "..", "-"] {
                    let ok = |t: &str| t.bytes().all(|c| c.is_ascii_alphabetic());
                    // ellipses and blanks are not specified
                    if s.contains('.') || s.contains(' ') || o.contains('.') { continue; }
                    if ok(s) && ok(o) { continue; }
                    judge(ctx, &[shape.clone()], vec![s.to_string()], o.to_string());
                }
            }
        });
    }
    for shapes in [vec![vec![2], vec![2]], vec![vec![2], vec![3]], vec![vec![2, 3], vec![3]], vec![vec![2, 3], vec![3, 2]], vec![vec![2, 3], vec![2, 3]], vec![vec![1, 3], vec![3, 2]], vec![vec![], vec![2]], vec![vec![1], vec![3]]] {
        p.group(format!("all subscripts for shapes {shapes:?}"), move |ctx| {
            for a in strings("ijk", 3) { for b in strings("ijk", 3) { for o in strings("ijkx", 2) {
                judge(ctx, &shapes, vec![a.clone(), b.clone()], o);
            } } }
        });
    }
    p.group("numbers of subscripts and operands", |ctx| {
        for n in 1..5usize { for m in 0..6usize {
            for s in ["i", "ij", ""] {
                if n == m { continue; }
                judge(ctx, &vec![vec![2; s.len()]; n], vec![s.to_string(); m], if m == 0 { String::new() } else { s.to_string() });
                judge(ctx, &vec![vec![2; s.len()]; n], vec![s.to_string(); m], String::new());
            }
        } }
        for shapes in [vec![vec![2, 2], vec![2, 2], vec![2, 2]], vec![vec![2, 3], vec![3, 2], vec![2, 3]], vec![vec![2, 3], vec![3], vec![2]]] {
            for a in strings("ijk", 2) { for b in strings("ijk", 2) { for c in strings("ij", 2) { for o in ["", "i", "ij", "ik", "ki", "ii", "x"] {
                judge(ctx, &shapes, vec![a.clone(), b.clone(), c.clone()], o.to_string());
            } } } }
        }
    });
}

/// Every assignment of lengths 1..3 to the axes, every labelling of the axes: labels shared by axes of
/// different lengths are rejected, wherever they stand.
fn mismatches(p: &mut Plan, tier: Tier) {
    let mut ranks: Vec<Vec<usize>> = vec![vec![1], vec![2], vec![3], vec![0, 1], vec![1, 0], vec![1, 1], vec![1, 2], vec![2, 1], vec![2, 2], vec![1, 1, 1], vec![1, 2, 1], vec![2, 1, 1], vec![1, 1, 2], vec![1, 1, 1, 1]];
    if tier == Tier::Thorough { ranks.extend([vec![4], vec![3, 1], vec![1, 3], vec![3, 2], vec![2, 2, 1]]); }
    for r in ranks {
        let len: usize = r.iter().sum();
        for (k, lens) in tuples(len, &[1, 2, 3]).chunks(9).map(|c| c.to_vec()).enumerate() {
            let r = r.clone();
            p.group(format!("labels against lengths, ranks {r:?} part {k}"), move |ctx| {
                for l in &lens { for w in growth(len, 4) {
                    let nl = w.iter().max().map_or(0, |x| *x as usize + 1);
                    let (mut shapes, mut subs) = (vec![], vec![]);
                    let mut at = 0;
                    for &n in &r { shapes.push(l[at..at + n].to_vec()); subs.push(word(&w[at..at + n], NAMES[0])); at += n; }
                    let sh: Vec<&[usize]> = shapes.iter().map(|s| &s[..]).collect();
                    // the programs whose lengths agree are covered with every layout elsewhere
                    if well_formed(&subs, "", &sh) { continue; }
                    for out in ordered_subsets(nl) { judge(ctx, &shapes, subs.clone(), word(&out, NAMES[0])); }
                } }
            });
        }
    }
}

fn judge(ctx: &mut Ctx, shapes: &[Vec<usize>], subs: Vec<String>, out: String) {
    ctx.case(|| format!("einsum {subs:?} -> {out:?} on shapes {shapes:?}"), || {
        state(&("verdict", shapes, &subs, &out));
        let sh: Vec<&[usize]> = shapes.iter().map(|s| &s[..]).collect();
        let data: Vec<Vec<i64>> = shapes.iter().enumerate().map(|(k, s)| values(prod(s), k)).collect();
        let chains: Vec<Chain<i64>> = shapes.iter().zip(&data).map(|(s, d)| Chain::build(s, d, &[])).collect();
        let refs: Vec<&'static Arr<i64>> = chains.iter().map(|c| c.last()).collect();
        let good = well_formed(&subs, &out, &sh);
        let r = attempt(|| i64::ein(&refs, &subs, &out));
        outcome(&(good, r.is_ok()));
        match (good, r) {
            (true, Ok(r)) => {
                let (o, w) = define(&subs, &out, &sh, &data).unwrap();
                expect("einsum", &r, &o, &w);
                imp(move || drop(r));
            }
            (true, Err(e)) => panic!("well-formed einsum rejected: {e}"),
            (false, Ok(r)) => panic!("malformed einsum accepted, giving {:?}", r.shape()),
            (false, Err(_)) => {}
        }
        if shapes.len() == 1 && subs.len() == 1 {
            match attempt(|| i64::ein_view(refs[0], &subs[0], &out)) {
                Ok(Some(v)) => {
                    if !good { panic!("malformed einsum offered as a view of shape {:?}", v.shape()); }
                    let (o, w) = define(&subs, &out, &sh, &data).unwrap();
                    expect("einsum_view", &v, &o, &w);
                    imp(move || drop(v));
                }
                Ok(None) => {}
                Err(e) => if good { panic!("well-formed einsum_view rejected: {e}"); },
            }
        }
        for (k, c) in chains.iter().enumerate() { expect("operand afterwards", c.last(), sh[k], &data[k]); }
        step();
    });
}

fn main() {
    mc::engine::main("C08", |tier| {
        let mut p = Plan::new("every einsum program (up to renaming) of one operand with <= 4 axes, of two operands with <= 3 axes and <= 4 labels, of three operands with <= 2 axes and <= 4 labels, with every ordered choice of output labels, every assignment of lengths {1,2,3} to the labels, every combination of up to 8 storage layouts of the operands, and 4 spellings of the labels; 5- and 6-label programs, 7..32 axes and labels, 1..15 operands, matrix chains; inner lengths 1..40 and around powers of two; all subscript strings of <= 4 letters for 8 shapes and all pairs of <= 3 letters for 8 pairs of shapes, well formed or not; every labelling of 1..4 operands (<= 4 axes in all) of lengths 1..3 in which a label has two lengths; einsum_view on every one-operand program");
        p.assume("element values are chosen so that every order of evaluation is exact; ellipses and blanks in subscripts are outside the property");
        let full = Opts { dims: &[1, 2, 3], all_dims: true, lays: true, names: true };
        let few = Opts { dims: &[1, 2], all_dims: false, lays: true, names: false };
        let t = tier == Tier::Thorough;
        for r in 0..=4 { programs::<i32>(&mut p, &[r], 4, full); programs::<f32>(&mut p, &[r], 4, full); }
        for a in 0..=3 { for b in 0..=3 {
            if a + b <= 4 { programs::<i32>(&mut p, &[a, b], 4, full); programs::<f32>(&mut p, &[a, b], 4, full); programs::<f64>(&mut p, &[a, b], 4, few); }
            else { programs::<i32>(&mut p, &[a, b], 4, Opts { dims: &[1, 2], all_dims: true, lays: true, names: true }); }
        } }
        for a in 0..=2 { for b in 0..=2 { for c in 0..=2 {
            programs::<i32>(&mut p, &[a, b, c], 4, Opts { dims: &[1, 2, 3], all_dims: true, lays: t || a + b + c <= 5, names: true });
            if a + b + c <= 4 { programs::<f32>(&mut p, &[a, b, c], 3, few); }
        } } }
        if t { programs::<i32>(&mut p, &[4, 2], 4, few); programs::<i32>(&mut p, &[2, 4], 4, few); programs::<i32>(&mut p, &[5], 5, few); programs::<i32>(&mut p, &[1, 1, 1, 1], 4, few); programs::<i32>(&mut p, &[2, 1, 2, 1], 4, Opts { lays: false, ..few }); }
        big::<i32>(&mut p, tier);
        big::<f32>(&mut p, tier);
        macro_rules! dt { ($($t:ty),*) => { $(
            for r in 0..=3 { programs::<$t>(&mut p, &[r], 3, few); }
            for a in 0..=2 { for b in 0..=2 { programs::<$t>(&mut p, &[a, b], 3, few); } }
            programs::<$t>(&mut p, &[1, 1, 1], 2, few);
            sweep::<$t>(&mut p, tier.pick(70, 200), tier.pick(1025, 8193));
        )* } }
        dt!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize, f64);
        sweep::<i32>(&mut p, tier.pick(70, 300), tier.pick(1025, 8193));
        sweep::<f32>(&mut p, tier.pick(70, 300), tier.pick(4097, 8193));
        macro_rules! md { ($($t:ty),*) => { $( medium::<$t>(&mut p, [9, 20, 17, 3]); medium::<$t>(&mut p, [33, 8, 12, 5]); )* } }
        md!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
        for d in [[40, 33, 17, 6], [17, 64, 40, 5], [65, 5, 70, 9]] { medium::<i32>(&mut p, d); medium::<f32>(&mut p, d); medium::<f64>(&mut p, d); }
        rejection(&mut p);
        mismatches(&mut p, tier);
        p
    });
}
