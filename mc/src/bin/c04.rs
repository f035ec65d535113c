//! C04: views alias their source exactly; copies are independent.
use mc::*;
use redstone_ml::*;
use std::rc::Rc;

fn observe<T: Dt>(what: &str, c: &Chain<T>, views: &[MView], data: &[T]) {
    for (k, l) in c.links.iter().enumerate() {
        expect(&format!("{what}: view {k} of the chain"), l, &views[k].shape, &select(data, &views[k].ids));
    }
}

/// All writes through one view state.
fn visit_state<T: Dt>(ctx: &mut Ctx, root: &[usize], r: &Rec) {
    ctx.case(|| format!("writes through {} of {}", show_path(root, &r.path), T::NAME), || {
        let mut data: Vec<T> = fill_values(prod(root), 1);
        let mut c = Chain::root(root, &data);
        let mut views = vec![MView::root(root)];
        for s in &r.path {
            c.push(s);
            let v = views.last().unwrap().after(s).unwrap();
            if s.consume { views.pop(); }
            views.push(v);
        }
        let v = r.view.clone();
        state(&(T::NAME, root, &v));
        let n = v.ids.len();
        if v.ro {
            for (what, res) in [("fill", attempt(|| c.last_mut().fill(T::val(1)))), ("zero", attempt(|| c.last_mut().zero()))] {
                if res.is_ok() { panic!("{what} through a readonly view is accepted"); }
                step();
            }
            observe("after refused fills", &c, &views, &data);
            for k in [0, n / 2, n - 1] {
                let idx = indices(&v.shape)[k].clone();
                if attempt(|| *get_mut(c.last_mut(), &idx) = T::val(1)).is_ok() { panic!("writing element {idx:?} of a readonly view is accepted"); }
                if v.shape.len() == 1 && attempt(|| c.last_mut()[idx[0]] = T::val(1)).is_ok() { panic!("writing element {idx:?} of a readonly view is accepted"); }
                step();
            }
            observe("after refused writes", &c, &views, &data);
            outcome(&("refused", &v.shape));
            return;
        }
        // by index
        let big = prod(root) > 40;
        let idxs = indices(&v.shape);
        for (k, idx) in idxs.iter().enumerate() {
            if big && n > 60 && k % 7 != 0 && k + 1 != n { continue; }
            let x = if data[v.ids[k] as usize].key() == T::val(1).key() { T::val(0) } else { T::val(100 + k as i64 % 20) };
            imp(|| if k % 2 == 0 || v.shape.len() != 1 { *get_mut(c.last_mut(), idx) = x } else { c.last_mut()[idx[0]] = x });
            data[v.ids[k] as usize] = x;
            step();
            if !big { expect(&format!("after writing element {idx:?}: the root"), c.root_ref(), &views[0].shape, &select(&data, &views[0].ids)); }
        }
        observe("after writes by index", &c, &views, &data);
        // fill, zero
        let x = T::val(77);
        imp(|| c.last_mut().fill(x));
        for &i in &v.ids { data[i as usize] = x; }
        step();
        observe("after fill", &c, &views, &data);
        imp(|| c.last_mut().zero());
        for &i in &v.ids { data[i as usize] = T::from(false); }
        step();
        observe("after zero", &c, &views, &data);
        let x = T::val(2);
        imp(|| c.last_mut().fill(x));
        for &i in &v.ids { data[i as usize] = x; }
        step();
        observe("after a second fill", &c, &views, &data);
        outcome(&(root, &v.ids));
    });
}

/// Copies of every view state observe no later writes, nor do their writes reach the source.
fn copies<T: HasOps + NumericDataType>(ctx: &mut Ctx, root: &[usize], r: &Rec) {
    ctx.case(|| format!("copies of {} of {}", show_path(root, &r.path), T::NAME), || {
        let mut data: Vec<T> = (0..prod(root)).map(|k| T::left(k)).collect();
        let mut c = Chain::build(root, &data, &r.path);
        let v = &r.view;
        // what the first array of the chain (the root, or what consuming it gave) denotes
        let mut first = MView::root(root);
        for s in r.path.iter().take_while(|s| s.consume) { first = first.after(s).unwrap(); }
        state(&("copies", T::NAME, root, v));
        let a = c.last();
        let z = fresh(&v.shape, &vec![T::zero(); v.ids.len()]);
        let plus = T::ops().into_iter().find(|o| o.name == "+").unwrap();
        let want = select(&data, &v.ids);
        let mut cs: Vec<(&str, Arr<T>, Vec<T>)> = vec![
            ("clone", imp(|| a.clone()), want.clone()),
            ("flatten", imp(|| a.flatten()), want.clone()),
            ("conversion to the same type", imp(|| a.astype::<T>()), want.clone()),
            ("sum with zeros", imp(|| (plus.rr)(a, &z)), want.clone()),
            ("sum with zero", imp(|| (plus.rs)(a, T::zero())), want.clone()),
            ("clone of the clone", { let x = imp(|| a.clone()); let y = imp(|| x.clone()); imp(move || drop(x)); y }, want.clone()),
        ];
        if v.shape.is_empty() || v.shape.iter().all(|&n| n == 1) {
            cs.push(("sum", imp(|| a.sum()), want.clone()));
            cs.push(("maximum", imp(|| a.max()), want.clone()));
        }
        for ax in 0..v.shape.len() {
            if v.shape[ax] == 1 {
                cs.push(("sum along a singleton axis", imp(|| a.sum_along(ax as isize)), want.clone()));
                cs.push(("maximum along a singleton axis", imp(|| a.max_along(ax as isize)), want.clone()));
            }
        }
        steps(cs.len() as u64);
        // writes to the source
        let x = T::left(40);
        if !v.ro {
            imp(|| c.last_mut().fill(x));
            for &i in &v.ids { data[i as usize] = x; }
        } else {
            imp(|| c.links[0].fill(x));
            data.iter_mut().for_each(|d| *d = x);
        }
        for (what, y, want) in &cs {
            let s = y.shape().to_vec();
            expect(&format!("{what} after a write to its source"), y, &s, want);
        }
        // writes to the copies
        for k in 0..cs.len() {
            let what = cs[k].0;
            let y = &mut cs[k].1;
            let m = k as i64;
            imp(|| y.fill(T::val(50 + m)));
            cs[k].2.iter_mut().for_each(|d| *d = T::val(50 + m));
            step();
            expect(&format!("the source after filling its {what}"), c.root_ref(), &first.shape, &select(&data, &first.ids));
            for (w, y, want) in &cs {
                let s = y.shape().to_vec();
                expect(&format!("{w} after filling the {what}"), y, &s, want);
            }
        }
        imp(move || { drop(cs); drop(z) });
    });
}

/// All pairs of views of one array: a write through one, seen through the other.
fn view_pairs<T: Dt>(p: &mut Plan, root: &'static [usize], depth_a: usize, depth_b: usize) {
    let la = Rc::new(catalogue(root, &BORROW, depth_a));
    let lb = Rc::new(catalogue(root, &BORROW, depth_b));
    let chunk = la.len().div_ceil(32);
    for k in 0..la.len().div_ceil(chunk) {
        let (la, lb) = (la.clone(), lb.clone());
        p.group(format!("{} pairs of views of {root:?}, writers {}..", T::NAME, k * chunk), move |ctx| {
            for a in &la[k * chunk..((k + 1) * chunk).min(la.len())] {
                if a.view.ro { continue; }
                ctx.case(|| format!("writes through {}, seen through {} other views, of {}", show_path(root, &a.path), lb.len(), T::NAME), || {
                    let mut data: Vec<T> = fill_values(prod(root), 1);
                    let c = Chain::root(root, &data);
                    let grow = |path: &[Step]| -> Vec<Box<Arr<T>>> {
                        let mut v: Vec<Box<Arr<T>>> = vec![];
                        for s in path {
                            let src = match v.last() { Some(x) => unsafe { long(x) }, None => c.last() };
                            v.push(Box::new(imp(|| apply_ref(src, &s.op))));
                        }
                        if v.is_empty() { v.push(Box::new(imp(|| apply_ref(c.last(), &VOp::View)))); }
                        v
                    };
                    let observers: Vec<_> = lb.iter().map(|b| grow(&b.path)).collect();
                    let mut w = grow(&a.path);
                    let see = |data: &[T]| for (o, b) in observers.iter().zip(lb.iter()) {
                        let o = o.last().unwrap();
                        let want = select(data, &b.view.ids);
                        let what = || format!("seen through {}", show_path(root, &b.path));
                        if !same(&read_by_index(o), &want) { panic!("{}: {:?}, expected {want:?}", what(), read_by_index(o)); }
                        if !same(&read_by_iter(o), &want) { panic!("{} by iteration: {:?}, expected {want:?}", what(), read_by_iter(o)); }
                        step();
                    };
                    let x = T::val(90);
                    imp(|| w.last_mut().unwrap().fill(x));
                    for &i in &a.view.ids { data[i as usize] = x; }
                    see(&data);
                    let idx = indices(&a.view.shape);
                    for k in [0, idx.len() - 1] {
                        imp(|| *get_mut(w.last_mut().unwrap(), &idx[k]) = T::val(60 + k as i64));
                        data[a.view.ids[k] as usize] = T::val(60 + k as i64);
                        see(&data);
                    }
                    state(&("pairs", T::NAME, root, &a.view));
                    imp(move || { while let Some(x) = w.pop() { drop(x); } });
                    for mut o in observers { imp(move || { while let Some(x) = o.pop() { drop(x); } }); }
                });
            }
        });
    }
}

/// All histories of writes through a set of live views, each observed by all of them after every write.
fn histories(p: &mut Plan, root: &'static [usize], len: usize) {
    let recs = Rc::new(catalogue(root, &Alphabet { joint: 0, ..BORROW }, 1));
    let writers: Rc<Vec<usize>> = Rc::new((0..recs.len()).filter(|&i| !recs[i].view.ro).collect());
    for first in 0..writers.len() {
        let (recs, writers) = (recs.clone(), writers.clone());
        p.group(format!("histories of {len} writes to {root:?}, first through view {first}"), move |ctx| {
            let mut hs = vec![vec![writers[first]]];
            for _ in 1..len { hs = hs.iter().flat_map(|h| writers.iter().map(move |&w| { let mut h = h.clone(); h.push(w); h })).collect(); }
            for h in hs {
                ctx.case(|| format!("fills through {}", h.iter().map(|&w| show_path(root, &recs[w].path)).collect::<Vec<_>>().join("; ")), || {
                    let mut data: Vec<i32> = fill_values(prod(root), 1);
                    let c = Chain::root(root, &data);
                    let mut views: Vec<Arr<i32>> = recs.iter().map(|r| imp(|| apply_ref(c.last(), r.path.first().map_or(&VOp::View, |s| &s.op)))).collect();
                    for (k, &w) in h.iter().enumerate() {
                        let x = 100 + k as i32;
                        if k % 2 == 0 {
                            imp(|| views[w].fill(x));
                            for &i in &recs[w].view.ids { data[i as usize] = x; }
                        } else {
                            let last = indices(&recs[w].view.shape).pop().unwrap();
                            imp(|| *get_mut(&mut views[w], &last) = x);
                            data[*recs[w].view.ids.last().unwrap() as usize] = x;
                        }
                        step();
                        for (v, r) in views.iter().zip(recs.iter()) {
                            let want = select(&data, &r.view.ids);
                            if !same(&read_by_index(v), &want) { panic!("after write {k}, {} reads {:?}, expected {want:?}", show_path(root, &r.path), read_by_index(v)); }
                        }
                        state(&("history", root, &data));
                    }
                    imp(move || drop(views));
                });
            }
        });
    }
}

/// Readonly-ness is inherited through every further view, and does not spread to the source.
fn readonly(p: &mut Plan, root: &'static [usize]) {
    let recs = Rc::new(catalogue(root, &Alphabet { joint: 1, ..REP }, 3));
    let ro: Vec<usize> = (0..recs.len()).filter(|&i| recs[i].view.ro).collect();
    for part in 0..8 {
        let (recs, ro) = (recs.clone(), ro.clone());
        p.group(format!("views derived from broadcasts of {root:?} part {part}"), move |ctx| {
            for &i in ro.iter().skip(part).step_by(8) { visit_state::<i32>(ctx, root, &recs[i]); }
        });
    }
}

fn long_fill<T: Dt>(p: &mut Plan, max: usize) {
    p.group(format!("{} fills of every length", T::NAME), move |ctx| {
        for n in lengths(140, max).into_iter().chain(far_lengths(max)) {
            for (root, path, v) in long_layouts(n).into_iter().chain(if n < 5000 { long_layouts2(n, 3) } else { vec![] }) {
                if v.ro { continue; }
                ctx.case(|| format!("fill {} of {}", show_path(&root, &path), T::NAME), || {
                    let mut data: Vec<T> = fill_values(prod(&root), 1);
                    let mut c = Chain::build(&root, &data, &path);
                    imp(|| c.last_mut().fill(T::val(1)));
                    for &i in &v.ids { data[i as usize] = T::val(1); }
                    expect("after fill", c.root_ref(), &root, &data);
                    imp(|| c.last_mut().zero());
                    for &i in &v.ids { data[i as usize] = T::from(false); }
                    expect("after zero", c.root_ref(), &root, &data);
                    state(&("fill", T::NAME, n, &v.skey));
                    steps(2);
                });
            }
        }
    });
}

fn main() {
    mc::engine::main("C04", |tier| {
        let mut p = Plan::new(format!("{SPACE_TEXT}; a smaller space for each of the 15 element types; in each state every element written by index, fill and zero, observed through the root and every view of the history; refusals of all three for readonly states; copies (clone, flatten, conversion, results) of each state of a smaller space of 5 types; all pairs of views (depth 1-2) of 5 roots as writer and observer; all histories of 2-3 writes through simultaneously live views; fills of lengths 1..140 and around powers of two"));
        standard::<i32>(&mut p, tier, visit_state::<i32>);
        many_axes::<i32>(&mut p, visit_state::<i32>);
        far::<i32>(&mut p, visit_state::<i32>);
        moderate::<i32>(&mut p, visit_state::<i32>);
        moderate::<f32>(&mut p, visit_state::<f32>);
        moderate::<u8>(&mut p, visit_state::<u8>);
        dense_axes::<i32>(&mut p, visit_state::<i32>);
        macro_rules! dt { ($($t:ty),*) => { $( brief::<$t>(&mut p, visit_state::<$t>); long_fill::<$t>(&mut p, tier.pick(4097, 65537)); )* } }
        dt!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, bool);
        macro_rules! cp { ($($t:ty),*) => { $( brief::<$t>(&mut p, copies::<$t>); )* } }
        cp!(i32, u8, i64, f32, f64);
        for root in [&[4][..], &[2, 2], &[3, 2], &[2, 3, 2], &[2, 1, 2, 2]] { visit::<i32>(&mut p, root, REP, 2, copies::<i32>); }
        view_pairs::<i32>(&mut p, &[4], 2, 2);
        view_pairs::<i32>(&mut p, &[2, 3], 2, 1);
        view_pairs::<i32>(&mut p, &[3, 3], 1, 1);
        view_pairs::<i32>(&mut p, &[2, 2, 2], 1, 1);
        view_pairs::<f64>(&mut p, &[2, 2], 2, 1);
        histories(&mut p, &[3], 3);
        histories(&mut p, &[2, 2], 2);
        histories(&mut p, &[2, 3], 2);
        histories(&mut p, &[2, 2, 2], 2);
        readonly(&mut p, &[2]);
        readonly(&mut p, &[1, 2]);
        readonly(&mut p, &[2, 2]);
        p
    });
}
