//! C05: layout metadata is truthful for every reachable view.
use mc::*;
use redstone_ml::*;

fn check<T: Dt, A: StridedMemory>(a: &A, addr: impl Fn(&[usize]) -> usize, base: usize, v: &MView) {
    let size = std::mem::size_of::<T>();
    if a.shape() != v.shape { panic!("shape is {:?}, expected {:?}", a.shape(), v.shape); }
    if a.ndims() != v.shape.len() { panic!("ndims is {}", a.ndims()); }
    if a.len() != v.shape.first().copied().unwrap_or(0) { panic!("len is {}", a.len()); }
    if a.size() != v.ids.len() { panic!("size is {}, expected {}", a.size(), v.ids.len()); }
    if a.stride().len() != v.shape.len() { panic!("stride {:?} has the wrong length", a.stride()); }
    // where the elements really are
    let idx = indices(&v.shape);
    let at: Vec<usize> = idx.iter().map(|i| {
        let p = addr(i);
        if p < base || (p - base) % size != 0 { panic!("element {i:?} lies outside the root buffer"); }
        (p - base) / size
    }).collect();
    if at.iter().zip(&v.ids).any(|(&x, &y)| x != y as usize) { panic!("elements are at positions {at:?} of the root, expected {:?}", v.ids); }
    for ax in 0..v.shape.len() {
        if v.shape[ax] < 2 { continue; }
        for i in &idx {
            if i[ax] == 0 { continue; }
            let mut j = i.clone();
            j[ax] -= 1;
            let d = at[ravel(&v.shape, i)] as i64 - at[ravel(&v.shape, &j)] as i64;
            if d != a.stride()[ax] as i64 { panic!("the stride of axis {ax} is reported as {}, but {j:?} and {i:?} are {d} apart", a.stride()[ax]); }
        }
    }
    if a.is_view() == v.owned { panic!("is_view is {}, but the array {} its memory", a.is_view(), if v.owned { "owns" } else { "does not own" }); }
    let uniform = a.has_uniform_stride();
    if uniform.is_some() != a.is_uniformly_strided() { panic!("has_uniform_stride {uniform:?} disagrees with is_uniformly_strided {}", a.is_uniformly_strided()); }
    let real = v.progression();
    if let Some(d) = uniform {
        if v.ids.len() > 1 && real != Some(d) { panic!("reported uniformly strided with distance {d}, but the elements are at {at:?}"); }
    }
    if a.is_contiguous() {
        if v.ids.len() > 1 && real != Some(1) { panic!("reported contiguous, but the elements are at {at:?}"); }
        if uniform.is_none() { panic!("reported contiguous but not uniformly strided"); }
    }
    if !v.has_singleton() {
        if real.is_some() && uniform.is_none() { panic!("the elements are evenly spaced ({at:?}), but this is not reported"); }
        if (v.ids.len() == 1 || real == Some(1)) && !a.is_contiguous() { panic!("the elements are contiguous ({at:?}), but this is not reported"); }
    }
}

fn check_arr<T: Dt>(a: &NdArray<'_, T>, base: usize, v: &MView) {
    check::<T, _>(a, |i| { let x = match_index(a, i); x as *const T as usize }, base, v);
    check::<T, _>(&a, |i| { let x = match_index(a, i); x as *const T as usize }, base, v);
    if a.is_contiguous() {
        let d = imp(|| a.data_slice());
        if d.len() != v.ids.len() || d.as_ptr() as usize != base + v.ids[0] as usize * std::mem::size_of::<T>() {
            panic!("data_slice has {} elements, expected {}", d.len(), v.ids.len());
        }
    }
}

fn match_index<'b, T: Dt>(a: &'b NdArray<'_, T>, i: &[usize]) -> &'b T { get_ref(a, i) }

fn visit_state<T: Dt>(ctx: &mut Ctx, root: &[usize], r: &Rec) {
    let data: Vec<T> = fill_values(prod(root), 1);
    ctx.case(|| format!("{} of {}", show_path(root, &r.path), T::NAME), || {
        let mut c = Chain::root(root, &data);
        let base = get_ref(c.last(), &vec![0; root.len()]) as *const T as usize;
        let mut v = MView::root(root);
        check_arr(c.last(), base, &v);
        for s in &r.path {
            c.push(s);
            v = v.after(s).unwrap();
            check_arr(c.last(), base, &v);
        }
        state(&(root, &v));
        outcome(&(c.last().is_contiguous(), c.last().has_uniform_stride(), &v.shape));
        // copies are fresh arrays
        let a = c.last();
        let m = MView::root(&v.shape);
        let x = imp(|| a.clone());
        fresh_check("clone", &x, &m);
        let y = imp(|| a.flatten());
        fresh_check("flatten", &y, &MView::root(&[v.ids.len()]));
        imp(move || { drop(x); drop(y) });
    });
}

fn fresh_check<T: Dt>(what: &str, a: &NdArray<'_, T>, m: &MView) {
    let base = get_ref(a, &vec![0; a.ndims()]) as *const T as usize;
    check_arr(a, base, m);
    if !a.is_contiguous() || a.is_view() || !a.is_uniformly_strided() { panic!("{what}: a fresh array is not reported contiguous and owned"); }
    if m.ids.len() > 1 && a.has_uniform_stride() != Some(1) { panic!("{what}: a fresh array has uniform stride {:?}", a.has_uniform_stride()); }
    if a.stride() != row_major(&m.shape) { panic!("{what}: a fresh array of shape {:?} has stride {:?}", m.shape, a.stride()); }
    step();
}

fn fresh_own<T: Dt>(what: &str, a: &NdArray<'_, T>) { fresh_check(what, a, &MView::root(a.shape())) }

/// Arrays and tensors made by constructors and operations are fresh.
fn fresh_group(ctx: &mut Ctx) {
    let shapes: Vec<Vec<usize>> = shapes_upto(4, &[1, 2, 3]).into_iter().chain(vec![vec![5, 1, 1, 2, 3], vec![64], vec![65, 2], vec![2, 2, 2, 2, 2, 2]]).collect();
    for s in shapes {
        ctx.case(|| format!("fresh arrays of shape {s:?}"), || {
            let m = MView::root(&s);
            let n = prod(&s);
            let a = imp(|| NdArray::<f64>::full(2.0, s.clone()));
            fresh_check("full", &a, &m);
            fresh_check("zeros", &imp(|| NdArray::<i32>::zeros(s.clone())), &m);
            fresh_check("ones", &imp(|| NdArray::<u8>::ones(s.clone())), &m);
            fresh_check("rand", &imp(|| NdArray::<f32>::rand(s.clone())), &m);
            fresh_check("randint", &imp(|| NdArray::<i64>::randint(s.clone(), 0, 5)), &m);
            fresh_check("add", &imp(|| &a + &a), &m);
            fresh_check("scalar mul", &imp(|| &a * 3.0), &m);
            fresh_check("neg", &imp(|| -&a), &m);
            fresh_check("astype", &imp(|| a.astype::<i16>()), &m);
            // (which shape these have is for other properties to say)
            fresh_own("sum", &imp(|| a.sum()));
            for ax in 0..s.len() {
                fresh_own("sum_along", &imp(|| a.sum_along(ax as isize)));
                fresh_own("max_along", &imp(|| a.max_along(ax as isize)));
            }
            fresh_own("arange", &imp(|| NdArray::arange(0usize, n)));
            fresh_own("linspace", &imp(|| NdArray::linspace(0f32, 1.0, n)));
            let t = imp(|| Tensor::<f32>::full(1.0, s.clone()));
            let b = imp(|| t.ndarray());
            fresh_check("tensor", b, &m);
            let base = get_ref(b, &vec![0; s.len()]) as *const f32 as usize;
            check::<f32, _>(&t, |i| get_ref(t.ndarray(), i) as *const f32 as usize, base, &m);
            let al = Alphabet { neg: false, consume: false, full_ix: false, joint: 0, max_dims: 5, max_size: 200 };
            for st in enabled(&m, &al) {
                if !st.op.consumable() { continue; }
                let Verdict::Must(v) = m.apply(&st.op) else { continue };
                let tt: &'static Tensor<'static, f32> = unsafe { std::mem::transmute(&t) };
                let w = imp(|| match &st.op {
                    VOp::Reshape(s) => tt.reshape(s.clone()),
                    VOp::View => tt.view(),
                    VOp::Squeeze => tt.squeeze(),
                    VOp::Unsqueeze(a) => tt.unsqueeze(*a),
                    VOp::T => tt.T(),
                    VOp::Transpose(a, b) => tt.transpose(*a, *b),
                    _ => unreachable!(),
                });
                check::<f32, _>(&w, |i| get_ref(w.ndarray(), i) as *const f32 as usize, base, &v);
                step();
                imp(move || drop(w));
            }
        });
    }
}

fn main() {
    mc::engine::main("C05", |tier| {
        let mut p = Plan::new(format!("{SPACE_TEXT}; a smaller space for each of the 15 element types; fresh arrays and tensors of all shapes with <= 4 axes of length <= 3"));
        p.assume("an axis of length one has no neighbouring elements, so its reported stride is unconstrained");
        standard::<i32>(&mut p, tier, visit_state::<i32>);
        many_axes::<i32>(&mut p, visit_state::<i32>);
        far::<i32>(&mut p, visit_state::<i32>);
        moderate::<i32>(&mut p, visit_state::<i32>);
        moderate::<f32>(&mut p, visit_state::<f32>);
        moderate::<u8>(&mut p, visit_state::<u8>);
        dense_axes::<i32>(&mut p, visit_state::<i32>);
        macro_rules! dt { ($($t:ty),*) => { $( brief::<$t>(&mut p, visit_state::<$t>); )* } }
        dt!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, bool);
        p.group("fresh", fresh_group);
        p
    });
}
