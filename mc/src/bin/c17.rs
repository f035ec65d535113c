//! C17: type conversion preserves every representable value.
use mc::*;
use redstone_ml::*;

/// A number, exactly: an integer, or a float.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Num { Int(bool, u128), Float(f64) }

trait N: Dt + NumericDataType {
    /// The values converted: all of a small type, boundary values of a large one.
    fn interesting() -> Vec<Self>;
    fn num(self) -> Num;
    /// The number as this type, or None if it cannot be represented; `Some(None)` if either is acceptable.
    fn from_num(n: Num) -> Want<Self>;
}
#[derive(Clone, Copy, Debug)]
enum Want<T> { Value(T), Refuse, Either(T) }

/// The magnitude of a float's integral part, exactly (None if it has more than 128 bits).
fn trunc_mag(x: f64) -> Option<u128> {
    let bits = x.to_bits();
    let exp = (bits >> 52 & 0x7ff) as i32;
    if exp == 0x7ff { return None; }
    let man = (bits & ((1 << 52) - 1)) | if exp > 0 { 1 << 52 } else { 0 };
    let shift = exp.max(1) - 1075;
    if shift <= -53 { return Some(0); }
    if shift <= 0 { return Some((man >> -shift) as u128); }
    if shift + 53 > 128 { return if man == 0 { Some(0) } else { None }; }
    Some((man as u128) << shift)
}

macro_rules! ints { ($($t:ident),*) => { $( impl N for $t {
    fn interesting() -> Vec<$t> {
        if <$t>::BITS <= 16 { return (<$t>::MIN..=<$t>::MAX).collect(); }
        let mut v: Vec<$t> = vec![];
        for k in 0..<$t>::BITS { for d in 0..3 {
            let x: $t = (1 as $t) << k;
            for y in [x.wrapping_add(d), x.wrapping_sub(d), (0 as $t).wrapping_sub(x).wrapping_add(d), (0 as $t).wrapping_sub(x).wrapping_sub(d), x | x >> 1, x | x >> 24, x | x >> 25 , x | x.checked_shr(53).unwrap_or(0), x | x.checked_shr(54).unwrap_or(0)] { v.push(y); }
        } }
        for d in 0..260u16 { let d = d as $t; v.extend([<$t>::MIN.wrapping_add(d), <$t>::MAX.wrapping_sub(d), d]); }
        let mut seen = std::collections::HashSet::new();
        v.retain(|x| seen.insert(*x));
        v
    }
    fn num(self) -> Num { #[allow(unused_comparisons)] if self < 0 { Num::Int(true, (self as i128).unsigned_abs()) } else { Num::Int(false, self as u128) } }
    fn from_num(n: Num) -> Want<$t> {
        let (neg, mag) = match n {
            Num::Int(neg, m) => (neg, Some(m)),
            Num::Float(x) => (x < 0.0, trunc_mag(x)),
        };
        let Some(m) = mag else { return Want::Refuse };
        if m == 0 { return Want::Value(0); }
        if neg {
            if <$t>::MIN == 0 || m > (<$t>::MIN as i128).unsigned_abs() { return Want::Refuse; }
            Want::Value((m as $t).wrapping_neg())
        } else if m > <$t>::MAX as u128 { Want::Refuse } else { Want::Value(m as $t) }
    }
} )* } }
ints!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

/// The integer rounded to nearest-even with `p` bits of precision, as an exact double or a power-of-two overflow.
fn round_int(m: u128, p: u32) -> f64 {
    let len = 128 - m.leading_zeros();
    if len <= p { return m as f64; }
    let cut = len - p;
    let (q, r) = (m >> cut, m & ((1u128 << cut) - 1));
    let half = 1u128 << (cut - 1);
    let q = if r > half || (r == half && q & 1 == 1) { q + 1 } else { q };
    q as f64 * 2f64.powi(cut as i32)
}

fn floats64() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 0.1, 1.0 / 3.0, 1e300, -1e300, 1e40, f32::MAX as f64, f32::MIN_POSITIVE as f64, f32::from_bits(1) as f64, f32::from_bits(1) as f64 / 2.0, f32::MAX as f64 * (1.0 + f32::EPSILON as f64 / 4.0)];
    for k in [0, 1, 2, 7, 8, 15, 16, 23, 24, 25, 31, 32, 52, 53, 54, 62, 63, 64, 65, 95, 126, 127, 128, 129, 200] {
        let x = 2f64.powi(k);
        for y in [x, x + 1.0, x - 1.0, x + 0.5, x - 0.5, x - 0.25, x * (1.0 + f64::EPSILON), x * (1.0 - f64::EPSILON / 2.0), x + 0.999, x * (1.0 + f32::EPSILON as f64), x * (1.0 + f32::EPSILON as f64 / 2.0), x * (1.0 - f32::EPSILON as f64 / 2.0)] { v.extend([y, -y]); }
    }
    for k in -600..=600 { v.push(k as f64 / 2.0); v.push(k as f64 + 0.99); }
    v
}

impl N for f64 {
    fn interesting() -> Vec<f64> { floats64() }
    fn num(self) -> Num { Num::Float(self) }
    fn from_num(n: Num) -> Want<f64> {
        Want::Value(match n { Num::Float(x) => x, Num::Int(neg, m) => { let r = round_int(m, 53); if neg { -r } else { r } } })
    }
}
impl N for f32 {
    fn interesting() -> Vec<f32> {
        let mut v: Vec<f32> = floats64().into_iter().map(|x| x as f32).collect();
        v.extend([f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::from_bits(1), f32::from_bits(0x007fffff), f32::from_bits(0x7f7ffffe)]);
        v
    }
    fn num(self) -> Num { Num::Float(self as f64) }
    fn from_num(n: Num) -> Want<f32> {
        match n {
            Num::Float(x) => { let r = x as f32; if r.is_infinite() && x.is_finite() { Want::Either(r) } else { Want::Value(r) } }
            Num::Int(neg, m) => {
                let r = round_int(m, 24);
                let r = if neg { -r } else { r };
                if r.abs() > f32::MAX as f64 { Want::Either(if neg { f32::NEG_INFINITY } else { f32::INFINITY }) } else { Want::Value(r as f32) }
            }
        }
    }
}

fn pair<A: N, B: N>(p: &mut Plan, layouts: &std::rc::Rc<Vec<(Vec<usize>, Rec)>>) {
    p.group(format!("{} to {} values", A::NAME, B::NAME), |ctx| {
        let vals = A::interesting();
        let mut good = vec![];
        for (k, &x) in vals.iter().enumerate() {
            let want = B::from_num(x.num());
            if let Want::Value(y) = want { good.push((x, y)); }
            // one by one (one element, so that a refusal is about this element)
            ctx.case(|| format!("[{x:?}].astype::<{}>() of {}", B::NAME, A::NAME), || {
                step();
                let a = fresh::<A>(&[1], &[x]);
                one::<A, B>(x, want, attempt(|| a.astype::<B>()));
            });
            // the first few also as a scalar array and next to a harmless element
            if k < 600 || matches!(want, Want::Refuse) && k % 16 == 0 {
                ctx.case(|| format!("scalar {x:?} .astype::<{}>() of {}", B::NAME, A::NAME), || {
                    step();
                    let a = fresh::<A>(&[], &[x]);
                    match (want, attempt(|| a.astype::<B>())) {
                        (Want::Value(y), Ok(b)) => expect("converted scalar", &b, &[], &[y]),
                        (Want::Value(_), Err(e)) => panic!("refused: {e}"),
                        (Want::Refuse, Ok(b)) => panic!("accepted, giving {:?}", b[[]]),
                        (Want::Either(y), Ok(b)) => expect("converted scalar", &b, &[], &[y]),
                        _ => {}
                    }
                });
                for at in 0..3 {
                    ctx.case(|| format!("[1, 1, 1] with {x:?} at {at} .astype::<{}>() of {}", B::NAME, A::NAME), || {
                        step();
                        let mut d = [A::val(1); 3];
                        d[at] = x;
                        let a = fresh::<A>(&[3], &d);
                        match (want, attempt(|| a.astype::<B>())) {
                            (Want::Value(y) | Want::Either(y), Ok(b)) => { let mut w = [B::val(1); 3]; w[at] = y; expect("converted", &b, &[3], &w); }
                            (Want::Value(_), Err(e)) => panic!("refused: {e}"),
                            (Want::Refuse, Ok(_)) => panic!("accepted"),
                            _ => {}
                        }
                    });
                }
            }
        }
        // all representable values at once
        ctx.case(|| format!("all {} representable values, {} to {}", good.len(), A::NAME, B::NAME), || {
            step();
            let (x, y): (Vec<A>, Vec<B>) = good.iter().copied().unzip();
            let a = fresh::<A>(&[x.len()], &x);
            let b = imp(|| a.astype::<B>());
            expect("converted", &b, &[y.len()], &y);
        });
    });
    let layouts = layouts.clone();
    p.group(format!("{} to {} layouts", A::NAME, B::NAME), move |ctx| {
        for (root, r) in layouts.iter() { layout::<A, B>(ctx, root, r); }
    });
}

fn one<A: N, B: N>(x: A, want: Want<B>, got: Result<Arr<B>, String>) {
    match (want, got) {
        (Want::Value(y), Ok(b)) => { expect("converted", &b, &[1], &[y]); state(&(A::NAME, B::NAME, y.key())); }
        (Want::Value(y), Err(e)) => panic!("{x:?} is refused ({e}), expected {y:?}"),
        (Want::Refuse, Ok(b)) => panic!("{x:?} cannot be represented, yet gives {:?}", b[[0]]),
        (Want::Either(y), Ok(b)) => expect("converted", &b, &[1], &[y]),
        (_, Err(_)) => outcome("refused"),
    }
}

/// The conversion of a view: shape, elements, independence from the source.
fn layout<A: N, B: N>(ctx: &mut Ctx, root: &[usize], r: &Rec) {
    ctx.case(|| format!("{}.astype::<{}>() of {}", show_path(root, &r.path), B::NAME, A::NAME), || {
        let n = prod(root);
        let data: Vec<A> = (0..n).map(|i| A::val((i * 7 % 100 + 1) as i64)).collect();
        let mut c = Chain::<A>::build(root, &data, &r.path);
        step();
        let v = c.last();
        let src: Vec<A> = select(&data, &r.view.ids);
        let want: Vec<B> = src.iter().map(|x| match B::from_num(x.num()) { Want::Value(y) => y, _ => panic!("harness: not representable") }).collect();
        let mut b = imp(|| v.astype::<B>());
        expect("converted", &b, &r.view.shape, &want);
        state(&(A::NAME, B::NAME, &r.view.shape, &r.view.skey));
        if b.is_view() { panic!("the conversion is a view"); }
        if !b.is_contiguous() { panic!("the conversion is not contiguous"); }
        if !same(&read_by_iter(&b), &want) { panic!("iteration disagrees"); }
        imp(|| b.fill(B::val(9)));
        expect("filled conversion", &b, &r.view.shape, &vec![B::val(9); want.len()]);
        expect("source after writing to the conversion", v, &r.view.shape, &src);
        let b = imp(|| v.astype::<B>());
        if !r.view.ro {
            imp(|| c.last_mut().fill(A::val(77)));
            expect("conversion after writing to the source", &b, &r.view.shape, &want);
        }
        drop(c);
        expect("conversion after dropping the source", &b, &r.view.shape, &want);
    });
}

fn main() {
    mc::engine::main("C17", |tier| {
        let mut p = Plan::new(format!("all 196 dtype pairs; all values of the 8- and 16-bit types, > 600 boundary values of each other type, one at a time, next to others at each position, and all together; every distinct layout reachable by <= {} view operations from {} roots for every dtype pair; lengths up to 1025 and 6 dimensions for 4 pairs", tier.pick(1, 2), 6));
        p.assume("a finite number too large for a float type may become infinite or be refused");
        p.memory = false;
        let ls = std::rc::Rc::new(layouts(&[&[], &[1], &[5], &[2, 3], &[3, 1, 2], &[2, 2, 3]], REP, tier.pick(1, 2)));
        macro_rules! from { ($a:ty) => { to!($a; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64) } }
        macro_rules! to { ($a:ty; $($b:ty),*) => { $( pair::<$a, $b>(&mut p, &ls); )* } }
        from!(i8); from!(i16); from!(i32); from!(i64); from!(i128); from!(isize); from!(u8); from!(u16); from!(u32); from!(u64); from!(u128); from!(usize); from!(f32); from!(f64);
        many_axes::<f32>(&mut p, |ctx, root, r| layout::<f32, f64>(ctx, root, r));
        standard::<f32>(&mut p, tier, |ctx, root, r| layout::<f32, f64>(ctx, root, r));
        standard::<i32>(&mut p, Tier::Quick, |ctx, root, r| layout::<i32, i32>(ctx, root, r));
        brief::<f64>(&mut p, |ctx, root, r| layout::<f64, f32>(ctx, root, r));
        brief::<f64>(&mut p, |ctx, root, r| layout::<f64, u8>(ctx, root, r));
        p
    });
}
