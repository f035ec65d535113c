//! The elementwise operators, with their scalar meaning as oracle.
use crate::arr::Arr;
use crate::dt::Dt;
use redstone_ml::*;

/// One binary operator of one element type.
#[derive(Clone, Copy)]
pub struct Op<T: RawDataType> {
    pub name: &'static str,
    /// the scalar operation, or None where the scalar operation itself panics
    pub f: fn(T, T) -> Option<T>,
    pub rr: fn(&Arr<T>, &Arr<T>) -> Arr<T>,
    pub ro: fn(&Arr<T>, Arr<T>) -> Arr<T>,
    pub or: fn(Arr<T>, &Arr<T>) -> Arr<T>,
    pub oo: fn(Arr<T>, Arr<T>) -> Arr<T>,
    pub rs: fn(&Arr<T>, T) -> Arr<T>,
    pub os: fn(Arr<T>, T) -> Arr<T>,
    pub ar: fn(&mut Arr<T>, &Arr<T>),
    pub ao: fn(&mut Arr<T>, Arr<T>),
    pub asc: fn(&mut Arr<T>, T),
}

macro_rules! op {
    ($t:ty, $name:literal, $o:tt, $oa:tt, $f:expr) => {
        Op::<$t> {
            name: $name, f: $f,
            rr: |a, b| a $o b, ro: |a, b| a $o b, or: |a, b| a $o b, oo: |a, b| a $o b,
            rs: |a, s| a $o s, os: |a, s| a $o s,
            ar: |a, b| *a $oa b, ao: |a, b| *a $oa b, asc: |a, s| *a $oa s,
        }
    };
}

pub trait HasOps: Dt {
    fn ops() -> Vec<Op<Self>>;
    /// negation (by reference, by value), where the type has it
    fn neg() -> Option<(fn(Self) -> Option<Self>, fn(&Arr<Self>) -> Arr<Self>, fn(Arr<Self>) -> Arr<Self>)>;
    /// boundary values
    fn special() -> Vec<Self>;
    /// non-zero small operand values for which no operator of the type panics (k is any index)
    fn left(k: usize) -> Self;
    fn right(k: usize) -> Self;
}

macro_rules! int_ops { ($neg:ident: $($t:ident),*) => { $(
    impl HasOps for $t {
        fn ops() -> Vec<Op<$t>> {
            vec![
                op!($t, "-", -, -=, |a, b| a.checked_sub(b)),
                op!($t, "+", +, +=, |a, b| a.checked_add(b)),
                op!($t, "*", *, *=, |a, b| a.checked_mul(b)),
                op!($t, "%", %, %=, |a, b| a.checked_rem(b)),
                op!($t, "&", &, &=, |a, b| Some(a & b)),
                op!($t, "|", |, |=, |a, b| Some(a | b)),
                op!($t, "<<", <<, <<=, |a, b| if (0 as $t) <= b && (b as u128) < <$t>::BITS as u128 { Some(a << b) } else { None }),
                op!($t, ">>", >>, >>=, |a, b| if (0 as $t) <= b && (b as u128) < <$t>::BITS as u128 { Some(a >> b) } else { None }),
            ]
        }
        fn neg() -> Option<(fn($t) -> Option<$t>, fn(&Arr<$t>) -> Arr<$t>, fn(Arr<$t>) -> Arr<$t>)> { $neg!($t) }
        fn special() -> Vec<$t> {
            let mut v = vec![<$t>::MIN, <$t>::MIN + 1, 0, 1, 2, 3, 7, <$t>::BITS as $t - 1, <$t>::MAX / 2, <$t>::MAX - 1, <$t>::MAX];
            if <$t>::MIN != 0 { v.push((0 as $t).wrapping_sub(1)); v.push((0 as $t).wrapping_sub(2)); }
            v
        }
        fn left(k: usize) -> $t { (20 + k % 10 + (k / 10) % 3) as $t }
        fn right(k: usize) -> $t { (1 + k % 3 + (k / 3) % 2) as $t }
    }
)* } }
macro_rules! signed_neg { ($t:ident) => { Some((|a| a.checked_neg(), |a| -a, |a| -a)) } }
macro_rules! no_neg { ($t:ident) => { None } }
int_ops!(signed_neg: i8, i16, i32, i64, i128, isize);
int_ops!(no_neg: u8, u16, u32, u64, u128, usize);

macro_rules! float_ops { ($($t:ident),*) => { $(
    impl HasOps for $t {
        fn ops() -> Vec<Op<$t>> {
            vec![
                op!($t, "-", -, -=, |a, b| Some(a - b)),
                op!($t, "+", +, +=, |a, b| Some(a + b)),
                op!($t, "*", *, *=, |a, b| Some(a * b)),
                op!($t, "/", /, /=, |a, b| Some(a / b)),
                op!($t, "%", %, %=, |a, b| Some(a % b)),
            ]
        }
        fn neg() -> Option<(fn($t) -> Option<$t>, fn(&Arr<$t>) -> Arr<$t>, fn(Arr<$t>) -> Arr<$t>)> { Some((|a| Some(-a), |a| -a, |a| -a)) }
        fn special() -> Vec<$t> {
            vec![0.0, -0.0, 1.0, -1.5, 3.25, <$t>::MAX, <$t>::MIN, <$t>::MIN_POSITIVE, <$t>::EPSILON, <$t>::MIN_POSITIVE / 4.0,
                 <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN, 1.0 / 3.0, -7.0]
        }
        fn left(k: usize) -> $t { 17.25 + k as $t * 0.37 }
        fn right(k: usize) -> $t { 1.5 + (k % 7) as $t * 0.61 }
    }
)* } }
float_ops!(f32, f64);
