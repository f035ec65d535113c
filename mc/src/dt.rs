//! Element types.

use redstone_ml::*;
use std::fmt::Debug;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Signed, Unsigned, Float, Bool }

/// An element type of the library, with what the checks need to know about it.
pub trait Dt: RawDataType + PartialEq + Debug + Copy + From<bool> {
    const NAME: &'static str;
    const KIND: Kind;
    /// A small value; distinct for distinct small `i` (where the type has enough values).
    fn val(i: i64) -> Self;
    /// Bit pattern, with all NaNs identified; two elements are "the same" iff keys are equal.
    fn key(self) -> u128;
}

macro_rules! int_dt { ($($t:ident $k:ident),*) => { $(
    impl Dt for $t {
        const NAME: &'static str = stringify!($t);
        const KIND: Kind = Kind::$k;
        fn val(i: i64) -> Self { i as $t }
        fn key(self) -> u128 { self as u128 }
    }
)* } }
int_dt!(i8 Signed, i16 Signed, i32 Signed, i64 Signed, i128 Signed, isize Signed,
        u8 Unsigned, u16 Unsigned, u32 Unsigned, u64 Unsigned, u128 Unsigned, usize Unsigned);

impl Dt for f32 {
    const NAME: &'static str = "f32";
    const KIND: Kind = Kind::Float;
    fn val(i: i64) -> Self { i as f32 }
    fn key(self) -> u128 { if self.is_nan() { u128::MAX } else { self.to_bits() as u128 } }
}
impl Dt for f64 {
    const NAME: &'static str = "f64";
    const KIND: Kind = Kind::Float;
    fn val(i: i64) -> Self { i as f64 }
    fn key(self) -> u128 { if self.is_nan() { u128::MAX } else { self.to_bits() as u128 } }
}
impl Dt for bool {
    const NAME: &'static str = "bool";
    const KIND: Kind = Kind::Bool;
    fn val(i: i64) -> Self { i % 3 == 1 || i % 7 == 2 }
    fn key(self) -> u128 { self as u128 }
}

pub fn same<T: Dt>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.key() == y.key())
}

/// The initial contents of a root buffer: distinct, with a recognisable offset.
pub fn fill_values<T: Dt>(n: usize, base: i64) -> Vec<T> { (0..n).map(|i| T::val(base + i as i64)).collect() }

/// Runs a generic item for each listed element type.
#[macro_export]
macro_rules! for_types {
    ($f:ident!($($args:tt)*); $($t:ty),*) => { $( $f!($t, $($args)*); )* };
}
