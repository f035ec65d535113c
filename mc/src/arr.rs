//! Driving the real arrays.

use crate::dt::Dt;
use crate::engine::*;
use crate::model::*;
use redstone_ml::*;

pub type Arr<T> = NdArray<'static, T>;

/// Forgets the lifetime of a view.  The caller keeps the viewed array alive and in place.
pub unsafe fn forget_lifetime<'a, T: RawDataType>(a: NdArray<'a, T>) -> Arr<T> { std::mem::transmute(a) }
pub unsafe fn long<'a, T: RawDataType>(a: &NdArray<'a, T>) -> &'static NdArray<'static, T> { std::mem::transmute(a) }

pub fn index_of(ix: &Ix) -> Index {
    match *ix {
        Ix::At(i) => Index::from(i),
        Ix::Range(a, b) => Index::from(a..b),
        Ix::From(a) => Index::from(a..),
        Ix::Full => Index::from(..),
        Ix::Incl(a, b) => Index::from(a..=b),
        Ix::To(b) => Index::from(..b),
        Ix::ToIncl(b) => Index::from(..=b),
    }
}

/// Applies a view operation by borrowing.
pub fn apply_ref<T: RawDataType>(a: &'static NdArray<'static, T>, op: &VOp) -> Arr<T> {
    match op {
        VOp::Slice(ixs) => a.slice(ixs.iter().map(index_of).collect::<Vec<_>>()),
        VOp::SliceAlong(ax, ix) => match *ix {
            // the concrete index types, as a caller would write them
            Ix::At(i) => a.slice_along(Axis(*ax), i),
            Ix::Range(x, y) => a.slice_along(Axis(*ax), x..y),
            Ix::From(x) => a.slice_along(Axis(*ax), x..),
            Ix::Full => a.slice_along(Axis(*ax), ..),
            Ix::Incl(x, y) => a.slice_along(Axis(*ax), x..=y),
            Ix::To(y) => a.slice_along(Axis(*ax), ..y),
            Ix::ToIncl(y) => a.slice_along(Axis(*ax), ..=y),
        },
        VOp::Reshape(s) => a.reshape(s.clone()),
        VOp::View => a.view(),
        VOp::Squeeze => a.squeeze(),
        VOp::Unsqueeze(ax) => a.unsqueeze(*ax),
        VOp::T => a.T(),
        VOp::Transpose(x, y) => a.transpose(*x, *y),
        VOp::Broadcast(s) => a.broadcast_to(s),
        VOp::Diagonal => a.diagonal(),
        VOp::DiagonalAlong(x, y) => a.diagonal_along(*x, *y),
        VOp::OffsetDiagonal(k) => a.offset_diagonal(*k),
        VOp::OffsetDiagonalAlong(k, x, y) => a.offset_diagonal_along(*k, *x, *y),
    }
}

/// Applies a view operation by consuming.
pub fn apply_own<T: RawDataType>(a: Arr<T>, op: &VOp) -> Arr<T> {
    match op {
        VOp::Reshape(s) => a.reshape(s.clone()),
        VOp::View => a.view(),
        VOp::Squeeze => a.squeeze(),
        VOp::Unsqueeze(ax) => a.unsqueeze(*ax),
        VOp::T => a.T(),
        VOp::Transpose(x, y) => a.transpose(*x, *y),
        _ => unreachable!(),
    }
}

/// A root array and a chain of views, each of the one before it (dropped in reverse order).
pub struct Chain<T: RawDataType> { pub links: Vec<Box<Arr<T>>> }

impl<T: RawDataType> Drop for Chain<T> {
    fn drop(&mut self) { while let Some(x) = self.links.pop() { imp(move || drop(x)); } }
}

impl<T: Dt> Chain<T> {
    pub fn root(shape: &[usize], data: &[T]) -> Chain<T> {
        let a = imp(|| flat(data));
        let a = imp(move || if shape.len() == 1 { a } else { a.reshape(shape.to_vec()) });
        Chain { links: vec![Box::new(a)] }
    }
    pub fn build(shape: &[usize], data: &[T], path: &[Step]) -> Chain<T> {
        let mut c = Chain::root(shape, data);
        for s in path { c.push(s); }
        c
    }
    pub fn last(&self) -> &'static Arr<T> { unsafe { long(self.links.last().unwrap()) } }
    pub fn last_mut(&mut self) -> &mut Arr<T> { self.links.last_mut().unwrap() }
    pub fn root_ref(&self) -> &'static Arr<T> { unsafe { long(&self.links[0]) } }
    /// Takes the newest view out (what it views stays alive in the chain).
    pub fn take(&mut self) -> Arr<T> { *self.links.pop().unwrap() }

    pub fn push(&mut self, s: &Step) {
        if s.consume {
            let a = *self.links.pop().unwrap();
            let b = imp(|| apply_own(a, &s.op));
            self.links.push(Box::new(b));
        } else {
            let a = self.last();
            let b = imp(|| apply_ref(a, &s.op));
            self.links.push(Box::new(b));
        }
        step();
    }
    pub fn try_push(&mut self, s: &Step) -> Result<(), String> {
        let b = if s.consume {
            let a = *self.links.pop().unwrap();
            attempt(|| apply_own(a, &s.op))?
        } else {
            let a = self.last();
            attempt(|| apply_ref(a, &s.op))?
        };
        self.links.push(Box::new(b));
        step();
        Ok(())
    }
}

/// A fresh 1-dimensional array with the given elements.
pub fn flat<T: Dt>(data: &[T]) -> Arr<T> {
    if data.is_empty() { panic!("harness: empty data"); }
    unsafe { <NdArray<T> as Constructors<T>>::from_contiguous_owned_buffer(vec![data.len()], data.to_vec()) }
}

/// A fresh array of the given shape.
pub fn fresh<T: Dt>(shape: &[usize], data: &[T]) -> Arr<T> {
    assert_eq!(prod(shape), data.len());
    imp(|| unsafe { <NdArray<T> as Constructors<T>>::from_contiguous_owned_buffer(shape.to_vec(), data.to_vec()) })
}

macro_rules! with_array { ($i:expr, $x:ident => $e:expr) => { with_array!(@ $i, $x, $e, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32) };
    (@ $i:expr, $x:ident, $e:expr, $($n:literal)*) => { match $i.len() { $( $n => { let $x: [usize; $n] = $i.try_into().unwrap(); $e } )* _ => panic!("harness: too many dimensions") } } }

/// Element at a multi-index, by the indexing operator.
pub fn get<T: RawDataType>(a: &NdArray<'_, T>, i: &[usize]) -> T { with_array!(i, x => a[x]) }

pub fn get_ref<'b, T: RawDataType>(a: &'b NdArray<'_, T>, i: &[usize]) -> &'b T { with_array!(i, x => &a[x]) }

pub fn get_mut<'b, T: RawDataType>(a: &'b mut NdArray<'_, T>, i: &[usize]) -> &'b mut T { with_array!(i, x => &mut a[x]) }

/// All elements, through the indexing operator (the most primitive observation).
pub fn read_by_index<T: RawDataType>(a: &NdArray<'_, T>) -> Vec<T> {
    let idx = indices(a.shape());
    imp(|| 0);
    idx.iter().map(|i| get(a, i)).collect()
}

/// All elements, through element iteration.
pub fn read_by_iter<T: RawDataType>(a: &NdArray<'_, T>) -> Vec<T> {
    let n = prod(a.shape());
    let mut out = Vec::with_capacity(n);
    let mut it = imp(|| a.flatiter());
    while let Some(x) = imp(|| it.next()) {
        out.push(x);
        if out.len() > n { panic!("element iteration yields more than {n} elements"); }
    }
    out
}

/// Fails the case unless `a` is exactly the array with this shape and these elements.
pub fn expect<T: Dt>(what: &str, a: &NdArray<'_, T>, shape: &[usize], data: &[T]) {
    if a.shape() != shape {
        panic!("{what}: shape is {:?}, expected {:?}", a.shape(), shape);
    }
    let got = read_by_index(a);
    if !crate::dt::same(&got, data) {
        panic!("{what}: elements (shape {shape:?}) are {got:?}, expected {data:?}");
    }
}

pub fn select<T: Copy>(data: &[T], ids: &[u32]) -> Vec<T> { ids.iter().map(|&i| data[i as usize]).collect() }

pub fn show_path(root: &[usize], path: &[Step]) -> String {
    let mut s = format!("root{root:?}");
    for p in path { s += &format!(".{:?}{}", p.op, if p.consume { "(consuming)" } else { "" }); }
    s
}

/// A fresh tensor (a leaf).
pub fn tensor<T: Dt + TensorDataType>(shape: &[usize], data: &[T]) -> Tensor<'static, T> {
    assert_eq!(prod(shape), data.len());
    imp(|| unsafe { <Tensor<'static, T> as Constructors<T>>::from_contiguous_owned_buffer(shape.to_vec(), data.to_vec()) })
}
