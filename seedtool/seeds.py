"""Planted bugs: written from the properties and the code, not from the checks."""
SEEDS = {}
def seed(sid, prop, needs, breaks, edits, demo, **kw):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)

TOK = '''
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
thread_local! { static LIVE: RefCell<HashMap<u64, i32>> = RefCell::new(HashMap::new()); static NEXT: Cell<u64> = const { Cell::new(1) }; static BAD: Cell<u32> = const { Cell::new(0) }; }
/// A value whose creations and drops are counted.
#[derive(Debug)]
pub struct Tok { id: u64, pub v: u32 }
impl Tok { pub fn new(v: u32) -> Self { let id = NEXT.with(|n| { n.set(n.get() + 1); n.get() }); LIVE.with(|l| l.borrow_mut().insert(id, 1)); Tok { id, v } } }
impl Drop for Tok { fn drop(&mut self) { let ok = LIVE.with(|l| l.borrow_mut().remove(&self.id).is_some()); if !ok { BAD.with(|b| b.set(b.get() + 1)); } } }
pub fn live() -> usize { LIVE.with(|l| l.borrow().len()) }
pub fn bad() -> u32 { BAD.with(|b| b.get()) }
'''

# ---------------------------------------------------------------- C01
seed("C01-clone-from", "C01", "clone_from onto a matrix of the same size but another shape",
     "Clone::clone_from copies the shape only when the number of elements differs, so afterwards the contents are presented in the old shape",
     [("src/lib.rs", "#[derive(Clone)]\npub struct Matrix<T> {", "pub struct Matrix<T> {"),
      ("src/lib.rs", "impl<T> Matrix<T> {\n    /// Transposes the matrix.", '''impl<T: Clone> Clone for Matrix<T> {
    fn clone(&self) -> Self {
        Self {
            order: self.order,
            shape: self.shape,
            data: self.data.clone(),
        }
    }

    /// Reuses the allocation of `self`.
    fn clone_from(&mut self, source: &Self) {
        self.order = source.order;
        if self.data.len() != source.data.len() {
            self.shape = source.shape;
        }
        self.data.clone_from(&source.data);
    }
}

impl<T> Matrix<T> {
    /// Transposes the matrix.''')],
     '''use matreex::*;
fn main() {
    let a = matrix![[1, 2, 3], [4, 5, 6]];
    let mut b = matrix![[0, 0], [0, 0], [0, 0]];
    b.clone_from(&a);
    assert_eq!(b.shape(), a.shape());
    assert_eq!(b, a);
}
''')
seed("C01-overwrite-leak", "C01", "overwrite between matrices of different storage orders with elements that own something",
     "elements replaced by overwrite are forgotten instead of dropped",
     [("src/lib.rs", ".for_each(|(x, y)| *x = y.clone());", ".for_each(|(x, y)| ptr::write(x, y.clone()));")],
     '''use matreex::*;
use std::rc::Rc;
fn main() {
    let old = Rc::new(1);
    let new = Rc::new(2);
    let mut a = Matrix::with_value((2, 3), old.clone()).unwrap();
    let mut b = Matrix::with_value((3, 2), new.clone()).unwrap();
    b.switch_order();
    a.overwrite(&b);
    drop(a);
    drop(b);
    assert_eq!(Rc::strong_count(&new), 1);
    assert_eq!(Rc::strong_count(&old), 1);
}
''')
seed("C01-resize-to-nothing", "C01", "resize to a shape without elements",
     "the elements dropped by resizing to an empty shape are leaked",
     [("src/lib.rs", "        let size = Self::check_size(shape.size())?;\n        if size > self.size() {", '''        let size = shape.size();
        Self::check_size(size)?;
        if size == 0 {
            // nothing has to be kept, so there is no need to go through the elements
            self.shape = shape;
            unsafe { self.data.set_len(0) };
            return Ok(self);
        }
        if size > self.size() {''')],
     '''use matreex::*;
use std::rc::Rc;
fn main() {
    let r = Rc::new(1);
    let mut a = Matrix::with_value((2, 3), r.clone()).unwrap();
    a.resize((0, 5)).unwrap();
    assert_eq!((a.nrows(), a.ncols(), a.size()), (0, 5, 0));
    drop(a);
    assert_eq!(Rc::strong_count(&r), 1);
}
''')
# ---------------------------------------------------------------- C02
seed("C02-clear", "C02", "a panicking Drop of an element while the matrix is cleared",
     "clear() drops the elements before it resets the shape; if a drop panics the matrix keeps its shape without elements",
     [("src/lib.rs", "        self.shape = AxisShape::default();\n        self.data.clear();\n        self", "        self.data.clear();\n        self.shape = AxisShape::default();\n        self")],
     '''use matreex::*;
use std::panic::*;
use std::cell::Cell;
thread_local! { static ARMED: Cell<bool> = const { Cell::new(false) }; }
#[derive(Clone)]
struct D(#[allow(dead_code)] u64);
impl Drop for D { fn drop(&mut self) { if ARMED.with(|a| a.replace(false)) { panic!("drop") } } }
fn main() {
    set_hook(Box::new(|_| {}));
    let mut m = Matrix::with_value((2, 3), D(7)).unwrap();
    ARMED.with(|a| a.set(true));
    assert!(catch_unwind(AssertUnwindSafe(|| { m.clear(); })).is_err());
    if m.nrows() * m.ncols() != m.size() { eprintln!("{}x{} of {}", m.nrows(), m.ncols(), m.size()); std::process::exit(1) }
}
''')
seed("C02-initializer", "C02", "an initializer that panics after some elements were made",
     "with_initializer sets the length before the elements exist; a panicking initializer makes uninitialised elements be dropped",
     [("src/construct.rs", '''        for index in 0..size {
            let index = Index::from_flattened(index, order, shape);
            let element = initializer(index);
            data.push(element);
        }
''', '''        // the capacity is known to suffice, so elements are written in place
        let base: *mut T = data.as_mut_ptr();
        unsafe { data.set_len(size) };
        for offset in 0..size {
            let index = Index::from_flattened(offset, order, shape);
            unsafe { base.add(offset).write(initializer(index)) };
        }
''')],
     '''use matreex::*;
use std::panic::*;
use std::cell::Cell;
thread_local! { static MADE: Cell<i32> = const { Cell::new(0) }; static DROPPED: Cell<i32> = const { Cell::new(0) }; }
struct D(#[allow(dead_code)] u64);
impl Drop for D { fn drop(&mut self) { DROPPED.with(|d| d.set(d.get() + 1)) } }
fn main() {
    set_hook(Box::new(|_| {}));
    let r = catch_unwind(|| Matrix::with_initializer((2, 3), |i| { if i.row == 1 && i.col == 1 { panic!() } MADE.with(|m| m.set(m.get() + 1)); D(1) }));
    assert!(r.is_err());
    let (m, d) = (MADE.with(|m| m.get()), DROPPED.with(|d| d.get()));
    if d > m { eprintln!("{m} made, {d} dropped"); std::process::exit(1) }
}
''')
seed("C02-overwrite-place", "C02", "a Clone that panics during overwrite between matrices of different orders",
     "the old element is dropped in place before its replacement exists; if cloning panics it is dropped again with the matrix",
     [("src/lib.rs", ".for_each(|(x, y)| *x = y.clone());", '''.for_each(|(x, y)| {
                            // drop first, so that at most one of them is alive
                            ptr::drop_in_place(x);
                            ptr::write(x, y.clone());
                        });''')],
     '''use matreex::*;
use std::panic::*;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
thread_local! { static LIVE: RefCell<HashSet<u64>> = RefCell::new(HashSet::new()); static N: Cell<u64> = const { Cell::new(0) }; static FUSE: Cell<i32> = const { Cell::new(-1) }; static TWICE: Cell<i32> = const { Cell::new(0) }; }
struct D(u64);
impl D { fn new() -> D { let i = N.with(|n| { n.set(n.get() + 1); n.get() }); LIVE.with(|l| l.borrow_mut().insert(i)); D(i) } }
impl Clone for D { fn clone(&self) -> D { let f = FUSE.with(|f| { f.set(f.get() - 1); f.get() }); if f == 0 { panic!("clone") } D::new() } }
impl Drop for D { fn drop(&mut self) { if !LIVE.with(|l| l.borrow_mut().remove(&self.0)) { TWICE.with(|t| t.set(t.get() + 1)) } } }
fn main() {
    set_hook(Box::new(|_| {}));
    let mut a = Matrix::with_initializer((2, 2), |_| D::new()).unwrap();
    let mut b = Matrix::with_initializer((2, 2), |_| D::new()).unwrap();
    b.switch_order();
    FUSE.with(|f| f.set(3));
    assert!(catch_unwind(AssertUnwindSafe(|| { a.overwrite(&b); })).is_err());
    drop(a); drop(b);
    let t = TWICE.with(|t| t.get());
    if t > 0 { eprintln!("{t} dropped twice"); std::process::exit(1) }
}
''')
# ---------------------------------------------------------------- C03
seed("C03-align-for-size", "C03", "element types whose size differs from their alignment",
     "len() of the row and column iterators of iter_rows_mut/iter_cols_mut is computed with the alignment instead of the size",
     [("src/iter/iter_mut.rs", '''            Some(stride) => {
                let stride = stride.get();
                let elem_size = size_of::<T>();''', '''            Some(stride) => {
                let stride = stride.get();
                let elem_size = align_of::<T>();''')],
     '''use matreex::*;
fn main() {
    let mut m = Matrix::with_value((3, 4), [0u8; 3]).unwrap();
    for row in m.iter_rows_mut() { assert_eq!(row.len(), 4); }
    for col in m.iter_cols_mut() { assert_eq!(col.len(), 3); }
}
''')
seed("C03-advance-first", "C03", "a column of a row-major matrix iterated to its end",
     "the iterator advances its pointer before it checks for the end, which forms a pointer far outside the buffer after the last element",
     [("src/iter/iter_mut.rs", '''        if self.lower == self.upper {
            self.stride = None;
        } else {
            self.lower = if size_of::<T>() == 0 {
                let addr = self.lower.addr().get() + stride;
                let ptr = without_provenance_mut(addr);
                unsafe { NonNull::new_unchecked(ptr) }
            } else {
                unsafe { self.lower.add(stride) }
            };
''', '''        let exhausted = self.lower == self.upper;
        if !exhausted || size_of::<T>() > 0 {
            self.lower = if size_of::<T>() == 0 {
                let addr = self.lower.addr().get() + stride;
                let ptr = without_provenance_mut(addr);
                unsafe { NonNull::new_unchecked(ptr) }
            } else {
                unsafe { self.lower.add(stride) }
            };
            if exhausted {
                self.stride = None;
            }
'''), ("src/iter/iter_mut.rs", '''            crate::verif_hooks::formed("IterNthVectorMut::next.lower", self.lower);
        }''', '''            crate::verif_hooks::formed("IterNthVectorMut::next.lower", self.lower);
        } else {
            self.stride = None;
        }''')],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1, 2, 3], [4, 5, 6]];
    for col in m.iter_cols_mut() { for e in col { *e += 1; } }
    assert_eq!(m, matrix![[2, 3, 4], [5, 6, 7]]);
}
''', run="miri")
seed("C03-zst-back", "C03", "zero-sized elements taken from the back of a column iterator",
     "for zero-sized elements next_back() moves by one position instead of by the stride, so too many elements are handed out",
     [("src/iter/iter_mut.rs", '''            self.upper = if size_of::<T>() == 0 {
                let addr = self.upper.addr().get() - stride;
                let ptr = without_provenance_mut(addr);
                unsafe { NonNull::new_unchecked(ptr) }
            } else {
                unsafe { self.upper.sub(stride) }
            };
            #[cfg(feature = "verif-hooks")]
            crate::verif_hooks::formed("IterNthVectorMut::next_back.upper", self.upper);''', '''            self.upper = if size_of::<T>() == 0 {
                let addr = self.upper.addr().get() - 1;
                let ptr = without_provenance_mut(addr);
                unsafe { NonNull::new_unchecked(ptr) }
            } else {
                unsafe { self.upper.sub(stride) }
            };
            #[cfg(feature = "verif-hooks")]
            crate::verif_hooks::formed("IterNthVectorMut::next_back.upper", self.upper);''')],
     '''use matreex::*;
fn main() {
    let mut m = Matrix::with_value((4, 3), ()).unwrap();
    let mut n = 0;
    for col in m.iter_cols_mut() { n += col.rev().count(); }
    assert_eq!(n, 12);
}
''')
# ---------------------------------------------------------------- C04
seed("C04-two-looks", "C04", "an index type whose row()/col() answer differently on a second call",
     "get_mut checks one answer of the accessors and uses another",
     [("src/index.rs", '''    #[inline]
    fn get_mut(self, matrix: &mut Matrix<T>) -> Result<&mut Self::Output> {
        let index = AxisIndex::from_index(&self, matrix.order);
        index.get_mut(matrix)
    }
''', '''    #[inline]
    fn get_mut(self, matrix: &mut Matrix<T>) -> Result<&mut Self::Output> {
        self.ensure_in_bounds(matrix)?;
        unsafe { Ok(self.get_unchecked_mut(matrix)) }
    }
''')],
     '''use matreex::*;
use matreex::index::AsIndex;
use std::cell::Cell;
struct Fickle(Cell<usize>);
impl AsIndex for Fickle {
    fn row(&self) -> usize { self.0.replace(3) }
    fn col(&self) -> usize { 0 }
}
fn main() {
    // spare capacity keeps the stray access inside the allocation
    let mut m = Matrix::with_value((4, 2), 7u32).unwrap();
    m.resize((2, 2)).unwrap();
    let inside = m.iter_elements().map(|e| e as *const u32 as usize).collect::<Vec<_>>();
    for first in 0..2 {
        if let Ok(e) = m.get_mut(Fickle(Cell::new(first))) { assert!(inside.contains(&(e as *mut u32 as usize)), "a reference outside of the matrix"); }
    }
}
''')
seed("C04-wrapping-product", "C04", "a major index whose product with the stride wraps around",
     "the bounds check multiplies with wrap-around, so huge indices are taken for valid ones",
     [("src/index.rs", "        self.major >= matrix.major() || self.minor >= matrix.minor()", '''        // one comparison covers both the empty matrix and the major axis
        self.minor >= matrix.minor()
            || self.major.wrapping_mul(matrix.major_stride()) >= matrix.size()''')],
     '''use matreex::*;
fn main() {
    let m = Matrix::with_value((4, 2), ()).unwrap();
    for row in [4, usize::MAX, 1 << 63, (1 << 63) + 1] { assert_eq!(m.get((row, 0)), Err(Error::IndexOutOfBounds), "{row}"); }
}
''', run="release")
# ---------------------------------------------------------------- C05
seed("C05-empty", "C05", "a matrix with rows or columns but no elements",
     "transpose returns before it exchanges the extents of a matrix without elements",
     [("src/lib.rs", "        if size_of::<T>() == 0 {\n            self.shape.transpose();\n            return self;\n        }\n", "        if self.is_empty() {\n            return self;\n        }\n        if size_of::<T>() == 0 {\n            self.shape.transpose();\n            return self;\n        }\n")],
     '''use matreex::*;
fn main() {
    let mut m = Matrix::<u8>::with_default((0, 3)).unwrap();
    m.transpose();
    assert_eq!((m.nrows(), m.ncols()), (3, 0));
}
''')
# ---------------------------------------------------------------- C06
seed("C06-empty-vector", "C06", "a matrix with rows but no columns (or columns but no rows) in major direction",
     "the valid numbers of empty rows or columns are refused",
     [("src/iter.rs", '''        if n >= self.major() {
            Err(Error::IndexOutOfBounds)
        } else {
            Ok(self.iter_nth_major_axis_vector_unchecked(n))
        }''', '''        // the vector has to start inside the buffer
        if n >= self.major() || n * self.major_stride() >= self.size() {
            Err(Error::IndexOutOfBounds)
        } else {
            Ok(self.iter_nth_major_axis_vector_unchecked(n))
        }''')],
     '''use matreex::*;
fn main() {
    let m = Matrix::<u8>::with_default((3, 0)).unwrap();
    assert_eq!(m.iter_nth_row(2).map(|r| r.len()), Ok(0));
    assert!(m.iter_nth_row(3).is_err());
}
''')
seed("C06-no-cols", "C06", "a matrix with columns but no rows",
     "iter_cols yields no columns of a matrix that has columns but no rows",
     [("src/iter.rs", "        (0..self.ncols()).map(|n| match self.order {", "        let ncols = self.size().checked_div(self.nrows()).unwrap_or(0);\n        (0..ncols).map(|n| match self.order {")],
     '''use matreex::*;
fn main() {
    let m = Matrix::<u8>::with_default((0, 3)).unwrap();
    assert_eq!(m.iter_cols().len(), 3);
    assert_eq!(m.iter_cols().map(|c| c.len()).collect::<Vec<_>>(), [0, 0, 0]);
}
''')
# ---------------------------------------------------------------- C07
seed("C07-empty-eq", "C07", "matrices without elements, of different shapes, stored in different orders",
     "such matrices compare equal when one extent agrees",
     [("src/eq.rs", "self.major() == other.minor() && self.minor() == other.major()", "self.major() == other.minor() && self.size() == other.size()")],
     '''use matreex::*;
fn main() {
    let a = Matrix::<u8>::with_default((0, 3)).unwrap();
    let mut b = Matrix::<u8>::with_default((0, 5)).unwrap();
    assert!(a != b);
    b.switch_order();
    assert!(a != b && b != a);
}
''')
seed("C07-same-address", "C07", "comparing a matrix that contains NaN with itself",
     "a matrix is taken to equal itself without looking at its elements",
     [("src/eq.rs", "        if self.order == other.order {\n", "        if std::ptr::eq(self, other) {\n            return true;\n        }\n        if self.order == other.order {\n")],
     '''use matreex::*;
fn main() {
    let a = matrix![[1.0, f64::NAN]];
    #[allow(clippy::eq_op)]
    let same = a == a;
    assert!(!same);
}
''')
seed("C07-product-order", "C07", "a product over an inner dimension of zero with a column-major left operand",
     "the product of such matrices is always row-major",
     [("src/arithmetic/mul.rs", '''        if self.ncols() == 0 {
            data.resize_with(size, U::default);
            return Ok(Matrix { order, shape, data });
        }''', '''        if self.ncols() == 0 {
            drop(std::mem::take(&mut data));
            return Matrix::with_default((nrows, ncols));
        }''')],
     '''use matreex::*;
fn main() {
    let mut a = Matrix::<i32>::with_default((2, 0)).unwrap();
    a.switch_order();
    let b = Matrix::<i32>::with_default((0, 3)).unwrap();
    let c = a.multiply(b).unwrap();
    assert_eq!(c.order(), Order::ColMajor);
    assert_eq!((c.nrows(), c.ncols()), (2, 3));
}
''')
# ---------------------------------------------------------------- C08
seed("C08-reshape", "C08", "reshape to a shape whose element count wraps around to the current size",
     "reshape accepts a shape whose element count overflows",
     [("src/lib.rs", '''        let Ok(shape) = shape.into().try_to_axis_shape(self.order) else {
            return Err(Error::SizeMismatch);
        };
        if self.size() != shape.size() {''', '''        let shape = shape.into().to_axis_shape_unchecked(self.order);
        if self.size() != shape.major().wrapping_mul(shape.minor()) {''')],
     '''use matreex::*;
fn main() {
    let mut m = Matrix::<u8>::with_default((0, 3)).unwrap();
    assert!(m.reshape((1 << 63, 2)).is_err());
    let mut m = Matrix::with_value((2, 1), 1u8).unwrap();
    assert!(m.reshape(((1 << 63) + 1, 2)).is_err());
}
''')
# ---------------------------------------------------------------- C09
seed("C09-resize-same", "C09", "resize to another shape with the same number of elements",
     "resize returns early when the number of elements stays the same and keeps the old shape",
     [("src/lib.rs", "        let size = Self::check_size(shape.size())?;\n        if size > self.size() {", "        let size = shape.size();\n        Self::check_size(size)?;\n        if size == self.size() && size == self.capacity() {\n            // neither elements nor memory have to be touched\n            return Ok(self);\n        }\n        if size > self.size() {")],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1, 2, 3], [4, 5, 6]];
    m.resize((3, 2)).unwrap();
    assert_eq!((m.nrows(), m.ncols()), (3, 2));
}
''')
seed("C09-assign-partial", "C09", "a compound assignment with an operand of another shape stored in the same order",
     "+= combines the elements one by one and only then notices that the shapes differ",
     [("src/arithmetic/add.rs", "        self.elementwise_operation_assign(rhs, |left, right| *left += right.clone())", '''        if self.shape.minor() == rhs.shape.minor() && self.order == rhs.order {
            // equally long vectors: no position has to be translated
            self.data
                .iter_mut()
                .zip(&rhs.data)
                .for_each(|(left, right)| *left += right.clone());
            self.ensure_elementwise_operation_conformable(rhs)?;
            return Ok(self);
        }
        self.elementwise_operation_assign(rhs, |left, right| *left += right.clone())''')],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1, 2, 3], [4, 5, 6]];
    let other = matrix![[1, 1, 1]];
    assert!(m.elementwise_add_assign(&other).is_err());
    assert_eq!(m, matrix![[1, 2, 3], [4, 5, 6]]);
}
''')
# ---------------------------------------------------------------- C10
seed("C10-empty-underflow", "C10", "swapping rows of a matrix that has none",
     "on a matrix without rows the range check wraps around (or panics) instead of failing",
     [("src/swap.rs", "if m >= self.major() || n >= self.major() {", "if m.max(n) > self.major() - 1 {")],
     '''use matreex::*;
fn main() {
    let mut m = Matrix::<u8>::with_default((0, 3)).unwrap();
    assert_eq!(m.swap_rows(0, 0).err(), Some(Error::IndexOutOfBounds));
}
''', run="release")
seed("C10-count", "C10", "swapping rows of a matrix with at least 64 columns",
     "only whole blocks of long vectors are swapped",
     [("src/swap.rs", "            let count = self.minor();\n", "            let minor = self.minor();\n            // long vectors go block by block\n            let count = if minor < 64 { minor } else { minor & !15 };\n")],
     '''use matreex::*;
fn main() {
    let a = Matrix::with_initializer((2, 70), |i| i.row * 100 + i.col).unwrap();
    let mut b = a.clone();
    b.swap_rows(0, 1).unwrap();
    for c in 0..70 { assert_eq!((a[(0, c)], a[(1, c)]), (b[(1, c)], b[(0, c)])); }
}
''')
# ---------------------------------------------------------------- C11
seed("C11-remainder", "C11", "an inner dimension above 16 that is not a multiple of 16",
     "the unrolled dot product forgets the remainder",
     [("src/arithmetic/mul.rs", '''    lhs.iter()
        .zip(rhs)
        .map(|(left, right)| left.clone() * right.clone())
        .reduce(|accumulator, product| accumulator + product)''', '''    if lhs.len() > 16 {
        // blocks of fixed length are easier to vectorize
        return lhs
            .chunks_exact(16)
            .zip(rhs.chunks_exact(16))
            .filter_map(|(lhs, rhs)| dot_product(lhs, rhs))
            .reduce(|accumulator, product| accumulator + product);
    }
    lhs.iter()
        .zip(rhs)
        .map(|(left, right)| left.clone() * right.clone())
        .reduce(|accumulator, product| accumulator + product)'''), ("src/arithmetic/mul.rs", "#[inline(always)]\nfn dot_product", "fn dot_product")],
     '''use matreex::*;
fn main() {
    let a = Matrix::with_value((1, 17), 1).unwrap();
    let b = Matrix::with_value((17, 1), 1).unwrap();
    assert_eq!(a * b, matrix![[17]]);
}
''')
seed("C11-square-reuse", "C11", "a column-major square left operand in multiplication_like_operation",
     "a square left operand in column-major order is relabelled instead of rearranged, so its columns are passed instead of its rows",
     [("src/arithmetic.rs", "        self.set_order(Order::RowMajor);\n        rhs.set_order(Order::ColMajor);\n", "        if self.is_square() {\n            // the shape is the same either way\n            self.set_order_without_rearrangement(Order::RowMajor);\n        } else {\n            self.set_order(Order::RowMajor);\n        }\n        rhs.set_order(Order::ColMajor);\n")],
     '''use matreex::*;
fn main() {
    let mut a = matrix![[1, 2], [3, 4]];
    a.switch_order();
    let b = matrix![[1, 0], [0, 1]];
    let c = a.multiplication_like_operation(b, |l, r| l[0] * r[0] + l[1] * r[1]).unwrap();
    assert_eq!(c, matrix![[1, 2], [3, 4]]);
}
''')
seed("C11-zero-inner", "C11", "an inner dimension of zero, element types whose default is not the additive zero of the first element",
     "the product over an empty inner dimension takes no defaults when only one column results",
     [("src/arithmetic.rs", '''        if self.ncols() == 0 {
            data.resize_with(size, U::default);
            return Ok(Matrix { order, shape, data });
        }''', '''        if self.ncols() == 0 && ncols != 1 {
            data.resize_with(size, U::default);
            return Ok(Matrix { order, shape, data });
        }''')],
     '''use matreex::*;
fn main() {
    let a = Matrix::<i32>::with_default((2, 0)).unwrap();
    let b = Matrix::<i32>::with_default((0, 1)).unwrap();
    let c = a.multiplication_like_operation(b, |l, r| { assert!(!l.is_empty() && !r.is_empty(), "empty slices"); 5 }).unwrap();
    assert_eq!(c, matrix![[0], [0]]);
}
''')
# ---------------------------------------------------------------- C12
seed("C12-square", "C12", "square operands stored in different orders, assigning form",
     "square matrices are combined in memory order even if their orders differ",
     [("src/arithmetic.rs", '''        self.ensure_elementwise_operation_conformable(rhs)?;

        if self.order == rhs.order {
            self.data
                .iter_mut()''', '''        self.ensure_elementwise_operation_conformable(rhs)?;

        if self.order == rhs.order || self.is_square() {
            self.data
                .iter_mut()''')],
     '''use matreex::*;
fn main() {
    let mut a = matrix![[0, 0], [0, 0]];
    let mut b = matrix![[1, 2], [3, 4]];
    b.switch_order();
    a += &b;
    assert_eq!(a, matrix![[1, 2], [3, 4]]);
}
''')
seed("C12-empty-conform", "C12", "matrices without elements and of different shapes",
     "matrices without elements are conformable whatever their shapes",
     [("src/arithmetic.rs", '''        if self.order == rhs.order {
            self.shape == rhs.shape
        } else {''', '''        if self.is_empty() && rhs.is_empty() {
            // nothing to combine
            true
        } else if self.order == rhs.order {
            self.shape == rhs.shape
        } else {''')],
     '''use matreex::*;
fn main() {
    let a = Matrix::<i32>::with_default((0, 3)).unwrap();
    let b = Matrix::<i32>::with_default((2, 0)).unwrap();
    assert!(!a.is_elementwise_operation_conformable(&b));
    assert!(a.elementwise_add(&b).is_err());
}
''')
seed("C12-rem-sign", "C12", "elementwise remainder of negative integers, consuming form",
     "elementwise_div_consume_self evaluates rhs's element twice for its own matrix when both operands share the order",
     [("src/arithmetic/sub.rs", "        self.elementwise_operation_consume_self(rhs, |left, right| left - right.clone())", '''        let order = self.order;
        let mut rhs = rhs.clone();
        // bring both into the same order first
        rhs.set_order_without_rearrangement(order);
        if rhs.shape != self.shape {
            rhs.shape = self.shape;
        }
        self.ensure_elementwise_operation_conformable(&rhs)?;
        Matrix::<U>::check_size(self.size())?;
        let shape = self.shape;
        let data = self.data.into_iter().zip(rhs.data).map(|(left, right)| left - right).collect();
        Ok(Matrix { order, shape, data })''')],
     '''use matreex::*;
fn main() {
    let a = matrix![[10, 20, 30], [40, 50, 60]];
    let mut b = matrix![[1, 2, 3], [4, 5, 6]];
    b.switch_order();
    assert_eq!(a.clone() - &b, matrix![[9, 18, 27], [36, 45, 54]]);
    assert!(a.elementwise_sub_consume_self(&matrix![[1]]).is_err());
}
''')
# ---------------------------------------------------------------- C13
seed("C13-min", "C13", "isize::MIN as a wrapping index",
     "negating isize::MIN overflows",
     [("src/index.rs", "(shape.minor() - minor.unsigned_abs() % shape.minor()) % shape.minor()", "(shape.minor() - minor.abs() as usize % shape.minor()) % shape.minor()")],
     '''use matreex::*;
fn main() {
    let m = matrix![[1, 2, 3], [4, 5, 6]];
    assert_eq!(m[WrappingIndex::new(0, isize::MIN)], [1, 2, 3][isize::MIN.rem_euclid(3) as usize]);
}
''')
seed("C13-half-empty", "C13", "a matrix with rows but no columns",
     "only the major extent is checked for emptiness",
     [("src/index.rs", "    fn is_out_of_bounds(&self, matrix: &Matrix<T>) -> bool {\n        matrix.is_empty()\n    }", "    fn is_out_of_bounds(&self, matrix: &Matrix<T>) -> bool {\n        // the modulus must not be zero\n        matrix.major() == 0\n    }")],
     '''use matreex::*;
fn main() {
    let m = Matrix::<u8>::with_default((3, 0)).unwrap();
    let r = std::panic::catch_unwind(|| m.get(WrappingIndex::new(0, 0)).err());
    assert_eq!(r.ok(), Some(Some(Error::IndexOutOfBounds)));
}
''')
# ---------------------------------------------------------------- C14
# ---------------------------------------------------------------- C15
seed("C15-par-cols", "C15", "into_par_iter_elements_with_index on a column-major matrix with one row or column",
     "one-dimensional matrices report the index as if they were rows",
     [("src/parallel.rs", '''            .into_par_iter()
            .enumerate()
            .map(move |(index, element)| {
                let index = Index::from_flattened(index, self.order, self.shape);
                (index, element)
            })''', '''            .into_par_iter()
            .enumerate()
            .map(move |(index, element)| {
                let index = if self.shape.major() == 1 {
                    Index::new(0, index)
                } else {
                    Index::from_flattened(index, self.order, self.shape)
                };
                (index, element)
            })''')],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1], [2], [3]];
    m.switch_order();
    let mut v: Vec<_> = m.into_par_iter_elements_with_index().map(|(i, e)| (i.row, i.col, e)).collect();
    v.sort();
    assert_eq!(v, [(0, 0, 1), (1, 0, 2), (2, 0, 3)]);
}
''', features=["parallel"])
# ---------------------------------------------------------------- C16
seed("C16-merge-order", "C16", "par_map on more elements than fit in one piece, split unevenly",
     "pieces of the result are merged small into large, which loses their order",
     [("src/parallel.rs", "let data = self.data.into_par_iter().map(f).collect();", '''let data = if self.data.len() < 64 {
            self.data.into_par_iter().map(f).collect()
        } else {
            self.data
                .into_par_iter()
                .fold(Vec::new, |mut piece, element| {
                    piece.push(f(element));
                    piece
                })
                .reduce(Vec::new, |mut x, mut y| {
                    // move the smaller piece
                    if x.len() >= y.len() {
                        x.append(&mut y);
                        x
                    } else {
                        y.append(&mut x);
                        y
                    }
                })
        };''')],
     '''use matreex::*;
fn main() {
    for n in 64..400 {
        let m = Matrix::from_row((0..n).collect::<Vec<u32>>());
        let p = m.clone().par_map(|x| x + 1).unwrap();
        assert_eq!(p, m.map(|x| x + 1).unwrap());
    }
}
''', features=["parallel"])
seed("C16-chunks", "C16", "par_apply on at least 1024 elements that do not divide into blocks of 64",
     "the remainder of large matrices is not visited",
     [("src/parallel.rs", "        self.data.par_iter_mut().for_each(f);\n        self", '''        if self.data.len() < 1024 {
            self.data.par_iter_mut().for_each(f);
        } else {
            // blocks are cheaper to distribute than elements
            self.data
                .par_chunks_exact_mut(64)
                .for_each(|block| block.iter_mut().for_each(&f));
        }
        self''')],
     '''use matreex::*;
fn main() {
    let mut m = Matrix::with_value((35, 30), 1u32).unwrap();
    m.par_apply(|x| *x += 1);
    assert!(m.iter_elements().all(|x| *x == 2));
}
''', features=["parallel"])
# ---------------------------------------------------------------- C17
PROBE = '''use matreex::*;
use std::marker::PhantomData;
struct Probe<T>(PhantomData<T>);
fn probe<T>(_: &T) -> Probe<T> { Probe(PhantomData) }
impl<T: Send> Probe<T> { fn send(&self) -> bool { true } }
impl<T: Sync> Probe<T> { fn sync(&self) -> bool { true } }
trait NotSend { fn send(&self) -> bool { false } }
trait NotSync { fn sync(&self) -> bool { false } }
impl<T> NotSend for Probe<T> {}
impl<T> NotSync for Probe<T> {}
'''
seed("C17-inner-sync", "C17", "sharing a row iterator over elements that are Send but not Sync",
     "the row and column iterators are Sync whenever their elements are Send",
     [("src/iter/iter_mut.rs", "unsafe impl<T: Sync> Sync for IterNthVectorMut<'_, T> {}", "unsafe impl<T: Send> Sync for IterNthVectorMut<'_, T> {}")],
     PROBE + '''fn main() {
    let mut m = matrix![[std::cell::Cell::new(1)]];
    let row = m.iter_rows_mut().next().unwrap();
    assert!(probe(&row).send());
    assert!(!probe(&row).sync(), "Sync over Cell");
}
''')
seed("C17-outer-send", "C17", "moving an outer iterator over elements that are Sync but not Send",
     "the outer iterators are Send whenever their elements are Sync",
     [("src/iter/iter_mut.rs", "unsafe impl<T: Send> Send for IterVectorsMut<'_, T> {}", "unsafe impl<T: Sync> Send for IterVectorsMut<'_, T> {}")],
     PROBE + '''fn main() {
    let lock: &'static std::sync::Mutex<u32> = Box::leak(Box::new(std::sync::Mutex::new(1)));
    let mut m: Matrix<Option<std::sync::MutexGuard<'static, u32>>> = matrix![[None, Some(lock.lock().unwrap())]];
    let rows = m.iter_rows_mut();
    assert!(!probe(&rows).send(), "Send over MutexGuard");
}
''')
seed("C17-overlap", "C17", "columns of a matrix with two columns and at least three rows",
     "the last reference of every column of a row-major matrix with an odd number of rows belongs to the next column",
     [("src/iter/iter_mut.rs", '''        let offset = (length.get() - 1) * stride.get();
''', '''        // the upper end, rounded to pairs of cells for strides of two
        let offset = (length.get() - 1) * stride.get();
        let offset = if stride.get() == 2 && length.get() > 4 { offset & !3 } else { offset };
''')],
     '''use matreex::*;
fn main() {
    for rows in 1..9 {
        let mut m = Matrix::with_value((rows, 2), 0u32).unwrap();
        std::thread::scope(|s| for col in m.iter_cols_mut() { s.spawn(move || for e in col { *e += 1; }); });
        assert!(m.iter_elements().all(|e| *e == 1), "{rows}");
    }
}
''')
# ---------------------------------------------------------------- C18
seed("C18-reciprocal", "C18", "compound division of floats by a scalar whose reciprocal is inexact",
     "f64 matrices are divided by multiplying with the reciprocal",
     [("src/arithmetic/div.rs", '''            impl DivAssign<&$t> for Matrix<$t> {
                #[inline]
                fn div_assign(&mut self, rhs: &$t) {
                    self.scalar_operation_assign(&rhs, |element, scalar| *element /= *scalar);
                }
            }''', '''            impl DivAssign<&$t> for Matrix<$t> {
                #[inline]
                fn div_assign(&mut self, rhs: &$t) {
                    if std::any::TypeId::of::<$t>() == std::any::TypeId::of::<f64>() {
                        // one division instead of many
                        let inverse = 1 as $t / *rhs;
                        self.scalar_operation_assign(&inverse, |element, scalar| *element *= *scalar);
                        return;
                    }
                    self.scalar_operation_assign(&rhs, |element, scalar| *element /= *scalar);
                }
            }''')],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1.0f64, 5.0, 7.0, 10.0]];
    m /= &49.0;
    assert_eq!(m, matrix![[1.0 / 49.0, 5.0 / 49.0, 7.0 / 49.0, 10.0 / 49.0]]);
}
''')
seed("C18-zero", "C18", "compound multiplication by zero of a float matrix holding NaN, infinity or negative values",
     "multiplying by zero fills the matrix with zeros",
     [("src/arithmetic/mul.rs", '''            impl MulAssign<$t> for Matrix<$t> {
                #[inline]
                fn mul_assign(&mut self, rhs: $t) {
''', '''            impl MulAssign<$t> for Matrix<$t> {
                #[inline]
                fn mul_assign(&mut self, rhs: $t) {
                    if rhs == 0 as $t {
                        self.data.fill(rhs);
                        return;
                    }
''')],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1.0f64, f64::INFINITY]];
    m *= 0.0;
    assert!(m[(0, 0)] == 0.0 && m[(0, 1)].is_nan());
}
''')
seed("C18-sub-negate", "C18", "scalar minus a borrowed matrix of references, with values for which negating the difference is not the same",
     "scalar - matrix of borrowed matrices is computed as the negated difference",
     [("src/arithmetic/rem.rs", '''                    match rhs.scalar_operation(&self, |element, scalar| *scalar % *element) {''', '''                    match rhs.scalar_operation(&self, |element, scalar| {
                        let scalar = *scalar;
                        let element = *element;
                        // a remainder by more than the scalar is the scalar itself
                        if scalar.clone() < element.clone() { scalar.clone() % scalar.clone() + scalar.clone() } else { scalar % element }
                    }) {''')],
     '''use matreex::*;
fn main() {
    let m = matrix![[3i32, -3, 10]];
    assert_eq!(7 % &m, matrix![[1, 1, 7]]);
    assert_eq!(-7 % &m, matrix![[-1, -1, -7]]);
    let f = matrix![[3.0f64]];
    assert_eq!(-7.5 % &f, matrix![[-1.5]]);
}
''')
# ---------------------------------------------------------------- C19
seed("C19-total", "C19", "ragged rows whose lengths average to the first row's",
     "FromIterator compares only the total number of elements",
     [("src/convert.rs", '''            if data.len() - size != ncols {
                panic!("{}", Error::LengthInconsistent);
            }
            nrows += 1;
            size = data.len();
        }
''', '''            nrows += 1;
            size += ncols;
        }
        if data.len() != size {
            panic!("{}", Error::LengthInconsistent);
        }
''')],
     '''use matreex::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let ragged = || { let v = vec![vec![1, 2], vec![3], vec![4, 5, 6]]; v.into_iter().collect::<Matrix<i32>>() };
    if std::panic::catch_unwind(ragged).is_ok() { eprintln!("ragged rows accepted"); std::process::exit(1) }
}
''')
seed("C19-last-row", "C19", "a last row that is longer than the others, borrowed rows",
     "rows that are too long are truncated instead of rejected",
     [("src/convert.rs", '''            if row.len() != ncols {
                return Err(Error::LengthInconsistent);
            }
            data.extend_from_slice(row);
''', '''            let Some(row) = row.get(..ncols) else {
                return Err(Error::LengthInconsistent);
            };
            data.extend_from_slice(row);
''')],
     '''use matreex::*;
fn main() {
    let rows = [vec![1, 2], vec![3, 4, 5]];
    assert_eq!(Matrix::try_from(&rows[..]).err(), Some(Error::LengthInconsistent));
}
''')
# ---------------------------------------------------------------- C20
seed("C20-index-width", "C20", "more elements than the larger extent has digits for (e.g. 4x4)",
     "Debug reserves room for row and column numbers only, so lines with longer element positions are wider",
     [("src/fmt.rs", "let index_width = size.to_string().chars().count();", "let index_width = (nrows.max(ncols) - 1).to_string().chars().count();")],
     '''use matreex::*;
fn main() {
    let m = Matrix::with_value((4, 4), 1).unwrap();
    let text = format!("{m:?}");
    let widths: Vec<usize> = text.lines().filter(|l| l.contains('[') && l.trim() != "[").map(|l| l.chars().count()).collect();
    assert_eq!(widths.len(), 4);
    assert!(widths.iter().all(|w| *w == widths[0]), "{text}");
}
''')
seed("C20-stream", "C20", "the colour feature, standard output redirected, standard error a terminal",
     "colours depend on standard error instead of the output",
     [("src/fmt.rs", "plain.if_supports_color(Stream::Stdout, |text| {", "plain.if_supports_color(Stream::Stderr, |text| {")],
     '''use matreex::*;
fn main() {
    let m = matrix![[1, 2], [3, 4]];
    print!("{m:?}");
}
''', features=["pretty-debug"], runsh='''timeout 200 cargo build -q --offline || exit 4
python3 - "$tmp/target/debug/demo" <<'PY'
import os, pty, subprocess, sys
m, s = pty.openpty()
env = {k: v for k, v in os.environ.items() if k not in ("CI", "COLORTERM", "IGNORE_IS_TERMINAL")}
out = subprocess.run([sys.argv[1]], stdout=subprocess.PIPE, stderr=s, stdin=subprocess.DEVNULL, env=env).stdout
sys.exit(1 if b"\\x1b" in out or b"[" not in out else 0)
PY''')
seed("C20-blank", "C20", "an element that renders as several lines next to one whose text has trailing blanks on its widest line",
     "the width of an element is taken without its trailing blanks, so lines are not equally wide",
     [("src/fmt.rs", "            .map(|line| line.chars().count())\n            .max()", "            .map(|line| line.trim_end().chars().count())\n            .max()")],
     '''use matreex::*;
fn main() {
    let m = matrix![["a  "], ["b"]];
    let text = m.to_string();
    let widths: Vec<usize> = text.lines().filter(|l| l.trim() != "[" && l.trim() != "]").map(|l| l.chars().count()).collect();
    assert!(widths.iter().all(|w| *w == widths[0]), "{text}");
}
''')

# ---------------------------------------------------------------- second round
seed("C05-bits", "C05", "more than 32 elements",
     "the cycles of the in-place transposition are tracked in a bit set whose bits collide from the 33rd element on",
     [("src/lib.rs", "let mut visited = vec![false; size];", "let mut visited = vec![0u64; size.div_ceil(64)];"),
      ("src/lib.rs", '''                let state = unsafe { visited.get_unchecked_mut(current) };
                if *state {
                    break;
                }
                *state = true;
''', '''                let word = unsafe { visited.get_unchecked_mut(current / 64) };
                let mask = 1u64 << (current % 32);
                if *word & mask != 0 {
                    break;
                }
                *word |= mask;
''')],
     '''use matreex::*;
fn main() {
    for (m, n) in [(5, 7), (6, 11), (7, 9), (5, 13), (3, 20), (12, 13)] {
        let a = Matrix::with_initializer((m, n), |i| i.row * 100 + i.col).unwrap();
        let mut b = a.clone();
        b.transpose();
        for r in 0..m { for c in 0..n { assert_eq!(a[(r, c)], b[(c, r)]); } }
    }
}
''')
seed("C05-square-step", "C05", "a square matrix of at least five rows",
     "the shortcut for square matrices swaps four pairs at a time and leaves out the last four of a row whose number is a multiple of four",
     [("src/lib.rs", "        let base = self.data.as_mut_ptr();\n        let old_shape = self.shape;", '''        if self.major() == self.minor() {
            // no cycle is longer than two: swap across the diagonal
            let n = self.major();
            let base = self.data.as_mut_ptr();
            for i in 0..n {
                let mut j = 0;
                while j + 4 < i {
                    for k in j..j + 4 {
                        unsafe { ptr::swap(base.add(i * n + k), base.add(k * n + i)) };
                    }
                    j += 4;
                }
                for k in (i & !3)..i {
                    unsafe { ptr::swap(base.add(i * n + k), base.add(k * n + i)) };
                }
            }
            return self;
        }

        let base = self.data.as_mut_ptr();
        let old_shape = self.shape;''')],
     '''use matreex::*;
fn main() {
    for n in 1..12 {
        let a = Matrix::with_initializer((n, n), |i| i.row * 100 + i.col).unwrap();
        let mut b = a.clone();
        b.transpose();
        for r in 0..n { for c in 0..n { assert_eq!(a[(r, c)], b[(c, r)], "{n}"); } }
    }
}
''')
seed("C05-set-order", "C05", "set_order to the order the matrix already has, on a matrix that is not square",
     "set_order exchanges the extents although nothing has to be re-laid",
     [("src/lib.rs", '''        let base = self.data.as_mut_ptr();
        let old_shape = self.shape;''', '''        if self.major() == 1 || self.minor() == 1 || (self.major() == 2 && self.minor() > 8) {
            // a vector: the elements are in the right places already
            self.shape.transpose();
            return self;
        }

        let base = self.data.as_mut_ptr();
        let old_shape = self.shape;''')],
     '''use matreex::*;
fn main() {
    let a = Matrix::with_initializer((2, 9), |i| i.row * 100 + i.col).unwrap();
    let mut b = a.clone();
    b.transpose();
    for r in 0..2 { for c in 0..9 { assert_eq!(a[(r, c)], b[(c, r)]); } }
}
''')
SEEDS["C05-vectors"] = dict(SEEDS.pop("C05-set-order"), needs="a matrix of two major-axis vectors of more than eight elements", breaks="matrices of two long vectors are taken for a single vector, whose elements need not move")
seed("C06-nth-back", "C06", "a view taken from the back with nth_back, or skipped into",
     "the jump from the back of a mutable row or column lands one element short",
     [("src/iter/iter_mut.rs", '''impl<T> DoubleEndedIterator for IterNthVectorMut<'_, T> {
''', '''impl<T> DoubleEndedIterator for IterNthVectorMut<'_, T> {
    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.len() {
            self.stride = None;
            return None;
        }
        for _ in 1..n {
            self.next_back();
        }
        self.next_back()
    }

''')],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1, 2, 3, 4, 5], [6, 7, 8, 9, 10]];
    let mut row = m.iter_rows_mut().next().unwrap();
    assert_eq!(row.nth_back(1).copied(), Some(4));
}
''')
seed("C06-nth-empty", "C06", "the n-th column of a matrix with columns but no rows",
     "iter_nth_col/iter_nth_row refuse valid numbers when the vectors are empty",
     [("src/iter.rs", '''    ) -> Result<Take<StepBy<Skip<Iter<'_, T>>>>> {
        if n >= self.minor() {''', '''    ) -> Result<Take<StepBy<Skip<Iter<'_, T>>>>> {
        if n >= cmp::min(self.minor(), self.size()) {'''), ("src/iter.rs", "use std::iter::{Skip", "use std::cmp;\nuse std::iter::{Skip")],
     '''use matreex::*;
fn main() {
    let m = Matrix::<u8>::with_default((0, 3)).unwrap();
    assert!(m.iter_nth_col(2).is_ok());
    assert!(m.iter_nth_col(3).is_err());
}
''')
seed("C08-wrapping-bytes", "C08", "a byte size that wraps around in 64 bits, for conversions between element types (map and the like)",
     "map computes the byte size of its result with wrapping arithmetic",
     [("src/lib.rs", '''        F: FnMut(T) -> U,
    {
        Matrix::<U>::check_size(self.size())?;
''', '''        F: FnMut(T) -> U,
    {
        if self.size().wrapping_mul(size_of::<U>()) > isize::MAX as usize {
            return Err(Error::CapacityOverflow);
        }
''')],
     '''use matreex::*;
fn main() {
    let m = Matrix::with_value((1, 1 << 61), ()).unwrap();
    let r = std::panic::catch_unwind(move || m.map(|_| 1u64).err());
    assert_eq!(r.ok(), Some(Some(Error::CapacityOverflow)));
}
''')
seed("C08-scalar-type", "C08", "a scalar operation that maps zero-sized elements to larger ones, more of them than fit",
     "scalar_operation checks the byte size of its operand instead of its result",
     [("src/arithmetic.rs", '''        F: FnMut(&'a T, &'b S) -> U,
    {
        Matrix::<U>::check_size(self.size())?;''', '''        F: FnMut(&'a T, &'b S) -> U,
    {
        Self::check_size(self.size())?;''')],
     '''use matreex::*;
fn main() {
    let m = Matrix::with_value((1, usize::MAX), ()).unwrap();
    let r = std::panic::catch_unwind(|| m.scalar_operation(&1, |_, _| 1u64).err());
    assert_eq!(r.ok(), Some(Some(Error::CapacityOverflow)));
}
''')
seed("C08-rows-of-nothing", "C08", "rows of zero-sized elements whose total count overflows",
     "the conversion from an array of vectors saturates the element count instead of reporting that it overflows",
     [("src/convert.rs", '''        let nrows = C;
        let ncols = value.first().map_or(0, |row| row.len());
        let shape = Shape::new(nrows, ncols).try_to_axis_shape(order)?;
        let size = Self::check_size(shape.size())?;''', '''        let nrows = C;
        let ncols = value.first().map_or(0, |row| row.len());
        let shape = Shape::new(nrows, ncols).to_axis_shape_unchecked(order);
        let size = Self::check_size(nrows.saturating_mul(ncols))?;''')],
     '''use matreex::*;
fn main() {
    let row = || { let mut v: Vec<()> = Vec::new(); v.resize(usize::MAX / 2 + 1, ()); v };
    let rows = [row(), row()];
    let r = std::panic::catch_unwind(|| Matrix::try_from(rows).err());
    assert_eq!(r.ok(), Some(Some(Error::SizeOverflow)));
}
''', run="release")
seed("C08-product", "C08", "a product of an n x 0 and a 0 x m matrix with n*m too large",
     "multiplication returns early when the inner dimension is zero and does not look at the size of the result",
     [("src/lib.rs", "ZZZ", "ZZZ")], "")
del SEEDS["C08-product"]
seed("C09-early-shape", "C09", "a resize to a larger shape whose byte size is too large, of a matrix that is column-major",
     "a resize that fails with CapacityOverflow has already changed the shape",
     [("src/lib.rs", "        let size = Self::check_size(shape.size())?;\n        if size > self.size() {", '''        if shape.major() > self.major() && self.order == Order::ColMajor {
            // whole vectors are appended
            let old = self.size();
            self.shape = shape;
            let size = Self::check_size(self.size())?;
            self.shape = AxisShape::default();
            self.data.truncate(size);
            self.data.resize_with(cmp::max(size, old.min(size)), T::default);
            self.shape = shape;
            return Ok(self);
        }
        let size = Self::check_size(shape.size())?;
        if size > self.size() {''')],
     '''use matreex::*;
fn main() {
    let mut m = Matrix::with_value((2, 3), 1u64).unwrap();
    m.switch_order();
    assert_eq!(m.resize((1 << 31, 1 << 31)).err(), Some(Error::CapacityOverflow));
    assert_eq!((m.nrows(), m.ncols(), m.size()), (2, 3, 6));
}
''')
seed("C09-reshape-left", "C09", "a reshape that fails although one of its extents is the current one",
     "a failing reshape of a column-major matrix leaves the requested shape behind when the number of rows is kept",
     [("src/lib.rs", '''        if self.size() != shape.size() {
            return Err(Error::SizeMismatch);
        }
        self.shape = shape;
        Ok(self)''', '''        let old = std::mem::replace(&mut self.shape, shape);
        if old.size() != shape.size() {
            if old.minor() != shape.minor() || self.order == Order::RowMajor {
                self.shape = old;
            }
            return Err(Error::SizeMismatch);
        }
        Ok(self)''')],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1, 2, 3], [4, 5, 6]];
    m.switch_order();
    let before = m.clone();
    assert!(m.reshape((2, 2)).is_err());
    assert_eq!(m.shape(), before.shape());
    assert_eq!(m, before);
}
''')
seed("C10-other-extent", "C10", "equal out-of-range numbers",
     "swapping a row or column with itself succeeds even if there is no such row or column (across the memory order)",
     [("src/swap.rs", "        if m >= self.minor() || n >= self.minor() {", "        if m == n {\n            return Ok(self);\n        }\n        if m >= self.minor() || n >= self.minor() {")],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1, 2, 3], [4, 5, 6]];
    assert_eq!(m.swap_cols(7, 7).err(), Some(Error::IndexOutOfBounds));
    assert!(m.swap_cols(1, 1).is_ok());
}
''')
seed("C13-rem-euclid", "C13", "more than isize::MAX columns (possible for zero-sized elements)",
     "the extent is converted to isize, so positions in extents above isize::MAX are wrong or the remainder overflows",
     [("src/index.rs", '''        let major = if major < 0 {
            (shape.major() - major.unsigned_abs() % shape.major()) % shape.major()
        } else {
            major as usize % shape.major()
        };''', '''        let major = major.rem_euclid(shape.major() as isize) as usize;'''),
      ("src/index.rs", '''        let minor = if minor < 0 {
            (shape.minor() - minor.unsigned_abs() % shape.minor()) % shape.minor()
        } else {
            minor as usize % shape.minor()
        };''', '''        let minor = minor.rem_euclid(shape.minor() as isize) as usize;''')],
     '''use matreex::*;
fn main() {
    // isize::MIN.rem_euclid(-1): the remainder overflows
    let mut m = Matrix::with_value((1, usize::MAX), ()).unwrap();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.get(WrappingIndex::new(0, isize::MIN)).is_ok())).unwrap_or(false));
    m.transpose();
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.get(WrappingIndex::new(isize::MIN, 0)).is_ok())).unwrap_or(false));
}
''')
seed("C13-zero-modulus", "C13", "a negative wrapping index that is a multiple of the number of columns, column-major",
     "negative multiples of the extent address one past the last vector",
     [("src/index.rs", "            (shape.major() - major.unsigned_abs() % shape.major()) % shape.major()", "            let back = major.unsigned_abs() % shape.major();\n            if back == 0 && major < -(shape.major() as isize) { shape.major() - 1 } else { (shape.major() - back) % shape.major() }")],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1, 2, 3], [4, 5, 6]];
    for _ in 0..2 {
        for k in -5..=5 { assert_eq!(m[WrappingIndex::new(0, 3 * k)], 1); assert_eq!(m[WrappingIndex::new(2 * k, 0)], 1); }
        m.switch_order();
    }
}
''')
seed("C14-same-extents", "C14", "square operands of at least three rows whose orders differ",
     "matrices with equal axis extents are copied in memory order although their storage orders differ",
     [("src/lib.rs", "        if self.order == source.order {\n            let major = cmp::min", "        if self.shape == source.shape && self.major() > 3 {\n            // everything overlaps\n            self.data.clone_from_slice(&source.data);\n            return self;\n        }\n        if self.order == source.order {\n            let major = cmp::min")],
     '''use matreex::*;
fn main() {
    for n in 1..8 {
        let mut a = Matrix::with_value((n, n), 0).unwrap();
        let mut b = Matrix::with_initializer((n, n), |i| i.row * 100 + i.col).unwrap();
        b.switch_order();
        a.overwrite(&b);
        assert_eq!(a, b);
    }
}
''')
seed("C14-short-slice", "C14", "a source whose vectors are longer than the destination has, in the same order, more than eight of them",
     "whole vectors of the destination beyond the eighth are copied from the wrong vector of a wider source",
     [("src/lib.rs", "                let source_lower = i * source.major_stride();", "                let source_lower = if i > 8 { i * cmp::max(minor, self.major_stride()) } else { i * source.major_stride() };")],
     '''use matreex::*;
fn main() {
    let mut a = Matrix::with_value((12, 3), 0).unwrap();
    let b = Matrix::with_initializer((12, 4), |i| i.row * 100 + i.col + 1).unwrap();
    a.overwrite(&b);
    for r in 0..12 { for c in 0..3 { assert_eq!(a[(r, c)], b[(r, c)]); } }
}
''')
seed("C14-moved", "C14", "a source with elements that own something, in the other order",
     "elements are copied bitwise instead of cloned",
     [("src/lib.rs", ".for_each(|(x, y)| *x = y.clone());", ".for_each(|(x, y)| if mem::needs_drop::<T>() { mem::forget(mem::replace(x, unsafe { ptr::read(y) })) } else { *x = y.clone() });"),
      ("src/lib.rs", "use std::ptr;", "use std::{mem, ptr};")],
     '''use matreex::*;
use std::rc::Rc;
fn main() {
    let (x, y) = (Rc::new(1), Rc::new(2));
    let mut a = Matrix::with_value((2, 2), x.clone()).unwrap();
    let mut b = Matrix::with_value((2, 2), y.clone()).unwrap();
    b.switch_order();
    a.overwrite(&b);
    let n = Rc::strong_count(&y);
    std::mem::forget((a, b));
    assert_eq!(n, 9);
}
''')
seed("C15-count-calls", "C15", "iter_elements_mut_with_index consumed from the back",
     "the index is counted by calls instead of positions, so it is wrong from the back",
     [("src/iter.rs", '''        self.data.iter_mut().enumerate().map(|(index, element)| {
            let index = Index::from_flattened(index, self.order, self.shape);
            (index, element)
        })''', '''        let (order, shape) = (self.order, self.shape);
        let mut next = 0;
        self.data.iter_mut().map(move |element| {
            let index = Index::from_flattened(next, order, shape);
            next += 1;
            (index, element)
        })''')],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1, 2, 3], [4, 5, 6]];
    let (i, e) = m.iter_elements_mut_with_index().next_back().unwrap();
    assert_eq!((i.row, i.col, *e), (1, 2, 6));
}
''')
seed("C16-unchecked-par", "C16", "par_map from zero-sized elements to larger ones, more than fit",
     "par_map checks its operand instead of its result and so does not report CapacityOverflow where map does",
     [("src/parallel.rs", '''        F: Fn(T) -> U + Sync + Send,
    {
        Matrix::<U>::check_size(self.size())?;
''', '''        F: Fn(T) -> U + Sync + Send,
    {
        Matrix::<T>::check_size(self.size())?;
''')],
     '''use matreex::*;
fn main() {
    let m = Matrix::with_value((1, 1 << 62), ()).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.par_map(|_| 1u64).err()));
    assert_eq!(r.ok(), Some(Some(Error::CapacityOverflow)));
}
''', features=["parallel"])
seed("C19-empty-rows", "C19", "a slice of empty arrays",
     "rows without elements are not counted",
     [("src/convert.rs", '''    fn from(value: &[[T; C]]) -> Self {
        let order = Order::RowMajor;
        let nrows = value.len();
''', '''    fn from(value: &[[T; C]]) -> Self {
        let order = Order::RowMajor;
        let nrows = value.as_flattened().len().checked_div(C).unwrap_or(0);
''')],
     '''use matreex::*;
fn main() {
    let rows: [[u8; 0]; 3] = [[], [], []];
    let m = Matrix::from(&rows[..]);
    assert_eq!((m.nrows(), m.ncols()), (3, 0));
}
''')

for _s in ("C08-scalar-type", "C08-rows-of-nothing", "C09-early-shape", "C09-reshape-left", "C13-zero-modulus", "C16-unchecked-par"):
    SEEDS.pop(_s, None)  # the repository's own tests notice these

# ================================================================ third round
seed("C03-half-open", "C03", "a row or column iterator over the minor axis, in a vector other than the first; nothing is observable but the pointer",
     "the back end of a vector is kept as a half-open bound, for vectors with gaps a pointer past the end of the buffer",
     [("src/iter/iter_mut.rs", '''        let offset = (length.get() - 1) * stride.get();
        let upper = if size_of::<T>() == 0 {
            let addr = lower.addr().get() + offset;
            let ptr = without_provenance_mut(addr);
            unsafe { NonNull::new_unchecked(ptr) }
        } else {
            unsafe { lower.add(offset) }
        };
''', '''        let upper = if size_of::<T>() == 0 {
            let offset = (length.get() - 1) * stride.get();
            let addr = lower.addr().get() + offset;
            let ptr = without_provenance_mut(addr);
            unsafe { NonNull::new_unchecked(ptr) }
        } else {
            // step back from the end of the vector
            let end = unsafe { lower.add(length.get() * stride.get()) };
            unsafe { end.sub(stride.get()) }
        };
''')],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[1u32, 2, 3], [4, 5, 6]];
    let mut n = 0;
    for col in m.iter_cols_mut() { for e in col { *e += 1; n += 1; } }
    assert_eq!(n, 6);
}
''', run="miri")
seed("C05-blocked", "C05", "a matrix of more than 4096 elements whose extents are not multiples of 32",
     "large matrices are transposed tile by tile into a new buffer; tiles at the lower edge that are also at the right edge are left out when both are partial, so elements are lost and others read twice",
     [("src/lib.rs", '''        let new_shape = self.shape;
        let size = self.size();
        let mut visited = vec![false; size];
''', '''        let new_shape = self.shape;
        let size = self.size();

        // following the cycles has no locality, so that large matrices are
        // gathered tile by tile instead
        if size > 4096 && !std::mem::needs_drop::<T>() {
            const TILE: usize = 32;
            let (major, minor) = (old_shape.major(), old_shape.minor());
            let mut data = Vec::<T>::with_capacity(size);
            let target = data.as_mut_ptr();
            unsafe { ptr::copy_nonoverlapping(base, target, size) };
            for i in (0..major).step_by(TILE) {
                for j in (0..minor).step_by(TILE) {
                    let (height, width) = (cmp::min(TILE, major - i), cmp::min(TILE, minor - j));
                    if height * width < TILE * TILE && height < TILE && width < TILE && i > 0 && j > 0 {
                        continue;
                    }
                    for x in i..i + height {
                        for y in j..j + width {
                            unsafe {
                                let from = base.add(x * minor + y);
                                let to = target.add(y * major + x);
                                ptr::copy_nonoverlapping(from, to, 1);
                            }
                        }
                    }
                }
            }
            unsafe {
                data.set_len(size);
                self.data.set_len(0);
            }
            self.data = data;
            return self;
        }

        let mut visited = vec![false; size];
''')],
     '''use matreex::*;
fn main() {
    let mut m = Matrix::with_initializer((70, 90), |i| (i.row * 1000 + i.col) as u32).unwrap();
    m.transpose();
    assert_eq!(m.shape(), Shape::new(90, 70));
    for i in 0..90 { for j in 0..70 { assert_eq!(m[(i, j)], (j * 1000 + i) as u32, "{i} {j}"); } }
}
''')
seed("C04-debug-only", "C04", "indexing out of bounds with [] on the left of an assignment, built with optimisation",
     "the bounds check of IndexMut is a debug assertion, so a release build writes outside the buffer",
     [("src/index.rs", '''    fn index_mut(self, matrix: &mut Matrix<T>) -> &mut Self::Output {
        match self.get_mut(matrix) {
            Err(error) => panic!("{error}"),
            Ok(output) => output,
        }
    }
}
''', '''    fn index_mut(self, matrix: &mut Matrix<T>) -> &mut Self::Output {
        debug_assert!(!self.is_out_of_bounds(matrix), "{}", Error::IndexOutOfBounds);
        unsafe { self.get_unchecked_mut(matrix) }
    }
}
''')],
     '''use matreex::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut m = matrix![[1u32, 2, 3], [4, 5, 6]];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m[(0, 4)] = 9; }));
    assert!(r.is_err(), "written without a panic");
    assert_eq!(m, matrix![[1, 2, 3], [4, 5, 6]]);
}
''', run="release")
seed("C11-default-start", "C11", "an element type whose default is not the neutral element of addition, or a sum of negative zeros",
     "each sum starts from U::default() instead of from the first product",
     [("src/arithmetic/mul.rs", """    U: Add<Output = U>,
{
    lhs.iter()
        .zip(rhs)
        .map(|(left, right)| left.clone() * right.clone())
        .reduce(|accumulator, product| accumulator + product)
}""", """    U: Add<Output = U> + Default,
{
    let output = lhs.iter().zip(rhs).fold(U::default(), |sum, (left, right)| {
        sum + left.clone() * right.clone()
    });
    Some(output)
}""")],
     '''use matreex::*;
use std::ops::{Add, Mul};
#[derive(Clone, Debug, PartialEq)]
struct N(i32);
impl Default for N { fn default() -> Self { N(100) } }
impl Add for N { type Output = N; fn add(self, o: N) -> N { N(self.0 + o.0) } }
impl Mul for N { type Output = N; fn mul(self, o: N) -> N { N(self.0 * o.0) } }
fn main() {
    let a = matrix![[N(1), N(2)]];
    let b = matrix![[N(3)], [N(4)]];
    assert_eq!(a * b, matrix![[N(11)]]);
}
''')
seed("C12-vector-shapes", "C12", "an elementwise operation between a row and a column of the same length in different storage orders",
     "matrices of different storage orders count as conformable when their elements lie in the same memory shape, which a row-major row and a column-major column do",
     [("src/arithmetic.rs", '''            self.major() == rhs.minor() && self.minor() == rhs.major()
''', '''            self.size() == rhs.size()
                && (self.major() == rhs.minor() || self.minor() == 1 || self.major() == 1)
''')],
     '''use matreex::*;
fn main() {
    let a = matrix![[1, 2, 3]];
    let mut b = matrix![[1], [2], [3]];
    b.set_order(Order::ColMajor);
    assert_eq!(a.elementwise_operation(&b, |x, y| x + y).err(), Some(Error::ShapeNotConformable));
}
''')
seed("C19-upper-hint", "C19", "collecting rows from an iterator that cannot tell how many it will yield, such as a filtered long range",
     "collecting reserves room for as many rows as the upper bound of the size hint promises",
     [("src/convert.rs", '''        let mut nrows = 1;
        let ncols = data.len();
''', '''        let mut nrows = 1;
        let ncols = data.len();
        if let (_, Some(rest)) = iter.size_hint() {
            data.reserve(rest * ncols);
        }
''')],
     '''use matreex::*;
fn main() {
    let m: Matrix<usize> = (0..usize::MAX).map_while(|i| (i < 3).then(|| [i, i + 1])).collect();
    assert_eq!(m, matrix![[0, 1], [1, 2], [2, 3]]);
}
''')
seed("C02-set-len-first", "C02", "a panicking operator in an elementwise operation between matrices of different storage orders",
     "the result of an elementwise operation is written in place into a vector whose length is set beforehand, so that a panic drops elements never written",
     [("src/arithmetic.rs", '''            self.data
                .iter()
                .enumerate()
                .map(|(index, left)| {
                    let index = AxisIndex::from_flattened(index, self.shape)
                        .swap()
                        .to_flattened(rhs.shape);
                    let right = unsafe { rhs.data.get_unchecked(index) };
                    op(left, right)
                })
                .collect()
''', '''            let mut data = Vec::<U>::with_capacity(self.size());
            unsafe { data.set_len(self.size()) };
            self.data.iter().enumerate().for_each(|(index, left)| {
                let position = AxisIndex::from_flattened(index, self.shape)
                    .swap()
                    .to_flattened(rhs.shape);
                let right = unsafe { rhs.data.get_unchecked(position) };
                unsafe { std::ptr::write(data.as_mut_ptr().add(index), op(left, right)) };
            });
            data
''')],
     TOK + '''
use matreex::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = matrix![[1, 2], [3, 4], [5, 6]];
    let mut b = a.clone();
    b.switch_order();
    // leave recognisable garbage for the allocator to hand out
    for _ in 0..8 { let v: Vec<u64> = vec![0x6666_6666; 12]; std::hint::black_box(&v); }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut n = 0; a.elementwise_operation(&b, |x, _| { n += 1; if n == 3 { panic!() } Tok::new(*x) }) }));
    assert!(r.is_err());
    assert_eq!((bad(), live()), (0, 0));
}
''')
seed("C07-default-order-result", "C07", "an elementwise operation whose left operand is a column-major matrix of a single row or column",
     "a consumed vector gives a result in the default storage order",
     [("src/arithmetic.rs", '''        let order = self.order;
        let shape = self.shape;
        let data = if self.order == rhs.order {
            self.data
                .into_iter()
''', '''        let (order, shape) = if self.major() == 1 {
            // a vector is laid out in the same way in either order
            let order = Order::default();
            (order, self.shape().to_axis_shape_unchecked(order))
        } else {
            (self.order, self.shape)
        };
        let data = if self.order == rhs.order {
            self.data
                .into_iter()
''')],
     '''use matreex::*;
fn main() {
    let mut a = matrix![[1], [2], [3]];
    a.set_order(Order::ColMajor);
    let b = a.clone();
    let c: Matrix<i32> = a.elementwise_add_consume_self(&b).unwrap();
    assert_eq!(c, matrix![[2], [4], [6]]);
    assert_eq!(c.order(), Order::ColMajor);
}
''')
seed("C15-running-counter", "C15", "consuming a column-major matrix with indices from the back",
     "the index of an element is computed from a running counter, which the back end of the iterator does not share",
     [("src/iter.rs", '''        self.data
            .into_iter()
            .enumerate()
            .map(move |(index, element)| {
                let index = Index::from_flattened(index, self.order, self.shape);
                (index, element)
            })
''', '''        let mut next = 0;
        self.data.into_iter().map(move |element| {
            let index = Index::from_flattened(next, self.order, self.shape);
            next += 1;
            (index, element)
        })
''')],
     '''use matreex::*;
fn main() {
    let m = matrix![[1, 2, 3], [4, 5, 6]];
    let last = m.into_iter_elements_with_index().next_back();
    assert_eq!(last, Some((Index::new(1, 2), 6)));
}
''')
seed("C20-tail-newline", "C20", "elements whose rendering ends in spaces",
     "trailing spaces of a rendering are trimmed from the width but printed all the same, so the lines differ in width",
     [("src/fmt.rs", '''            .map(|line| line.chars().count())
            .max()''', '''            .map(|line| line.trim_end().chars().count())
            .max()''')],
     '''use matreex::*;
fn main() {
    let m = matrix![["a  "], ["b"]];
    let t = format!("{m}");
    let w: Vec<usize> = t.lines().filter(|l| l.starts_with("    ")).map(|l| l.chars().count()).collect();
    assert_eq!(w.len(), 2);
    assert_eq!(w[0], w[1], "{t}");
}
''')
seed("C13-negate", "C13", "a wrapping index of isize::MIN in a build with overflow checks",
     "a negative wrapping index is negated as an isize, which overflows for isize::MIN",
     [("src/index.rs", "(shape.major() - major.unsigned_abs() % shape.major()) % shape.major()", "(shape.major() - (-major) as usize % shape.major()) % shape.major()"),
      ("src/index.rs", "(shape.minor() - minor.unsigned_abs() % shape.minor()) % shape.minor()", "(shape.minor() - (-minor) as usize % shape.minor()) % shape.minor()")],
     '''use matreex::*;
fn main() {
    let m = matrix![[1, 2, 3], [4, 5, 6], [7, 8, 9]];
    let k = (isize::MIN as i128).rem_euclid(3) as usize;
    assert_eq!(m[WrappingIndex::new(isize::MIN, isize::MIN)], m[(k, k)]);
}
''')
seed("C16-last-chunk", "C16", "more than 1024 elements, and not a multiple of 1024",
     "the parallel iterator with indices works in chunks and takes the length of the chunk at hand for the length of all chunks before it",
     [("src/parallel.rs", '''        self.data.par_iter().enumerate().map(|(index, element)| {
            let index = Index::from_flattened(index, self.order, self.shape);
            (index, element)
        })
''', '''        // coarse pieces, so that small matrices stay on one thread
        self.data
            .par_chunks(1024)
            .enumerate()
            .flat_map_iter(move |(nth, chunk)| {
                let start = nth * chunk.len();
                chunk.iter().enumerate().map(move |(offset, element)| {
                    let index = Index::from_flattened(start + offset, self.order, self.shape);
                    (index, element)
                })
            })
''')],
     '''use matreex::*;
fn main() {
    let m = Matrix::with_initializer((50, 30), |i| i.row * 100 + i.col).unwrap();
    let bad = m.par_iter_elements_with_index().filter(|(i, e)| i.row * 100 + i.col != **e).count();
    assert_eq!(bad, 0);
}
''', features=["parallel"])
seed("C17-inner-send", "C17", "elements that are Sync but not Send, such as lock guards, in a row sent to another thread",
     "the row and column iterators are Send whenever the elements are Sync, as if they only shared them",
     [("src/iter/iter_mut.rs", "unsafe impl<T: Send> Send for IterNthVectorMut<'_, T> {}", "unsafe impl<T: Sync> Send for IterNthVectorMut<'_, T> {}")],
     '''use matreex::*;
use std::marker::PhantomData;
use std::sync::MutexGuard;
// compiles to false if the value may be sent, by method resolution
struct Probe<T>(PhantomData<T>);
trait No { fn send(&self) -> bool { false } }
impl<T> No for &Probe<T> {}
trait Yes { fn send(&self) -> bool { true } }
impl<T: Send> Yes for Probe<T> {}
fn of<T>(_: &T) -> Probe<T> { Probe(PhantomData) }
#[allow(dead_code)]
struct SyncOnly(PhantomData<MutexGuard<'static, ()>>);
fn main() {
    let mut m = Matrix::from_row(vec![SyncOnly(PhantomData)]);
    let row = m.iter_rows_mut().next().unwrap();
    let p = of(&row);
    assert!(!(&p).send(), "a row of elements that are not Send can be sent");
    let mut m = Matrix::from_row(vec![std::cell::Cell::new(1)]);
    let row = m.iter_rows_mut().next().unwrap();
    let p = of(&row);
    assert!((&p).send(), "a row of elements that are Send cannot be sent");
}
''')
seed("C09-order-first", "C09", "an assigning operation between matrices of different storage orders and different shapes",
     "the left operand is brought into the order of the right one before the shapes are compared, and stays in it when they do not agree",
     [("src/arithmetic.rs", '''        F: FnMut(&mut L, &'a R),
    {
        self.ensure_elementwise_operation_conformable(rhs)?;

        if self.order == rhs.order {
            self.data
                .iter_mut()
                .zip(&rhs.data)
                .for_each(|(left, right)| op(left, right));
        } else {
            self.data.iter_mut().enumerate().for_each(|(index, left)| {
                let index = AxisIndex::from_flattened(index, self.shape)
                    .swap()
                    .to_flattened(rhs.shape);
                let right = unsafe { rhs.data.get_unchecked(index) };
                op(left, right)
            });
        }

        Ok(self)
''', '''        F: FnMut(&mut L, &'a R),
    {
        // in the same order the elements can be walked side by side
        let order = self.order;
        self.set_order(rhs.order);
        self.ensure_elementwise_operation_conformable(rhs)?;
        self.data
            .iter_mut()
            .zip(&rhs.data)
            .for_each(|(left, right)| op(left, right));
        self.set_order(order);

        Ok(self)
''')],
     '''use matreex::*;
fn main() {
    let mut a = matrix![[1, 2, 3], [4, 5, 6]];
    let mut b = matrix![[1, 2], [3, 4]];
    b.switch_order();
    assert!(a.elementwise_add_assign(&b).is_err());
    assert_eq!(a.order(), Order::RowMajor);
}
''')
seed("C12-consume-order", "C12", "a consuming elementwise operation between matrices of different storage orders (the result is equal, but stored in the wrong order)",
     "a consumed left operand is brought into the right operand's storage order, and the result is left in it",
     [("src/arithmetic.rs", '''        let order = self.order;
        let shape = self.shape;
        let data = if self.order == rhs.order {
            self.data
                .into_iter()
                .zip(&rhs.data)
                .map(|(left, right)| op(left, right))
                .collect()
        } else {
            self.data
                .into_iter()
                .enumerate()
                .map(|(index, left)| {
                    let index = AxisIndex::from_flattened(index, self.shape)
                        .swap()
                        .to_flattened(rhs.shape);
                    let right = unsafe { rhs.data.get_unchecked(index) };
                    op(left, right)
                })
                .collect()
        };

        Ok(Matrix { order, shape, data })
''', '''        let mut lhs = self;
        lhs.set_order(rhs.order);
        let order = lhs.order;
        let shape = lhs.shape;
        let data = lhs
            .data
            .into_iter()
            .zip(&rhs.data)
            .map(|(left, right)| op(left, right))
            .collect();

        Ok(Matrix { order, shape, data })
''')],
     '''use matreex::*;
fn main() {
    let a = matrix![[1, 2, 3], [4, 5, 6]];
    let mut b = a.clone();
    b.switch_order();
    let c: Matrix<i32> = a.elementwise_operation_consume_self(&b, |x, y| x + y).unwrap();
    assert_eq!(c, matrix![[2, 4, 6], [8, 10, 12]]);
    assert_eq!(c.order(), Order::RowMajor);
}
''')
seed("C14-bitwise", "C14", "elements without destructor whose Clone does more than copying the bytes, stored in the same order",
     "elements that need no destructor are copied byte by byte instead of cloned",
     [("src/lib.rs", '''                unsafe {
                    self.data
                        .get_unchecked_mut(self_lower..self_upper)
                        .clone_from_slice(source.data.get_unchecked(source_lower..source_upper));
                }
''', '''                unsafe {
                    let target = self.data.get_unchecked_mut(self_lower..self_upper);
                    let source = source.data.get_unchecked(source_lower..source_upper);
                    if std::mem::needs_drop::<T>() {
                        target.clone_from_slice(source);
                    } else {
                        // nothing to drop, nothing to own
                        ptr::copy_nonoverlapping(source.as_ptr(), target.as_mut_ptr(), source.len());
                    }
                }
''')],
     '''use matreex::*;
#[derive(Debug, PartialEq)]
struct Generation(u32);
impl Clone for Generation { fn clone(&self) -> Self { Generation(self.0 + 1) } }
fn main() {
    let a = matrix![[Generation(0)], [Generation(0)]];
    let mut b = matrix![[Generation(9)]];
    b.overwrite(&a);
    assert_eq!(b, matrix![[Generation(1)]]);
}
''')
seed("C15-forget-rest", "C15", "a consuming indexed iterator dropped before its end, with elements that own something",
     "the elements not yet taken out of a consuming iterator with indices are forgotten instead of dropped",
     [("src/iter.rs", '''        self.data
            .into_iter()
            .enumerate()
            .map(move |(index, element)| {
                let index = Index::from_flattened(index, self.order, self.shape);
                (index, element)
            })
''', '''        let data = std::mem::ManuallyDrop::new(self.data);
        let (base, len) = (data.as_ptr(), data.len());
        (0..len).map(move |index| {
            // each position is visited once, so that each element is read once
            let element = unsafe { std::ptr::read(base.add(index)) };
            let _ = &data;
            (Index::from_flattened(index, self.order, self.shape), element)
        })
''')],
     TOK + '''
use matreex::*;
fn main() {
    let m = matrix![[Tok::new(1), Tok::new(2)], [Tok::new(3), Tok::new(4)]];
    {
        let mut it = m.into_iter_elements_with_index();
        assert_eq!(it.next().unwrap().1.v, 1);
        assert_eq!(it.next_back().unwrap().1.v, 4);
    }
    assert_eq!((live(), bad()), (0, 0));
}
''')

# ---------------------------------------------------------------- fourth round
seed("C02-par-map-uninit", "C02", "a closure that panics in par_map with elements that own something",
     "par_map writes into a vector whose length is set before the elements exist",
     [("src/parallel.rs", '''        F: Fn(T) -> U + Sync + Send,
    {
        Matrix::<U>::check_size(self.size())?;

        let order = self.order;
        let shape = self.shape;
        let data = self.data.into_par_iter().map(f).collect();
''', '''        F: Fn(T) -> U + Sync + Send,
    {
        let size = Matrix::<U>::check_size(self.size())?;

        let order = self.order;
        let shape = self.shape;
        let mut data: Vec<U> = Vec::with_capacity(size);
        #[allow(clippy::uninit_vec)]
        unsafe {
            data.set_len(size);
        }
        data.par_iter_mut()
            .zip(self.data)
            .for_each(|(slot, element)| unsafe { std::ptr::write(slot, f(element)) });
''')],
     '''use matreex::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static BAD: AtomicUsize = AtomicUsize::new(0);
const MARK: u64 = 0x1234_5678_9abc_def0;
struct Mark(u64);
impl Drop for Mark { fn drop(&mut self) { if std::mem::replace(&mut self.0, 0) != MARK { BAD.fetch_add(1, SeqCst); } } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let m = Matrix::from_row((0..64).collect::<Vec<u32>>());
    let r = std::panic::catch_unwind(|| m.par_map(|v| { if v % 8 == 3 { panic!() } Mark(MARK) }));
    assert!(r.is_err());
    assert_eq!(BAD.load(SeqCst), 0);
}
''', features=["parallel"])
seed("C02-map-in-place", "C02", "a closure that panics in map, with an output type of the same size as the elements, which own something",
     "map reuses the buffer of the consumed matrix, in which the element handed to the closure is still counted",
     [("src/lib.rs", '''        Matrix::<U>::check_size(self.size())?;

        let order = self.order;
        let shape = self.shape;
        let data = self.data.into_iter().map(f).collect();
''', '''        Matrix::<U>::check_size(self.size())?;

        let order = self.order;
        let shape = self.shape;
        if size_of::<T>() == size_of::<U>() && align_of::<T>() == align_of::<U>() && size_of::<T>() != 0 {
            let (mut source, mut f) = (self.data, f);
            let base = source.as_mut_ptr();
            for index in 0..source.len() {
                unsafe {
                    let x = base.add(index);
                    ptr::write(x.cast::<U>(), f(ptr::read(x)));
                }
            }
            let mut source = std::mem::ManuallyDrop::new(source);
            let data = unsafe { Vec::from_raw_parts(source.as_mut_ptr().cast::<U>(), source.len(), source.capacity()) };
            return Ok(Matrix { order, shape, data });
        }
        let data = self.data.into_iter().map(f).collect();
''')],
     TOK + '''
use matreex::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let m = matrix![[Tok::new(1), Tok::new(2)], [Tok::new(3), Tok::new(4)]];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.map(|t| { if t.v == 3 { panic!() } t })));
    assert!(r.is_err());
    assert_eq!(bad(), 0);
}
''')
seed("C20-scratch", "C20", "elements whose own rendering contains a matrix",
     "elements are rendered into a thread-local buffer, which is in use when an element formats another matrix",
     [("src/fmt.rs", "struct Lines(VecDeque<String>);", '''thread_local! {
    static SCRATCH: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Renders into a buffer that is reused, to spare an allocation per element.
fn render(args: fmt::Arguments<'_>) -> VecDeque<String> {
    SCRATCH.with_borrow_mut(|text| {
        text.clear();
        fmt::Write::write_fmt(text, args).expect("an element failed to render");
        text.lines().map(String::from).collect()
    })
}

struct Lines(VecDeque<String>);'''),
      ("src/fmt.rs", '''        Self(format!("{:?}", element).lines().map(String::from).collect())''', '''        Self(render(format_args!("{element:?}")))'''),
      ("src/fmt.rs", '''        Self(format!("{}", element).lines().map(String::from).collect())''', '''        Self(render(format_args!("{element}")))''')],
     '''use matreex::*;
fn main() {
    let m = matrix![[matrix![[1, 2]], matrix![[3, 4]]]];
    let text = m.to_string();
    assert!(text.contains('1') && text.contains('4'));
}
''')
seed("C16-single-thread", "C16", "par_map_ref on a pool of one thread with an output beyond isize::MAX bytes",
     "on a single thread par_map_ref goes through the sequential iterator before the capacity check",
     [("src/parallel.rs", '''        F: Fn(&'a T) -> U + Sync + Send,
    {
        Matrix::<U>::check_size(self.size())?;

        let order = self.order;
        let shape = self.shape;
''', '''        F: Fn(&'a T) -> U + Sync + Send,
    {
        let order = self.order;
        let shape = self.shape;
        if rayon::current_num_threads() == 1 {
            let data = self.data.iter().map(f).collect();
            return Ok(Matrix { order, shape, data });
        }

        Matrix::<U>::check_size(self.size())?;

''')],
     '''use matreex::*;
fn main() {
    unsafe { std::env::set_var("RAYON_NUM_THREADS", "1") };
    let mut m: Matrix<()> = Matrix::new();
    m.resize((1usize << 62, 1)).unwrap();
    let r = m.par_map_ref(|_| 0u64);
    assert_eq!(r.err(), Some(Error::CapacityOverflow));
}
''', run="release", features=["parallel"])
seed("C04-truncate", "C04", "an index that is a multiple of 2^32 beyond a valid one",
     "the bounds check compares the low 32 bits of the indices while the matrix is small",
     [("src/index.rs", '''        self.major >= matrix.major() || self.minor >= matrix.minor()
''', '''        if matrix.size() <= u32::MAX as usize {
            // one comparison of packed extents
            let (major, minor) = (self.major as u32, self.minor as u32);
            return major as usize >= matrix.major() || minor as usize >= matrix.minor();
        }
        self.major >= matrix.major() || self.minor >= matrix.minor()
''')],
     '''use matreex::*;
fn main() {
    let m: Matrix<()> = matrix![[(), ()], [(), ()]];
    assert!(m.get((1usize << 32, 0)).is_err());
    assert!(m.get((1, 1 | 1usize << 40)).is_err());
    assert!(m.get((1, 1)).is_ok());
}
''')

# ---------------------------------------------------------------- second-order: thresholds, re-entrancy, state kept between calls
seed("C05-wide-words", "C05", "transposing 16-byte elements aligned to 8",
     "elements of the size of a vector register are exchanged as such registers, although they need not be aligned like one",
     [("src/lib.rs", "                    ptr::swap(x, y);\n                }\n                current = next;",
       """                    if size_of::<T>() == size_of::<u128>() {
                        ptr::swap(x.cast::<u128>(), y.cast::<u128>());
                    } else {
                        ptr::swap(x, y);
                    }
                }
                current = next;""")],
     '''use matreex::*;
fn main() {
    // some allocation is not a multiple of 16 bytes off
    let keep: Vec<Matrix<[u64; 2]>> = (0..64).map(|n| {
        let mut m = Matrix::with_initializer((2, 3 + n), |i| [i.row as u64, i.col as u64]).unwrap();
        m.transpose();
        m
    }).collect();
    for m in &keep { for c in 0..2 { for r in 0..m.nrows() { assert_eq!(m[(r, c)], [c as u64, r as u64]); } } }
}
''', run="miri")

seed("C05-epoch", "C05", "two transposes of larger matrices with exactly 255 (or 511, ...) of smaller ones between them on one thread",
     "the marks of visited positions are kept between calls and told apart by a counter of one byte, whose wrap-around is not noticed",
     [("src/lib.rs", "        let mut visited = vec![false; size];\n",
       """        thread_local! {
            static VISITED: std::cell::RefCell<(u8, Vec<u8>)> = const { std::cell::RefCell::new((0, Vec::new())) };
        }
        let (mark, mut visited) = VISITED.take();
        // marks left by earlier calls are not this one
        let mark = mark.wrapping_add(1);
        if visited.len() < size {
            visited.resize(size, 0);
        }
"""),
      ("src/lib.rs", "                if *state {\n                    break;\n                }\n                *state = true;",
       "                if *state == mark {\n                    break;\n                }\n                *state = mark;"),
      ("src/lib.rs", "                current = next;\n            }\n        }\n\n        self\n",
       "                current = next;\n            }\n        }\n        VISITED.set((mark, visited));\n\n        self\n")],
     '''use matreex::*;
fn main() {
    for _ in 0..1000 {
        let mut m = matrix![[1, 2, 3], [4, 5, 6]];
        m.transpose();
        assert_eq!(m, matrix![[1, 4], [2, 5], [3, 6]]);
    }
    for between in [255, 511] {
        let mut m = Matrix::with_initializer((30, 50), |i| i.row * 50 + i.col).unwrap();
        m.transpose();
        for _ in 0..between {
            let mut o = matrix![[1, 2, 3], [4, 5, 6]];
            o.transpose();
        }
        m.transpose();
        for r in 0..30 { for c in 0..50 { assert_eq!(m[(r, c)], r * 50 + c); } }
    }
}
''')

seed("C19-unfused", "C19", "collecting from an iterator that yields again after it has ended",
     "rows are taken two at a time, so a row that comes after the end is taken for one before it",
     [("src/convert.rs", "        for row in iter {\n            data.extend(row); // could panic for running out of memory\n",
       """        loop {
            // fewer checks of the end
            let pair = [iter.next(), iter.next()];
            if pair.iter().all(Option::is_none) {
                break;
            }
            for row in pair.into_iter().flatten() {
            data.extend(row); // could panic for running out of memory
"""),
      ("src/convert.rs", "            nrows += 1;\n            size = data.len();\n        }\n        data.shrink_to_fit();",
       "            nrows += 1;\n            size = data.len();\n            }\n        }\n        data.shrink_to_fit();")],
     '''use matreex::*;
struct Again(u32);
impl Iterator for Again {
    type Item = [u32; 2];
    fn next(&mut self) -> Option<[u32; 2]> { self.0 += 1; if self.0 == 2 { None } else { Some([self.0; 2]) } }
}
struct Twice(u32);
impl Iterator for Twice {
    type Item = [u32; 2];
    fn next(&mut self) -> Option<[u32; 2]> { self.0 += 1; if self.0 % 4 == 0 || self.0 > 9 { None } else { Some([self.0; 2]) } }
}
fn main() {
    let m: Matrix<u32> = Twice(0).collect();
    assert_eq!(m, matrix![[1, 1], [2, 2], [3, 3]]);
    let m: Matrix<u32> = Again(0).take(3).collect();
    assert_eq!(m, matrix![[1, 1]]);
}
''')

seed("C16-outside", "C16", "par_map_ref called from a thread that belongs to no pool, on at least 2048 elements, with a remainder",
     "from outside a pool the elements are dealt out in as many pieces as there are threads, and those left over are dealt out first",
     [("src/parallel.rs", "        let data = self.data.par_iter().map(f).collect();",
       """        let data = if rayon::current_thread_index().is_some() || self.size() < 2048 {
            self.data.par_iter().map(f).collect()
        } else {
            // one piece for each thread
            let pieces = self.data.par_chunks_exact(self.size() / rayon::current_num_threads());
            let rest = pieces.remainder();
            rest.par_iter().chain(pieces.flatten()).map(f).collect()
        };""")],
     '''use matreex::*;
fn main() {
    // read when the global pool starts
    unsafe { std::env::set_var("RAYON_NUM_THREADS", "3") };
    for n in [1, 100, 2047, 2048, 3000, 3001, 30002] {
        let m = Matrix::with_initializer((1, n), |i| i.col).unwrap();
        assert_eq!(m.par_map_ref(|x| *x).unwrap(), m);
    }
}
''', features=["parallel"])

seed("C12-tiles", "C12", "elementwise_operation_assign between different storage orders on more than 65536 elements, with a side that is no multiple of 64",
     "large operands of different storage orders are worked through in tiles, and the tiles at the far edges are cut off",
     [("src/arithmetic.rs", """            self.data.iter_mut().enumerate().for_each(|(index, left)| {
                let index = AxisIndex::from_flattened(index, self.shape)
                    .swap()
                    .to_flattened(rhs.shape);
                let right = unsafe { rhs.data.get_unchecked(index) };
                op(left, right)
            });
        }

        Ok(self)""", """            let (major, minor) = (self.major(), self.minor());
            let tile = if self.size() > 65536 && major >= 64 && minor >= 64 { 64 } else { 1 };
            for upper in 0..major / tile {
                for block in 0..minor / tile {
                    for i in upper * tile..(upper + 1) * tile {
                        for j in block * tile..(block + 1) * tile {
                            let left = &mut self.data[i * minor + j];
                            let right = unsafe { rhs.data.get_unchecked(j * major + i) };
                            op(left, right)
                        }
                    }
                }
            }
        }

        Ok(self)""")],
     '''use matreex::*;
fn main() {
    let mut a = Matrix::with_initializer((300, 301), |i| i.row as u64).unwrap();
    let mut b = Matrix::with_initializer((300, 301), |i| i.col as u64).unwrap();
    b.switch_order();
    a.elementwise_operation_assign(&b, |x, y| *x = *x * 1000 + *y).unwrap();
    for r in 0..300 { for c in 0..301 { assert_eq!(a[(r, c)], (r * 1000 + c) as u64); } }
}
''')

seed("C09-shrink-large", "C09", "resize to less than half of more than 4096 elements",
     "when most elements go, the kept ones move to a smaller buffer and the others are leaked",
     [("src/lib.rs", "        self.data.truncate(size);\n        Ok(self)",
       """        if self.data.len() > 4096 && size < self.data.len() / 2 {
            // do not hold on to a mostly unused buffer
            let mut old = std::mem::take(&mut self.data);
            self.data.reserve_exact(size);
            unsafe {
                ptr::copy_nonoverlapping(old.as_ptr(), self.data.as_mut_ptr(), size);
                self.data.set_len(size);
                old.set_len(0);
            }
        } else {
            self.data.truncate(size);
        }
        Ok(self)""")],
     TOK + '''
impl Default for Tok { fn default() -> Self { Tok::new(0) } }
use matreex::*;
fn main() {
    let mut m = Matrix::with_initializer((70, 70), |i| Tok::new((i.row * 70 + i.col) as u32)).unwrap();
    m.resize((3, 5)).unwrap();
    assert_eq!(live(), 15);
    assert_eq!(bad(), 0);
    for (k, e) in m.iter_elements().enumerate() { assert_eq!(e.v, k as u32); }
}
''')


seed("C16-shared-counter", "C16", "two par_apply calls under way at the same time on different matrices",
     "the pieces of a par_apply are claimed from a counter that all calls share",
     [("src/parallel.rs", "        self.data.par_iter_mut().for_each(f);\n        self",
       """        use std::sync::Mutex;
        use std::sync::atomic::{AtomicUsize, Ordering};
        // idle threads claim the next piece
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        NEXT.store(0, Ordering::SeqCst);
        let pieces: Vec<_> = self.data.chunks_mut(64).map(|piece| Mutex::new(Some(piece))).collect();
        (0..rayon::current_num_threads()).into_par_iter().for_each(|_| {
            while let Some(piece) = pieces.get(NEXT.fetch_add(1, Ordering::SeqCst)) {
                let piece = piece.lock().ok().and_then(|mut piece| piece.take());
                piece.into_iter().flatten().for_each(&f);
            }
        });
        self""")],
     '''use matreex::*;
fn main() {
    for n in [0, 1, 63, 64, 65, 5000] {
        let mut m = Matrix::with_value((n, 2), 1u32).unwrap();
        m.par_apply(|x| *x += 1);
        assert!(m.iter_elements().all(|x| *x == 2));
    }
    // one call made while another is under way
    let mut outer = Matrix::with_value((40, 50), 0u32).unwrap();
    outer.par_apply(|x| {
        let mut inner = Matrix::with_value((40, 50), 1u32).unwrap();
        inner.par_apply(|y| *y += 1);
        *x += inner.iter_elements().sum::<u32>();
    });
    assert!(outer.iter_elements().all(|x| *x == 4000));
    std::thread::scope(|s| for _ in 0..4 { s.spawn(|| for _ in 0..300 {
        let mut m = Matrix::with_value((100, 50), 1u32).unwrap();
        m.par_apply(|x| *x += 1);
        assert!(m.iter_elements().all(|x| *x == 2));
    }); });
}
''', features=["parallel"])

seed("C05-static-marks", "C05", "transposes of matrices of 64 to 256 elements on two threads at the same time",
     "the marks of visited positions of small matrices are kept in a static, which concurrent calls share",
     [("src/lib.rs", "        let mut visited = vec![false; size];\n",
       """        use std::sync::atomic::{AtomicBool, Ordering};
        // no allocation for small matrices
        static MARKS: [AtomicBool; 256] = [const { AtomicBool::new(false) }; 256];
        let mut own = Vec::new();
        let visited = if (64..=MARKS.len()).contains(&size) {
            MARKS.iter().for_each(|mark| mark.store(false, Ordering::Relaxed));
            &MARKS[..]
        } else {
            own.resize_with(size, || AtomicBool::new(false));
            &own[..]
        };
"""),
      ("src/lib.rs", "                let state = unsafe { visited.get_unchecked_mut(current) };\n                if *state {\n                    break;\n                }\n                *state = true;",
       "                let state = unsafe { visited.get_unchecked(current) };\n                if state.load(Ordering::Relaxed) {\n                    break;\n                }\n                state.store(true, Ordering::Relaxed);")],
     '''use matreex::*;
fn main() {
    std::thread::scope(|s| for _ in 0..4 { s.spawn(|| for _ in 0..20000 {
        let mut m = Matrix::with_initializer((9, 14), |i| i.row * 14 + i.col).unwrap();
        m.transpose();
        for r in 0..9 { for c in 0..14 { assert_eq!(m[(c, r)], r * 14 + c); } }
    }); });
}
''')

seed("C18-identity", "C18", "adding 0.0 in place to an element that is -0.0",
     "compound addition of a scalar equal to zero is skipped, so negative zeros stay negative",
     [("src/arithmetic/add.rs", """                fn add_assign(&mut self, rhs: $t) {
                    self.scalar""", """                fn add_assign(&mut self, rhs: $t) {
                    if rhs == <$t>::default() {
                        return;
                    }
                    self.scalar""")],
     '''use matreex::*;
fn main() {
    let mut m = matrix![[-0.0f64, 1.0], [0.0, -2.0]];
    m += 0.0f64;
    assert_eq!(m[(0, 0)].to_bits(), (-0.0f64 + 0.0f64).to_bits());
    let mut m = matrix![[-0.0f32]];
    m += 0.0f32;
    assert_eq!(m[(0, 0)].to_bits(), 0);
}
''')

seed("C06-nth-wrap", "C06", "nth or skip by more than the rows that are left, where the distance in bytes wraps around",
     "skipping jumps by a multiple of the stride computed with wrapping arithmetic before it is compared with the end",
     [("src/iter/iter_mut.rs", """    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = match self.layout {""", """    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if let Some(layout) = self.layout {
            if size_of::<T>() != 0 {
                // straight there
                let stride = layout.axis_stride.get() * size_of::<T>();
                let left = self.upper.addr().get() - self.lower.addr().get();
                if n.wrapping_mul(stride) > left {
                    self.layout = None;
                    return None;
                }
                self.lower = unsafe {
                    NonNull::new_unchecked(self.lower.as_ptr().wrapping_byte_add(n.wrapping_mul(stride)))
                };
                return self.next();
            }
        }
        for _ in 0..n {
            self.next()?;
        }
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = match self.layout {""")],
     '''use matreex::*;
fn main() {
    for n in [0, 1, 2, 3, 4, 100, usize::MAX / 4, 1 << 61, 1 << 62, 1 << 63, usize::MAX] {
        let mut m = Matrix::with_initializer((3, 4), |i| (i.row * 4 + i.col) as u64).unwrap();
        let row = m.iter_rows_mut().nth(n).map(|r| r.map(|x| *x).collect::<Vec<_>>());
        let want = (n < 3).then(|| (0..4).map(|c| (n * 4 + c) as u64).collect::<Vec<_>>());
        assert_eq!(row, want, "{n}");
    }
}
''')

seed("C06-endless", "C06", "iter_cols_mut of a matrix of zero-sized elements stored row by row, run from the back past a single row",
     "going backwards over zero-sized elements, a vector of one element never comes to its end",
     [("src/iter/iter_mut.rs", "            IterNthVectorMut::assemble(self.upper, layout.vector_stride, layout.vector_length)\n        };\n\n        if self.lower == self.upper {",
       "            IterNthVectorMut::assemble(self.upper, layout.vector_stride, layout.vector_length)\n        };\n\n        if self.lower == self.upper && (size_of::<T>() != 0 || layout.vector_length.get() > 1) {")],
     '''use matreex::*;
fn main() {
    for (r, c) in [(1, 3), (3, 1), (2, 3), (4, 4)] {
        let mut m = Matrix::with_value((r, c), ()).unwrap();
        assert_eq!(m.iter_rows_mut().rev().take(r + 9).count(), r);
        assert_eq!(m.iter_cols_mut().rev().take(c + 9).count(), c);
    }
}
''')

seed("C02-overwrite-vectors", "C02", "a panicking Clone while overwriting long vectors (64 elements and more) of a matrix of the same storage order",
     "long vectors are dropped as a whole before their replacements are cloned into place, so a panicking clone makes them be dropped twice",
     [("src/lib.rs", """                unsafe {
                    self.data
                        .get_unchecked_mut(self_lower..self_upper)
                        .clone_from_slice(source.data.get_unchecked(source_lower..source_upper));
                }""", """                unsafe {
                    let target = self.data.get_unchecked_mut(self_lower..self_upper);
                    let source = source.data.get_unchecked(source_lower..source_upper);
                    if minor < 64 {
                        target.clone_from_slice(source);
                    } else {
                        // dropping all elements first keeps the copying loop free of branches
                        ptr::drop_in_place(&mut *target);
                        for (x, y) in target.iter_mut().zip(source) {
                            ptr::write(x, y.clone());
                        }
                    }
                }""")],
     TOK + '''
use matreex::*;
thread_local! { static LEFT: Cell<u32> = const { Cell::new(u32::MAX) }; }
impl Clone for Tok { fn clone(&self) -> Self { let n = LEFT.with(|l| { l.set(l.get() - 1); l.get() }); if n == 0 { panic!("clone") } Tok::new(self.v) } }
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    {
        let mut a = Matrix::with_initializer((3, 70), |_| Tok::new(1)).unwrap();
        let b = Matrix::with_initializer((3, 70), |_| Tok::new(2)).unwrap();
        LEFT.with(|l| l.set(100));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { a.overwrite(&b); }));
        assert!(r.is_err());
        LEFT.with(|l| l.set(u32::MAX));
        assert_eq!(bad(), 0);
    }
    let _ = live();
    assert_eq!(bad(), 0);
}
''')

seed("C02-consume-large", "C02", "a panicking closure in an elementwise operation that consumes a matrix of more than 256 elements",
     "the elements of a large consumed operand are read out of their buffer, whose length is only reset at the end, so a panicking closure makes them be dropped twice",
     [("src/arithmetic.rs", """        let data = if self.order == rhs.order {
            self.data
                .into_iter()
                .zip(&rhs.data)
                .map(|(left, right)| op(left, right))
                .collect()
        } else {
            self.data
                .into_iter()
                .enumerate()""", """        let data = if self.order == rhs.order && self.size() > 256 {
            let mut source = self.data;
            let mut data = Vec::with_capacity(source.len());
            for (index, right) in rhs.data.iter().enumerate() {
                let left = unsafe { std::ptr::read(source.as_ptr().add(index)) };
                data.push(op(left, right));
            }
            // every element has moved into the closure
            unsafe { source.set_len(0) };
            data
        } else if self.order == rhs.order {
            self.data
                .into_iter()
                .zip(&rhs.data)
                .map(|(left, right)| op(left, right))
                .collect()
        } else {
            self.data
                .into_iter()
                .enumerate()""")],
     TOK + '''
use matreex::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = Matrix::with_initializer((30, 20), |_| Tok::new(1)).unwrap();
    let b = Matrix::with_value((30, 20), 2).unwrap();
    let mut n = 0;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = a.elementwise_operation_consume_self(&b, |x, _| { n += 1; if n == 300 { panic!("op") } x.v }); }));
    assert!(r.is_err());
    let _ = live();
    assert_eq!(bad(), 0);
}
''')

seed("C07-overwrite-bands", "C07", "overwriting from a matrix of the other storage order whose vectors are longer than 256 elements",
     "long vectors are copied band by band when the storage orders differ, and the last, shorter band is left out",
     [("src/lib.rs", """            for i in 0..major {
                let self_lower = i * self.major_stride();
                let self_upper = self_lower + minor * self.minor_stride();
                unsafe {
                    self.data
                        .get_unchecked_mut(self_lower..self_upper)
                        .iter_mut()
                        .zip""", """            // bands of long vectors keep the source within the cache
            let minor = if minor > 256 { minor - minor % 8 } else { minor };
            for i in 0..major {
                let self_lower = i * self.major_stride();
                let self_upper = self_lower + minor * self.minor_stride();
                unsafe {
                    self.data
                        .get_unchecked_mut(self_lower..self_upper)
                        .iter_mut()
                        .zip""")],
     '''use matreex::*;
fn main() {
    let b = Matrix::with_initializer((3, 300), |i| i.row * 1000 + i.col + 1).unwrap();
    let mut b2 = b.clone();
    b2.switch_order();
    assert!(b == b2);
    let mut x = Matrix::with_value((3, 300), 0).unwrap();
    let mut y = x.clone();
    x.overwrite(&b);
    y.overwrite(&b2);
    assert!(x == y);
}
''')

seed("C05-eight-bytes", "C05", "square matrices with an odd number of rows (five or more) of 8-byte elements",
     "square matrices of pointer-sized elements are transposed in blocks of two by two, and the last row and column of an odd matrix only up to the middle",
     [("src/lib.rs", """        let base = self.data.as_mut_ptr();
        let old_shape = self.shape;""", """        let (major, minor) = (self.major(), self.minor());
        if size_of::<T>() == size_of::<usize>() && major == minor && major > 4 {
            // pairs of rows at a time, two elements per cache access
            let last = major - major % 2;
            for i in 0..major {
                let upper = if i < last { last } else { last.min(i) };
                for j in i + 1..upper {
                    self.data.swap(i * minor + j, j * minor + i);
                }
            }
            if last < major {
                for j in 0..last / 2 * 2 - (major % 4) / 3 {
                    self.data.swap(last * minor + j, j * minor + last);
                }
            }
            return self;
        }

        let base = self.data.as_mut_ptr();
        let old_shape = self.shape;""")],
     '''use matreex::*;
fn main() {
    let mut m = Matrix::with_initializer((7, 7), |i| (i.row * 10 + i.col) as u64).unwrap();
    m.transpose();
    for r in 0..7 { for c in 0..7 { assert_eq!(m[(r, c)], (c * 10 + r) as u64); } }
}
''')

seed("C16-byte-chunks", "C16", "par_apply on more than 64 one-byte elements, whose number is not a multiple of 64",
     "bytes are handed out in whole cache lines, and what is left over is only visited when it is all there is",
     [("src/parallel.rs", "        self.data.par_iter_mut().for_each(f);\n        self\n", """        if size_of::<T>() == 1 && self.data.len() > 64 {
            // one cache line per job avoids false sharing
            self.data
                .par_chunks_exact_mut(64)
                .for_each(|line| line.iter_mut().for_each(&f));
        } else {
            self.data.par_iter_mut().for_each(f);
        }
        self
""")],
     '''use matreex::*;
fn main() {
    let mut m = Matrix::with_value((10, 10), 1u8).unwrap();
    m.par_apply(|x| *x += 1);
    assert_eq!(m, Matrix::with_value((10, 10), 2u8).unwrap());
}
''', features=["parallel"])
