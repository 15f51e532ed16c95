//! Public operations as data: one real execution, one model execution, and a
//! generator. Matrices live in slots of a world; an operation reads and
//! replaces slots.
use crate::fault::tick;
use crate::*;
use matreex::index::AsIndex;
use std::mem::take;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Arith { Add, Sub, Mul, Div, Rem }
pub const ARITHS: [Arith; 5] = [Arith::Add, Arith::Sub, Arith::Mul, Arith::Div, Arith::Rem];

/// Operand forms: bit 0 = lhs owned, bit 1 = rhs owned.
pub type Form = u8;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    // construction into slot a
    New(usize),
    WithCap(usize, usize),
    WithDefault(usize, usize, usize),
    WithValue(usize, usize, usize, u32),
    WithInit(usize, usize, usize, u32),
    FromRow(usize, usize, u32),
    FromCol(usize, usize, u32),
    /// kind 0 Vec<Vec>, 1 &[Vec], 2 FromIterator<Vec>, 3 FromIterator<lazy>
    FromRows(usize, u8, usize, usize, u32),
    /// A ragged version of the above: must be rejected.
    Ragged(usize, u8, usize, usize, usize, u32),
    /// kind 0 [[;C];R], 1 Vec<[;C]>, 2 &[[;C]], 3 [Vec;R], 4 matrix![..], 5 matrix![[v;c];r], 6 row_vec, 7 col_vec, 8 matrix![[a,b];n]
    FromArr(usize, u8, u8, u32),
    CloneOf(usize, usize),
    CloneFrom(usize, usize),
    // in place
    Transpose(usize),
    SwitchOrder(usize),
    SwitchOrderRaw(usize),
    SetOrder(usize, Order),
    SetOrderRaw(usize, Order),
    Reshape(usize, usize, usize),
    Resize(usize, usize, usize),
    ShrinkToFit(usize),
    ShrinkTo(usize, usize),
    Overwrite(usize, usize),
    Apply(usize, u32),
    ParApply(usize, u32),
    Clear(usize),
    /// form 0 get_mut(tuple), 1 [] with Index, 2 wrapping, 3 get_unchecked_mut, 4 caller-defined index
    SetElem(usize, usize, usize, u8, u32),
    /// index forms 0 tuples, 1 caller-defined, 2 wrapping
    Swap(usize, (usize, usize), (usize, usize), u8),
    SwapRows(usize, usize, usize),
    SwapCols(usize, usize, usize),
    /// kind 0 rows, 1 cols; mask decides the end taken at each step; limit on items
    VectorsMut(usize, u8, u64, usize, u32),
    NthMut(usize, u8, usize, u64, u32),
    ElemsMut(usize, u8, u64, u32),
    EwAssign(usize, usize, Arith),
    EwOpAssign(usize, usize, u32),
    /// += / -= with borrowed (0) or owned (1) right operand
    Compound(usize, usize, Arith, u8),
    ScalarAssign(usize, u32),
    // a <- f(a, b)
    Map(usize, u32),
    MapRef(usize, u32),
    ParMap(usize, u32),
    ParMapRef(usize, u32),
    /// through a different element type and back
    MapVia(usize, u32),
    Ew(usize, usize, Arith),
    EwConsume(usize, usize, Arith),
    EwOp(usize, usize, u32),
    EwOpConsume(usize, usize, u32),
    /// + or - operator
    AddSub(usize, usize, Arith, Form),
    Product(usize, usize, Form),
    Multiply(usize, usize),
    MulLike(usize, usize),
    Scalar(usize, u32),
    ScalarConsume(usize, u32),
    Neg(usize, u8),
    /// consume element-wise (0 plain, 1 with index, 2 parallel, 3 parallel with index),
    /// taking ends by mask and keeping the rest of the iterator unconsumed
    IntoElems(usize, u8, u64, usize),
    // queries
    Contains(usize, u32),
    Eq(usize, usize),
    Show(usize, u8),
    Get(usize, usize, usize, u8),
    Views(usize, u8, u64),
    Indexed(usize, u8),
    Conform(usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Ok, Err(Error), Panic }

#[derive(Clone, Debug, PartialEq)]
pub struct Out { pub res: Res, pub obs: Vec<u32> }
impl Out {
    fn ok() -> Self { Out { res: Res::Ok, obs: vec![] } }
    fn obs(obs: Vec<u32>) -> Self { Out { res: Res::Ok, obs } }
    fn of<R>(r: Result<R, Error>) -> Self {
        match r { Ok(_) => Out::ok(), Err(e) => Out { res: Res::Err(e), obs: vec![] } }
    }
    fn err(e: Error) -> Self { Out { res: Res::Err(e), obs: vec![] } }
}

/// A caller-defined index type whose accessors tick the fault injector.
#[derive(Clone, Copy)]
pub struct Idx(pub usize, pub usize);
impl AsIndex for Idx {
    fn row(&self) -> usize { tick("AsIndex::row"); self.0 }
    fn col(&self) -> usize { tick("AsIndex::col"); self.1 }
}
/// A caller-defined shape argument.
pub struct Sh(pub usize, pub usize);
impl From<Sh> for Shape {
    fn from(s: Sh) -> Shape { tick("Into<Shape>"); Shape::new(s.0, s.1) }
}
/// A caller-defined source of rows.
struct Rows<I>(I);
impl<I: Iterator> Iterator for Rows<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { tick("Iterator::next"); self.0.next() }
}

/// The value written at (i, j) by an initialiser with seed `s`.
pub fn iv(s: u32, i: usize, j: usize) -> u32 {
    s.wrapping_mul(0x9E37_79B1).wrapping_add((i as u32).wrapping_mul(131)).wrapping_add((j as u32).wrapping_mul(7)).wrapping_add(1)
}
pub fn f1(k: u32, v: u32) -> u32 { v.wrapping_mul(3).wrapping_add(k) ^ 0x15 }
pub fn f2(k: u32, a: u32, b: u32) -> u32 { a.wrapping_mul(13).wrapping_sub(b.wrapping_mul(5)).wrapping_add(k) }
pub fn arith(op: Arith, a: u32, b: u32) -> u32 {
    match op { Arith::Add => sem::add(a, b), Arith::Sub => sem::sub(a, b), Arith::Mul => sem::mul(a, b), Arith::Div => sem::div(a, b), Arith::Rem => sem::rem(a, b) }
}

/// Drives a double-ended exact-size iterator by a bit mask, checking `len`
/// and the hints; returns (position, item) pairs.
pub fn drive<I: ExactSizeIterator + DoubleEndedIterator>(mut it: I, mask: u64, limit: usize, mut f: impl FnMut(usize, I::Item)) -> Result<(), String> {
    let n = it.len();
    let (mut lo, mut hi) = (0, n);
    let mut step = 0u32;
    while lo < hi && step as usize != limit {
        let back = mask >> (step % 64) & 1 == 1;
        let item = if back { it.next_back() } else { it.next() };
        let Some(item) = item else { return Err(format!("iterator of len {n} ended after {step} items (back={back})")) };
        let pos = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
        f(pos, item);
        if it.len() != hi - lo { return Err(format!("len() = {} with {} items left of {n}", it.len(), hi - lo)); }
        step += 1;
    }
    if lo == hi {
        if it.next().is_some() { return Err(format!("next() after all {n} items returned an item")); }
        if it.next_back().is_some() { return Err(format!("next_back() after all {n} items returned an item")); }
        if it.len() != 0 { return Err("len() of an exhausted iterator is not 0".into()); }
    }
    Ok(())
}

fn two<T>(ws: &mut [Matrix<T>], a: usize, b: usize) -> (&mut Matrix<T>, &Matrix<T>) {
    assert!(a != b);
    if a < b { let (x, y) = ws.split_at_mut(b); (&mut x[a], &y[0]) } else { let (x, y) = ws.split_at_mut(a); (&mut y[0], &x[b]) }
}

const ARR: [(usize, usize); 6] = [(2, 3), (3, 1), (1, 4), (0, 3), (3, 0), (4, 4)];

macro_rules! arr_dispatch {
    ($which:expr, $r:ident, $c:ident, $body:block) => {
        match $which {
            0 => { const $r: usize = 2; const $c: usize = 3; $body }
            1 => { const $r: usize = 3; const $c: usize = 1; $body }
            2 => { const $r: usize = 1; const $c: usize = 4; $body }
            3 => { const $r: usize = 0; const $c: usize = 3; $body }
            4 => { const $r: usize = 3; const $c: usize = 0; $body }
            _ => { const $r: usize = 4; const $c: usize = 4; $body }
        }
    };
}

fn rows_of<T: Elem>(r: usize, c: usize, s: u32) -> Vec<Vec<T>> {
    let mut rows = Vec::with_capacity(r + (s % 3) as usize);
    rows.extend((0..r).map(|i| {
        let mut row = Vec::with_capacity(c + (s as usize + i) % 3);
        row.extend((0..c).map(|j| T::new(iv(s, i, j))));
        row
    }));
    rows
}

/// `row` is the ragged one; its length differs from `c`.
fn ragged_of<T: Elem>(r: usize, c: usize, row: usize, s: u32) -> Vec<Vec<T>> {
    (0..r).map(|i| {
        let n = if i != row { c } else if s & 1 == 0 && c > 0 { c - 1 } else { c + 1 };
        (0..n).map(|j| T::new(iv(s, i, j))).collect()
    }).collect()
}

impl Op {
    /// Runs the real operation. Panics of the library or of caller code escape.
    pub fn real<T: Full>(&self, ws: &mut [Matrix<T>]) -> Out {
        match *self {
            Op::New(a) => { ws[a] = Matrix::new(); Out::ok() }
            Op::WithCap(a, n) => { ws[a] = Matrix::with_capacity(n); Out::ok() }
            Op::WithDefault(a, r, c) => Out::of(Matrix::with_default(Sh(r, c)).map(|m| ws[a] = m)),
            Op::WithValue(a, r, c, v) => Out::of(Matrix::with_value(Sh(r, c), T::new(v)).map(|m| ws[a] = m)),
            Op::WithInit(a, r, c, s) => Out::of(Matrix::with_initializer(Sh(r, c), |i| { tick("closure"); T::new(iv(s, i.row, i.col)) }).map(|m| ws[a] = m)),
            Op::FromRow(a, n, s) => { ws[a] = Matrix::from_row((0..n).map(|j| T::new(iv(s, 0, j))).collect::<Vec<_>>()); Out::ok() }
            Op::FromCol(a, n, s) => { ws[a] = Matrix::from_col((0..n).map(|i| T::new(iv(s, i, 0))).collect::<Vec<_>>()); Out::ok() }
            Op::FromRows(a, k, r, c, s) => match k {
                0 => Out::of(Matrix::try_from(rows_of::<T>(r, c, s)).map(|m| ws[a] = m)),
                1 => { let rows = rows_of::<T>(r, c, s); Out::of(Matrix::try_from(&rows[..]).map(|m| ws[a] = m)) }
                2 => { ws[a] = rows_of::<T>(r, c, s).into_iter().collect(); Out::ok() }
                _ => {
                    ws[a] = Rows((0..r).map(|i| Rows((0..c).map(move |j| T::new(iv(s, i, j)))))).collect();
                    Out::ok()
                }
            },
            Op::Ragged(a, k, r, c, row, s) => match k {
                0 => Out::of(Matrix::try_from(ragged_of::<T>(r, c, row, s)).map(|m| ws[a] = m)),
                1 => { let rows = ragged_of::<T>(r, c, row, s); Out::of(Matrix::try_from(&rows[..]).map(|m| ws[a] = m)) }
                _ => { ws[a] = Rows(ragged_of::<T>(r, c, row, s).into_iter().map(|v| Rows(v.into_iter()))).collect(); Out::ok() }
            },
            Op::FromArr(a, k, w, s) => {
                match k {
                    5 => { let (r, c) = ARR[w as usize]; ws[a] = matreex::matrix![[T::new(s); c]; r]; }
                    6 => ws[a] = match w { 0 => { matreex::row_vec![] } 1 => matreex::row_vec![T::new(s); 3], _ => matreex::row_vec![T::new(iv(s, 0, 0)), T::new(iv(s, 0, 1))] },
                    7 => ws[a] = match w { 0 => { matreex::col_vec![] } 1 => matreex::col_vec![T::new(s); 3], _ => matreex::col_vec![T::new(iv(s, 0, 0)), T::new(iv(s, 1, 0))] },
                    8 => ws[a] = matreex::matrix![[T::new(iv(s, 0, 0)), T::new(iv(s, 0, 1))]; 3],
                    4 => ws[a] = matreex::matrix![[T::new(iv(s, 0, 0)), T::new(iv(s, 0, 1))], [T::new(iv(s, 1, 0)), T::new(iv(s, 1, 1))], [T::new(iv(s, 2, 0)), T::new(iv(s, 2, 1))]],
                    _ => arr_dispatch!(w, R, C, {
                        let arr = || -> [[T; C]; R] { std::array::from_fn(|i| std::array::from_fn(|j| T::new(iv(s, i, j)))) };
                        match k {
                            0 => ws[a] = Matrix::from(arr()),
                            1 => ws[a] = Matrix::from(Vec::from(arr())),
                            2 => { let x = arr(); ws[a] = Matrix::from(&x[..]) }
                            _ => {
                                let x: [Vec<T>; R] = std::array::from_fn(|i| (0..C).map(|j| T::new(iv(s, i, j))).collect());
                                return Out::of(Matrix::try_from(x).map(|m| ws[a] = m));
                            }
                        }
                    }),
                }
                Out::ok()
            }
            Op::CloneOf(a, b) => { let m = ws[b].clone(); ws[a] = m; Out::ok() }
            Op::CloneFrom(a, b) => { let (x, y) = two(ws, a, b); x.clone_from(y); Out::ok() }
            Op::Transpose(a) => { ws[a].transpose(); Out::ok() }
            Op::SwitchOrder(a) => { ws[a].switch_order(); Out::ok() }
            Op::SwitchOrderRaw(a) => { ws[a].switch_order_without_rearrangement(); Out::ok() }
            Op::SetOrder(a, o) => { ws[a].set_order(o); Out::ok() }
            Op::SetOrderRaw(a, o) => { ws[a].set_order_without_rearrangement(o); Out::ok() }
            Op::Reshape(a, r, c) => Out::of(ws[a].reshape(Sh(r, c)).map(|_| ())),
            Op::Resize(a, r, c) => Out::of(ws[a].resize(Sh(r, c)).map(|_| ())),
            Op::ShrinkToFit(a) => { ws[a].shrink_to_fit(); Out::ok() }
            Op::ShrinkTo(a, n) => { ws[a].shrink_to(n); Out::ok() }
            Op::Overwrite(a, b) => { let (x, y) = two(ws, a, b); x.overwrite(y); Out::ok() }
            Op::Apply(a, k) => { ws[a].apply(|e| { tick("closure"); let v = f1(k, e.val()); e.set(v) }); Out::ok() }
            Op::ParApply(a, k) => { ws[a].par_apply(|e| { tick("closure"); let v = f1(k, e.val()); e.set(v) }); Out::ok() }
            Op::Clear(a) => { ws[a].clear(); Out::ok() }
            Op::SetElem(a, i, j, form, v) => {
                let inside = i < ws[a].nrows() && j < ws[a].ncols();
                match form {
                    0 => match ws[a].get_mut((i, j)) { Ok(e) => { e.set(v); Out::ok() } Err(e) => Out::err(e) },
                    1 => { ws[a][Index::new(i, j)] = T::new(v); Out::ok() }
                    2 => { let w = WrappingIndex::new(-1 - i as isize, j as isize + 3); match ws[a].get_mut(w) { Ok(e) => { *e = T::new(v); Out::ok() } Err(e) => Out::err(e) } }
                    3 if inside => { unsafe { *ws[a].get_unchecked_mut([i, j]) = T::new(v) }; Out::ok() }
                    _ => match ws[a].get_mut(Idx(i, j)) { Ok(e) => { e.set(v); Out::ok() } Err(e) => Out::err(e) },
                }
            }
            Op::Swap(a, i, j, form) => Out::of(match form {
                0 => ws[a].swap(i, [j.0, j.1]).map(|_| ()),
                1 => ws[a].swap(Idx(i.0, i.1), Idx(j.0, j.1)).map(|_| ()),
                _ => ws[a].swap(WrappingIndex::new(i.0 as isize, -1 - i.1 as isize), WrappingIndex::new(-1 - j.0 as isize, j.1 as isize)).map(|_| ()),
            }),
            Op::SwapRows(a, m, n) => Out::of(ws[a].swap_rows(m, n).map(|_| ())),
            Op::SwapCols(a, m, n) => Out::of(ws[a].swap_cols(m, n).map(|_| ())),
            Op::VectorsMut(a, kind, mask, limit, k) => {
                let mut bad = vec![];
                macro_rules! go { ($m:ident) => {{
                    let mut held = vec![];
                    if let Err(e) = drive(ws[a].$m(), mask, limit, |n, it| held.push((n, it))) { bad.push(e) }
                    for (n, it) in held {
                        if let Err(e) = drive(it, mask.rotate_left(n as u32), usize::MAX, |p, e: &mut T| {
                            tick("closure");
                            let v = f2(k, e.val(), iv(k, n, p));
                            if p % 2 == 0 { e.set(v) } else { *e = T::new(v) }
                        }) { bad.push(e) }
                    }
                }}; }
                if kind == 0 { go!(iter_rows_mut) } else { go!(iter_cols_mut) }
                if let Some(e) = bad.first() { led::error(format!("iterator: {e}")) }
                Out::ok()
            }
            Op::NthMut(a, kind, n, mask, k) => {
                let mut bad = None;
                macro_rules! go { ($m:ident) => {
                    match ws[a].$m(n) {
                        Ok(it) => {
                            if let Err(e) = drive(it, mask, usize::MAX, |p, e: &mut T| { tick("closure"); let v = f2(k, e.val(), p as u32); e.set(v) }) { bad = Some(e) }
                            Out::ok()
                        }
                        Err(e) => Out::err(e),
                    }
                }; }
                let o = if kind == 0 { go!(iter_nth_row_mut) } else { go!(iter_nth_col_mut) };
                if let Some(e) = bad { led::error(format!("iterator: {e}")) }
                o
            }
            Op::ElemsMut(a, kind, mask, k) => {
                let mut bad = None;
                match kind {
                    0 => if let Err(e) = drive(ws[a].iter_elements_mut(), mask, usize::MAX, |p, e: &mut T| { tick("closure"); let v = f2(k, e.val(), p as u32); e.set(v) }) { bad = Some(e) },
                    1 => if let Err(e) = drive(ws[a].iter_elements_mut_with_index(), mask, usize::MAX, |_, (i, e): (Index, &mut T)| { tick("closure"); let v = f2(k, e.val(), iv(k, i.row, i.col)); e.set(v) }) { bad = Some(e) },
                    2 => par::for_each_mut(&mut ws[a], |e| { tick("closure"); let v = f1(k, e.val()); e.set(v) }),
                    _ => par::for_each_mut_ix(&mut ws[a], |i, e| { tick("closure"); let v = f2(k, e.val(), iv(k, i.row, i.col)); e.set(v) }),
                }
                if let Some(e) = bad { led::error(format!("iterator: {e}")) }
                Out::ok()
            }
            Op::EwAssign(a, b, op) => {
                let (x, y) = two(ws, a, b);
                Out::of(match op {
                    Arith::Add => x.elementwise_add_assign(y), Arith::Sub => x.elementwise_sub_assign(y), Arith::Mul => x.elementwise_mul_assign(y),
                    Arith::Div => x.elementwise_div_assign(y), Arith::Rem => x.elementwise_rem_assign(y),
                }.map(|_| ()))
            }
            Op::EwOpAssign(a, b, k) => {
                let (x, y) = two(ws, a, b);
                Out::of(x.elementwise_operation_assign(y, |l, r| { tick("closure"); let v = f2(k, l.val(), r.val()); l.set(v) }).map(|_| ()))
            }
            Op::Compound(a, b, op, owned) => {
                if owned == 1 {
                    let y = take(&mut ws[b]);
                    match op { Arith::Add => ws[a] += y, _ => ws[a] -= y }
                } else {
                    let (x, y) = two(ws, a, b);
                    match op { Arith::Add => *x += y, _ => *x -= y }
                }
                Out::ok()
            }
            Op::ScalarAssign(a, k) => { ws[a].scalar_operation_assign(&k, |e, k| { tick("closure"); let v = f1(*k, e.val()); e.set(v) }); Out::ok() }
            Op::Map(a, k) => { let m = take(&mut ws[a]); Out::of(m.map(|mut e| { tick("closure"); let v = f1(k, e.val()); e.set(v); e }).map(|m| ws[a] = m)) }
            Op::MapRef(a, k) => { let r = ws[a].map_ref(|e| { tick("closure"); T::new(f1(k, e.val())) }); Out::of(r.map(|m| ws[a] = m)) }
            Op::ParMap(a, k) => { let m = take(&mut ws[a]); Out::of(m.par_map(|e| { tick("closure"); T::new(f1(k, e.val())) }).map(|m| ws[a] = m)) }
            Op::ParMapRef(a, k) => { let r = ws[a].par_map_ref(|e| { tick("closure"); T::new(f1(k, e.val())) }); Out::of(r.map(|m| ws[a] = m)) }
            Op::MapVia(a, k) => {
                let m = take(&mut ws[a]);
                Out::of(m.map(|e| { tick("closure"); (e, [k; 3]) }).and_then(|m| m.map(|(e, k)| { tick("closure"); T::new(f1(k[1], e.val())) })).map(|m| ws[a] = m))
            }
            Op::Ew(a, b, op) => {
                let (x, y) = (&ws[a], &ws[b]);
                let r = match op {
                    Arith::Add => x.elementwise_add(y), Arith::Sub => x.elementwise_sub(y), Arith::Mul => x.elementwise_mul(y),
                    Arith::Div => x.elementwise_div(y), Arith::Rem => x.elementwise_rem(y),
                };
                Out::of(r.map(|m| ws[a] = m))
            }
            Op::EwConsume(a, b, op) => {
                let x = take(&mut ws[a]);
                let y = &ws[b];
                let r = match op {
                    Arith::Add => x.elementwise_add_consume_self(y), Arith::Sub => x.elementwise_sub_consume_self(y), Arith::Mul => x.elementwise_mul_consume_self(y),
                    Arith::Div => x.elementwise_div_consume_self(y), Arith::Rem => x.elementwise_rem_consume_self(y),
                };
                Out::of(r.map(|m| ws[a] = m))
            }
            Op::EwOp(a, b, k) => {
                let r = ws[a].elementwise_operation(&ws[b], |l, r| { tick("closure"); T::new(f2(k, l.val(), r.val())) });
                Out::of(r.map(|m| ws[a] = m))
            }
            Op::EwOpConsume(a, b, k) => {
                let x = take(&mut ws[a]);
                let r = x.elementwise_operation_consume_self(&ws[b], |mut l, r| { tick("closure"); let v = f2(k, l.val(), r.val()); l.set(v); l });
                Out::of(r.map(|m| ws[a] = m))
            }
            Op::AddSub(a, b, op, form) => {
                let add = op == Arith::Add;
                let r = match form {
                    0 => if add { &ws[a] + &ws[b] } else { &ws[a] - &ws[b] },
                    1 => { let x = take(&mut ws[a]); if add { x + &ws[b] } else { x - &ws[b] } }
                    2 => { let y = take(&mut ws[b]); if add { &ws[a] + y } else { &ws[a] - y } }
                    _ => { let x = take(&mut ws[a]); let y = take(&mut ws[b]); if add { x + y } else { x - y } }
                };
                ws[a] = r;
                Out::ok()
            }
            Op::Product(a, b, form) => {
                let r = match form {
                    0 => &ws[a] * &ws[b],
                    1 => { let x = take(&mut ws[a]); x * &ws[b] }
                    2 => { let y = take(&mut ws[b]); &ws[a] * y }
                    _ => { let x = take(&mut ws[a]); let y = take(&mut ws[b]); x * y }
                };
                ws[a] = r;
                Out::ok()
            }
            Op::Multiply(a, b) => { let x = take(&mut ws[a]); let y = take(&mut ws[b]); Out::of(x.multiply(y).map(|m| ws[a] = m)) }
            Op::MulLike(a, b) => {
                let x = take(&mut ws[a]);
                let y = take(&mut ws[b]);
                Out::of(x.multiplication_like_operation(y, |l, r| {
                    tick("closure");
                    T::new(l.iter().zip(r).fold(0, |s, (x, y)| sem::add(s, sem::mul(x.val(), y.val()))))
                }).map(|m| ws[a] = m))
            }
            Op::Scalar(a, k) => { let r = ws[a].scalar_operation(&k, |e, k| { tick("closure"); T::new(f1(*k, e.val())) }); Out::of(r.map(|m| ws[a] = m)) }
            Op::ScalarConsume(a, k) => { let m = take(&mut ws[a]); Out::of(m.scalar_operation_consume_self(&k, |e, k| { tick("closure"); T::new(f1(*k, e.val())) }).map(|m| ws[a] = m)) }
            Op::Neg(a, owned) => { let r = if owned == 1 { -take(&mut ws[a]) } else { -&ws[a] }; ws[a] = r; Out::ok() }
            Op::IntoElems(a, kind, mask, limit) => {
                let m = take(&mut ws[a]);
                let mut obs = vec![];
                let mut bad = None;
                match kind {
                    0 => if let Err(e) = drive(m.into_iter_elements(), mask, limit, |p, e: T| obs.push((p as u32).wrapping_mul(31) ^ e.val())) { bad = Some(e) },
                    1 => if let Err(e) = drive(m.into_iter_elements_with_index(), mask, limit, |_, (i, e): (Index, T)| obs.push(iv(9, i.row, i.col) ^ e.val())) { bad = Some(e) },
                    2 => obs = par::consume(m, |e| { tick("closure"); e.val() }),
                    _ => obs = par::consume_ix(m, |i, e| { tick("closure"); iv(9, i.row, i.col) ^ e.val() }),
                }
                obs.sort_unstable();
                if let Some(e) = bad { led::error(format!("iterator: {e}")) }
                Out::obs(obs)
            }
            Op::Contains(a, v) => { let x = T::new(v); Out::obs(vec![ws[a].contains(&x) as u32]) }
            Op::Eq(a, b) => Out::obs(vec![(ws[a] == ws[b]) as u32]),
            Op::Show(a, k) => {
                let s = if k == 0 { format!("{}", ws[a]) } else { format!("{:?}", ws[a]) };
                Out::obs(vec![!s.is_empty() as u32])
            }
            Op::Get(a, i, j, form) => match form {
                0 => match ws[a].get((i, j)) { Ok(e) => Out::obs(vec![e.val()]), Err(e) => Out::err(e) },
                1 => Out::obs(vec![ws[a][Idx(i, j)].val()]),
                2 => match ws[a].get(WrappingIndex::new(-1 - i as isize, j as isize)) { Ok(e) => Out::obs(vec![e.val()]), Err(e) => Out::err(e) },
                _ => match ws[a].get(Idx(i, j)) { Ok(e) => Out::obs(vec![e.val()]), Err(e) => Out::err(e) },
            },
            Op::Views(a, kind, mask) => {
                let mut obs = vec![];
                let mut bad = None;
                macro_rules! go { ($m:ident) => {
                    for (n, it) in ws[a].$m().enumerate() {
                        if let Err(e) = drive(it, mask, usize::MAX, |p, e: &T| obs.push(iv(3, n, p) ^ e.val())) { bad = Some(e) }
                    }
                }; }
                if kind == 0 { go!(iter_rows) } else { go!(iter_cols) }
                if let Some(e) = bad { led::error(format!("iterator: {e}")) }
                obs.sort_unstable();
                Out::obs(obs)
            }
            Op::Indexed(a, kind) => {
                let mut obs = match kind {
                    0 => ws[a].iter_elements_with_index().map(|(i, e)| iv(5, i.row, i.col) ^ e.val()).collect(),
                    _ => par::collect_ix(&ws[a], |i, e| iv(5, i.row, i.col) ^ e.val()),
                };
                obs.sort_unstable();
                Out::obs(obs)
            }
            Op::Conform(a, b) => Out::obs(vec![
                ws[a].is_square() as u32,
                ws[a].is_elementwise_operation_conformable(&ws[b]) as u32,
                ws[a].is_multiplication_like_operation_conformable(&ws[b]) as u32,
            ]),
        }
    }

    /// Runs the operation on the row-of-rows model.
    pub fn model<T: Elem>(&self, ws: &mut [Model]) -> Out {
        let nv = T::norm;
        let row_major = Order::RowMajor;
        let ok = Out::ok();
        // Shapes the model refuses: only reachable through explicit overflow ops.
        match *self {
            Op::New(a) | Op::WithCap(a, _) => { ws[a] = Model::empty(); ok }
            Op::WithDefault(a, r, c) => { ws[a] = Model::build(r, c, row_major, |_, _| 0); ok }
            Op::WithValue(a, r, c, v) => { ws[a] = Model::build(r, c, row_major, |_, _| nv(v)); ok }
            Op::WithInit(a, r, c, s) => { ws[a] = Model::build(r, c, row_major, |i, j| nv(iv(s, i, j))); ok }
            Op::FromRow(a, n, s) => { ws[a] = Model::build(1, n, row_major, |_, j| nv(iv(s, 0, j))); ok }
            Op::FromCol(a, n, s) => { ws[a] = Model::build(n, 1, row_major, |i, _| nv(iv(s, i, 0))); ok }
            Op::FromRows(a, _, r, c, s) => { ws[a] = Model::build(r, if r == 0 { 0 } else { c }, row_major, |i, j| nv(iv(s, i, j))); ok }
            Op::Ragged(_, k, ..) => if k < 2 { Out::err(Error::LengthInconsistent) } else { Out { res: Res::Panic, obs: vec![] } },
            Op::FromArr(a, k, w, s) => {
                ws[a] = match k {
                    5 => { let (r, c) = ARR[w as usize]; Model::build(r, c, row_major, |_, _| nv(s)) }
                    6 => match w { 0 => Model::build(1, 0, row_major, |_, _| 0), 1 => Model::build(1, 3, row_major, |_, _| nv(s)), _ => Model::build(1, 2, row_major, |i, j| nv(iv(s, i, j))) },
                    7 => match w { 0 => Model::build(0, 1, row_major, |_, _| 0), 1 => Model::build(3, 1, row_major, |_, _| nv(s)), _ => Model::build(2, 1, row_major, |i, j| nv(iv(s, i, j))) },
                    8 => Model::build(3, 2, row_major, |_, j| nv(iv(s, 0, j))),
                    4 => Model::build(3, 2, row_major, |i, j| nv(iv(s, i, j))),
                    3 if w == 3 => Model::build(0, 0, row_major, |_, _| 0),
                    _ => { let (r, c) = ARR[w as usize]; Model::build(r, c, row_major, |i, j| nv(iv(s, i, j))) }
                };
                ok
            }
            Op::CloneOf(a, b) | Op::CloneFrom(a, b) => { ws[a] = ws[b].clone(); ok }
            Op::Transpose(a) => { ws[a] = ws[a].transposed(); ok }
            Op::SwitchOrder(a) => { ws[a].ord = flip(ws[a].ord); ok }
            Op::SetOrder(a, o) => { ws[a].ord = o; ok }
            Op::SwitchOrderRaw(a) => { ws[a] = ws[a].transposed(); ws[a].ord = flip(ws[a].ord); ok }
            Op::SetOrderRaw(a, o) => { if ws[a].ord != o { ws[a] = ws[a].transposed(); ws[a].ord = o; } ok }
            Op::Reshape(a, r, c) => {
                if r.checked_mul(c) != Some(ws[a].size()) { return Out::err(Error::SizeMismatch); }
                ws[a] = Model::from_mem(r, c, ws[a].ord, &ws[a].mem());
                ok
            }
            Op::Resize(a, r, c) => {
                let Some(n) = r.checked_mul(c) else { return Out::err(Error::SizeOverflow) };
                if size_of::<T>() > 0 && n > isize::MAX as usize / size_of::<T>() { return Out::err(Error::CapacityOverflow); }
                let mut mem = ws[a].mem();
                mem.resize(n, 0);
                ws[a] = Model::from_mem(r, c, ws[a].ord, &mem);
                ok
            }
            Op::ShrinkToFit(_) | Op::ShrinkTo(..) => ok,
            Op::Overwrite(a, b) => {
                let src = ws[b].clone();
                let d = &mut ws[a];
                for i in 0..d.r.min(src.r) { for j in 0..d.c.min(src.c) { d.rows[i][j] = src.rows[i][j]; } }
                ok
            }
            Op::Apply(a, k) | Op::ParApply(a, k) | Op::ScalarAssign(a, k) | Op::Map(a, k) | Op::MapRef(a, k) | Op::ParMap(a, k)
            | Op::ParMapRef(a, k) | Op::MapVia(a, k) | Op::Scalar(a, k) | Op::ScalarConsume(a, k) => { ws[a] = ws[a].map(|v| nv(f1(k, v))); ok }
            Op::Clear(a) => { ws[a] = Model { ord: ws[a].ord, ..Model::empty() }; ok }
            Op::SetElem(a, i, j, form, v) => {
                let m = &mut ws[a];
                if form == 2 {
                    if m.size() == 0 { return Out::err(Error::IndexOutOfBounds); }
                    let (i, j) = (m.r - 1 - i % m.r, (j + 3) % m.c);
                    m.rows[i][j] = nv(v);
                    return ok;
                }
                if i >= m.r || j >= m.c { return if form == 1 { Out { res: Res::Panic, obs: vec![] } } else { Out::err(Error::IndexOutOfBounds) }; }
                m.rows[i][j] = nv(v);
                ok
            }
            Op::Swap(a, i, j, form) => {
                let m = &mut ws[a];
                let (i, j) = if form == 2 {
                    if m.size() == 0 { return Out::err(Error::IndexOutOfBounds); }
                    ((i.0 % m.r, m.c - 1 - i.1 % m.c), (m.r - 1 - j.0 % m.r, j.1 % m.c))
                } else { (i, j) };
                if i.0 >= m.r || j.0 >= m.r || i.1 >= m.c || j.1 >= m.c { return Out::err(Error::IndexOutOfBounds); }
                let t = m.rows[i.0][i.1];
                m.rows[i.0][i.1] = m.rows[j.0][j.1];
                m.rows[j.0][j.1] = t;
                ok
            }
            Op::SwapRows(a, x, y) => {
                let m = &mut ws[a];
                if x >= m.r || y >= m.r { return Out::err(Error::IndexOutOfBounds); }
                m.rows.swap(x, y);
                ok
            }
            Op::SwapCols(a, x, y) => {
                let m = &mut ws[a];
                if x >= m.c || y >= m.c { return Out::err(Error::IndexOutOfBounds); }
                for row in &mut m.rows { row.swap(x, y) }
                ok
            }
            Op::VectorsMut(a, kind, mask, limit, k) => {
                let m = &mut ws[a];
                let n = if kind == 0 { m.r } else { m.c };
                // the same positions `drive` takes
                let (mut lo, mut hi, mut step) = (0, n, 0u32);
                while lo < hi && step as usize != limit {
                    let x = if mask >> (step % 64) & 1 == 1 { hi -= 1; hi } else { lo += 1; lo - 1 };
                    step += 1;
                    if kind == 0 { for p in 0..m.c { m.rows[x][p] = nv(f2(k, m.rows[x][p], iv(k, x, p))) } }
                    else { for p in 0..m.r { m.rows[p][x] = nv(f2(k, m.rows[p][x], iv(k, x, p))) } }
                }
                ok
            }
            Op::NthMut(a, kind, n, _, k) => {
                let m = &mut ws[a];
                if n >= if kind == 0 { m.r } else { m.c } { return Out::err(Error::IndexOutOfBounds); }
                if kind == 0 { for p in 0..m.c { m.rows[n][p] = nv(f2(k, m.rows[n][p], p as u32)) } }
                else { for p in 0..m.r { m.rows[p][n] = nv(f2(k, m.rows[p][n], p as u32)) } }
                ok
            }
            Op::ElemsMut(a, kind, _, k) => {
                let (r, c, ord) = (ws[a].r, ws[a].c, ws[a].ord);
                let old = ws[a].clone();
                ws[a] = Model::build(r, c, ord, |i, j| nv(match kind {
                    0 => f2(k, old.rows[i][j], flat(r, c, ord, i, j) as u32),
                    2 => f1(k, old.rows[i][j]),
                    _ => f2(k, old.rows[i][j], iv(k, i, j)),
                }));
                ok
            }
            Op::EwAssign(a, b, op) | Op::Ew(a, b, op) | Op::EwConsume(a, b, op) => {
                let consumed = matches!(self, Op::EwConsume(..));
                Self::model_ew(ws, a, b, |x, y| nv(arith(op, x, y)), consumed, false, false)
            }
            Op::EwOpAssign(a, b, k) | Op::EwOp(a, b, k) | Op::EwOpConsume(a, b, k) => {
                let consumed = matches!(self, Op::EwOpConsume(..));
                Self::model_ew(ws, a, b, |x, y| nv(f2(k, x, y)), consumed, false, false)
            }
            Op::Compound(a, b, op, owned) => Self::model_ew(ws, a, b, |x, y| nv(arith(op, x, y)), false, owned == 1, true),
            Op::AddSub(a, b, op, form) => Self::model_ew(ws, a, b, |x, y| nv(arith(op, x, y)), form & 1 == 1, form & 2 == 2, true),
            Op::Product(a, b, form) => Self::model_mul(ws, a, b, nv, form & 1 == 1, form & 2 == 2, true),
            Op::Multiply(a, b) | Op::MulLike(a, b) => Self::model_mul(ws, a, b, nv, true, true, false),
            Op::Neg(a, _) => { ws[a] = ws[a].map(|v| nv(sem::neg(v))); ok }
            Op::IntoElems(a, kind, mask, limit) => {
                let m = std::mem::replace(&mut ws[a], Model::empty());
                let mem = m.mem();
                let at = |p: usize| if m.ord == Order::RowMajor { (p / m.c, p % m.c) } else { (p % m.r, p / m.r) };
                let (mut lo, mut hi, mut step) = (0, mem.len(), 0u32);
                let mut obs = vec![];
                let limit = if kind >= 2 { usize::MAX } else { limit };
                while lo < hi && step as usize != limit {
                    let p = if mask >> (step % 64) & 1 == 1 { hi -= 1; hi } else { lo += 1; lo - 1 };
                    step += 1;
                    let (i, j) = at(p);
                    obs.push(match kind { 0 => (p as u32).wrapping_mul(31) ^ mem[p], 2 => mem[p], _ => iv(9, i, j) ^ mem[p] });
                }
                obs.sort_unstable();
                Out::obs(obs)
            }
            Op::Contains(a, v) => Out::obs(vec![ws[a].rows.iter().flatten().any(|x| *x == nv(v)) as u32]),
            Op::Eq(a, b) => Out::obs(vec![(ws[a].r == ws[b].r && ws[a].c == ws[b].c && ws[a].rows == ws[b].rows) as u32]),
            Op::Show(..) => Out::obs(vec![1]),
            Op::Get(a, i, j, form) => {
                let m = &ws[a];
                if form == 2 {
                    if m.size() == 0 { return Out::err(Error::IndexOutOfBounds); }
                    return Out::obs(vec![m.rows[m.r - 1 - i % m.r][j % m.c]]);
                }
                if i >= m.r || j >= m.c { return if form == 1 { Out { res: Res::Panic, obs: vec![] } } else { Out::err(Error::IndexOutOfBounds) }; }
                Out::obs(vec![m.rows[i][j]])
            }
            Op::Views(a, kind, _) => {
                let m = &ws[a];
                let mut obs: Vec<u32> = (0..m.r).flat_map(|i| (0..m.c).map(move |j| (i, j)))
                    .map(|(i, j)| if kind == 0 { iv(3, i, j) ^ m.rows[i][j] } else { iv(3, j, i) ^ m.rows[i][j] }).collect();
                obs.sort_unstable();
                Out::obs(obs)
            }
            Op::Indexed(a, _) => {
                let m = &ws[a];
                let mut obs: Vec<u32> = (0..m.r).flat_map(|i| (0..m.c).map(move |j| (i, j))).map(|(i, j)| iv(5, i, j) ^ m.rows[i][j]).collect();
                obs.sort_unstable();
                Out::obs(obs)
            }
            Op::Conform(a, b) => Out::obs(vec![
                (ws[a].r == ws[a].c) as u32,
                (ws[a].r == ws[b].r && ws[a].c == ws[b].c) as u32,
                (ws[a].c == ws[b].r) as u32,
            ]),
        }
    }

    fn model_ew(ws: &mut [Model], a: usize, b: usize, f: impl Fn(u32, u32) -> u32, consumed: bool, rhs_owned: bool, panics: bool) -> Out {
        let y = ws[b].clone();
        let fail = (ws[a].r, ws[a].c) != (y.r, y.c);
        if rhs_owned { ws[b] = Model::empty(); }
        if fail {
            if consumed { ws[a] = Model::empty(); }
            return if panics { Out { res: Res::Panic, obs: vec![] } } else { Out::err(Error::ShapeNotConformable) };
        }
        let x = ws[a].clone();
        ws[a] = Model::build(x.r, x.c, x.ord, |i, j| f(x.rows[i][j], y.rows[i][j]));
        Out::ok()
    }

    fn model_mul(ws: &mut [Model], a: usize, b: usize, nv: impl Fn(u32) -> u32, lo: bool, ro: bool, panics: bool) -> Out {
        let (x, y) = (ws[a].clone(), ws[b].clone());
        if lo { ws[a] = Model::empty(); }
        if ro { ws[b] = Model::empty(); }
        if x.c != y.r { return if panics { Out { res: Res::Panic, obs: vec![] } } else { Out::err(Error::ShapeNotConformable) }; }
        ws[a] = Model::build(x.r, y.c, x.ord, |i, j| (0..x.c).fold(0, |s, k| nv(sem::add(s, nv(sem::mul(x.rows[i][k], y.rows[k][j]))))));
        Out::ok()
    }

    pub fn name(&self) -> String {
        let s = format!("{self:?}");
        s.split('(').next().unwrap_or("").to_string()
    }

    /// Operations whose real execution runs closures on rayon's threads.
    pub fn parallel(&self) -> bool {
        matches!(self, Op::ParApply(..) | Op::ParMap(..) | Op::ParMapRef(..))
            || matches!(self, Op::ElemsMut(_, k, ..) | Op::IntoElems(_, k, ..) if *k >= 2)
            || matches!(self, Op::Indexed(_, k) if *k >= 1)
    }
}

pub fn flip(o: Order) -> Order { match o { Order::RowMajor => Order::ColMajor, Order::ColMajor => Order::RowMajor } }

/// Thin wrappers over rayon so that only this module needs its traits.
pub mod par {
    use super::*;
    use rayon::iter::ParallelIterator;
    pub fn for_each_mut<T: Elem>(m: &mut Matrix<T>, f: impl Fn(&mut T) + Send + Sync) { m.par_iter_elements_mut().for_each(f) }
    pub fn for_each_mut_ix<T: Elem>(m: &mut Matrix<T>, f: impl Fn(Index, &mut T) + Send + Sync) {
        m.par_iter_elements_mut_with_index().for_each(|(i, e)| f(i, e))
    }
    pub fn consume<T: Elem>(m: Matrix<T>, f: impl Fn(T) -> u32 + Send + Sync) -> Vec<u32> { m.into_par_iter_elements().map(f).collect() }
    pub fn consume_ix<T: Elem>(m: Matrix<T>, f: impl Fn(Index, T) -> u32 + Send + Sync) -> Vec<u32> {
        m.into_par_iter_elements_with_index().map(|(i, e)| f(i, e)).collect()
    }
    pub fn collect_ix<T: Elem>(m: &Matrix<T>, f: impl Fn(Index, &T) -> u32 + Send + Sync) -> Vec<u32> {
        m.par_iter_elements_with_index().map(|(i, e)| f(i, e)).collect()
    }
}

// ---------------------------------------------------------------- generator

pub struct Gen { pub max_dim: usize, pub par: bool, pub max_elems: usize }

impl Gen {
    pub fn dims(&self, g: &mut Rng) -> (usize, usize) {
        loop {
            let d = |g: &mut Rng| match g.below(12) {
                0 => 0,
                1 | 2 => 1,
                3 => self.max_dim,
                4 => self.max_dim + 1,
                _ => g.range(1, self.max_dim),
            };
            let (r, c) = match g.below(16) {
                0 => (1, g.below(self.max_elems.min(70) + 1)),
                1 => (g.below(self.max_elems.min(70) + 1), 1),
                2 => { let n = d(g); (n, n) }
                _ => (d(g), d(g)),
            };
            if r * c <= self.max_elems { return (r, c); }
        }
    }

    fn val(&self, g: &mut Rng) -> u32 { if g.chance(1, 4) { g.below(4) as u32 } else { g.u32() } }

    /// One operation together with preparatory operations that make its
    /// operands interesting.
    pub fn ops(&self, g: &mut Rng, ms: &[Model]) -> Vec<Op> {
        let a = g.below(ms.len());
        let b = (a + 1 + g.below(ms.len() - 1)) % ms.len();
        let (mr, mc) = (ms[a].r, ms[a].c);
        let n = mr * mc;
        let ix = |g: &mut Rng, hi: usize| if g.chance(1, 14) { if g.bool() { hi } else { hi + g.below(3) } } else if hi == 0 { 0 } else { g.below(hi) };
        let s = self.val(g);
        let mask = match g.below(6) { 0 => 0, 1 => u64::MAX, 2 => 0xAAAA_AAAA_AAAA_AAAA, _ => g.next() };
        let ar = *g.pick(&ARITHS);
        let addsub = if g.bool() { Arith::Add } else { Arith::Sub };
        let limit = if g.chance(1, 3) { g.below(n + 2) } else { usize::MAX };
        let mut pre = vec![];
        let op = match g.below(if self.par { 66 } else { 60 }) {
            0 => Op::New(a),
            1 => Op::WithCap(a, g.below(40)),
            2 => { let (r, c) = self.dims(g); Op::WithDefault(a, r, c) }
            3 => { let (r, c) = self.dims(g); Op::WithValue(a, r, c, s) }
            4 | 5 => { let (r, c) = self.dims(g); Op::WithInit(a, r, c, s) }
            6 => Op::FromRow(a, g.below(20), s),
            7 => Op::FromCol(a, g.below(20), s),
            8 | 9 => { let (r, c) = self.dims(g); Op::FromRows(a, g.below(4) as u8, r, c, s) }
            10 => {
                let (r, c) = (g.range(2, 6), g.below(5));
                Op::Ragged(a, g.below(3) as u8, r, c, g.range(0, r - 1), s)
            }
            11 => { let k = g.below(9) as u8; Op::FromArr(a, k, if k == 6 || k == 7 { g.below(3) } else { g.below(6) } as u8, s) }
            12 => match g.below(4) {
                0 => Op::CloneOf(a, b),
                1 => Op::CloneFrom(a, b),
                k => {
                    // onto a matrix of as many elements in another shape, or of nearly as many
                    let divs: Vec<usize> = (1..=n.max(1)).filter(|d| n % d == 0).collect();
                    let d = *g.pick(&divs);
                    pre.push(if k == 2 { Op::WithInit(b, d, n / d, s) } else { Op::WithInit(b, mr + g.below(2), mc.saturating_sub(g.below(2)), s) });
                    if g.bool() { pre.push(Op::SwitchOrder(b)); }
                    Op::CloneFrom(b, a)
                }
            },
            13 | 14 | 15 => Op::Transpose(a),
            16 | 17 => Op::SwitchOrder(a),
            18 => Op::SwitchOrderRaw(a),
            19 => Op::SetOrder(a, *g.pick(&ORDERS)),
            20 => Op::SetOrderRaw(a, *g.pick(&ORDERS)),
            21 | 22 => {
                // a divisor pair, sometimes a mismatch
                let divs: Vec<usize> = (1..=n.max(1)).filter(|d| n % d == 0).collect();
                if n == 0 { let k = g.below(9); if g.bool() { Op::Reshape(a, 0, k) } else { Op::Reshape(a, k, 0) } }
                else if g.chance(1, 6) { Op::Reshape(a, mr + 1, mc) }
                else { let d = *g.pick(&divs); Op::Reshape(a, d, n / d) }
            }
            23 | 24 | 25 => match g.below(10) {
                0 => Op::Resize(a, mr + 1, mc),
                1 => Op::Resize(a, mr, mc + 1),
                2 => Op::Resize(a, mr.saturating_sub(1), mc),
                3 => Op::Resize(a, mc, mr),
                4 => Op::Resize(a, mr, 0),
                5 => if g.bool() { Op::Resize(a, usize::MAX, 2) } else { Op::Resize(a, 1 << 33, 1 << 33) },
                _ => { let (r, c) = self.dims(g); Op::Resize(a, r, c) }
            },
            26 => Op::ShrinkToFit(a),
            27 => Op::ShrinkTo(a, g.below(n + 10)),
            28 | 29 => Op::Overwrite(a, b),
            30 => Op::Apply(a, s),
            31 => Op::Clear(a),
            32 | 33 => Op::SetElem(a, ix(g, mr), ix(g, mc), g.below(5) as u8, s),
            34 => { let i = (ix(g, mr), ix(g, mc)); let j = if g.chance(1, 5) { i } else { (ix(g, mr), ix(g, mc)) }; Op::Swap(a, i, j, g.below(3) as u8) }
            35 => { let m = ix(g, mr); Op::SwapRows(a, m, if g.chance(1, 5) { m } else { ix(g, mr) }) }
            36 => { let m = ix(g, mc); Op::SwapCols(a, m, if g.chance(1, 5) { m } else { ix(g, mc) }) }
            37 | 38 => Op::VectorsMut(a, g.below(2) as u8, mask, if g.chance(1, 4) { g.below(mr.max(mc) + 1) } else { usize::MAX }, s),
            39 => { let k = g.below(2) as u8; Op::NthMut(a, k, ix(g, if k == 0 { mr } else { mc }), mask, s) }
            40 => Op::ElemsMut(a, g.below(2) as u8, mask, s),
            41..=46 => {
                // elementwise: usually with a conformable operand in some order
                if g.chance(4, 5) {
                    pre.push(Op::WithInit(b, mr, mc, s ^ 0x77));
                    if g.bool() { pre.push(if g.bool() { Op::SwitchOrder(b) } else { Op::Transpose(b) }); }
                    if matches!(pre.last(), Some(Op::Transpose(_))) { pre.push(Op::SwitchOrderRaw(b)); }
                }
                match g.below(8) {
                    0 => Op::EwAssign(a, b, ar),
                    1 => Op::EwOpAssign(a, b, s),
                    2 => Op::Compound(a, b, addsub, g.below(2) as u8),
                    3 => Op::Ew(a, if g.chance(1, 6) { a } else { b }, ar),
                    4 => Op::EwConsume(a, b, ar),
                    5 => Op::EwOp(a, b, s),
                    6 => Op::EwOpConsume(a, b, s),
                    _ => { let f = g.below(4) as u8; Op::AddSub(a, if f == 0 && g.chance(1, 4) { a } else { b }, addsub, f) }
                }
            }
            47..=49 => {
                if g.chance(4, 5) {
                    let k = g.below(self.max_dim + 1);
                    if mr * k <= self.max_elems && mc * k <= self.max_elems { pre.push(Op::WithInit(b, mc, k, s ^ 0x99)); if g.bool() { pre.push(Op::SwitchOrder(b)); } }
                }
                let cost = ms[b].c.saturating_mul(n);
                if cost > 40_000 && pre.is_empty() { Op::Conform(a, b) } else {
                    match g.below(6) { 0 | 1 => Op::Multiply(a, b), 2 => Op::MulLike(a, b), _ => { let f = g.below(4) as u8; Op::Product(a, if f == 0 && mr == mc && n < 200 && g.chance(1, 4) { a } else { b }, f) } }
                }
            }
            50 => Op::Map(a, s),
            51 => Op::MapRef(a, s),
            52 => Op::MapVia(a, s),
            53 => Op::Scalar(a, s),
            54 => if g.bool() { Op::ScalarConsume(a, s) } else { Op::ScalarAssign(a, s) },
            55 => Op::Neg(a, g.below(2) as u8),
            56 => { pre.push(Op::CloneOf(b, a)); Op::IntoElems(a, g.below(2) as u8, mask, limit) }
            57 => if g.bool() { Op::Contains(a, if n > 0 && g.bool() { ms[a].rows[g.below(mr)][g.below(mc)] } else { s }) } else { Op::Conform(a, b) },
            58 => if g.bool() { if g.bool() { pre.push(Op::CloneOf(b, a)); if g.bool() { pre.push(Op::SwitchOrder(b)); } } Op::Eq(a, b) } else { Op::Show(a, g.below(2) as u8) },
            59 => match g.below(3) { 0 => Op::Get(a, ix(g, mr), ix(g, mc), g.below(4) as u8), 1 => Op::Views(a, g.below(2) as u8, mask), _ => Op::Indexed(a, 0) },
            60 => Op::ParApply(a, s),
            61 => Op::ParMap(a, s),
            62 => Op::ParMapRef(a, s),
            63 => Op::ElemsMut(a, 2 + g.below(2) as u8, mask, s),
            64 => { pre.push(Op::CloneOf(b, a)); Op::IntoElems(a, 2 + g.below(2) as u8, mask, limit) }
            _ => Op::Indexed(a, 1),
        };
        pre.push(op);
        pre
    }
}
