//! The row-of-rows reference model and the comparison of a real matrix with it.
use crate::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub r: usize,
    pub c: usize,
    pub ord: Order,
    pub rows: Vec<Vec<u32>>,
}

impl Model {
    pub fn empty() -> Self { Model { r: 0, c: 0, ord: Order::RowMajor, rows: vec![] } }
    pub fn build(r: usize, c: usize, ord: Order, mut f: impl FnMut(usize, usize) -> u32) -> Self {
        let rows = (0..r).map(|i| (0..c).map(|j| f(i, j)).collect()).collect();
        Model { r, c, ord, rows }
    }
    pub fn size(&self) -> usize { self.r * self.c }
    /// Elements in memory order.
    pub fn mem(&self) -> Vec<u32> {
        match self.ord {
            Order::RowMajor => self.rows.iter().flatten().copied().collect(),
            Order::ColMajor => (0..self.c).flat_map(|j| self.rows.iter().map(move |row| row[j])).collect(),
        }
    }
    pub fn from_mem(r: usize, c: usize, ord: Order, mem: &[u32]) -> Self {
        assert_eq!(mem.len(), r * c);
        Self::build(r, c, ord, |i, j| mem[flat(r, c, ord, i, j)])
    }
    pub fn transposed(&self) -> Self { Self::build(self.c, self.r, self.ord, |i, j| self.rows[j][i]) }
    pub fn map(&self, mut f: impl FnMut(u32) -> u32) -> Self {
        Model { rows: self.rows.iter().map(|r| r.iter().map(|v| f(*v)).collect()).collect(), ..*self }
    }
    pub fn show(&self) -> String {
        if self.size() > 40 { format!("{}x{}{}", self.r, self.c, oname(self.ord)) } else {
            format!("{}x{}{} {:?}", self.r, self.c, oname(self.ord), self.rows)
        }
    }
}

/// Position of (i, j) in memory order: the definition of the two orders.
pub fn flat(r: usize, c: usize, ord: Order, i: usize, j: usize) -> usize {
    match ord { Order::RowMajor => i * c + j, Order::ColMajor => j * r + i }
}

/// Builds the real matrix described by the model, through safe public calls
/// whose results are then checked by the caller.
pub fn realize<T: Elem>(m: &Model) -> Result<Matrix<T>, String> {
    let base = Matrix::from_row(m.mem().into_iter().map(T::new).collect::<Vec<T>>());
    let mut base = base;
    // Reach the order first, while the shape is 1 x n / n x 1.
    base.set_order_without_rearrangement(m.ord);
    base.reshape((m.r, m.c)).map_err(|e| format!("setup: reshape to {}x{} failed: {e:?}", m.r, m.c))?;
    Ok(base)
}

/// Address of the element buffer as observed through the first element.
pub fn base_addr<T>(m: &Matrix<T>) -> usize {
    m.iter_elements().next().map_or(0, |e| e as *const T as usize)
}

/// Structural coherence alone: extents against size, every in-bounds
/// coordinate against its own distinct live element.
pub fn coherent<T: Elem>(m: &Matrix<T>) -> Result<(), String> {
    let (r, c, n) = (m.nrows(), m.ncols(), m.size());
    ensure_eq!(m.shape(), Shape::new(r, c), "shape() disagrees with nrows()/ncols()");
    ensure_eq!(r.checked_mul(c), Some(n), "nrows*ncols vs size() for {r}x{c}");
    ensure_eq!(m.is_empty(), n == 0, "is_empty()");
    ensure!(m.capacity() >= n, "capacity {} < size {n}", m.capacity());
    ensure_eq!(m.iter_elements().len(), n, "iter_elements().len()");
    let base = base_addr(m);
    let ord = m.order();
    for i in 0..r {
        for j in 0..c {
            let e = match m.get((i, j)) {
                Ok(e) => e,
                Err(e) => return Err(format!("get(({i}, {j})) of a {r}x{c} matrix: {e:?}")),
            };
            let want = base + flat(r, c, ord, i, j) * size_of::<T>();
            let got = e as *const T as usize;
            ensure!(got == want, "get(({i}, {j})) of a {r}x{c} {} matrix: element at buffer offset {}, expected {}", oname(ord), got.wrapping_sub(base), want - base);
            e.alive().map_err(|x| format!("element ({i}, {j}): {x}"))?;
        }
    }
    for (i, j) in [(r, 0), (0, c), (r, c), (usize::MAX, 0), (0, usize::MAX)] {
        ensure_eq!(m.get((i, j)).err(), Some(Error::IndexOutOfBounds), "get(({i}, {j})) of a {r}x{c} matrix");
    }
    Ok(())
}

/// Coherence plus equality with the model.
pub fn agrees<T: Elem>(m: &Matrix<T>, model: &Model) -> Result<(), String> {
    ensure_eq!(m.order(), model.ord, "order()");
    ensure_eq!((m.nrows(), m.ncols()), (model.r, model.c), "shape");
    coherent(m)?;
    contents(m, model)?;
    let mem = model.mem();
    for (k, (e, w)) in m.iter_elements().zip(&mem).enumerate() {
        ensure!(e.val() == T::norm(*w), "memory position {k}: got {}, expected {}", e.val(), T::norm(*w));
    }
    Ok(())
}

/// Logical contents only (shape and elements by coordinate).
pub fn contents<T: Elem>(m: &Matrix<T>, model: &Model) -> Result<(), String> {
    ensure_eq!((m.nrows(), m.ncols()), (model.r, model.c), "shape");
    ensure_eq!(m.size(), model.size(), "size");
    for i in 0..model.r {
        for j in 0..model.c {
            let e = match m.get((i, j)) { Ok(e) => e, Err(e) => return Err(format!("get(({i}, {j})): {e:?}")) };
            let w = T::norm(model.rows[i][j]);
            ensure!(e.val() == w, "element ({i}, {j}): got {}, expected {w}", e.val());
        }
    }
    Ok(())
}

/// Reads a model back from a (coherent) matrix.
pub fn observe<T: Elem>(m: &Matrix<T>) -> Result<Model, String> {
    coherent(m)?;
    Ok(Model::build(m.nrows(), m.ncols(), m.order(), |i, j| m.get((i, j)).map(|e| e.val()).unwrap_or(u32::MAX)))
}
