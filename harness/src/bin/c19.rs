//! C19: building matrices from rows, values and initialisers.
#![allow(future_incompatible, semicolon_in_expressions_from_non_local_macros)]
use harness::*;
use matreex::{col_vec, matrix, row_vec};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet, VecDeque};

fn rows_are<T: Elem>(m: &Matrix<T>, r: usize, c: usize, f: impl Fn(usize, usize) -> u32, what: &str) -> Result<(), String> {
    ensure_eq!((m.nrows(), m.ncols(), m.size()), (r, c, r * c), "{what}: shape and size");
    coherent(m).map_err(|e| format!("{what}: {e}"))?;
    for i in 0..r { for j in 0..c {
        let e = m.get((i, j)).map_err(|e| format!("{what}: get(({i}, {j})): {e:?}"))?;
        ensure!(e.val() == T::norm(f(i, j)), "{what}: element ({i}, {j}) is {:#x}, given {:#x}", e.val(), T::norm(f(i, j)));
    } }
    // the row views say the same
    let rows: Vec<Vec<u32>> = m.iter_rows().map(|row| row.map(|e| e.val()).collect()).collect();
    ensure_eq!(rows.len(), r, "{what}: rows");
    for (i, row) in rows.iter().enumerate() { ensure!(row.len() == c && row.iter().enumerate().all(|(j, v)| *v == T::norm(f(i, j))), "{what}: row {i} is {row:?}"); }
    Ok(())
}
/// No element is a bitwise duplicate of another one, or of a borrowed one.
fn fresh<'a, T: Elem>(m: &Matrix<T>, others: impl Iterator<Item = &'a T>, what: &str) -> Result<(), String> {
    let mut seen: HashSet<u32> = others.map(|e| e.id()).collect();
    ensure!(m.iter_elements().all(|e| e.id() == 0 || seen.insert(e.id())), "{what}: an element is a bitwise duplicate of another one");
    Ok(())
}
fn v(i: usize, j: usize) -> u32 { (i * 100_003 + j * 3 + 1) as u32 }
fn live<T: Elem>(want: usize, what: &str) -> Result<(), String> {
    if let Some(n) = live_of::<T>() { ensure_eq!(n, want as i64, "{what}: live elements"); }
    led::check().map_err(|e| format!("{what}: {e}"))
}

/// An iterator whose size_hint is loose or says nothing.
struct Shy<I> { it: I, hint: (usize, Option<usize>) }
impl<I: Iterator> Iterator for Shy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.it.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}

/// Ends after the items of `it`, and yields `phantom` when asked once more:
/// what comes after the end is not part of the sequence.
fn unfused<X>(mut it: impl Iterator<Item = X>, phantom: impl FnOnce() -> X) -> impl Iterator<Item = X> {
    let (mut ended, mut phantom) = (false, Some(phantom));
    std::iter::from_fn(move || match it.next() {
        Some(x) => Some(x),
        None if !ended => { ended = true; None }
        None => phantom.take().map(|f| f()),
    })
}

/// Rows of the given lengths, which are all `lens[0]` or not. Element (i, j)
/// has the value v(i, j).
fn from_rows<T: Elem + Clone>(lens: &[usize], st: &mut Stats) -> Result<(), String> {
    led::reset();
    let (r, c) = (lens.len(), lens.first().copied().unwrap_or(0));
    let total: usize = lens.iter().sum();
    let even = lens.iter().all(|l| *l == c);
    let spare = lens.len() % 3 * 2;
    let mk = || -> Vec<Vec<T>> { let mut rows = Vec::with_capacity(lens.len() + spare); rows.extend(lens.iter().enumerate().map(|(i, l)| { let mut row = Vec::with_capacity(l + i % 3 * 2); row.extend((0..*l).map(|j| T::new(v(i, j)))); row })); rows };
    let verdict = |res: Result<Matrix<T>, Error>, what: &str, left: usize, st: &mut Stats| -> Result<(), String> {
        let what = format!("{what} of rows with lengths {lens:?}");
        match res {
            Ok(m) => {
                ensure!(even, "{what}: accepted as {}x{}", m.nrows(), m.ncols());
                rows_are(&m, r, c, v, &what)?;
                live::<T>(left + total, &what)?;
                st.inc("accepted");
            }
            Err(e) => {
                ensure!(!even, "{what}: {e:?}");
                ensure_eq!(e, Error::LengthInconsistent, "{what}");
                live::<T>(left, &format!("{what}: after the rejection"))?;
                st.inc("rejected");
            }
        }
        live::<T>(left, &format!("{what}: at the end"))
    };
    verdict(Matrix::try_from(mk()), "TryFrom<Vec<Vec<T>>>", 0, st)?;
    {
        let rows = mk();
        let before = led::tally();
        verdict(Matrix::try_from(&rows[..]), "TryFrom<&[Vec<T>]>", total, st)?;
        if let Ok(m) = Matrix::try_from(&rows[..]) { fresh(&m, rows.iter().flatten(), "TryFrom<&[Vec<T>]>")?; }
        ensure!(led::tally().live == before.live && rows.iter().enumerate().all(|(i, row)| row.len() == lens[i] && row.iter().enumerate().all(|(j, e)| e.val() == T::norm(v(i, j)) && e.alive().is_ok())), "TryFrom<&[Vec<T>]>: the borrowed rows changed");
    }
    macro_rules! array { ($($n:literal)*) => { match r { $($n => {
        let a: [Vec<T>; $n] = match mk().try_into() { Ok(a) => a, Err(_) => return Err("setup".into()) };
        verdict(Matrix::try_from(a), concat!("TryFrom<[Vec<T>; ", $n, "]>"), 0, st)?;
    })* _ => {} } }; }
    array!(0 1 2 3 4 5 6 7 8 12 16);
    // FromIterator: a panic is the rejection
    let collect = |form: usize| -> Matrix<T> {
        let rows = mk();
        match form {
            0 => rows.into_iter().collect(),
            1 => Matrix::from_iter(rows),
            2 => rows.into_iter().map(VecDeque::from).collect(),
            3 => rows.into_iter().map(|row| { let n = row.len(); row.into_iter().filter(move |_| n > 0) }).collect(),
            4 => Shy { hint: (0, None), it: rows.into_iter().map(|row| Shy { hint: (0, Some(usize::MAX)), it: row.into_iter() }) }.collect(),
            5 => Shy { hint: (r.min(1), Some(r + 9)), it: rows.into_iter().map(|row| Shy { hint: (row.len() / 2, Some(row.len() * 2 + 1)), it: row.into_iter() }) }.collect(),
            6 => rows.into_iter().map(|row| row.into_iter().take(usize::MAX).chain(None)).collect(),
            7 => Shy { hint: (0, Some(usize::MAX)), it: rows.into_iter().map(|row| Shy { hint: (0, Some(isize::MAX as usize)), it: row.into_iter() }) }.collect(),
            8 => Shy { hint: (r, Some(usize::MAX / c.max(1))), it: rows.into_iter().map(|row| Shy { hint: (row.len(), None), it: row.into_iter() }) }.collect(),
            9 => { let mut it = rows.into_iter(); (0..usize::MAX).map_while(|_| it.next()).collect() }
            10 => { let mut it = rows.into_iter(); std::iter::from_fn(|| it.next().map(|row| { let mut row = row.into_iter(); std::iter::repeat_with(move || row.next()).map_while(|e| e) })).collect() }
            11 => rows.into_iter().map(|row| row.into_iter().map(Some).collect::<Vec<_>>().into_iter().flatten()).collect(),
            12 => unfused(rows.into_iter(), || (0..c).map(|j| T::new(v(r, j))).collect()).collect(),
            13 => unfused(rows.into_iter().map(|row| { let n = row.len(); unfused(row.into_iter(), move || T::new(v(0, n))) }).collect::<Vec<_>>().into_iter().map(|row| Box::new(row) as Box<dyn Iterator<Item = T>>), || Box::new((0..c).map(|j| T::new(v(r, j))))).collect(),
            _ => rows.into_iter().map(|row| Box::new(row.into_iter()) as Box<dyn Iterator<Item = T>>).collect(),
        }
    };
    for form in 0..15 {
        let what = format!("FromIterator (form {form}) of rows with lengths {lens:?}");
        match catch(|| collect(form)) {
            Ok(m) => { ensure!(even, "{what}: accepted as {}x{}", m.nrows(), m.ncols()); rows_are(&m, r, c, v, &what)?; live::<T>(total, &what)?; st.inc("accepted"); }
            Err(p) => { ensure!(!even, "{what}: {p}"); live::<T>(0, &format!("{what}: after the panic"))?; st.inc("rejected"); }
        }
        live::<T>(0, &what)?;
    }
    st.seen("row-length patterns", lens.iter().fold(lens.len() as u64, |h, l| h.wrapping_mul(131).wrapping_add(*l as u64 + 1)));
    Ok(())
}

fn arrays<T: Elem + Clone, const R: usize, const C: usize>(cx: &mut Ctx) {
    let sec = format!("arrays-{}", T::NAME);
    cx.case(&sec, (R * 1000 + C) as u64, R * C > 0, || format!("{R} rows of {C}"), |st| {
        led::reset();
        let mk = || -> [[T; C]; R] { std::array::from_fn(|i| std::array::from_fn(|j| T::new(v(i, j)))) };
        let n = R * C;
        let ids: Vec<u32>;
        { let a = mk(); ids = a.iter().flatten().map(|e| e.id()).collect(); let m = Matrix::from(a); rows_are(&m, R, C, v, "From<[[T; C]; R]>")?; live::<T>(n, "From<[[T; C]; R]>")?;
          ensure!(m.iter_elements().map(|e| e.id()).collect::<HashSet<_>>() == ids.iter().copied().collect(), "From<[[T; C]; R]>: elements were not moved"); }
        live::<T>(0, "From<[[T; C]; R]>: at the end")?;
        { let m = Matrix::from(Vec::from(mk())); rows_are(&m, R, C, v, "From<Vec<[T; C]>>")?; live::<T>(n, "From<Vec<[T; C]>>")?; }
        { let mut b = Vec::with_capacity(R + 5); b.extend(mk()); let m = Matrix::from(b); rows_are(&m, R, C, v, "From<Vec<[T; C]>> with spare capacity")?; live::<T>(n, "From<Vec<[T; C]>> with spare capacity")?; }
        live::<T>(0, "From<Vec<[T; C]>>: at the end")?;
        { let a = mk(); let m = Matrix::from(&a[..]); rows_are(&m, R, C, v, "From<&[[T; C]]>")?; live::<T>(2 * n, "From<&[[T; C]]>")?; fresh(&m, a.iter().flatten(), "From<&[[T; C]]>")?;
          if R > 1 { let m = Matrix::from(&a[1..]); rows_are(&m, R - 1, C, |i, j| v(i + 1, j), "From<&[[T; C]]> of a subslice")?; }
          drop(m);
          ensure!(a.iter().enumerate().all(|(i, row)| row.iter().enumerate().all(|(j, e)| e.val() == T::norm(v(i, j)) && e.alive().is_ok())), "From<&[[T; C]]>: the borrowed rows changed"); }
        { let m: Matrix<T> = mk().into_iter().collect(); if R > 0 { rows_are(&m, R, C, v, "FromIterator of arrays")?; } }
        { let a = mk(); let m: Matrix<T> = a.iter().map(|row| row.iter().cloned()).collect(); if R > 0 { rows_are(&m, R, C, v, "FromIterator of cloning iterators")?; } }
        { let a = mk(); let vs: Vec<Vec<T>> = a.into_iter().map(|row| row.into_iter().collect()).collect(); let m = Matrix::try_from(vs).map_err(|e| format!("{e:?}"))?; if R > 0 { rows_are(&m, R, C, v, "TryFrom<Vec<Vec<T>>>")?; } }
        live::<T>(0, "at the end")?;
        st.add("accepted", 8);
        Ok(())
    });
}

fn vectors<T: Elem + Clone>(n: usize, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let mk = |spare: usize| { let mut x: Vec<T> = Vec::with_capacity(n + spare); x.extend((0..n).map(|j| T::new(v(0, j)))); x };
    let row = |m: Matrix<T>, what: &str| -> Result<(), String> { rows_are(&m, 1, n, v, &format!("{what}, {n} elements"))?; live::<T>(n, what) };
    let col = |m: Matrix<T>, what: &str| -> Result<(), String> { rows_are(&m, n, 1, |i, _| v(0, i), &format!("{what}, {n} elements"))?; live::<T>(n, what) };
    row(Matrix::from_row(mk(0)), "from_row(Vec)")?;
    row(Matrix::from_row(mk(13)), "from_row(Vec) with spare capacity")?;
    row(Matrix::from_row(mk(0).into_boxed_slice()), "from_row(Box<[T]>)")?;
    row(Matrix::from_row(VecDeque::from(mk(2))), "from_row(VecDeque)")?;
    { let mut d: VecDeque<T> = VecDeque::with_capacity(n + 1); for j in (0..n).rev() { d.push_front(T::new(v(0, j))); } row(Matrix::from_row(d), "from_row(rotated VecDeque)")?; }
    col(Matrix::from_col(mk(0)), "from_col(Vec)")?;
    col(Matrix::from_col(mk(13)), "from_col(Vec) with spare capacity")?;
    col(Matrix::from_col(mk(0).into_boxed_slice()), "from_col(Box<[T]>)")?;
    { let a = mk(0); let m = Matrix::from_row(&a[..]); rows_are(&m, 1, n, v, "from_row(&[T])")?; fresh(&m, a.iter(), "from_row(&[T])")?; let m = Matrix::from_col(&a[..]); rows_are(&m, n, 1, |i, _| v(0, i), "from_col(&[T])")?; fresh(&m, a.iter(), "from_col(&[T])")?; }
    st.add("accepted", 10);
    live::<T>(0, "at the end")
}

/// Filling constructors.
fn fills<T: Elem + Clone + Default>(r: usize, c: usize, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let n = r * c;
    for form in 0..3 {
        let what = format!("with_value(({r}, {c})), form {form}");
        let m = match form {
            0 => Matrix::with_value((r, c), T::new(77)),
            1 => Matrix::with_value(Shape::new(r, c), T::new(77)),
            _ => Matrix::with_value([r, c], T::new(77)),
        }.map_err(|e| format!("{what}: {e:?}"))?;
        rows_are(&m, r, c, |_, _| 77, &what)?;
        live::<T>(n, &what)?;
        let ids: HashSet<u32> = m.iter_elements().map(|e| e.id()).collect();
        ensure!(ids.len() == n || ids.iter().all(|i| *i == 0), "{what}: an element appears twice");
        drop(m);
        let what = format!("with_default(({r}, {c})), form {form}");
        let m: Matrix<T> = match form {
            0 => Matrix::with_default((r, c)),
            1 => Matrix::with_default(Shape::new(r, c)),
            _ => Matrix::with_default([r, c]),
        }.map_err(|e| format!("{what}: {e:?}"))?;
        rows_are(&m, r, c, |_, _| T::default().val(), &what)?;
        drop(m);
        live::<T>(0, &what)?;
        let what = format!("with_initializer(({r}, {c})), form {form}");
        let log: RefCell<HashMap<(usize, usize), u32>> = RefCell::new(HashMap::new());
        let calls = RefCell::new(Vec::new());
        let f = |ix: Index| {
            let stamp = calls.borrow().len() as u32 * 7 + 1000;
            calls.borrow_mut().push((ix.row, ix.col));
            log.borrow_mut().insert((ix.row, ix.col), stamp);
            T::new(stamp)
        };
        let m = match form {
            0 => Matrix::with_initializer((r, c), f),
            1 => Matrix::with_initializer(Shape::new(r, c), f),
            _ => Matrix::with_initializer([r, c], f),
        }.map_err(|e| format!("{what}: {e:?}"))?;
        let (log, calls) = (log.into_inner(), calls.into_inner());
        ensure_eq!(calls.len(), n, "{what}: initializer calls");
        if let Some(p) = calls.iter().find(|p| p.0 >= r || p.1 >= c) { return Err(format!("{what}: initializer called for {p:?}")); }
        ensure_eq!(log.len(), n, "{what}: distinct positions the initializer was called for");
        rows_are(&m, r, c, |i, j| log[&(i, j)], &what)?;
        live::<T>(n, &what)?;
        drop(m);
        live::<T>(0, &what)?;
        st.add("initializer calls logged", n as u64);
    }
    Ok(())
}

fn macros(cx: &mut Ctx) {
    let is = |m: &Matrix<u32>, r: usize, c: usize, w: &[u32], what: &str| -> Result<(), String> {
        ensure_eq!((m.nrows(), m.ncols(), m.size()), (r, c, w.len()), "{what}: shape and size");
        for i in 0..r { for j in 0..c { ensure_eq!(m.get((i, j)).ok(), Some(&w[i * c + j]), "{what}: element ({i}, {j})"); } }
        Ok(())
    };
    cx.case("macros", 0, true, || "all macro forms".into(), |st| {
        is(&matrix![], 0, 0, &[], "matrix![]")?;
        is(&matrix![[1, 2, 3], [4, 5, 6]], 2, 3, &[1, 2, 3, 4, 5, 6], "matrix![[1, 2, 3], [4, 5, 6]]")?;
        is(&matrix![[1, 2, 3,], [4, 5, 6,],], 2, 3, &[1, 2, 3, 4, 5, 6], "matrix! with trailing commas")?;
        is(&matrix![[1], [2], [3]], 3, 1, &[1, 2, 3], "matrix![[1], [2], [3]]")?;
        is(&matrix![[1, 2, 3]], 1, 3, &[1, 2, 3], "matrix![[1, 2, 3]]")?;
        is(&matrix![[9; 3]; 2], 2, 3, &[9; 6], "matrix![[9; 3]; 2]")?;
        is(&matrix![[9; 2]; 3], 3, 2, &[9; 6], "matrix![[9; 2]; 3]")?;
        is(&matrix![[9; 0]; 3], 3, 0, &[], "matrix![[9; 0]; 3]")?;
        is(&matrix![[9; 3]; 0], 0, 3, &[], "matrix![[9; 3]; 0]")?;
        is(&matrix![[1, 2]; 3], 3, 2, &[1, 2, 1, 2, 1, 2], "matrix![[1, 2]; 3]")?;
        is(&matrix![[1, 2, 3]; 1], 1, 3, &[1, 2, 3], "matrix![[1, 2, 3]; 1]")?;
        is(&matrix![[1, 2, 3,]; 2], 2, 3, &[1, 2, 3, 1, 2, 3], "matrix![[1, 2, 3,]; 2]")?;
        is(&matrix![[1, 2]; 0], 0, 2, &[], "matrix![[1, 2]; 0]")?;
        let (n, k) = (4usize, 3usize);
        is(&matrix![[7; k]; n], 4, 3, &[7; 12], "matrix![[7; k]; n]")?;
        let e = [[10u32, 11], [12, 13], [14, 15]];
        is(&matrix![e[0], e[1], e[2]], 3, 2, &[10, 11, 12, 13, 14, 15], "matrix! of array expressions")?;
        is(&row_vec![1, 2, 3], 1, 3, &[1, 2, 3], "row_vec![1, 2, 3]")?;
        is(&row_vec![1, 2, 3,], 1, 3, &[1, 2, 3], "row_vec![1, 2, 3,]")?;
        is(&row_vec![5; 4], 1, 4, &[5; 4], "row_vec![5; 4]")?;
        is(&row_vec![5; 0], 1, 0, &[], "row_vec![5; 0]")?;
        is(&row_vec![8], 1, 1, &[8], "row_vec![8]")?;
        is(&col_vec![1, 2, 3], 3, 1, &[1, 2, 3], "col_vec![1, 2, 3]")?;
        is(&col_vec![1, 2, 3,], 3, 1, &[1, 2, 3], "col_vec![1, 2, 3,]")?;
        is(&col_vec![5; 4], 4, 1, &[5; 4], "col_vec![5; 4]")?;
        is(&col_vec![5; 0], 0, 1, &[], "col_vec![5; 0]")?;
        is(&col_vec![8], 1, 1, &[8], "col_vec![8]")?;
        let m: Matrix<u32> = row_vec![];
        is(&m, 1, 0, &[], "row_vec![]")?;
        let m: Matrix<u32> = col_vec![];
        is(&m, 0, 1, &[], "col_vec![]")?;
        // expressions are evaluated once, in order
        let mut k = 0;
        let mut next = || { k += 1; k };
        is(&matrix![[next(), next()], [next(), next()], [next(), next()]], 3, 2, &[1, 2, 3, 4, 5, 6], "matrix! with side effects")?;
        is(&row_vec![next(), next()], 1, 2, &[7, 8], "row_vec! with side effects")?;
        is(&col_vec![next(), next()], 2, 1, &[9, 10], "col_vec! with side effects")?;
        st.add("accepted", 28);
        Ok(())
    });
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C19");
    let miri = cx.miri();
    // every pattern of row lengths in a small box
    let (rmax, lmax) = if miri { (2, 2) } else if cx.thorough { (6, 3) } else { (5, 3) };
    let mut key = 0;
    for r in 0..=rmax {
        for code in 0..(lmax + 1usize).pow(r as u32) {
            key += 1;
            let lens: Vec<usize> = (0..r).map(|i| code / (lmax + 1usize).pow(i as u32) % (lmax + 1)).collect();
            if miri && key % 4 != 1 { continue; }
            cx.case("lengths", key, true, || format!("rows of lengths {lens:?}"), |st| {
                from_rows::<T12>(&lens, st)?;
                if key % 8 == 4 { from_rows::<Nd>(&lens, st)?; }
                if key % 8 == 0 { from_rows::<Zt>(&lens, st)?; from_rows::<TBox>(&lens, st)?; }
                Ok(())
            });
        }
    }
    // larger ones: ragged in one or two places, sums kept or not
    let n = cx.pick(4, 2000, 25_000);
    for key in 0..n as u64 {
        let mut g = cx.rng("ragged", key);
        let (r, c) = match g.below(6) {
            0 => (g.range(1, 8), g.range(1, 200)),
            1 => (*g.pick(&[12, 16]), g.range(1, 9)),
            2 => (g.range(2, 200), g.range(0, 4)),
            3 => (g.range(2, 8), g.range(0, 3)),
            _ => (g.range(2, 40), g.range(1, 40)),
        };
        let (r, c) = if miri { (r.min(4), c.min(4)) } else { (r, c) };
        let mut lens = vec![c; r];
        let p = match g.below(4) { 0 => r - 1, 1 => 0, _ => g.below(r) };
        match g.below(7) {
            0 => {}
            1 => lens[p] += 1,
            2 => lens[p] = lens[p].saturating_sub(1),
            3 => { let q = g.below(r); let d = g.range(1, 3).min(lens[q]); lens[q] -= d; lens[p] += d; }
            4 => lens[p] = 0,
            5 => lens[p] *= 2,
            _ => { for l in &mut lens { if g.chance(1, 3) { *l = g.below(c + 2) } } }
        }
        cx.case("ragged", key, r > 1, || format!("rows of lengths {lens:?}"), |st| {
            match key % 4 { 0 => from_rows::<TBox>(&lens, st), 1 => from_rows::<B1>(&lens, st), 2 => from_rows::<P24>(&lens, st), _ => from_rows::<T12>(&lens, st) }
        });
    }
    if cx.vast() { for (k, (r, c)) in VAST.into_iter().enumerate() { for how in 0..3 {
        let key = (k * 3 + how) as u64;
        let mut g = cx.rng("vast", key);
        let mut lens = vec![c; r];
        let p = *g.pick(&[0, r - 1, r / 2, r.min(256) - 1]);
        match how { 0 => {} 1 => lens[p] += 1, _ => { lens[p] -= 1; lens[r - 1] += 1; } }
        cx.case("vast", key, true, || format!("{r} rows of lengths {c}, changed in {how} places"), |st| if k % 2 == 0 { from_rows::<W4>(&lens, st) } else { from_rows::<T12>(&lens, st) });
    } } }
    macro_rules! arr { ($($r:literal $c:literal),*) => { $( arrays::<T12, $r, $c>(&mut cx); arrays::<W4, $r, $c>(&mut cx); arrays::<Nd, $r, $c>(&mut cx); arrays::<Zt, $r, $c>(&mut cx); )* }; }
    arr!(0 0, 0 3, 3 0, 1 1, 1 5, 5 1, 2 3, 3 2, 4 4, 7 2, 2 9, 16 3, 3 17, 1 64, 33 1);
    for key in 0..cx.pick(3, 40, 300) as u64 {
        let n = if key < 10 { key as usize } else { (key * key) as usize };
        cx.case("vectors", key, n > 1, || format!("vectors of {n}"), |st| { vectors::<T12>(n, st)?; vectors::<B1>(n, st)?; vectors::<Nd>(n, st)?; if n < 100 { vectors::<Nest>(n, st)?; } if !miri { vectors::<Zt>(n, st)?; } Ok(()) });
    }
    let mut shapes: Vec<(usize, usize)> = (0..=5).flat_map(|r| (0..=5).map(move |c| (r, c))).collect();
    shapes.extend([(1, 100), (100, 1), (17, 3), (3, 17), (16, 16), (0, 1000), (1000, 0), (33, 31), (64, 64)]);
    if miri { shapes = vec![(2, 3), (0, 2), (3, 1)]; }
    if cx.thorough && !miri { shapes.extend((6..40).flat_map(|r| [(r, 5), (7, r), (r, r)])); shapes.extend([(1, 10000), (10000, 1), (300, 200)]); }
    if cx.vast() { shapes.extend(VAST); }
    for (k, &(r, c)) in shapes.iter().enumerate() {
        cx.case("fills", k as u64, r * c > 0, || format!("{r}x{c}"), |st| {
            fills::<T12>(r, c, st)?;
            if !miri { fills::<W4>(r, c, st)?; fills::<P3>(r, c, st)?; fills::<Zt>(r, c, st)?; }
            fills::<Nd>(r, c, st)?;
            if r * c < 2000 { fills::<Nest>(r, c, st)?; }
            Ok(())
        });
    }
    macros(&mut cx);
    cx.together([0, 6, 60], |g, st| {
        for _ in 0..8 {
            let c = g.below(9);
            let mut lens = vec![c; g.below(9)];
            if g.chance(1, 3) && !lens.is_empty() { let k = g.below(lens.len()); lens[k] = g.below(9); }
            from_rows::<W4>(&lens, st)?;
            vectors::<W4>(g.below(30), st)?;
            fills::<W4>(g.below(12), g.below(12), st)?;
        }
        Ok(())
    });
    cx.finish()
}
