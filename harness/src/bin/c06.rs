//! C06: every row and column view against get().
use harness::*;

trait Addr { fn addr(&self) -> usize; }
impl<T> Addr for &T { fn addr(&self) -> usize { *self as *const T as usize } }
impl<T> Addr for &mut T { fn addr(&self) -> usize { &**self as *const T as usize } }

/// What a vector should present: the addresses (all equal to 0 for zero-sized
/// elements) in order.
type Want = Vec<usize>;

/// A distance past the end of `left` items, up to the extremes of usize.
fn far(g: &mut Rng, left: usize) -> usize {
    *g.pick(&[left, left + 1, 2 * left, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, (usize::MAX / left.max(1)).saturating_add(1).max(left), 1 << 62, 1 << 61, 1 << 32])
}

fn vector<I>(mut it: I, want: &Want, zst: bool, g: &mut Rng, adaptors: bool) -> Result<(), String>
where I: ExactSizeIterator + DoubleEndedIterator, I::Item: Addr {
    let same = |p: usize, e: Option<I::Item>, how: &str| -> Result<(), String> {
        let Some(e) = e else { return Err(format!("{how} is None at position {p} of {}", want.len())) };
        if !zst && e.addr() != want[p] {
            let at = want.iter().position(|a| *a == e.addr());
            return Err(format!("{how} at position {p}: got the element {}", at.map_or("of another place".into(), |q| format!("of position {q}"))));
        }
        Ok(())
    };
    ensure_eq!((it.len(), it.size_hint()), (want.len(), (want.len(), Some(want.len()))), "len()/size_hint() of a fresh vector view");
    let (mut lo, mut hi) = (0, want.len());
    let style = g.below(5);
    while lo < hi {
        let how = match style { 0 => 0, 1 => 1, _ => g.below(if adaptors { 20 } else { 2 }) };
        match how {
            0 | 5 => { let e = it.next(); same(lo, e, "next")?; lo += 1 }
            1 | 6 => { let e = it.next_back(); hi -= 1; same(hi, e, "next_back")? }
            2 => { let k = g.below((hi - lo).min(4)); let e = it.nth(k); same(lo + k, e, "nth")?; lo += k + 1 }
            3 => { let k = g.below((hi - lo).min(4)); let e = it.nth_back(k); hi -= k + 1; same(hi, e, "nth_back")? }
            4 => { let k = far(g, hi - lo); ensure!(it.nth(k).is_none(), "nth({k}) past the end is an item"); lo = hi }
            12 => { let k = far(g, hi - lo); ensure!(it.nth_back(k).is_none(), "nth_back({k}) past the end is an item"); lo = hi }
            13 => { let mut got = vec![]; it.fold((), |_, e| got.push(e)); ensure_eq!(got.len(), hi - lo, "items of fold()"); for (d, e) in got.into_iter().enumerate() { same(lo + d, Some(e), "fold")? } return Ok(()) }
            14 => { let mut got = vec![]; it.rfold((), |_, e| got.push(e)); ensure_eq!(got.len(), hi - lo, "items of rfold()"); for (d, e) in got.into_iter().enumerate() { same(hi - 1 - d, Some(e), "rfold")? } return Ok(()) }
            15 => { let k = g.below(hi - lo); let mut i = 0; let e = it.find(|_| { i += 1; i == k + 1 }); same(lo + k, e, "find")?; lo += k + 1 }
            16 => { let k = g.below(hi - lo); let mut i = 0; let e = it.rfind(|_| { i += 1; i == k + 1 }); hi -= k + 1; same(hi, e, "rfind")? }
            17 => { let k = g.below(hi - lo + 2); let mut p = hi; for e in it.skip(k).rev() { p -= 1; same(p, Some(e), "skip, rev")? } ensure_eq!(p, (lo + k).min(hi), "items of skip({k}).rev()"); return Ok(()) }
            18 => { let got: Vec<_> = it.enumerate().collect(); ensure_eq!(got.len(), hi - lo, "items of collect()"); for (d, (n, e)) in got.into_iter().enumerate() { ensure_eq!(n, d, "enumerate()"); same(lo + d, Some(e), "collect")? } return Ok(()) }
            19 => { let k = g.below(hi - lo + 2); let mut p = lo; for e in it.by_ref().take(k) { same(p, Some(e), "take")?; p += 1 } ensure_eq!(p, (lo + k).min(hi), "items of take({k})"); lo = p }
            7 => { ensure_eq!(it.count(), hi - lo, "count()"); return Ok(()) }
            8 => { let e = it.last(); return same(hi - 1, e, "last()") }
            9 => { let mut p = lo; for e in it { same(p, Some(e), "for")?; p += 1 } ensure_eq!(p, hi, "items of a for loop"); return Ok(()) }
            10 => { let mut p = hi; for e in it.rev() { p -= 1; same(p, Some(e), "rev")? } ensure_eq!(p, lo, "items of rev()"); return Ok(()) }
            _ => { let s = g.range(1, 3); let mut p = lo; for e in it.step_by(s) { same(p, Some(e), "step_by")?; p += s } ensure!(p >= hi && p - s < hi, "step_by stopped at {p} of {hi}"); return Ok(()) }
        }
        ensure_eq!((it.len(), it.size_hint().1), (hi - lo, Some(hi - lo)), "len() with {} items left", hi - lo);
    }
    ensure!(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "an exhausted vector view yields more");
    Ok(())
}

fn outer<O, I>(mut it: O, want: &[Want], zst: bool, g: &mut Rng, adaptors: bool) -> Result<(), String>
where O: ExactSizeIterator<Item = I> + DoubleEndedIterator, I: ExactSizeIterator + DoubleEndedIterator, I::Item: Addr {
    let n = want.len();
    ensure_eq!((it.len(), it.size_hint()), (n, (n, Some(n))), "len()/size_hint() of the outer iterator");
    let (mut lo, mut hi) = (0, n);
    let style = g.below(4);
    while lo < hi {
        if adaptors && style > 1 && g.chance(1, 6) {
            // the rest at once
            let (mut k, s) = (lo, g.range(1, 3));
            match g.below(7) {
                0 => { ensure_eq!(it.count(), hi - lo, "outer count()"); return Ok(()) }
                1 => { let Some(v) = it.last() else { return Err("outer last() is None".into()) }; return vector(v, &want[hi - 1], zst, g, adaptors).map_err(|e| format!("the last vector: {e}")) }
                2 => { let mut got = vec![]; it.fold((), |_, v| got.push(v)); for v in got { ensure!(k < hi, "outer fold yields too many"); vector(v, &want[k], zst, g, adaptors).map_err(|e| format!("vector {k} (outer fold): {e}"))?; k += 1 } }
                3 => { let mut got = vec![]; it.rfold((), |_, v| got.push(v)); got.reverse(); for v in got { ensure!(k < hi, "outer rfold yields too many"); vector(v, &want[k], zst, g, adaptors).map_err(|e| format!("vector {k} (outer rfold): {e}"))?; k += 1 } }
                4 => { let mut b = hi; for v in it.rev() { ensure!(b > lo, "outer rev yields too many"); b -= 1; vector(v, &want[b], zst, g, adaptors).map_err(|e| format!("vector {b} (outer rev): {e}"))? } k = hi - (b - lo) }
                5 => { for v in it.step_by(s) { ensure!(k < hi, "outer step_by yields too many"); vector(v, &want[k], zst, g, adaptors).map_err(|e| format!("vector {k} (outer step_by): {e}"))?; k += s } ensure!(k >= hi && k - s < hi, "outer step_by({s}) went to {k} of {hi}"); return Ok(()) }
                _ => { let d = far(g, hi - lo); ensure!(if s == 1 { it.nth(d) } else { it.nth_back(d) }.is_none(), "outer nth or nth_back({d}) of {} is a vector", hi - lo); lo = hi; continue }
            }
            ensure_eq!(k, hi, "vectors of an outer fold, rfold or rev");
            return Ok(());
        }
        let how = match style { 0 => 0, 1 => 1, _ => g.below(if adaptors { 5 } else { 2 }) };
        let (k, v, name) = match how {
            1 => { hi -= 1; (hi, it.next_back(), "next_back") }
            2 => { let d = g.below((hi - lo).min(3)); lo += d + 1; (lo - 1, it.nth(d), "nth") }
            3 => { let d = g.below((hi - lo).min(3)); hi -= d + 1; (hi, it.nth_back(d), "nth_back") }
            _ => { lo += 1; (lo - 1, it.next(), "next") }
        };
        let Some(v) = v else { return Err(format!("outer {name} is None with vector {k} of {n} still to come")) };
        ensure_eq!(it.len(), hi - lo, "outer len()");
        vector(v, &want[k], zst, g, adaptors).map_err(|e| format!("vector {k} (outer {name}): {e}"))?;
    }
    ensure!(it.next().is_none() && it.next_back().is_none() && it.len() == 0, "the exhausted outer iterator yields more");
    Ok(())
}

fn views<T: Full>(m: &mut Matrix<T>, model: &Model, g: &mut Rng, rounds: usize, st: &mut Stats) -> Result<(), String> {
    let (r, c) = (model.r, model.c);
    let zst = size_of::<T>() == 0;
    // the logical matrix, as get() sees it
    let at = |i: usize, j: usize| m.get((i, j)).map(|e| e as *const T as usize).map_err(|e| format!("get(({i}, {j})): {e:?}"));
    let mut rows: Vec<Want> = vec![];
    for i in 0..r { rows.push((0..c).map(|j| at(i, j)).collect::<Result<_, _>>()?); }
    let cols: Vec<Want> = (0..c).map(|j| (0..r).map(|i| rows[i][j]).collect()).collect();
    for round in 0..rounds {
        let ad = round > 0;
        outer(m.iter_rows(), &rows, zst, g, ad).map_err(|e| format!("iter_rows: {e}"))?;
        outer(m.iter_cols(), &cols, zst, g, ad).map_err(|e| format!("iter_cols: {e}"))?;
        outer(m.iter_rows_mut(), &rows, zst, g, ad).map_err(|e| format!("iter_rows_mut: {e}"))?;
        outer(m.iter_cols_mut(), &cols, zst, g, ad).map_err(|e| format!("iter_cols_mut: {e}"))?;
        for n in 0..r {
            match m.iter_nth_row(n) { Ok(it) => vector(it, &rows[n], zst, g, ad).map_err(|e| format!("iter_nth_row({n}): {e}"))?, Err(e) => return Err(format!("iter_nth_row({n}) of {r} rows: {e:?}")) }
            match m.iter_nth_row_mut(n) { Ok(it) => vector(it, &rows[n], zst, g, ad).map_err(|e| format!("iter_nth_row_mut({n}): {e}"))?, Err(e) => return Err(format!("iter_nth_row_mut({n}) of {r} rows: {e:?}")) }
        }
        for n in 0..c {
            match m.iter_nth_col(n) { Ok(it) => vector(it, &cols[n], zst, g, ad).map_err(|e| format!("iter_nth_col({n}): {e}"))?, Err(e) => return Err(format!("iter_nth_col({n}) of {c} columns: {e:?}")) }
            match m.iter_nth_col_mut(n) { Ok(it) => vector(it, &cols[n], zst, g, ad).map_err(|e| format!("iter_nth_col_mut({n}): {e}"))?, Err(e) => return Err(format!("iter_nth_col_mut({n}) of {c} columns: {e:?}")) }
        }
        st.add("vector views compared", 4 * (r + c) as u64);
    }
    invalid(m, st)
}

fn invalid<T>(m: &mut Matrix<T>, st: &mut Stats) -> Result<(), String> {
    let (r, c) = (m.nrows(), m.ncols());
    for n in [r, r.wrapping_add(1), c, c.wrapping_add(1), r.wrapping_mul(c), r.wrapping_sub(1), usize::MAX, usize::MAX / 2, 1 << 63, 1 << 32, usize::MAX / r.max(1), (usize::MAX / c.max(1)).wrapping_add(1)] {
        let oob = Error::IndexOutOfBounds;
        ensure_eq!(m.iter_nth_row(n).err(), (n >= r).then_some(oob), "iter_nth_row({n}) of {r}x{c}");
        ensure_eq!(m.iter_nth_row_mut(n).err(), (n >= r).then_some(oob), "iter_nth_row_mut({n}) of {r}x{c}");
        ensure_eq!(m.iter_nth_col(n).err(), (n >= c).then_some(oob), "iter_nth_col({n}) of {r}x{c}");
        ensure_eq!(m.iter_nth_col_mut(n).err(), (n >= c).then_some(oob), "iter_nth_col_mut({n}) of {r}x{c}");
        st.add("vector numbers tried", 4);
    }
    Ok(())
}

fn one<T: Full>(r: usize, c: usize, ord: Order, how: usize, g: &mut Rng, rounds: usize, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let model = Model::build(r, c, ord, |i, j| rng::mix64((i as u64) << 32 | j as u64) as u32);
    let mut m = match how % 4 {
        0 => realize::<T>(&model)?,
        1 => { let mut m = realize::<T>(&model.transposed())?; m.transpose(); m }
        2 => { let mut o = model.clone(); o.ord = ops::flip(ord); let mut m = realize::<T>(&o)?; m.switch_order(); m }
        _ => {
            // shrunk from something larger: spare capacity behind the elements
            let mut m = realize::<T>(&Model::build(r + 2, c + 3, ord, |_, _| 1))?;
            m.resize((r, c)).map_err(|e| format!("setup: {e:?}"))?;
            for (e, v) in m.iter_elements_mut().zip(model.mem()) { e.set(v) }
            m
        }
    };
    let before = led::tally();
    views(&mut m, &model, g, rounds, st)?;
    contents(&m, &model)?;
    // writing through each mutable view reaches the logical element it presents
    let mut model = model;
    for k in 0..4u32 {
        match k {
            0 => for (i, row) in m.iter_rows_mut().enumerate() { for (j, e) in row.enumerate() { e.set(ops::iv(k, i, j)) } },
            1 => for (j, col) in m.iter_cols_mut().enumerate() { for (i, e) in col.enumerate() { e.set(ops::iv(k, i, j)) } },
            2 => for i in 0..r { for (j, e) in m.iter_nth_row_mut(i).map_err(|e| format!("{e:?}"))?.enumerate() { e.set(ops::iv(k, i, j)) } },
            _ => for j in 0..c { for (i, e) in m.iter_nth_col_mut(j).map_err(|e| format!("{e:?}"))?.rev().enumerate() { e.set(ops::iv(k, r - 1 - i, j)) } },
        }
        model = Model::build(r, c, model.ord, |i, j| ops::iv(k, i, j));
        contents(&m, &model).map_err(|e| format!("after writing through view {k}: {e}"))?;
    }
    ensure_eq!(led::tally(), before, "views created, cloned or dropped elements: ledger");
    drop(m);
    led::check()
}

fn all<T: Full>(cx: &mut Ctx, tag: &str, rounds: usize, list: impl Iterator<Item = (usize, usize)>) {
    let section = format!("{tag}-{}", T::NAME);
    for (r, c) in list { for (o, ord) in ORDERS.into_iter().enumerate() { for how in 0..if tag == "all" { 4 } else { 1 } {
        let key = (((r as u64) << 24 | c as u64) * 2 + o as u64) * 4 + how;
        let mut g = cx.rng(&section, key);
        cx.case(&section, key, true, || format!("{r}x{c}{} of {}, construction {how}", oname(ord), T::NAME), |st| {
            st.seen("distinct shapes and orders", ((r as u64) << 24 | c as u64) * 2 + o as u64);
            one::<T>(r, c, ord, how as usize + g.below(4) * (tag != "all") as usize, &mut g, rounds, st)
        });
    } } }
}
fn square(n: usize) -> impl Iterator<Item = (usize, usize)> { (0..=n).flat_map(move |r| (0..=n).map(move |c| (r, c))) }

fn huge(cx: &mut Ctx) {
    let m = usize::MAX;
    for (k, (r, c)) in [(m, 1), (1, m), (3, m / 3), (m / 3, 3), (65537, m / 65537), (m, 0), (0, m), (1 << 40, 0), (0, 7)].into_iter().enumerate() { for (o, ord) in ORDERS.into_iter().enumerate() {
        cx.case("huge-zst", (k * 2 + o) as u64, true, || format!("{r} x {c}{} of ()", oname(ord)), |st| {
            let mut v: Vec<()> = vec![];
            unsafe { v.set_len(r * c) };
            let mut x = Matrix::from_row(v);
            x.set_order_without_rearrangement(ord);
            x.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
            fn probe<O: ExactSizeIterator<Item = I> + DoubleEndedIterator, I: ExactSizeIterator + DoubleEndedIterator>(mut it: O, n: usize, len: usize, what: &str) -> Result<(), String> {
                ensure_eq!(it.len(), n, "{what}: len");
                let mut left = n;
                for k in 0..4 {
                    let v = if k % 2 == 0 { it.next() } else { it.next_back() };
                    ensure_eq!(v.is_some(), left > 0, "{what}: step {k}");
                    left = left.saturating_sub(1);
                    ensure_eq!(it.len(), left, "{what}: len after step {k}");
                    if let Some(mut v) = v {
                        let mut l = len;
                        for q in 0..4 {
                            ensure_eq!(v.len(), l, "{what}: vector len at step {q}");
                            let e = if q % 2 == 0 { v.next_back() } else { v.next() };
                            ensure_eq!(e.is_some(), l > 0, "{what}: vector step {q}");
                            l = l.saturating_sub(1);
                        }
                    }
                }
                Ok(())
            }
            probe(x.iter_rows(), r, c, "iter_rows")?;
            probe(x.iter_cols(), c, r, "iter_cols")?;
            probe(x.iter_rows_mut(), r, c, "iter_rows_mut")?;
            probe(x.iter_cols_mut(), c, r, "iter_cols_mut")?;
            for n in [0, 1, r / 2, r.wrapping_sub(1)] { if n < r {
                ensure_eq!(x.iter_nth_row(n).map(|i| i.len()), Ok(c), "iter_nth_row({n})");
                ensure_eq!(x.iter_nth_row_mut(n).map(|i| i.len()), Ok(c), "iter_nth_row_mut({n})");
                ensure_eq!(x.iter_nth_row_mut(n).map(|mut i| (i.next_back().is_some(), i.next().is_some())), Ok((c > 0, c > 1)), "iter_nth_row_mut({n})");
            } }
            for n in [0, 1, c / 2, c.wrapping_sub(1)] { if n < c {
                ensure_eq!(x.iter_nth_col(n).map(|i| i.len()), Ok(r), "iter_nth_col({n})");
                ensure_eq!(x.iter_nth_col_mut(n).map(|i| i.len()), Ok(r), "iter_nth_col_mut({n})");
                ensure_eq!(x.iter_nth_col_mut(n).map(|mut i| (i.next_back().is_some(), i.next().is_some())), Ok((r > 0, r > 1)), "iter_nth_col_mut({n})");
            } }
            for n in [r, r.wrapping_add(1), m] { if n >= r {
                ensure_eq!(x.iter_nth_row(n).err(), Some(Error::IndexOutOfBounds), "iter_nth_row({n})");
                ensure_eq!(x.iter_nth_row_mut(n).err(), Some(Error::IndexOutOfBounds), "iter_nth_row_mut({n})");
            } }
            for n in [c, c.wrapping_add(1), m] { if n >= c {
                ensure_eq!(x.iter_nth_col(n).err(), Some(Error::IndexOutOfBounds), "iter_nth_col({n})");
                ensure_eq!(x.iter_nth_col_mut(n).err(), Some(Error::IndexOutOfBounds), "iter_nth_col_mut({n})");
            } }
            st.inc("zero-sized matrices of extreme shape");
            Ok(())
        });
    } }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C06");
    if cx.miri() {
        let d = if cx.thorough { 3 } else { 2 };
        all::<W4>(&mut cx, "few", 2, square(d));
        all::<P3>(&mut cx, "few", 1, [(2, 3), (3, 2), (0, 2), (2, 0)].into_iter());
        all::<Zt>(&mut cx, "few", 1, [(2, 3), (3, 0)].into_iter());
        all::<T12>(&mut cx, "few", 1, [(3, 2)].into_iter());
        cx.finish();
    }
    let d = cx.pick(0, 8, 16);
    all::<W4>(&mut cx, "all", 4, square(d));
    let e = cx.pick(0, 6, 9);
    all::<B1>(&mut cx, "all", 3, square(e));
    all::<P3>(&mut cx, "all", 3, square(e));
    all::<A16>(&mut cx, "all", 3, square(e));
    all::<P24>(&mut cx, "all", 3, square(e));
    all::<W8>(&mut cx, "all", 3, square(e));
    all::<W2>(&mut cx, "all", 3, square(e));
    all::<Bx>(&mut cx, "all", 3, square(e));
    all::<Fat>(&mut cx, "all", 3, square(e));
    all::<Half<3>>(&mut cx, "all", 3, square(e / 2));
    all::<Half<5>>(&mut cx, "all", 3, square(e / 2));
    all::<Half<8>>(&mut cx, "all", 3, square(e / 2));
    all::<Half<32>>(&mut cx, "all", 3, square(e / 2));
    all::<Wide<2>>(&mut cx, "all", 3, square(e / 2));
    all::<Wide<4>>(&mut cx, "all", 3, square(e / 2));
    all::<Wide<8>>(&mut cx, "all", 3, square(e / 2));
    all::<Quad<2>>(&mut cx, "all", 3, square(e / 2));
    all::<Quad<5>>(&mut cx, "all", 3, square(e / 2));
    all::<T12>(&mut cx, "all", 3, square(e));
    all::<Unit>(&mut cx, "all", 3, square(e));
    all::<Zt>(&mut cx, "all", 3, square(e));
    let mut g = cx.rng("large", 0);
    let mut large = vec![(1, 300), (300, 1), (64, 64), (31, 33), (100, 2), (2, 100), (17, 19), (128, 5), (5, 128), (0, 500), (500, 0)];
    for _ in 0..cx.pick(0, 160, 1600) { large.push((g.range(1, 60), g.range(1, 60))); }
    all::<W4>(&mut cx, "large", 3, large.iter().copied());
    all::<W8>(&mut cx, "large", 2, large.iter().copied().take(30));
    all::<Wide<2>>(&mut cx, "large", 2, large.iter().copied().take(20));
    all::<B1>(&mut cx, "large", 2, large.iter().copied().take(20));
    all::<Unit>(&mut cx, "large", 2, large.iter().copied().take(20));
    all::<Big>(&mut cx, "large", 2, large.iter().copied().take(20));
    if cx.vast() { all::<W4>(&mut cx, "vast", 2, VAST.into_iter()); all::<P3>(&mut cx, "vast", 1, VAST.into_iter()); }
    huge(&mut cx);
    cx.together([0, 6, 60], |g, st| {
        for how in 0..8 { one::<W4>(g.below(9), g.below(9), *g.pick(&ORDERS), how, g, 2, st)?; }
        Ok(())
    });
    cx.finish()
}
