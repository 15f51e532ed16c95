//! C13: wrapping indices against 128-bit Euclidean remainders.
use harness::*;
use matreex::index::MatrixIndex;

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: guard::Guard = guard::Guard;

fn rem(a: isize, n: usize) -> usize { (a as i128).rem_euclid(n as i128) as usize }

/// Values around 0, around multiples of the extent and around the ends.
fn candidates(n: usize, g: &mut Rng, small: bool) -> Vec<isize> {
    let (lo, hi) = (isize::MIN, isize::MAX);
    let mut v = vec![0, 1, -1, lo, lo + 1, hi, hi - 1];
    let n1 = n as i128;
    let mut push = |x: i128| if x >= lo as i128 && x <= hi as i128 { v.push(x as isize) };
    for k in [0, 1, -1, 2, -2] { for d in [-1, 0, 1] { push(k * n1 + d); } }
    if n > 0 {
        // the multiples nearest to both ends and to powers of two
        let (a, b) = (lo as i128 / n1 * n1, hi as i128 / n1 * n1);
        for d in [-1, 0, 1] { push(a + d); push(b + d); }
        if !small {
            for p in [7, 8, 15, 16, 31, 32, 33, 62] { for s in [1i128, -1] { for d in [-1, 0, 1] {
                push(s * (1 << p) + d);
                push(s * ((1 << p) / n1 * n1) + d);
            } } }
            for d in -2..3 { push(lo as i128 + n1 + d); push(hi as i128 - n1 + d); push(lo as i128 / 2 + d); push(hi as i128 / 2 + d); }
            for _ in 0..4 { push(g.next() as isize as i128); push((g.next() as isize >> g.below(64)) as i128); push(((g.next() as isize as i128) / n1) * n1); }
        }
    }
    v.sort_unstable();
    v.dedup();
    if small { while v.len() > 13 { let k = g.below(v.len()); if v[k] != lo && v[k] != hi && v[k] != lo + 1 { v.remove(k); } } }
    v
}

fn addr<T>(e: &T) -> usize { e as *const T as usize }

fn at<T: Elem>(m: &mut Matrix<T>, base: usize, ord: Order, i: isize, j: isize, full: bool) -> Result<(), String> {
    let (r, c) = (m.nrows(), m.ncols());
    let w = || if (i ^ j) & 1 == 0 { WrappingIndex::new(i, j) } else { *WrappingIndex::new(j, i).swap() };
    let (x, y) = (rem(i, r), rem(j, c));
    let want = base + flat(r, c, ord, x, y) * size_of::<T>();
    let what = |n: &str| format!("{n} with ({i}, {j}) on {r}x{c}{} (element ({x}, {y}))", oname(ord));
    let off = |a: usize| a.wrapping_sub(base) as isize;
    macro_rules! same { ($n:literal, $e:expr) => { let got = $e; ensure!(got == want, "{}: byte offset {}, expected {}", what($n), off(got), off(want)); } }
    same!("get", match m.get(w()) { Ok(e) => addr(e), Err(e) => return Err(format!("{}: {e:?}", what("get"))) });
    if !full { return Ok(()); }
    same!("get_mut", match m.get_mut(w()) { Ok(e) => addr(e), Err(e) => return Err(format!("{}: {e:?}", what("get_mut"))) });
    same!("[]", addr(&m[w()]));
    same!("[] (mutable)", addr(&mut m[w()]));
    same!("get_unchecked", addr(unsafe { m.get_unchecked(w()) }));
    same!("get_unchecked_mut", addr(unsafe { m.get_unchecked_mut(w()) }));
    same!("MatrixIndex::get", match w().get(m) { Ok(e) => addr(e), Err(e) => return Err(format!("{}: {e:?}", what("MatrixIndex::get"))) });
    same!("MatrixIndex::index", addr(w().index(m)));
    same!("MatrixIndex::index_mut", addr(w().index_mut(m)));
    same!("the same index as tuple", match m.get((x, y)) { Ok(e) => addr(e), Err(e) => return Err(format!("{}: {e:?}", what("get of the reduced index"))) });
    ensure!(!w().is_out_of_bounds(m), "{}: true", what("is_out_of_bounds"));
    ensure_eq!(w().ensure_in_bounds(m).map(|_| ()), Ok(()), "{}", what("ensure_in_bounds"));
    Ok(())
}

fn build<T: Elem>(r: usize, c: usize, ord: Order, how: usize) -> Result<(Matrix<T>, Model), String> {
    let model = Model::build(r, c, ord, |i, j| (i * 1009 + j + 1) as u32);
    let m = match how % 4 {
        0 => realize::<T>(&model)?,
        1 => { let mut m = realize::<T>(&model.transposed())?; m.transpose(); m }
        2 => { let mut o = model.clone(); o.ord = ops::flip(ord); let mut m = realize::<T>(&o)?; m.switch_order(); m }
        _ => { let mut m = realize::<T>(&model.transposed())?; m.switch_order_without_rearrangement(); m.set_order(ord);
               // presents the model now, rearranged into the wanted order
               m }
    };
    Ok((m, model))
}

fn shapes<T: Elem>(cx: &mut Ctx, list: &[(usize, usize)]) {
    let sec = format!("shapes-{}", T::NAME);
    let miri = cx.miri();
    let thorough = cx.thorough;
    let mut key = 0;
    for &(r, c) in list { for ord in ORDERS {
        key += 1;
        let mut g = cx.rng(&sec, key);
        cx.case(&sec, key, true, || format!("{r}x{c}{} of {}", oname(ord), T::NAME), |st| {
            led::reset();
            let (mut m, model) = build::<T>(r, c, ord, key as usize)?;
            agrees(&m, &model)?;
            let base = base_addr(&m);
            let before = led::tally();
            let (is, js) = (candidates(r, &mut g, miri), candidates(c, &mut g, miri));
            for (a, &i) in is.iter().enumerate() { for (b, &j) in js.iter().enumerate() {
                let full = !miri && (thorough || (a + b) % 3 == 0) || a == b || a + b == is.len();
                at(&mut m, base, ord, i, j, full)?;
                st.inc("wrapping index pairs resolved");
            } }
            // the values read are those of the logical position
            let mut model = model;
            for _ in 0..12 {
                let (i, j, v) = (*g.pick(&is), *g.pick(&js), g.u32());
                let (x, y) = (rem(i, r), rem(j, c));
                ensure_eq!(m.get(WrappingIndex::new(i, j)).map(|e| e.val()), Ok(T::norm(model.rows[x][y])), "value at ({i}, {j}) of {r}x{c}");
                match g.below(3) {
                    0 => m.get_mut(WrappingIndex::new(i, j)).unwrap().set(v),
                    1 => m[WrappingIndex::new(i, j)].set(v),
                    _ => unsafe { m.get_unchecked_mut(WrappingIndex::new(i, j)) }.set(v),
                }
                model.rows[x][y] = v;
                st.inc("writes through wrapping indices");
            }
            // two wrapping indices at once
            for _ in 0..4 {
                let (i, j, k, l) = (*g.pick(&is), *g.pick(&js), *g.pick(&is), *g.pick(&js));
                m.swap(WrappingIndex::new(i, j), WrappingIndex::new(k, l)).map_err(|e| format!("swap: {e:?}"))?;
                let (a, b) = ((rem(i, r), rem(j, c)), (rem(k, r), rem(l, c)));
                let t = model.rows[a.0][a.1];
                model.rows[a.0][a.1] = model.rows[b.0][b.1];
                model.rows[b.0][b.1] = t;
            }
            contents(&m, &model)?;
            ensure_eq!(led::tally(), before, "indexing created or dropped elements");
            drop(m);
            led::check()
        });
    } }
}

/// Every value of a window around 0 and around both ends, on one axis.
fn windows(cx: &mut Ctx, max: usize) {
    let w = cx.pick(0, 400, 3000) as isize;
    let mut key = 0;
    for n in (1..=max).chain([97, 128, 255, 256, 257, 1000]) { for ord in ORDERS { for axis in 0..2 {
        key += 1;
        cx.case("window", key, true, || format!("extent {n} on axis {axis}, {}", oname(ord)), |st| {
            let (r, c) = if axis == 0 { (n, 3) } else { (3, n) };
            let (m, _) = build::<W4>(r, c, ord, key as usize / 2)?;
            let base = base_addr(&m);
            for mid in [0, isize::MIN + w, isize::MAX - w] { for d in -w..=w {
                let x = mid + d;
                let other = [-1, 0, 1, 2, isize::MIN, isize::MAX][(d & 7) as usize % 6];
                let (i, j) = if axis == 0 { (x, other) } else { (other, x) };
                let want = flat(r, c, ord, rem(i, r), rem(j, c));
                match m.get(WrappingIndex::new(i, j)) {
                    Ok(e) => { let got = addr(e).wrapping_sub(base); ensure!(got == want * 4, "get at ({i}, {j}) of {r}x{c}{}: byte offset {}, expected {}", oname(ord), got as isize, want * 4) }
                    Err(e) => return Err(format!("get at ({i}, {j}) of {r}x{c}: {e:?}")),
                }
            } }
            st.add("wrapping index pairs resolved", 6 * w as u64 + 3);
            Ok(())
        });
    } } }
}

fn refused<T: Elem>(m: &mut Matrix<T>, i: isize, j: isize, panics: bool) -> Result<(), String> {
    let (r, c) = (m.nrows(), m.ncols());
    let w = || WrappingIndex::new(i, j);
    let at = |n: &str| format!("{n} with ({i}, {j}) on {r}x{c}");
    ensure_eq!(m.get(w()).err(), Some(Error::IndexOutOfBounds), "{}", at("get"));
    ensure_eq!(m.get_mut(w()).err(), Some(Error::IndexOutOfBounds), "{}", at("get_mut"));
    ensure!(w().is_out_of_bounds(m), "{}: false", at("is_out_of_bounds"));
    ensure_eq!(w().ensure_in_bounds(m).map(|_| ()), Err(Error::IndexOutOfBounds), "{}", at("ensure_in_bounds"));
    ensure_eq!(m.swap(w(), w()).err(), Some(Error::IndexOutOfBounds), "{}", at("swap"));
    if panics {
        ensure!(catch(|| addr(&m[w()])).is_err(), "{} did not panic", at("[]"));
        ensure!(catch(|| addr(&mut m[w()])).is_err(), "{} did not panic", at("[] (mutable)"));
        ensure!(catch(|| addr(unsafe { m.get_unchecked(w()) })).is_err(), "{} did not panic", at("get_unchecked"));
        ensure!(catch(|| addr(unsafe { m.get_unchecked_mut(w()) })).is_err(), "{} did not panic", at("get_unchecked_mut"));
        ensure!(catch(|| addr(unsafe { MatrixIndex::get_unchecked(w(), m) })).is_err(), "{} did not panic", at("MatrixIndex::get_unchecked"));
    }
    Ok(())
}

fn empties<T: Elem>(cx: &mut Ctx, list: &[(usize, usize)]) {
    let sec = format!("empty-{}", T::NAME);
    let miri = cx.miri();
    let mut key = 0;
    for &(r, c) in list { for ord in ORDERS { for spare in [false, true] {
        key += 1;
        let mut g = cx.rng(&sec, key);
        cx.case(&sec, key, true, || format!("{r}x{c}{} of {}{}", oname(ord), T::NAME, if spare { ", spare capacity" } else { "" }), |st| {
            led::reset();
            let mut m: Matrix<T> = if spare {
                let mut v: Vec<T> = Vec::with_capacity(64);
                v.extend((0..12).map(T::new));
                let mut m = Matrix::from_row(v);
                m.clear();
                m
            } else { Matrix::new() };
            m.set_order_without_rearrangement(ord);
            m.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
            let (mut is, mut js) = (candidates(r.min(7), &mut g, true), candidates(c.min(7), &mut g, true));
            is.extend([c as isize, -(c as isize)]);
            js.extend([r as isize, -(r as isize)]);
            for (a, &i) in is.iter().enumerate() { for (b, &j) in js.iter().enumerate() {
                let p = if miri { (a + b) % 29 == 0 } else { (a + b) % 3 == 0 };
                refused(&mut m, i, j, p)?;
                st.inc("pairs refused on empty matrices");
            } }
            ensure_eq!((m.nrows(), m.ncols(), m.order()), (r, c, ord), "matrix after refused lookups");
            drop(m);
            led::check()
        });
    } } }
}

/// The freed part of an empty matrix's buffer is unmapped meanwhile.
#[cfg(not(miri))]
fn sealed(cx: &mut Ctx) {
    if cx.engine != Engine::Native { return; }
    let mut key = 0;
    for (r, c) in [(0, 0), (0, 5), (5, 0), (1, 0), (0, 1)] { for ord in ORDERS {
        key += 1;
        cx.case("sealed", key, true, || format!("{r}x{c}{} with its spare capacity inaccessible", oname(ord)), |st| {
            let (mut m, base) = guard::paged(|| {
                let m = Matrix::from_row((0..4096u32).collect::<Vec<u32>>());
                let b = base_addr(&m);
                (m, b)
            });
            m.clear();
            m.set_order_without_rearrangement(ord);
            m.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
            let vals = [0, 1, -1, 3, -3, isize::MIN, isize::MAX];
            let res = guard::sealed(base, || {
                let mut bad = None;
                for i in vals { for j in vals {
                    let w = || WrappingIndex::new(i, j);
                    if m.get(w()).is_ok() || m.get_mut(w()).is_ok() || w().ensure_in_bounds(&m).is_ok() { bad = Some((i, j)) }
                } }
                bad
            });
            match res {
                None => Err("setup: the buffer was not placed in its own pages".into()),
                Some(Some((i, j))) => Err(format!("({i}, {j}) resolved on an empty matrix")),
                Some(None) => { st.add("pairs refused on empty matrices", 49); Ok(()) }
            }
        });
    } }
}

/// Extents beyond 32 bits: addresses only.
fn big(cx: &mut Ctx) {
    if cx.engine != Engine::Native || cfg!(debug_assertions) && !cx.thorough { return; }
    let n = (1usize << 32) + 3;
    for (k, ord) in [(0, 0), (0, 1), (1, 0), (1, 1)].into_iter().enumerate() {
        let (axis, ord) = (ord.0, ORDERS[ord.1]);
        let mut g = cx.rng("big", k as u64);
        cx.case("big", k as u64, true, || format!("2^32+3 elements on axis {axis}, {}", oname(ord)), |st| {
            // zeroed memory: only the touched pages exist
            let mut m: Matrix<u8> = Matrix::from_row(vec![0u8; n]);
            if ord == Order::ColMajor { m.set_order_without_rearrangement(ord); }
            m.reshape(if axis == 0 { (n, 1) } else { (1, n) }).map_err(|e| format!("setup: {e:?}"))?;
            let base = addr(m.iter_elements().next().unwrap());
            let mut xs = candidates(n, &mut g, false);
            xs.extend((0..200).map(|_| g.next() as isize));
            for x in xs {
                let o = g.next() as isize;
                let (i, j) = if axis == 0 { (x, o) } else { (o, x) };
                let got = addr(m.get(WrappingIndex::new(i, j)).map_err(|e| format!("{e:?}"))?) - base;
                ensure_eq!(got, rem(x, n), "byte offset for ({i}, {j}) of {}x{}", m.nrows(), m.ncols());
                st.inc("wrapping index pairs resolved");
            }
            Ok(())
        });
    }
}

/// Extents close to and above isize::MAX: only zero-sized elements get there,
/// so what can be observed is that the lookup succeeds.
fn huge(cx: &mut Ctx) {
    let m = usize::MAX;
    let list = [(m, 1), (1, m), (1 << 63, 1), (1, 1 << 63), ((1 << 63) - 1, 2), (2, (1 << 63) - 1), ((1 << 63) + 1, 1), (3, m / 3), (65537, m / 65537), (1 << 32, (1 << 32) - 1)];
    let mut key = 0;
    for (r, c) in list { for ord in ORDERS {
        key += 1;
        let mut g = cx.rng("huge", key);
        cx.case("huge", key, true, || format!("{r} x {c}{} of ()", oname(ord)), |st| {
            let mut v: Vec<()> = Vec::new();
            unsafe { v.set_len(r * c) };
            let mut mm = Matrix::from_row(v);
            mm.set_order_without_rearrangement(ord);
            mm.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
            for i in candidates(r, &mut g, true) { for j in candidates(c, &mut g, true) {
                ensure_eq!(mm.get(WrappingIndex::new(i, j)), Ok(&()), "get at ({i}, {j}) of {r} x {c}");
                ensure_eq!(mm.get_mut(WrappingIndex::new(i, j)), Ok(&mut ()), "get_mut at ({i}, {j}) of {r} x {c}");
                let _: &() = &mm[WrappingIndex::new(i, j)];
                let _: &() = unsafe { mm.get_unchecked(WrappingIndex::new(i, j)) };
                st.inc("wrapping index pairs resolved");
            } }
            Ok(())
        });
    } }
}

fn main() {
    let mut cx = Ctx::from_args("C13");
    let none = [(0, 0), (0, 3), (3, 0), (1, 0), (0, 1), (0, 64), (257, 0)];
    if cx.miri() {
        let k = if cx.thorough { 8 } else { 4 };
        shapes::<W4>(&mut cx, &[(2, 3), (3, 2), (1, 5), (4, 1), (1, 1), (3, 3), (2, 2), (5, 4)][..k]);
        shapes::<TBox>(&mut cx, &[(3, 2), (2, 2)][..k / 4]);
        shapes::<Unit>(&mut cx, &[(3, 2)]);
        empties::<W4>(&mut cx, &none[..k.min(3)]);
        empties::<T12>(&mut cx, &none[1..2]);
    } else {
        let mut list: Vec<(usize, usize)> = (1..=5).flat_map(|r| (1..=5).map(move |c| (r, c))).collect();
        list.extend([(1, 7), (7, 1), (7, 11), (11, 7), (13, 64), (64, 13), (97, 3), (3, 97), (256, 2), (2, 257), (128, 128), (1, 1000), (1000, 1), (6, 9), (17, 31)]);
        if cx.thorough { list.extend((6..=20).flat_map(|r| (1..=20).map(move |c| (r, c)))); list.extend([(65536, 2), (2, 65537), (65535, 1), (1009, 101)]); }
        shapes::<W4>(&mut cx, &list);
        shapes::<B1>(&mut cx, &list);
        #[cfg(debug_assertions)]
        {
            shapes::<P24>(&mut cx, &list);
            shapes::<T12>(&mut cx, &list[..25]);
            shapes::<Unit>(&mut cx, &list[..25]);
        }
        let w = if cx.thorough { 64 } else { 20 };
        windows(&mut cx, w);
        empties::<W4>(&mut cx, &none);
        empties::<T12>(&mut cx, &none);
        empties::<Unit>(&mut cx, &none);
        #[cfg(not(miri))]
        sealed(&mut cx);
        huge(&mut cx);
        big(&mut cx);
    }
    cx.finish()
}
