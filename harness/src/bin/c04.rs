//! C04: checked indexing against the definition, for hostile index values and
//! hostile index types.
use harness::*;
use matreex::index::{AsIndex, MatrixIndex};
use std::cell::{Cell, RefCell};

#[cfg(not(miri))]
#[global_allocator]
static GLOBAL: guard::Guard = guard::Guard;

#[derive(Clone, Copy, Debug)]
struct Custom { row: usize, col: usize }
impl AsIndex for Custom {
    fn row(&self) -> usize { self.row }
    fn col(&self) -> usize { self.col }
}

/// Returns the given values in turn (the last one for ever) and records them.
struct Fickle<'a> { rows: &'a [usize], cols: &'a [usize], i: Cell<usize>, j: Cell<usize>, seen: &'a RefCell<(Vec<usize>, Vec<usize>)> }
impl AsIndex for Fickle<'_> {
    fn row(&self) -> usize { let i = self.i.get(); self.i.set(i + 1); let v = self.rows[i.min(self.rows.len() - 1)]; self.seen.borrow_mut().0.push(v); v }
    fn col(&self) -> usize { let j = self.j.get(); self.j.set(j + 1); let v = self.cols[j.min(self.cols.len() - 1)]; self.seen.borrow_mut().1.push(v); v }
}

fn interesting(r: usize, c: usize, g: &mut Rng) -> Vec<usize> {
    let top = r.max(c) + 2;
    let mut v: Vec<usize> = if top < 200 { (0..=top).collect() } else {
        // ends of both ranges, places where a narrower type would wrap, and a sample
        let mut v: Vec<usize> = [0, 128, 256, 32_768, 65_536, r, c].into_iter().flat_map(|x| x.saturating_sub(2)..=x + 2).collect();
        v.extend((0..30).map(|_| g.below(r)));
        v.extend((0..30).map(|_| g.below(c)));
        v
    };
    let m = usize::MAX;
    v.extend([r * c, r * c + 1, (r * c).wrapping_sub(1), m, m - 1, m - 2, m / 2, m / 2 + 1, 1 << 63, 1 << 62, 1 << 32, (1 << 32) + 1, u32::MAX as usize]);
    for s in [r, c] {
        if s > 1 {
            // multiples that wrap around to small offsets
            let q = (u128::from(u64::MAX) + 1).div_ceil(s as u128) as usize;
            v.extend([q, q.wrapping_sub(1), q.wrapping_add(1), q.wrapping_mul(2), m - s + 1, m - s, (0usize).wrapping_sub(s)]);
            let t = s.trailing_zeros();
            if t > 0 { v.push(1usize << (64 - t)); v.push((1usize << (64 - t)) + 1); }
        }
    }
    for _ in 0..6 { v.push(g.next() as usize); v.push(g.next() as usize >> g.below(64)); }
    v.sort_unstable();
    v.dedup();
    v
}

fn probe<T: Elem, I>(m: &mut Matrix<T>, base: usize, model: &Model, mk: impl Fn() -> I, i: usize, j: usize, form: &str, panics: bool) -> Result<(), String>
where
    I: MatrixIndex<T, Output = T>,
{
    let inside = i < model.r && j < model.c;
    let want = if inside { base + flat(model.r, model.c, model.ord, i, j) * size_of::<T>() } else { 0 };
    let at = |what: &str| format!("{what} with {form} ({i}, {j}) on {}x{}{}", model.r, model.c, oname(model.ord));
    ensure_eq!(mk().is_out_of_bounds(m), !inside, "{}", at("is_out_of_bounds"));
    ensure_eq!(mk().ensure_in_bounds(m).map(|_| ()), if inside { Ok(()) } else { Err(Error::IndexOutOfBounds) }, "{}", at("ensure_in_bounds"));
    let addr = |e: &T| e as *const T as usize;
    let expect: Result<usize, Error> = if inside { Ok(want) } else { Err(Error::IndexOutOfBounds) };
    ensure_eq!(m.get(mk()).map(addr), expect, "{}", at("get"));
    ensure_eq!(m.get_mut(mk()).map(|e| addr(e)), expect, "{}", at("get_mut"));
    // unwinding is slow: only a sample of the failing pairs
    if inside || panics {
        let got = catch(|| addr(&m[mk()]));
        ensure!(got.clone().ok() == expect.ok(), "{}: {got:?}, expected {expect:?}", at("[]"));
        let got = catch(|| addr(&mut m[mk()]));
        ensure!(got.clone().ok() == expect.ok(), "{}: {got:?}, expected {expect:?}", at("[] (mutable)"));
    }
    if inside {
        ensure_eq!(addr(unsafe { m.get_unchecked(mk()) }), want, "{}", at("get_unchecked"));
        ensure_eq!(addr(unsafe { m.get_unchecked_mut(mk()) }), want, "{}", at("get_unchecked_mut"));
        if size_of::<T>() > 0 {
            ensure_eq!(m.get(mk()).unwrap().val(), T::norm(model.rows[i][j]), "{}", at("value read"));
        }
    }
    Ok(())
}

fn probe_all<T: Elem>(m: &mut Matrix<T>, base: usize, model: &Model, i: usize, j: usize, n: Option<usize>) -> Result<(), String> {
    probe(m, base, model, || (i, j), i, j, "tuple", n.is_some_and(|n| n % 4 == 0))?;
    probe(m, base, model, || [i, j], i, j, "array", n.is_some_and(|n| n % 4 == 1))?;
    let made = || match i.wrapping_add(j) % 4 {
        0 => Index::new(i, j),
        1 => Index::from((i, j)),
        2 => Index::from([i, j]),
        _ => *Index::new(j, i).swap(),
    };
    probe(m, base, model, made, i, j, "Index", n.is_some_and(|n| n % 4 == 2))?;
    probe(m, base, model, || Custom { row: i, col: j }, i, j, "caller-defined index", n.is_some_and(|n| n % 4 == 3))
}

fn exact<T: Elem>(cx: &mut Ctx, shapes: &[(usize, usize)]) {
    let section = format!("exact{}-{}", if shapes[0].0 > 200 { "-vast" } else { "" }, T::NAME);
    let mut key = 0;
    for &(r, c) in shapes { for ord in ORDERS { for how in 0..3 {
        key += 1;
        let mut g = cx.rng(&section, key);
        let miri = cx.miri();
        cx.case(&section, key, true, || format!("{r}x{c}{} of {}, construction {how}", oname(ord), T::NAME), |st| {
            led::reset();
            let model = Model::build(r, c, ord, |i, j| (i * 100_003 + j + 1) as u32);
            let mut m = match how {
                0 => realize::<T>(&model)?,
                // reached through a history: shapes and orders in flux
                1 => { let mut m = realize::<T>(&Model::build(c, r, ord, |i, j| (j * 100_003 + i + 1) as u32))?; m.transpose(); m }
                _ => { let mut o = model.clone(); o.ord = ops::flip(ord); let mut m = realize::<T>(&o)?; m.switch_order(); m }
            };
            let base = base_addr(&m);
            let before = led::tally();
            let (mut ok, mut bad) = (0, 0);
            let mut is = interesting(r, c, &mut g);
            if miri { is.retain(|_| true); let keep = 14; while is.len() > keep { let k = g.below(is.len()); if is[k] > r.max(c) { is.swap_remove(k); } else { break; } } }
            for &i in &is { for &j in &is {
                if i < r && j < c { ok += 1 } else { bad += 1 }
                // close to the bounds every pair is tried with [], far away a sample
                let near = i <= r + 1 && j <= c + 1;
                let k = (ok + bad) as usize;
                let n = if near { Some(k) } else if k % 41 == 0 { Some(k / 41) } else { None };
                probe_all(&mut m, base, &model, i, j, n)?;
            } }
            // writes through get_mut and [] reach exactly the addressed element
            let mut model = model;
            for _ in 0..if r * c == 0 { 0 } else { 12 } {
                let (i, j, v) = (g.below(r), g.below(c), g.u32());
                if g.bool() { m.get_mut((i, j)).unwrap().set(v) } else { m[Index::new(i, j)].set(v) }
                model.rows[i][j] = v;
            }
            ensure_eq!(led::tally(), before, "indexing created or dropped elements");
            contents(&m, &model)?;
            st.add("in-bounds index pairs", ok);
            st.add("out-of-bounds index pairs", bad);
            drop(m);
            led::check()
        });
    } } }
}

fn fickle<T: Elem>(cx: &mut Ctx, n: usize) {
    let section = format!("fickle-{}", T::NAME);
    for key in 0..n as u64 {
        let mut g = cx.rng(&section, key);
        let (r, c) = if g.chance(1, 10) { (g.below(2) * 3, g.below(2)) } else { (g.range(1, 6), g.range(1, 6)) };
        let ord = *g.pick(&ORDERS);
        let seq = |n: usize, other: usize, g: &mut Rng| -> Vec<usize> {
            (0..g.range(1, 5)).map(|k| match if k == 0 && g.chance(3, 4) { 7 } else { g.below(8) } {
                0 => usize::MAX, 1 => n, 2 => other, 3 => (n * other).saturating_sub(1), 4 => g.next() as usize >> g.below(60), 5 => n + 1,
                _ => if n == 0 { 0 } else { g.below(n) },
            }).collect()
        };
        let (rows, cols) = (seq(r, c, &mut g), seq(c, r, &mut g));
        let (rows2, cols2) = (seq(r, c, &mut g), seq(c, r, &mut g));
        cx.case(&section, key, true, || format!("{r}x{c}{} of {}: row() returns {rows:?}, col() returns {cols:?}", oname(ord), T::NAME), |st| {
            led::reset();
            let model = Model::build(r, c, ord, |i, j| (i * 100 + j + 1) as u32);
            let mut m = realize::<T>(&model)?;
            let base = base_addr(&m);
            let before = led::tally();
            let addr = |e: &T| e as *const T as usize;
            for form in 0..4 {
                let seen = RefCell::new((vec![], vec![]));
                let ix = Fickle { rows: &rows, cols: &cols, i: Cell::new(0), j: Cell::new(0), seen: &seen };
                let got: Result<usize, Option<Error>> = match form {
                    0 => m.get(ix).map(addr).map_err(Some),
                    1 => m.get_mut(ix).map(|e| addr(e)).map_err(Some),
                    2 => catch(|| addr(&m[ix])).map_err(|_| None),
                    _ => catch(|| addr(&mut m[ix])).map_err(|_| None),
                };
                let (rs, cs) = seen.into_inner();
                st.seen("accessor call counts", (rs.len() * 100 + cs.len()) as u64);
                let rin: Vec<usize> = rs.iter().copied().filter(|v| *v < r).collect();
                let cin: Vec<usize> = cs.iter().copied().filter(|v| *v < c).collect();
                let ctx = format!("form {form}: row() returned {rs:?}, col() returned {cs:?} on {r}x{c}{}", oname(ord));
                match got {
                    Ok(a) => {
                        let allowed = rin.iter().any(|i| cin.iter().any(|j| a == base + flat(r, c, ord, *i, *j) * size_of::<T>()));
                        ensure!(allowed, "{ctx}: resolved to buffer offset {}, which is no in-bounds combination of those", a.wrapping_sub(base) as isize);
                        st.inc("fickle index resolved");
                    }
                    Err(e) => {
                        ensure!(rin.len() < rs.len() || cin.len() < cs.len(), "{ctx}: failed although every value was in bounds");
                        if let Some(e) = e { ensure_eq!(e, Error::IndexOutOfBounds, "{ctx}"); }
                        st.inc("fickle index refused");
                    }
                }
            }
            ensure_eq!(led::tally(), before, "indexing created or dropped elements");
            contents(&m, &model)?;
            // swap goes through the same checks: still the same elements, once each
            let seen = RefCell::new((vec![], vec![]));
            let seen2 = RefCell::new((vec![], vec![]));
            let res = m.swap(Fickle { rows: &rows, cols: &cols, i: Cell::new(0), j: Cell::new(0), seen: &seen }, Fickle { rows: &rows2, cols: &cols2, i: Cell::new(0), j: Cell::new(0), seen: &seen2 }).map(|_| ());
            if let Err(e) = res { ensure_eq!(e, Error::IndexOutOfBounds, "swap"); contents(&m, &model)?; }
            coherent(&m)?;
            let mut vals: Vec<u32> = m.iter_elements().map(|e| e.val()).collect();
            let mut want: Vec<u32> = model.mem().iter().map(|v| T::norm(*v)).collect();
            vals.sort_unstable();
            want.sort_unstable();
            ensure_eq!(vals, want, "elements after swap with caller-defined indices");
            drop(m);
            led::check()
        });
    }
}

/// The element buffer is unmapped while failing lookups run.
#[cfg(not(miri))]
fn sealed<T: Elem + 'static>(cx: &mut Ctx, shapes: &[(usize, usize)]) {
    if cx.engine != Engine::Native { return; }
    let section = format!("sealed-{}", T::NAME);
    let mut key = 0;
    for &(r, c) in shapes { for ord in ORDERS {
        key += 1;
        let mut g = cx.rng(&section, key);
        cx.case(&section, key, true, || format!("{r}x{c}{} of {} with the buffer inaccessible", oname(ord), T::NAME), |st| {
            let model = Model::build(r, c, ord, |i, j| (i * 100 + j) as u32);
            let mut m = realize::<T>(&model)?;
            // move the elements to a paged buffer
            let mut m2 = guard::paged(|| Matrix::from_row(m.iter_elements().map(|e| T::new(e.val())).collect::<Vec<T>>()));
            m2.set_order_without_rearrangement(ord);
            m2.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
            std::mem::swap(&mut m, &mut m2);
            drop(m2);
            let is = interesting(r, c, &mut g);
            let base = base_addr(&m);
            let out: Vec<(usize, usize)> = is.iter().flat_map(|i| is.iter().map(move |j| (*i, *j))).filter(|(i, j)| *i >= r || *j >= c).collect();
            // nothing in here may allocate or touch the elements
            let res = guard::sealed(base, || {
                let mut bad = None;
                for &(i, j) in &out {
                    if m.get((i, j)).is_ok() || m.get([i, j]).is_ok() || m.get(Index::new(i, j)).is_ok() || m.get(Custom { row: i, col: j }).is_ok()
                        || m.get_mut((i, j)).is_ok() || m.get_mut(Custom { row: i, col: j }).is_ok() { bad = Some((i, j)); }
                }
                bad
            });
            match res {
                None => Err("setup: the buffer was not placed in its own pages".into()),
                Some(Some((i, j))) => Err(format!("({i}, {j}) is out of bounds but resolved")),
                Some(None) => { st.add("failing lookups with the buffer unmapped", 6 * out.len() as u64); contents(&m, &model) }
            }
        });
    } }
}

fn huge(cx: &mut Ctx) {
    let m = usize::MAX;
    let shapes = [(m, 1), (1, m), (3, m / 3), (m / 3, 3), (65537, m / 65537), (m / 65537, 65537), (m, 0), (0, m), (1 << 63, 1), (1 << 32, (1 << 32) - 1)];
    let mut key = 0;
    for (r, c) in shapes { for ord in ORDERS {
        key += 1;
        cx.case("huge-zst", key, true, || format!("{r} x {c}{} of ()", oname(ord)), |st| {
            let mut v: Vec<()> = Vec::new();
            unsafe { v.set_len(r * c) };
            let mut mm = Matrix::from_row(v);
            mm.set_order_without_rearrangement(ord);
            mm.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
            let cand = |n: usize| { let mut v = vec![0, 1, n / 2, n.wrapping_sub(1), n, n.wrapping_add(1), m, m - 1, 1 << 32, 65537]; v.sort_unstable(); v.dedup(); v };
            for i in cand(r) { for j in cand(c) {
                let inside = i < r && j < c;
                let e = if inside { Ok(&()) } else { Err(Error::IndexOutOfBounds) };
                ensure_eq!(mm.get((i, j)), e, "get(({i}, {j})) of {r} x {c}");
                ensure_eq!(mm.get_mut([i, j]).is_ok(), inside, "get_mut([{i}, {j}]) of {r} x {c}");
                ensure_eq!(catch(|| mm[Custom { row: i, col: j }]).is_ok(), inside, "[({i}, {j})] of {r} x {c}");
                st.inc(if inside { "in-bounds index pairs" } else { "out-of-bounds index pairs" });
            } }
            Ok(())
        });
    } }
}

fn main() {
    let mut cx = Ctx::from_args("C04");
    let mut shapes: Vec<(usize, usize)> = (0..=5).flat_map(|r| (0..=5).map(move |c| (r, c))).collect();
    if cx.miri() {
        let few = [(2, 3), (3, 2), (1, 4), (0, 3), (3, 0), (0, 0)];
        let k = if cx.thorough { 6 } else { 4 };
        exact::<W4>(&mut cx, &few[..k]);
        exact::<T12>(&mut cx, &few[..1]);
        exact::<Unit>(&mut cx, &few[..1]);
        let n = cx.pick(60, 0, 0);
        fickle::<W4>(&mut cx, n);
        fickle::<Z8>(&mut cx, n / 4);
    } else {
        shapes.extend([(1, 7), (7, 1), (1, 64), (64, 1), (8, 16), (16, 8), (17, 3), (33, 20), (0, 50), (50, 0), (6, 7)]);
        if cx.thorough { shapes.extend((6..=9).flat_map(|r| (0..=9).map(move |c| (r, c)))); shapes.extend([(128, 64), (100, 3), (3, 100), (255, 2)]); }
        exact::<W4>(&mut cx, &shapes);
        exact::<B1>(&mut cx, &shapes);
        exact::<P24>(&mut cx, &shapes);
        exact::<T12>(&mut cx, &shapes[..36]);
        exact::<Unit>(&mut cx, &shapes);
        if cx.vast() { exact::<W4>(&mut cx, &VAST); }
        let n = cx.pick(0, 6000, 100_000);
        fickle::<W4>(&mut cx, n);
        fickle::<T12>(&mut cx, n / 4);
        fickle::<Unit>(&mut cx, n / 4);
        #[cfg(not(miri))]
        {
            sealed::<W4>(&mut cx, &[(64, 33), (33, 64), (1, 2048), (2048, 1)]);
            sealed::<P24>(&mut cx, &[(64, 33), (31, 32)]);
        }
        huge(&mut cx);
    }
    cx.finish()
}
