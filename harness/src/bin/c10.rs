//! C10: swap, swap_rows and swap_cols over every pair of indices, against the
//! identities of the elements.
use harness::*;

type Ids = Vec<Vec<(u32, u32)>>;
fn ids<T: Elem>(m: &Matrix<T>) -> Result<Ids, String> {
    let mut v = vec![];
    for i in 0..m.nrows() { let mut row = vec![]; for j in 0..m.ncols() { let e = m.get((i, j)).map_err(|e| format!("get(({i}, {j})): {e:?}"))?; row.push((e.id(), e.val())) } v.push(row) }
    Ok(v)
}

/// Compares with what the elements should be; `now` is kept up to date so
/// that successive swaps act on ever more mixed contents.
fn check<T: Elem>(m: &Matrix<T>, now: &Ids, head: (usize, usize, Order), what: impl Fn() -> String) -> Result<(), String> {
    ensure_eq!((m.nrows(), m.ncols(), m.order()), head, "{}: shape and order", what());
    ensure_eq!(m.size(), head.0 * head.1, "{}: size", what());
    for i in 0..head.0 { for j in 0..head.1 {
        let e = m.get((i, j)).map_err(|e| format!("{}: get(({i}, {j})): {e:?}", what()))?;
        let got = (e.id(), e.val());
        if got != now[i][j] { return Err(format!("{}: element ({i}, {j}) is {got:?}, expected {:?} (id, value)", what(), now[i][j])); }
    } }
    Ok(())
}

fn build<T: Full>(r: usize, c: usize, ord: Order, how: usize) -> Result<Matrix<T>, String> {
    let model = Model::build(r, c, ord, |i, j| (rng::mix64((i as u64) << 32 | j as u64 | 1 << 60) as u32) | 1);
    Ok(match how % 3 {
        0 => realize::<T>(&model)?,
        1 => { let mut o = model.clone(); o.ord = ops::flip(ord); let mut m = realize::<T>(&o)?; m.switch_order(); m }
        _ => {
            let mut m = realize::<T>(&Model::build(r + 1, c + 2, ord, |_, _| 1))?;
            m.resize((r, c)).map_err(|e| format!("setup: {e:?}"))?;
            for (e, v) in m.iter_elements_mut().zip(model.mem()) { e.set(v) }
            m
        }
    })
}

/// How to name an element to swap().
fn swap_by<T>(m: &mut Matrix<T>, i: (usize, usize), j: (usize, usize), form: usize, (r, c): (usize, usize)) -> Result<(), Error> {
    let w = |p: (usize, usize), k: isize| WrappingIndex::new(p.0 as isize + k * r as isize, p.1 as isize - k * c as isize);
    match form % 5 {
        0 => m.swap(i, j).map(|_| ()),
        1 => m.swap([i.0, i.1], Index::new(j.0, j.1)).map(|_| ()),
        2 => m.swap(ops::Idx(i.0, i.1), j).map(|_| ()),
        3 => m.swap(w(i, -1), w(j, 2)).map(|_| ()),
        _ => m.swap(w(i, 3), j).map(|_| ()),
    }
}

fn one<T: Full>(r: usize, c: usize, ord: Order, how: usize, g: &mut Rng, cap: usize, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let mut m = build::<T>(r, c, ord, how)?;
    let mut now = ids(&m)?;
    let tally = led::tally();
    let head = (r, c, ord);
    let all = r * c * r * c <= cap;
    let mut pairs = vec![];
    if all { for a in 0..r * c { for b in 0..r * c { pairs.push((a, b)) } } } else { for _ in 0..cap { pairs.push((g.below(r * c), g.below(r * c))) } }
    for (n, (a, b)) in pairs.into_iter().enumerate() {
        let (i, j) = ((a / c, a % c), (b / c, b % c));
        let form = n + how;
        let res = swap_by(&mut m, i, j, form, (r, c));
        ensure_eq!(res, Ok(()), "swap({i:?}, {j:?}) of {r}x{c}{} (index form {})", oname(ord), form % 5);
        let t = now[i.0][i.1];
        now[i.0][i.1] = now[j.0][j.1];
        now[j.0][j.1] = t;
        check(&m, &now, head, || format!("swap({i:?}, {j:?}) of {r}x{c}{} (index form {})", oname(ord), form % 5))?;
        st.inc("element swaps");
    }
    let rows: Vec<(usize, usize)> = if r * r <= cap { (0..r * r).map(|k| (k / r, k % r)).collect() } else { (0..cap).map(|_| (g.below(r), g.below(r))).collect() };
    for (a, b) in rows {
        ensure_eq!(m.swap_rows(a, b).map(|_| ()), Ok(()), "swap_rows({a}, {b}) of {r}x{c}{}", oname(ord));
        now.swap(a, b);
        check(&m, &now, head, || format!("swap_rows({a}, {b}) of {r}x{c}{}", oname(ord)))?;
        st.inc("row swaps");
    }
    let cols: Vec<(usize, usize)> = if c * c <= cap { (0..c * c).map(|k| (k / c, k % c)).collect() } else { (0..cap).map(|_| (g.below(c), g.below(c))).collect() };
    for (a, b) in cols {
        ensure_eq!(m.swap_cols(a, b).map(|_| ()), Ok(()), "swap_cols({a}, {b}) of {r}x{c}{}", oname(ord));
        for row in &mut now { row.swap(a, b) }
        check(&m, &now, head, || format!("swap_cols({a}, {b}) of {r}x{c}{}", oname(ord)))?;
        st.inc("column swaps");
    }
    // out of range in one place or both
    let oob = Err(Error::IndexOutOfBounds);
    for n in [r, r + 1, c, c + 1, r * c, r + c, usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32, usize::MAX - r, usize::MAX / r.max(1), usize::MAX / c.max(1)] {
        for v in [0, r.saturating_sub(1), r / 2, n] {
            for (a, b) in [(n, v), (v, n)] {
                if a < r && b < r { continue; }
                ensure_eq!(m.swap_rows(a, b).map(|_| ()), oob, "swap_rows({a}, {b}) of {r}x{c}{}", oname(ord));
                check(&m, &now, head, || format!("failed swap_rows({a}, {b}) of {r}x{c}{}", oname(ord)))?;
                st.inc("failing swaps");
            }
        }
        for v in [0, c.saturating_sub(1), c / 2, n] {
            for (a, b) in [(n, v), (v, n)] {
                if a < c && b < c { continue; }
                ensure_eq!(m.swap_cols(a, b).map(|_| ()), oob, "swap_cols({a}, {b}) of {r}x{c}{}", oname(ord));
                check(&m, &now, head, || format!("failed swap_cols({a}, {b}) of {r}x{c}{}", oname(ord)))?;
                st.inc("failing swaps");
            }
        }
        let good = (g.below(r.max(1)), g.below(c.max(1)));
        for bad in [(n, good.1), (good.0, n), (n, n), (n, 0), (0, n)] {
            if bad.0 < r && bad.1 < c { continue; }
            for (i, j) in [(bad, good), (good, bad), (bad, bad), (bad, (bad.1, bad.0))] {
                if i.0 < r && i.1 < c && j.0 < r && j.1 < c { continue; }
                ensure_eq!(m.swap(i, j).map(|_| ()), oob, "swap({i:?}, {j:?}) of {r}x{c}{}", oname(ord));
                check(&m, &now, head, || format!("failed swap({i:?}, {j:?}) of {r}x{c}{}", oname(ord)))?;
                st.inc("failing swaps");
            }
        }
    }
    if r * c == 0 {
        let w = WrappingIndex::new(g.next() as isize, g.next() as isize);
        ensure_eq!(m.swap(w, WrappingIndex::new(0, 0)).map(|_| ()), oob, "swap by wrapping indices of {r}x{c}");
    }
    ensure_eq!(led::tally(), tally, "swapping created, cloned or dropped elements: ledger");
    if r * c <= 400 { coherent(&m)?; }
    drop(m);
    led::check()?;
    if let Some(l) = live_of::<T>() { ensure!(l == 0, "{l} elements leaked"); }
    Ok(())
}

fn shapes<T: Full>(cx: &mut Ctx, tag: &str, list: impl Iterator<Item = (usize, usize)>, cap: usize) {
    let sec = format!("{tag}-{}", T::NAME);
    for (n, (r, c)) in list.enumerate() { for (o, ord) in ORDERS.into_iter().enumerate() {
        let key = (n * 2 + o) as u64;
        let mut g = cx.rng(&sec, key);
        cx.case(&sec, key, r * c > 1, || format!("{r}x{c}{} of {}", oname(ord), T::NAME), |st| one::<T>(r, c, ord, n + o, &mut g, cap, st));
    } }
}
fn square(n: usize) -> impl Iterator<Item = (usize, usize)> { (0..=n).flat_map(move |r| (0..=n).map(move |c| (r, c))) }

fn huge(cx: &mut Ctx) {
    let m = usize::MAX;
    for (k, (r, c)) in [(m, 1), (1, m), (3, m / 3), (m / 3, 3), (2, m / 2), (m / 2, 2), (1, 1 << 63), (1 << 63, 1), (0, m), (m, 0)].into_iter().enumerate() { for (o, ord) in ORDERS.into_iter().enumerate() {
        cx.case("huge-zst", (k * 2 + o) as u64, true, || format!("{r} x {c}{} of ()", oname(ord)), |st| {
            let mut v: Vec<()> = vec![];
            unsafe { v.set_len(r * c) };
            let mut x = Matrix::from_row(v);
            x.set_order_without_rearrangement(ord);
            x.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
            let head = |x: &Matrix<()>| (x.nrows(), x.ncols(), x.size(), x.order());
            let h = head(&x);
            let oob = Err(Error::IndexOutOfBounds);
            let edge = |n: usize| [0, 1, n / 2, n.wrapping_sub(1), n, n.wrapping_add(1), m];
            for a in edge(r) { for b in edge(r) {
                // exchanging two long vectors of nothing may take long: short vectors or failing calls
                if a < r && b < r && c > 4 { continue; }
                ensure_eq!(x.swap_rows(a, b).map(|_| ()), if a < r && b < r { Ok(()) } else { oob }, "swap_rows({a}, {b})");
                ensure_eq!(head(&x), h, "after swap_rows({a}, {b})");
                st.inc("swaps in zero-sized matrices of extreme shape");
            } }
            for a in edge(c) { for b in edge(c) {
                if a < c && b < c && r > 4 { continue; }
                ensure_eq!(x.swap_cols(a, b).map(|_| ()), if a < c && b < c { Ok(()) } else { oob }, "swap_cols({a}, {b})");
                ensure_eq!(head(&x), h, "after swap_cols({a}, {b})");
                st.inc("swaps in zero-sized matrices of extreme shape");
            } }
            for a in edge(r) { for b in edge(c) { for (i, j) in [((a, b), (0, 0)), ((0, 0), (a, b)), ((a, b), (a, b)), ((a, b), (r.wrapping_sub(1), c.wrapping_sub(1)))] {
                let inside = |p: (usize, usize)| p.0 < r && p.1 < c;
                ensure_eq!(x.swap(i, j).map(|_| ()), if inside(i) && inside(j) { Ok(()) } else { oob }, "swap({i:?}, {j:?})");
                ensure_eq!(head(&x), h, "after swap({i:?}, {j:?})");
                st.inc("swaps in zero-sized matrices of extreme shape");
            } } }
            Ok(())
        });
    } }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C10");
    if cx.miri() {
        let t = cx.thorough as usize;
        shapes::<W4>(&mut cx, "some", [(0, 2), (2, 0), (1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)].into_iter(), 16 << t);
        shapes::<T12>(&mut cx, "some", [(1, 2), (2, 2), (3, 2)].into_iter(), 8 << t);
        shapes::<Zt>(&mut cx, "some", [(2, 2)].into_iter(), 4);
        shapes::<TBox>(&mut cx, "some", [(2, 3)].into_iter(), 6);
        huge(&mut cx);
        cx.finish();
    }
    let d = cx.pick(0, 5, 8);
    shapes::<W4>(&mut cx, "all", square(d + 1), 2000);
    shapes::<T12>(&mut cx, "all", square(d), 700);
    shapes::<Nd>(&mut cx, "all", square(d), 200);
    shapes::<P3>(&mut cx, "all", square(d), 200);
    shapes::<B1>(&mut cx, "all", square(d), 300);
    shapes::<Big>(&mut cx, "all", square(d - 1), 200);
    shapes::<W8>(&mut cx, "all", square(d), 300);
    shapes::<W2>(&mut cx, "all", square(d - 1), 200);
    shapes::<Bx>(&mut cx, "all", square(d), 300);
    shapes::<Fat>(&mut cx, "all", square(d - 1), 200);
    shapes::<Half<3>>(&mut cx, "all", square(d - 2), 120);
    shapes::<Half<5>>(&mut cx, "all", square(d - 2), 120);
    shapes::<Half<8>>(&mut cx, "all", square(d - 2), 120);
    shapes::<Half<32>>(&mut cx, "all", square(d - 2), 120);
    shapes::<Wide<2>>(&mut cx, "all", square(d - 2), 120);
    shapes::<Wide<4>>(&mut cx, "all", square(d - 2), 120);
    shapes::<Wide<8>>(&mut cx, "all", square(d - 2), 120);
    shapes::<Quad<2>>(&mut cx, "all", square(d - 2), 120);
    shapes::<Quad<5>>(&mut cx, "all", square(d - 2), 120);
    shapes::<TBox>(&mut cx, "all", square(d - 1), 200);
    shapes::<Zt>(&mut cx, "all", square(d - 1), 200);
    shapes::<Unit>(&mut cx, "all", square(d - 1), 200);
    let mut list = vec![(1, 40), (40, 1), (2, 17), (17, 2), (8, 8), (16, 16), (15, 17), (7, 31), (33, 5), (64, 3), (3, 64), (31, 33), (3, 1000), (1000, 3), (2, 4097), (4097, 2), (5, 257)];
    let mut g = cx.rng("large", 0);
    for _ in 0..cx.pick(0, 10, 300) { list.push((g.range(1, 40), g.range(1, 40))); }
    shapes::<W4>(&mut cx, "large", list.iter().copied(), 60);
    shapes::<W8>(&mut cx, "large", list.iter().copied(), 40);
    shapes::<Bx>(&mut cx, "large", list.iter().copied(), 30);
    shapes::<B1>(&mut cx, "large", list.iter().copied(), 30);
    shapes::<Wide<2>>(&mut cx, "large", list.iter().copied(), 30);
    shapes::<T56>(&mut cx, "large", list.iter().copied().take(6), 40);
    if cx.vast() { shapes::<W4>(&mut cx, "vast", VAST.into_iter(), 40); }
    huge(&mut cx);
    cx.together([0, 6, 60], |g, st| {
        for how in 0..10 { one::<W4>(g.below(9), g.below(9), *g.pick(&ORDERS), how, g, 40, st)?; }
        one::<P3>(g.range(20, 60), g.range(20, 60), *g.pick(&ORDERS), 0, g, 10, st)
    });
    cx.finish()
}
