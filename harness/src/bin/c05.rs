//! C05: transpose and order changes, exhaustively for small shapes.
use harness::*;

fn ids<T: Elem>(m: &Matrix<T>) -> Vec<Vec<u32>> {
    (0..m.nrows()).map(|i| (0..m.ncols()).map(|j| m.get((i, j)).map(|e| e.id()).unwrap_or(u32::MAX)).collect()).collect()
}
fn turned(x: &[Vec<u32>], r: usize, c: usize) -> Vec<Vec<u32>> { (0..c).map(|j| (0..r).map(|i| x[i][j]).collect()).collect() }
fn memids<T: Elem>(m: &Matrix<T>) -> Vec<(u32, u32)> { m.iter_elements().map(|e| (e.id(), e.val())).collect() }

/// Logical contents and coherence of shape and size.
fn logical<T: Elem>(m: &Matrix<T>, model: &Model, ids0: &[Vec<u32>], what: &str) -> Result<(), String> {
    contents(m, model).map_err(|e| format!("{what}: {e}"))?;
    if T::LEDGER { ensure!(ids(m) == ids0, "{what}: the elements are not the original ones, moved"); }
    Ok(())
}

fn one<T: Full>(r: usize, c: usize, ord: Order, spare: usize, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let model = Model::build(r, c, ord, |i, j| rng::mix64((i as u64) << 32 | j as u64) as u32);
    let mut m = realize::<T>(&model)?;
    if spare == 1 {
        // spare capacity, in a buffer that was used before
        m = realize::<T>(&Model::build(r + 3, c + 1, ord, |_, _| 9))?;
        m.resize((r, c)).map_err(|e| format!("setup: {e:?}"))?;
        for (e, v) in m.iter_elements_mut().zip(model.mem()) { e.set(v) }
    }
    let shape0 = (r, c);
    let ids0 = ids(&m);
    let idst = turned(&ids0, r, c);
    let before = led::tally();
    let t = model.transposed();

    m.transpose();
    ensure_eq!((m.nrows(), m.ncols()), (c, r), "shape after transpose of {shape0:?}");
    logical(&m, &t, &idst, "transpose")?;
    if r * c <= 64 { coherent(&m).map_err(|e| format!("transpose: {e}"))?; }
    m.transpose();
    ensure_eq!(m.order(), ord, "order after transposing twice");
    logical(&m, &model, &ids0, "transpose twice")?;

    m.switch_order();
    ensure_eq!(m.order(), ops::flip(ord), "order after switch_order");
    logical(&m, &model, &ids0, "switch_order")?;
    let mut other = model.clone();
    other.ord = ops::flip(ord);
    ensure!(m.iter_elements().map(|e| e.val()).eq(other.mem().into_iter().map(T::norm)), "switch_order: the memory order is not that of the new order");
    m.transpose();
    logical(&m, &t, &idst, "switch_order, transpose")?;
    m.transpose();
    m.set_order(ord);
    ensure_eq!(m.order(), ord, "order after set_order");
    logical(&m, &model, &ids0, "set_order back")?;
    m.set_order(ord);
    ensure_eq!(m.order(), ord, "order after set_order to the current order");
    logical(&m, &model, &ids0, "set_order to the current order")?;
    m.set_order(ops::flip(ord));
    ensure_eq!(m.order(), ops::flip(ord), "order after set_order to the other order");
    logical(&m, &model, &ids0, "set_order to the other order")?;
    m.set_order(ord);

    let mem0 = memids(&m);
    m.switch_order_without_rearrangement();
    ensure_eq!(m.order(), ops::flip(ord), "order after switch_order_without_rearrangement");
    ensure!(memids(&m) == mem0, "switch_order_without_rearrangement changed the memory order");
    logical(&m, &t, &idst, "switch_order_without_rearrangement")?;
    m.set_order_without_rearrangement(ops::flip(ord));
    ensure_eq!(m.order(), ops::flip(ord), "order after set_order_without_rearrangement to the current order");
    ensure!(memids(&m) == mem0, "set_order_without_rearrangement (same) changed the memory order");
    logical(&m, &t, &idst, "set_order_without_rearrangement to the current order")?;
    m.set_order_without_rearrangement(ord);
    ensure_eq!(m.order(), ord, "order after set_order_without_rearrangement");
    ensure!(memids(&m) == mem0, "set_order_without_rearrangement changed the memory order");
    logical(&m, &model, &ids0, "set_order_without_rearrangement back")?;

    ensure_eq!(led::tally(), before, "elements were created, cloned or dropped: ledger");
    led::check()?;
    st.add("elements moved and compared", 14 * (r * c) as u64);
    st.seen("distinct shapes", (r as u64) << 32 | c as u64);
    drop(m);
    led::check()?;
    if let Some(l) = live_of::<T>() { ensure!(l == 0, "{l} elements leaked"); }
    Ok(())
}

fn shapes<T: Full>(cx: &mut Ctx, tag: &str, list: impl Iterator<Item = (usize, usize)>) {
    let section = format!("{tag}-{}", T::NAME);
    for (r, c) in list { for (o, ord) in ORDERS.into_iter().enumerate() {
        let key = ((r as u64) << 24 | c as u64) * 2 + o as u64;
        cx.case(&section, key, r > 1 && c > 1, || format!("{r}x{c}{} of {}", oname(ord), T::NAME), |st| one::<T>(r, c, ord, (r + c) % 2, st));
    } }
}
fn square(n: usize) -> impl Iterator<Item = (usize, usize)> { (0..=n).flat_map(move |r| (0..=n).map(move |c| (r, c))) }

fn huge(cx: &mut Ctx) {
    let m = usize::MAX;
    for (k, (r, c)) in [(m, 1), (1, m), (3, m / 3), (65537, m / 65537), (0, m), (m, 0)].into_iter().enumerate() { for (o, ord) in ORDERS.into_iter().enumerate() {
        cx.case("huge-zst", (k * 2 + o) as u64, true, || format!("{r} x {c}{} of ()", oname(ord)), |_| {
            let mut v: Vec<()> = vec![];
            unsafe { v.set_len(r * c) };
            let mut x = Matrix::from_row(v);
            x.set_order_without_rearrangement(ord);
            x.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
            x.transpose();
            ensure_eq!((x.nrows(), x.ncols(), x.size()), (c, r, r * c), "transpose");
            x.switch_order();
            ensure_eq!((x.nrows(), x.ncols(), x.size(), x.order()), (c, r, r * c, x.order()), "switch_order");
            x.transpose();
            ensure_eq!((x.nrows(), x.ncols(), x.size()), (r, c, r * c), "transpose back");
            let o = x.order();
            x.switch_order_without_rearrangement();
            ensure_eq!((x.nrows(), x.ncols(), x.size(), x.order()), (c, r, r * c, ops::flip(o)), "switch_order_without_rearrangement");
            x.set_order(o);
            ensure_eq!((x.nrows(), x.ncols(), x.size(), x.order()), (c, r, r * c, o), "set_order");
            Ok(())
        });
    } }
}

/// Calls do not leave anything behind: a matrix turned, others turned
/// `gap` times in between, and another one turned.
fn gaps(cx: &mut Ctx) {
    for (k, gap) in (0u64..40).chain(120..136).chain(250..262).chain(507..516).chain(1020..1028).chain([16383, 16384, 65533, 65534, 65535, 65536, 65537]).enumerate() {
        cx.case("gaps", gap, true, || format!("{gap} transposes of small matrices between two of larger ones"), |st| {
            let dims = [((9, 14), (9, 14)), ((9, 14), (14, 9)), ((4, 5), (40, 31)), ((40, 31), (7, 3)), ((1, 50), (8, 9))];
            for (i, ((r, c), (r2, c2))) in dims.into_iter().enumerate() {
                let ord = ORDERS[(k + i) % 2];
                let make = |r, c| realize::<W4>(&Model::build(r, c, ord, |i, j| (i * 1000 + j) as u32));
                let (mut a, mut b, mut small) = (make(r, c)?, make(r2, c2)?, make(2, 3)?);
                if gap % 2 == 0 { a.transpose(); } else { a.switch_order(); a.switch_order_without_rearrangement(); }
                for _ in 0..gap { small.transpose(); }
                b.transpose();
                for (m, r, c) in [(&a, r, c), (&b, r2, c2)] {
                    contents(m, &Model::build(c, r, m.order(), |j, i| (i * 1000 + j) as u32)).map_err(|e| format!("{r}x{c}: {e}"))?;
                }
                let (r, c) = if gap % 2 == 0 { (2, 3) } else { (3, 2) };
                contents(&small, &Model::build(r, c, ord, |i, j| if gap % 2 == 0 { i * 1000 + j } else { j * 1000 + i } as u32)).map_err(|e| format!("the small one: {e}"))?;
                st.inc("transposes with others in between");
            }
            Ok(())
        });
    }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C05");
    if cx.miri() {
        let (d, e) = if cx.thorough { (5, 4) } else { (3, 2) };
        shapes::<W4>(&mut cx, "all", square(d));
        shapes::<T12>(&mut cx, "all", square(e));
        shapes::<P3>(&mut cx, "all", square(e));
        shapes::<Zt>(&mut cx, "all", square(2));
        shapes::<TBox>(&mut cx, "some", [(3, 4), (5, 2)].into_iter());
        cx.finish();
    }
    gaps(&mut cx);
    let big = cx.pick(0, 48, 130);
    shapes::<W4>(&mut cx, "all", square(big));
    let mid = cx.pick(0, 14, 40);
    shapes::<T12>(&mut cx, "all", square(mid));
    shapes::<Nd>(&mut cx, "all", square(mid));
    shapes::<B1>(&mut cx, "all", square(mid));
    shapes::<P3>(&mut cx, "all", square(mid));
    shapes::<A16>(&mut cx, "all", square(mid));
    shapes::<P24>(&mut cx, "all", square(mid));
    shapes::<Big>(&mut cx, "all", square(mid / 2));
    shapes::<W8>(&mut cx, "all", square(big / 2));
    shapes::<W2>(&mut cx, "all", square(mid));
    shapes::<Bx>(&mut cx, "all", square(mid));
    shapes::<Fat>(&mut cx, "all", square(mid));
    shapes::<Half<3>>(&mut cx, "all", square(mid / 2));
    shapes::<Half<5>>(&mut cx, "all", square(mid / 2));
    shapes::<Half<8>>(&mut cx, "all", square(mid / 2));
    shapes::<Half<32>>(&mut cx, "all", square(mid / 2));
    shapes::<Wide<2>>(&mut cx, "all", square(mid / 2));
    shapes::<Wide<4>>(&mut cx, "all", square(mid / 2));
    shapes::<Wide<8>>(&mut cx, "all", square(mid / 2));
    shapes::<Quad<2>>(&mut cx, "all", square(mid / 2));
    shapes::<Quad<5>>(&mut cx, "all", square(mid / 2));
    shapes::<TBox>(&mut cx, "all", square(mid / 2));
    shapes::<Unit>(&mut cx, "all", square(mid));
    shapes::<Zt>(&mut cx, "all", square(mid));
    shapes::<Z8>(&mut cx, "all", square(mid / 2));
    let mut large = vec![(1, 5000), (5000, 1), (2, 4099), (4099, 2), (3, 1000), (1000, 3), (63, 65), (65, 64), (64, 64), (127, 129), (128, 128), (129, 127), (255, 257), (256, 255), (300, 200), (97, 101), (199, 211), (500, 12), (12, 500), (1024, 16), (16, 1024), (511, 33)];
    let mut g = cx.rng("large", 0);
    for _ in 0..cx.pick(0, 60, 1500) { large.push((g.range(1, 300), g.range(1, 300))); }
    shapes::<W4>(&mut cx, "large", large.iter().copied());
    shapes::<W8>(&mut cx, "large", large.iter().copied().take(40));
    shapes::<Bx>(&mut cx, "large", large.iter().copied().take(26));
    shapes::<Wide<2>>(&mut cx, "large", large.iter().copied().take(40));
    shapes::<Wide<4>>(&mut cx, "large", large.iter().copied().take(30));
    shapes::<W2>(&mut cx, "large", large.iter().copied().take(26));
    shapes::<Zt>(&mut cx, "large", large.iter().copied().take(20));
    shapes::<B1>(&mut cx, "large", large.iter().copied().take(30));
    shapes::<T12>(&mut cx, "large", large.iter().copied().take(26));
    if cx.vast() {
        shapes::<W4>(&mut cx, "vast", VAST.into_iter().chain([(1025, 1030), (2049, 513)]));
        shapes::<T12>(&mut cx, "vast", VAST.into_iter());
        shapes::<P24>(&mut cx, "vast", VAST.into_iter());
    }
    huge(&mut cx);
    cx.together([0, 10, 100], |g, st| {
        for _ in 0..60 { one::<W4>(g.below(20), g.below(20), *g.pick(&ORDERS), g.below(2), st)?; }
        one::<P3>(g.range(20, 130), g.range(20, 130), *g.pick(&ORDERS), 0, st)
    });
    cx.finish()
}
