//! C09: reshape and resize against the memory-order sequence of element
//! identities; failing in-place operations leave everything as it was.
use harness::*;

/// Everything observable about a matrix: shape, order, elements in memory
/// order with their identities, and the logical view of the same.
#[derive(PartialEq, Clone, Debug)]
struct Snap { r: usize, c: usize, n: usize, ord: Order, cap: usize, mem: Vec<(u32, u32)>, rows: Vec<Vec<(u32, u32)>> }
fn snap<T: Elem>(m: &Matrix<T>) -> Snap {
    let (r, c) = (m.nrows(), m.ncols());
    Snap {
        r, c, n: m.size(), ord: m.order(), cap: m.capacity(),
        mem: m.iter_elements().map(|e| (e.id(), e.val())).collect(),
        rows: (0..r).map(|i| (0..c).map(|j| m.get((i, j)).map(|e| (e.id(), e.val())).unwrap_or((u32::MAX, 0))).collect()).collect(),
    }
}
fn same(a: &Snap, b: &Snap) -> Result<(), String> {
    ensure_eq!((b.r, b.c, b.n), (a.r, a.c, a.n), "shape and size");
    ensure_eq!(b.ord, a.ord, "order");
    ensure!(a.mem == b.mem, "memory-order elements (id, value): {:?} became {:?}", first_diff(&a.mem, &b.mem), b.mem.len());
    ensure!(a.rows == b.rows, "logical elements changed");
    ensure_eq!(b.cap, a.cap, "capacity");
    Ok(())
}
fn first_diff(a: &[(u32, u32)], b: &[(u32, u32)]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) { Some(k) => format!("position {k}: {:?} -> {:?}", a[k], b[k]), None => format!("lengths {} -> {}", a.len(), b.len()) }
}

/// A non-ledger element whose default is not zero.
#[derive(Debug)]
struct Seven(u32);
impl Elem for Seven {
    const NAME: &'static str = "default 7";
    fn new(v: u32) -> Self { Seven(v) }
    fn val(&self) -> u32 { self.0 }
    fn set(&mut self, v: u32) { self.0 = v }
}
impl Default for Seven { fn default() -> Self { Seven(7) } }

fn mk<T: Elem>(r: usize, c: usize, ord: Order, g: &mut Rng) -> Result<Matrix<T>, String> {
    realize::<T>(&Model::build(r, c, ord, |_, _| g.u32() | 1))
}

fn reshape_to<T: Elem>(m: &mut Matrix<T>, r: usize, c: usize, st: &mut Stats) -> Result<(), String> {
    let before = snap(m);
    let tally = led::tally();
    let fits = r.checked_mul(c) == Some(before.n);
    let res = m.reshape((r, c)).map(|m| (m.nrows(), m.ncols()));
    let what = format!("reshape of {}x{}{} to {r}x{c}", before.r, before.c, oname(before.ord));
    if !fits {
        ensure_eq!(res, Err(Error::SizeMismatch), "{what}");
        same(&before, &snap(m)).map_err(|e| format!("{what} failed but changed the matrix: {e}"))?;
        st.inc("failing reshapes");
    } else {
        ensure_eq!(res, Ok((r, c)), "{what}");
        let now = snap(m);
        ensure_eq!((now.r, now.c, now.n, now.ord), (r, c, before.n, before.ord), "{what}: shape, size and order");
        ensure!(now.mem == before.mem, "{what}: memory order changed: {}", first_diff(&before.mem, &now.mem));
        for i in 0..r { for j in 0..c { ensure!(now.rows[i][j] == before.mem[flat(r, c, now.ord, i, j)], "{what}: element ({i}, {j}) is not memory position {}", flat(r, c, now.ord, i, j)); } }
        st.inc("successful reshapes");
    }
    ensure_eq!(led::tally(), tally, "{what}: elements created, cloned or dropped");
    led::check()
}

fn resize_to<T: Elem + Default>(m: &mut Matrix<T>, r: usize, c: usize, st: &mut Stats) -> Result<(), String> {
    let before = snap(m);
    let live = live_of::<T>();
    let n = r * c;
    let what = format!("resize of {}x{}{} to {r}x{c}", before.r, before.c, oname(before.ord));
    let res = m.resize((r, c)).map(|m| (m.nrows(), m.ncols()));
    ensure_eq!(res, Ok((r, c)), "{what}");
    let now = snap(m);
    ensure_eq!((now.r, now.c, now.n, now.ord), (r, c, n, before.ord), "{what}: shape, size and order");
    ensure_eq!(now.mem.len(), n, "{what}: number of elements");
    let keep = n.min(before.n);
    ensure!(now.mem[..keep] == before.mem[..keep], "{what}: the first {keep} elements changed: {}", first_diff(&before.mem[..keep], &now.mem[..keep]));
    let fresh = T::default().val();
    for (k, e) in now.mem[keep..].iter().enumerate() { ensure!(e.1 == fresh, "{what}: appended element {} is {}, not the default {fresh}", keep + k, e.1); }
    for i in 0..r { for j in 0..c { ensure!(now.rows[i][j] == now.mem[flat(r, c, now.ord, i, j)], "{what}: element ({i}, {j}) is not memory position {}", flat(r, c, now.ord, i, j)); } }
    if let (Some(a), Some(b)) = (live, live_of::<T>()) { ensure_eq!(b - a, n as i64 - before.n as i64, "{what}: change in the number of live elements"); }
    st.inc(if n > before.n { "growing resizes" } else if n < before.n { "shrinking resizes" } else { "resizes of equal size" });
    led::check()
}

fn all_pairs<T: Elem + Default>(cx: &mut Ctx, d: [usize; 3]) {
    let d = cx.pick(d[0], d[1], d[2]);
    let sec = format!("all-{}", T::NAME);
    for r in 0..=d { for c in 0..=d { for (o, ord) in ORDERS.into_iter().enumerate() {
        let key = (r * 1000 + c * 2 + o) as u64;
        let mut g = cx.rng(&sec, key);
        cx.case(&sec, key, true, || format!("{r}x{c}{} of {} to every shape up to {}x{}", oname(ord), T::NAME, d + 1, d + 1), |st| {
            for r2 in 0..=d + 1 { for c2 in 0..=d + 1 {
                led::reset();
                let mut m = mk::<T>(r, c, ord, &mut g)?;
                reshape_to(&mut m, r2, c2, st)?;
                drop(m);
                let mut m = mk::<T>(r, c, ord, &mut g)?;
                resize_to(&mut m, r2, c2, st)?;
                // and on, within the spare capacity or not
                if g.bool() { m.shrink_to_fit(); }
                resize_to(&mut m, c, r2, st)?;
                resize_to(&mut m, r, c, st)?;
                coherent(&m)?;
                drop(m);
                led::check()?;
                if let Some(l) = live_of::<T>() { ensure!(l == 0, "{l} elements leaked"); }
            } }
            for (a, b) in [(usize::MAX, 2), (1 << 63, 2), (1 << 32, 1 << 32), (usize::MAX, usize::MAX), (2, 1 << 63)] {
                let mut m = mk::<T>(r, c, ord, &mut g)?;
                reshape_to(&mut m, a, b, st)?;
            }
            Ok(())
        });
    } } }
}

fn histories<T: Elem + Default>(cx: &mut Ctx, n: [usize; 3]) {
    let n = cx.pick(n[0], n[1], n[2]);
    let sec = format!("history-{}", T::NAME);
    let max = if cx.miri() { 6 } else { 60 };
    let vast = cx.vast();
    for key in 0..n as u64 {
        let max = if vast && key % 5 == 4 && size_of::<T>() <= 16 { 300 } else { max };
        let mut g = cx.rng(&sec, key);
        cx.case(&sec, key, true, || format!("20 reshapes, resizes and order changes of a matrix of {}", T::NAME), |st| {
            led::reset();
            let (r, c) = (g.range(0, max), g.range(0, max));
            let mut m = mk::<T>(r, c, *g.pick(&ORDERS), &mut g)?;
            for _ in 0..20 {
                let n = m.size();
                match g.below(6) {
                    0 | 1 => {
                        // a true divisor most of the time
                        let ds: Vec<usize> = (1..=n.min(400)).filter(|d| n % d == 0).collect();
                        let (a, b) = if n == 0 { (0, g.below(5)) } else { let d = *g.pick(&ds); if g.bool() { (d, n / d) } else { (n / d, d) } };
                        let b = if g.chance(1, 4) { b + 1 } else { b };
                        reshape_to(&mut m, a, b, st)?
                    }
                    2 | 3 => { let (a, b) = (g.range(0, max), g.range(0, max)); resize_to(&mut m, a, b, st)? }
                    4 => { let (a, b) = (m.nrows() + g.below(3), (m.ncols() + g.below(3)).saturating_sub(1)); resize_to(&mut m, a, b, st)? }
                    _ => match g.below(4) { 0 => { m.switch_order(); } 1 => { m.switch_order_without_rearrangement(); } 2 => { m.shrink_to_fit(); } _ => { m.transpose(); } },
                }
            }
            drop(m);
            led::check()?;
            if let Some(l) = live_of::<T>() { ensure!(l == 0, "{l} elements leaked"); }
            Ok(())
        });
    }
}

fn unchanged<T: Elem>(m: &Matrix<T>, before: &Snap, what: &str) -> Result<(), String> {
    same(before, &snap(m)).map_err(|e| format!("{what} failed but changed the matrix: {e}"))?;
    led::check()
}

/// Every fallible in-place operation, failing.
fn failing<T: Full>(cx: &mut Ctx, n: [usize; 3], max: usize) {
    let n = cx.pick(n[0], n[1], n[2]);
    let sec = format!("failing{}-{}", if max > 100 { "-vast" } else { "" }, T::NAME);
    for key in 0..n as u64 {
        let mut g = cx.rng(&sec, key);
        cx.case(&sec, key, true, || format!("failing in-place operations on a random matrix of {}", T::NAME), |st| {
            led::reset();
            let (r, c) = (g.range(0, max), g.range(0, max));
            let mut m = mk::<T>(r, c, *g.pick(&ORDERS), &mut g)?;
            if g.bool() { m.transpose(); m.switch_order(); m.transpose(); }
            let before = snap(&m);
            let (r, c) = (before.r, before.c);
            let tally = led::tally();
            // indices: out of range in one place
            let bad = |g: &mut Rng, n: usize| *g.pick(&[n, n + 1, n * 2 + 1, usize::MAX, usize::MAX / 2 + 1, 1 << 32]);
            let ok = |g: &mut Rng, n: usize| g.below(n.max(1));
            for _ in 0..4 {
                for k in 1..16u32 {
                    let ix = |g: &mut Rng, on: bool, n: usize| if on || n == 0 { bad(g, n) } else { ok(g, n) };
                    let i = (ix(&mut g, k & 1 > 0, r), ix(&mut g, k & 2 > 0, c));
                    let j = (ix(&mut g, k & 4 > 0, r), ix(&mut g, k & 8 > 0, c));
                    ensure_eq!(m.swap(i, j).err(), Some(Error::IndexOutOfBounds), "swap({i:?}, {j:?}) of {r}x{c}");
                    unchanged(&m, &before, &format!("swap({i:?}, {j:?})"))?;
                    ensure_eq!(m.swap(ops::Idx(i.0, i.1), [j.0, j.1]).err(), Some(Error::IndexOutOfBounds), "swap({i:?}, {j:?}) of {r}x{c}");
                    unchanged(&m, &before, &format!("swap({i:?}, {j:?})"))?;
                    if k < 4 {
                        let (x, y) = (ix(&mut g, k & 1 > 0, r), ix(&mut g, k & 2 > 0, r));
                        ensure_eq!(m.swap_rows(x, y).err(), Some(Error::IndexOutOfBounds), "swap_rows({x}, {y}) of {r}x{c}");
                        unchanged(&m, &before, &format!("swap_rows({x}, {y})"))?;
                        let (x, y) = (ix(&mut g, k & 1 > 0, c), ix(&mut g, k & 2 > 0, c));
                        ensure_eq!(m.swap_cols(x, y).err(), Some(Error::IndexOutOfBounds), "swap_cols({x}, {y}) of {r}x{c}");
                        unchanged(&m, &before, &format!("swap_cols({x}, {y})"))?;
                    }
                    st.add("failing swaps", 3);
                }
            }
            if r * c == 0 {
                let (i, j) = (WrappingIndex::new(g.next() as isize, 0), WrappingIndex::new(0, g.next() as isize));
                ensure_eq!(m.swap(i, j).err(), Some(Error::IndexOutOfBounds), "swap by wrapping indices of {r}x{c}");
                unchanged(&m, &before, "swap by wrapping indices")?;
            }
            // impossible shapes
            let many = isize::MAX as usize / size_of::<T>().max(1);
            for (a, b) in [(usize::MAX, 2), (1 << 63, 2), (1 << 32, 1 << 32), (usize::MAX, usize::MAX), (3, usize::MAX / 3 + 1), (many + 1, 1), (1, many + 1), (2, many / 2 + 1), (many / 3 + 1, 3)] {
                if size_of::<T>() == 0 && a.checked_mul(b).is_some() { continue; }
                let want = if a.checked_mul(b).is_none() { Error::SizeOverflow } else { Error::CapacityOverflow };
                ensure_eq!(m.resize((a, b)).err(), Some(want), "resize of {r}x{c} to {a}x{b}");
                unchanged(&m, &before, &format!("resize to {a}x{b}"))?;
                ensure_eq!(m.reshape((a, b)).err(), Some(Error::SizeMismatch), "reshape of {r}x{c} to {a}x{b}");
                unchanged(&m, &before, &format!("reshape to {a}x{b}"))?;
                st.add("impossible shapes refused", 2);
            }
            ensure_eq!(led::tally(), tally, "failing operations created, cloned or dropped elements");
            // non-conformable right-hand sides
            for t in 0..6 {
                let (a, b) = match t { 0 => (c, r), 1 => (r + 1, c), 2 => (r, c + 1), 3 => (1, r * c), 4 => (r * c, 1), _ => (r.saturating_sub(1), c) };
                if (a, b) == (r, c) { continue; }
                let rhs = mk::<T>(a, b, *g.pick(&ORDERS), &mut g)?;
                let rb = snap(&rhs);
                let err = Some(Error::ShapeNotConformable);
                let what = format!("{r}x{c} and {a}x{b}");
                macro_rules! assign { ($($m:ident)*) => { $(
                    ensure_eq!(m.$m(&rhs).err(), err, "{} of {what}", stringify!($m));
                    unchanged(&m, &before, stringify!($m))?;
                )* }; }
                assign!(elementwise_add_assign elementwise_sub_assign elementwise_mul_assign elementwise_div_assign elementwise_rem_assign);
                ensure_eq!(m.elementwise_operation_assign(&rhs, |x, y| x.set(y.val())).err(), err, "elementwise_operation_assign of {what}");
                unchanged(&m, &before, "elementwise_operation_assign")?;
                ensure!(catch(|| m += &rhs).is_err(), "m += &rhs of {what} did not panic");
                unchanged(&m, &before, "m += &rhs")?;
                ensure!(catch(|| m -= &rhs).is_err(), "m -= &rhs of {what} did not panic");
                unchanged(&m, &before, "m -= &rhs")?;
                same(&rb, &snap(&rhs)).map_err(|e| format!("right-hand side of failing operations: {e}"))?;
                let r2 = mk::<T>(a, b, *g.pick(&ORDERS), &mut g)?;
                ensure!(catch(|| m += rhs).is_err(), "m += rhs of {what} did not panic");
                unchanged(&m, &before, "m += rhs")?;
                ensure!(catch(|| m -= r2).is_err(), "m -= rhs of {what} did not panic");
                unchanged(&m, &before, "m -= rhs")?;
                st.add("non-conformable assignments", 10);
            }
            drop(m);
            led::check()?;
            if let Some(l) = live_of::<T>() { ensure!(l == 0, "{l} elements leaked"); }
            Ok(())
        });
    }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C09");
    all_pairs::<T12>(&mut cx, [1, 5, 9]);
    all_pairs::<W4>(&mut cx, [1, 6, 12]);
    all_pairs::<Seven>(&mut cx, [1, 6, 12]);
    all_pairs::<TBox>(&mut cx, [1, 3, 5]);
    all_pairs::<Nest>(&mut cx, [0, 3, 4]);
    failing::<Nest>(&mut cx, [0, 20, 600], 4);
    all_pairs::<Nd>(&mut cx, [0, 4, 7]);
    all_pairs::<Zt>(&mut cx, [1, 5, 9]);
    all_pairs::<P3>(&mut cx, [0, 4, 8]);
    all_pairs::<Bx>(&mut cx, [0, 4, 7]);
    all_pairs::<Fat>(&mut cx, [0, 3, 5]);
    all_pairs::<W8>(&mut cx, [0, 4, 8]);
    all_pairs::<B1>(&mut cx, [0, 4, 8]);
    all_pairs::<Wide<2>>(&mut cx, [0, 3, 5]);
    all_pairs::<Half<5>>(&mut cx, [0, 3, 5]);
    histories::<T12>(&mut cx, [2, 240, 2500]);
    histories::<Seven>(&mut cx, [0, 240, 2500]);
    histories::<Big>(&mut cx, [0, 40, 400]);
    histories::<Zt>(&mut cx, [0, 120, 1000]);
    if cx.vast() { failing::<W4>(&mut cx, [0, 6, 60], 300); failing::<T12>(&mut cx, [0, 3, 60], 290); }
    failing::<T12>(&mut cx, [1, 300, 6000], 6);
    failing::<W4>(&mut cx, [1, 300, 6000], 12);
    failing::<Zt>(&mut cx, [0, 50, 1000], 5);
    failing::<Bx>(&mut cx, [0, 30, 800], 6);
    failing::<W8>(&mut cx, [0, 30, 800], 20);
    failing::<B1>(&mut cx, [0, 20, 400], 40);
    cx.together([0, 8, 80], |g, st| {
        for _ in 0..20 {
            let mut m = mk::<W4>(g.below(20), g.below(20), *g.pick(&ORDERS), g)?;
            for _ in 0..10 {
                let (a, b) = if g.bool() { (m.ncols(), m.nrows()) } else { (g.below(9), g.below(9)) };
                reshape_to(&mut m, a, b, st)?;
                resize_to(&mut m, g.below(30), g.below(30), st)?;
            }
        }
        Ok(())
    });
    cx.finish()
}
