//! C07: equality and order-agnostic operations, run once per combination of
//! the operands' storage orders.
use harness::ops::{Arith, ARITHS, Op, Res};
use harness::*;

// ------------------------------------------------------------- equality

/// Equal exactly when the classes (value / 10) are equal.
#[derive(Clone, Debug)]
struct Class(u32);
impl PartialEq for Class { fn eq(&self, o: &Self) -> bool { self.0 / 10 == o.0 / 10 } }
/// Never equal to itself when the value is 7 (like NaN).
#[derive(Clone, Debug)]
struct Odd(u32);
impl PartialEq for Odd { fn eq(&self, o: &Self) -> bool { self.0 != 7 && self.0 == o.0 } }
/// Zero-sized and never equal.
#[derive(Clone, Debug)]
struct Never;
impl PartialEq for Never { fn eq(&self, _: &Self) -> bool { false } }

fn plain<T>(r: usize, c: usize, ord: Order, f: impl Fn(usize, usize) -> T) -> Result<Matrix<T>, String> {
    let mut mem = vec![];
    match ord {
        Order::RowMajor => for i in 0..r { for j in 0..c { mem.push(f(i, j)) } },
        Order::ColMajor => for j in 0..c { for i in 0..r { mem.push(f(i, j)) } },
    }
    let mut m = Matrix::from_row(mem);
    m.set_order_without_rearrangement(ord);
    m.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
    Ok(m)
}

fn both<T: PartialEq>(a: &Matrix<T>, b: &Matrix<T>, want: bool, what: &str) -> Result<(), String> {
    ensure_eq!(a == b, want, "{what}: a == b");
    ensure_eq!(b == a, want, "{what}: b == a");
    ensure_eq!(a != b, !want, "{what}: a != b");
    Ok(())
}

fn equality<T: PartialEq>(cx: &mut Ctx, name: &str, mk: impl Fn(u32) -> T + Copy) {
    let dim = cx.pick(2, 5, 8);
    let sec = format!("equal-{name}");
    for r in 0..=dim { for c in 0..=dim {
        let key = (r * 100 + c) as u64;
        let mut g = cx.rng(&sec, key);
        cx.case(&sec, key, true, || format!("{r}x{c} of {name} against itself in both orders, one-element changes and all other shapes"), |st| {
            let vals: Vec<Vec<u32>> = (0..r).map(|_| (0..c).map(|_| g.below(40) as u32).collect()).collect();
            for o in ORDERS { for p in ORDERS {
                let a = plain(r, c, o, |i, j| mk(vals[i][j]))?;
                let b = plain(r, c, p, |i, j| mk(vals[i][j]))?;
                let self_eq = (0..r).all(|i| (0..c).all(|j| mk(vals[i][j]) == mk(vals[i][j])));
                both(&a, &b, self_eq, "same elements")?;
                #[allow(clippy::eq_op)]
                { ensure_eq!(a == a, self_eq, "a == a (same object)"); }
                for i in 0..r { for j in 0..c { for delta in [1u32, 10, 255, 1 << 20] {
                    let v = vals[i][j].wrapping_add(delta);
                    let d = plain(r, c, p, |x, y| mk(if (x, y) == (i, j) { v } else { vals[x][y] }))?;
                    let want = (0..r).all(|x| (0..c).all(|y| mk(vals[x][y]) == mk(if (x, y) == (i, j) { v } else { vals[x][y] })));
                    both(&a, &d, want, &format!("element ({i}, {j}) changed by {delta}"))?;
                    st.inc("one-element changes compared");
                } } }
                for r2 in 0..=dim { for c2 in 0..=dim {
                    if (r2, c2) == (r, c) { continue; }
                    // same prefix, or the same memory when the sizes agree
                    let mem: Vec<u32> = a_mem(&vals, r, c, o);
                    let d = plain(r2, c2, p, |i, j| mk(mem.get(flat(r2, c2, p, i, j)).copied().unwrap_or(1)))?;
                    both(&a, &d, false, &format!("against shape {r2}x{c2}"))?;
                    st.inc("pairs of different shape compared");
                } }
            } }
            Ok(())
        });
    } }
}
fn a_mem(vals: &[Vec<u32>], r: usize, c: usize, o: Order) -> Vec<u32> {
    let m = Model { r, c, ord: o, rows: vals.to_vec() };
    m.mem()
}

fn floats(cx: &mut Ctx) {
    let specials = [0.0f64, -0.0, 1.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE / 2.0, 0.1 + 0.2, 0.3];
    for (k, (r, c)) in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 3)].into_iter().enumerate() {
        let rounds = cx.pick(5, 150, 2000);
        let mut g = cx.rng("floats", k as u64);
        cx.case("floats", k as u64, true, || format!("{r}x{c} of special f64 values"), |st| {
            for _ in 0..rounds {
                let a: Vec<Vec<f64>> = (0..r).map(|_| (0..c).map(|_| *g.pick(&specials)).collect()).collect();
                let mut b = a.clone();
                if g.bool() { let (i, j) = (g.below(r), g.below(c)); b[i][j] = *g.pick(&specials); }
                let want = a == b;
                for o in ORDERS { for p in ORDERS {
                    both(&plain(r, c, o, |i, j| a[i][j])?, &plain(r, c, p, |i, j| b[i][j])?, want, &format!("{a:?} vs {b:?}"))?;
                    st.inc("float matrices compared");
                    if want { st.inc("float matrices equal") }
                } }
            }
            Ok(())
        });
    }
}

/// Every matrix with at most `n` elements from {0, 1}: all pairs, and triples
/// for transitivity through the equivalence classes.
fn exhaustive(cx: &mut Ctx) {
    let n = cx.pick(3, if cfg!(debug_assertions) { 4 } else { 6 }, 6);
    for size in 0..=n {
        cx.case("all-binary", size as u64, true, || format!("all matrices of size {size} over {{0,1}}, every pair"), |st| {
            let mut all = vec![];
            let shapes: Vec<(usize, usize)> = if size == 0 { vec![(0, 0), (0, 1), (1, 0), (0, 3), (3, 0), (0, 2)] } else { (1..=size).filter(|r| size % r == 0).map(|r| (r, size / r)).collect() };
            for (r, c) in shapes { for bits in 0..1usize << size { for o in ORDERS {
                let model = Model::build(r, c, o, |i, j| (bits >> (i * c + j) & 1) as u32);
                all.push((plain(r, c, o, |i, j| model.rows[i][j] as u8)?, (r, c), model.rows));
            } } }
            for (a, sa, ra) in &all { for (b, sb, rb) in &all {
                let want = sa == sb && ra == rb;
                if (a == b) != want { return Err(format!("{sa:?} {ra:?} {:?} == {sb:?} {rb:?} {:?} gives {}", a.order(), b.order(), !want)); }
                st.inc("binary matrices compared");
            } }
            Ok(())
        });
    }
}

fn large(cx: &mut Ctx) {
    let mut list = vec![(64, 64), (65, 33), (1, 3000), (3000, 1), (127, 3), (3, 127), (31, 97), (100, 100)];
    if cx.vast() { list.extend(VAST); }
    let mut g = cx.rng("equal-large", 0);
    for _ in 0..cx.pick(0, 20, 300) { list.push((g.range(1, 160), g.range(1, 160))); }
    for (k, (r, c)) in list.into_iter().enumerate() {
        let mut g = cx.rng("equal-large", k as u64 + 1);
        cx.case("equal-large", k as u64, true, || format!("{r}x{c}: equal copies and single differences"), |st| {
            for o in ORDERS { for p in ORDERS {
                let f = |i: usize, j: usize| (i * 31 + j * 17) as u32;
                let a = plain(r, c, o, f)?;
                let mut b = plain(r, c, p, f)?;
                both(&a, &b, true, "copies")?;
                if r != c {
                    both(&a, &plain(c, r, p, |i, j| f(j, i))?, false, "transposed copy")?;
                }
                for t in 0..12 {
                    let (i, j) = match t { 0 => (0, 0), 1 => (r - 1, c - 1), 2 => (0, c - 1), 3 => (r - 1, 0), _ => (g.below(r), g.below(c)) };
                    b[(i, j)] ^= 1 << g.below(32);
                    both(&a, &b, false, &format!("difference at ({i}, {j})"))?;
                    b[(i, j)] = f(i, j);
                    both(&a, &b, true, "difference undone")?;
                    st.inc("single differences in large matrices");
                }
            } }
            Ok(())
        });
    }
}

// ------------------------------------------------------------ operations

fn op_list(g: &mut Rng, a: &Model, b: &Model) -> Vec<Op> {
    let ri = |g: &mut Rng, n: usize| if g.chance(1, 6) { n + g.below(2) } else { g.below(n.max(1)) };
    let k = g.u32();
    let mut l = vec![
        Op::Transpose(0), Op::Overwrite(0, 1), Op::Apply(0, k), Op::ParApply(0, k), Op::Map(0, k), Op::MapRef(0, k), Op::ParMap(0, k), Op::ParMapRef(0, k), Op::MapVia(0, k),
        Op::Scalar(0, k), Op::ScalarConsume(0, k), Op::ScalarAssign(0, k), Op::Neg(0, 0), Op::Neg(0, 1), Op::Eq(0, 1), Op::Conform(0, 1),
        Op::Contains(0, if a.size() > 0 { a.rows[g.below(a.r)][g.below(a.c)] } else { 3 }), Op::Contains(0, k),
        Op::Views(0, 0, g.next()), Op::Views(0, 1, g.next()), Op::Indexed(0, 0), Op::Indexed(0, 1), Op::VectorsMut(0, 0, g.next(), usize::MAX, k), Op::VectorsMut(0, 1, g.next(), usize::MAX, k),
        Op::EwOp(0, 1, k), Op::EwOpConsume(0, 1, k), Op::EwOpAssign(0, 1, k), Op::Multiply(0, 1), Op::MulLike(0, 1), Op::Clear(0), Op::ElemsMut(0, 1, g.next(), k), Op::ElemsMut(0, 3, g.next(), k),
        Op::IntoElems(0, 1, g.next(), usize::MAX), Op::IntoElems(0, 3, 0, usize::MAX),
    ];
    for op in ARITHS { l.extend([Op::Ew(0, 1, op), Op::EwConsume(0, 1, op), Op::EwAssign(0, 1, op)]); }
    for form in 0..4 {
        l.extend([Op::AddSub(0, 1, Arith::Add, form), Op::AddSub(0, 1, Arith::Sub, form), Op::Product(0, 1, form)]);
        l.push(Op::Get(0, ri(g, a.r), ri(g, a.c), form));
        l.push(Op::SetElem(0, ri(g, a.r), ri(g, a.c), form, k));
    }
    for owned in 0..2 { l.extend([Op::Compound(0, 1, Arith::Add, owned), Op::Compound(0, 1, Arith::Sub, owned)]); }
    for form in 0..3 { l.push(Op::Swap(0, (ri(g, a.r), ri(g, a.c)), (ri(g, a.r), ri(g, a.c)), form)); }
    l.extend([Op::SwapRows(0, ri(g, a.r), ri(g, a.r)), Op::SwapCols(0, ri(g, a.c), ri(g, a.c)), Op::NthMut(0, 0, ri(g, a.r), g.next(), k), Op::NthMut(0, 1, ri(g, a.c), g.next(), k)]);
    let _ = b;
    l
}

/// Operations whose result is a new matrix taking the left operand's order.
fn takes_left(op: &Op) -> bool {
    matches!(op, Op::EwOp(..) | Op::EwOpConsume(..) | Op::EwOpAssign(..) | Op::Ew(..) | Op::EwConsume(..) | Op::EwAssign(..) | Op::Multiply(..) | Op::MulLike(..)
        | Op::AddSub(..) | Op::Product(..) | Op::Compound(..) | Op::Overwrite(..) | Op::Scalar(..) | Op::ScalarConsume(..) | Op::ScalarAssign(..)
        | Op::Map(..) | Op::MapRef(..) | Op::ParMap(..) | Op::ParMapRef(..) | Op::MapVia(..) | Op::Neg(..) | Op::Apply(..) | Op::ParApply(..))
}

fn logical<T: Elem>(m: &Matrix<T>) -> Result<(usize, usize, Vec<Vec<u32>>), String> {
    let (r, c) = (m.nrows(), m.ncols());
    let mut rows = vec![];
    for i in 0..r { let mut row = vec![]; for j in 0..c { row.push(m.get((i, j)).map_err(|e| format!("get(({i}, {j})): {e:?}"))?.val()) } rows.push(row) }
    Ok((r, c, rows))
}

type Outcome = (Res, Vec<u32>, (usize, usize, Vec<Vec<u32>>), (usize, usize, Vec<Vec<u32>>));

fn run<T: Full>(op: &Op, a: &Model, b: &Model) -> Result<(Outcome, Order, Res), String> {
    led::reset();
    let mut ws = vec![realize::<T>(a)?, realize::<T>(b)?];
    let out = match catch(|| op.real(&mut ws)) { Ok(o) => o, Err(_) => ops::Out { res: Res::Panic, obs: vec![] } };
    led::check()?;
    let res = out.res.clone();
    Ok(((out.res, out.obs, logical(&ws[0])?, logical(&ws[1])?), ws[0].order(), res))
}

fn differ(f: &Outcome, g: &Outcome) -> String {
    if f.0 != g.0 { return format!("{:?} instead of {:?}", g.0, f.0); }
    if let Some(k) = (0..f.1.len().max(g.1.len())).find(|&k| f.1.get(k) != g.1.get(k)) { return format!("observation {k} of {}: {:?} instead of {:?}", f.1.len(), g.1.get(k), f.1.get(k)); }
    for (w, (x, y)) in [(&f.2, &g.2), (&f.3, &g.3)].into_iter().enumerate() {
        if (x.0, x.1) != (y.0, y.1) { return format!("operand {w} is {}x{} instead of {}x{}", y.0, y.1, x.0, x.1); }
        for i in 0..x.0 { for j in 0..x.1 { if x.2[i][j] != y.2[i][j] { return format!("operand {w} at ({i}, {j}): {} instead of {}", y.2[i][j], x.2[i][j]); } } }
    }
    String::new()
}

fn ops_case<T: Full>(g: &mut Rng, max: usize, all: bool, st: &mut Stats) -> Result<(), String> {
    let (r, c) = (g.range(0, max), g.range(0, max));
    let (r2, c2) = match g.below(8) { 0 | 1 | 2 => (r, c), 3 | 4 => (c, g.range(0, max)), 5 => (c, r), 6 => (r, c + 1), _ => (g.range(0, max), g.range(0, max)) };
    ops_pair::<T>(g, (r, c), (r2, c2), if all { 1 } else { 4 }, st)
}

/// One in `skip` of the operations, chosen at random.
fn ops_pair<T: Full>(g: &mut Rng, (r, c): (usize, usize), (r2, c2): (usize, usize), skip: usize, st: &mut Stats) -> Result<(), String> {
    let small = r * c + r2 * c2 <= 4000;
    let a = Model::build(r, c, Order::RowMajor, |_, _| g.u32());
    let same = g.chance(1, 3) && (r, c) == (r2, c2);
    let b = if same { a.clone() } else { Model::build(r2, c2, Order::RowMajor, |_, _| g.u32()) };
    let list = op_list(g, &a, &b);
    let show = |m: &Model| if small { m.show() } else { format!("{}x{}{}", m.r, m.c, oname(m.ord)) };
    for op in &list {
        if skip > 1 && !g.chance(1, skip) { continue; }
        let mut first: Option<Outcome> = None;
        for o in ORDERS { for p in ORDERS {
            let (mut x, mut y) = (a.clone(), b.clone());
            x.ord = o;
            y.ord = p;
            let (got, ord, res) = run::<T>(op, &x, &y).map_err(|e| format!("{op:?} on {} / {}: {e}", show(&x), show(&y)))?;
            if takes_left(op) && res == Res::Ok { ensure_eq!(ord, o, "{op:?} on {} / {}: order of the result", show(&x), show(&y)); st.inc("result orders checked") }
            match &first {
                None => first = Some(got),
                Some(f) if *f != got && !small => return Err(format!("{op:?} on {} / {} differs from both operands row-major: {}", show(&x), show(&y), differ(f, &got))),
                Some(f) => if *f != got { return Err(format!("{op:?} on {} / {} gives {got:?}, but {f:?} with both operands row-major", show(&x), show(&y))); }
            }
            st.inc(match res { Res::Ok => "operations succeeding in every order", Res::Err(_) => "operations failing in every order", Res::Panic => "operations panicking in every order" });
        } }
    }
    Ok(())
}

fn operations<T: Full>(cx: &mut Ctx, n: [usize; 3], max: usize) {
    let n = cx.pick(n[0], n[1], n[2]);
    let sec = format!("ops-{}", T::NAME);
    for key in 0..n as u64 {
        let mut g = cx.rng(&sec, key);
        let all = !cx.miri();
        cx.case(&sec, key, true, || format!("every order-agnostic operation on a random pair of {} matrices up to {max}x{max}, in the four combinations of orders", T::NAME), |st| ops_case::<T>(&mut g, max, all, st));
    }
}

fn display(cx: &mut Ctx) {
    let n = cx.pick(4, 400, 4000);
    let texts = ["", "a", "bcd", "ef\ng", "\n", "longer text", "é", "12\n3456\n7", "日本", "tail\n", "\t", "x\r\ny", "\n\n"];
    for key in 0..n as u64 {
        let mut g = cx.rng("display", key);
        cx.case("display", key, true, || "Display of a random matrix of strings in both orders".into(), |st| {
            let (r, c) = (g.range(0, 6), g.range(0, 6));
            let vals: Vec<Vec<&str>> = (0..r).map(|_| (0..c).map(|_| *g.pick(&texts)).collect()).collect();
            let a = plain(r, c, Order::RowMajor, |i, j| vals[i][j])?;
            let b = plain(r, c, Order::ColMajor, |i, j| vals[i][j])?;
            let mut d = b.clone();
            d.switch_order();
            let (x, y, z) = (format!("{a}"), format!("{b}"), format!("{d}"));
            ensure!(x == y, "Display of {vals:?}: row-major\n{x}\ncolumn-major\n{y}");
            ensure!(x == z, "Display of {vals:?}: row-major\n{x}\nafter switch_order\n{z}");
            for (s, t) in [(format!("{a:8}"), format!("{b:8}")), (format!("{a:<5.2}"), format!("{b:<5.2}")), (format!("{a:#}"), format!("{b:#}"))] { ensure!(s == t, "Display with a format spec differs:\n{s}\n{t}"); }
            st.add("texts compared", 5);
            Ok(())
        });
    }
}

/// Zero-sized matrices of extreme shape: errors and panics must not depend on order.
fn huge(cx: &mut Ctx) {
    let m = usize::MAX;
    let shapes = [(m, 1), (1, m), (3, m / 3), (m / 3, 3), (m, 0), (0, m), (1 << 32, (1 << 32) - 1), ((1 << 32) - 1, 1 << 32), (1, 1 << 63), (1 << 63, 1), (2, 0), (0, 2), (2, 1), (1, 2), (1, 1)];
    let mk = |s: (usize, usize), o: Order| -> Result<Matrix<()>, String> {
        let mut v: Vec<()> = vec![];
        unsafe { v.set_len(s.0 * s.1) };
        let mut x = Matrix::from_row(v);
        x.set_order_without_rearrangement(o);
        x.reshape(s).map_err(|e| format!("setup: {e:?}"))?;
        Ok(x)
    };
    for (k, s) in shapes.into_iter().enumerate() { for (l, t) in shapes.into_iter().enumerate() {
        cx.case("huge-zst", (k * 100 + l) as u64, true, || format!("{s:?} with {t:?} of ()"), |st| {
            let mut first = None;
            let small = |s: (usize, usize)| s.0 * s.1 <= 4;
            for o in ORDERS { for p in ORDERS {
                let (a, b) = (mk(s, o)?, mk(t, p)?);
                let conf = (a.is_elementwise_operation_conformable(&b), a.is_multiplication_like_operation_conformable(&b), a.is_square());
                let mut out = vec![format!("{conf:?}")];
                let mut note = |name: &str, r: Result<(usize, usize), Error>| out.push(format!("{name} {r:?}"));
                let cells = (s.0 as u128) * (t.1 as u128);
                // only calls that fail or are cheap
                if !conf.1 || cells <= 4 || cells > usize::MAX as u128 {
                    let r = a.clone().multiplication_like_operation(b.clone(), |_, _| ());
                    if let Ok(r) = &r { ensure_eq!(r.order(), o, "order of the product"); }
                    note("mul-like", r.map(|m| (m.nrows(), m.ncols())));
                    let r = a.clone().multiplication_like_operation(b.clone(), |_, _| 0u32);
                    note("mul-like u32", r.map(|m| (m.nrows(), m.ncols())));
                }
                if conf.1 && cells > isize::MAX as u128 && cells <= usize::MAX as u128 && s.1 > 0 {
                    let r = a.clone().multiplication_like_operation(b.clone(), |_, _| 0u8);
                    note("mul-like u8", r.map(|m| (m.nrows(), m.ncols())));
                }
                if !conf.0 || small(s) || s.0 * s.1 > isize::MAX as usize / 4 {
                    note("ew", a.elementwise_operation(&b, |_, _| 0u32).map(|m| (m.nrows(), m.ncols())));
                    note("ew consume", a.clone().elementwise_operation_consume_self(&b, |_, _| 0u32).map(|m| (m.nrows(), m.ncols())));
                }
                if small(s) || s.0 * s.1 > isize::MAX as usize / 4 {
                    note("map", a.clone().map(|_| 0u32).map(|m| (m.nrows(), m.ncols())));
                    note("map_ref", a.map_ref(|_| 0u32).map(|m| (m.nrows(), m.ncols())));
                    note("par_map", a.clone().par_map(|_| 0u32).map(|m| (m.nrows(), m.ncols())));
                    note("scalar", a.scalar_operation(&1, |_, _| 0u32).map(|m| (m.nrows(), m.ncols())));
                }
                if !conf.0 || (small(s) && small(t)) {
                    let mut x = a.clone();
                    note("ew assign", x.elementwise_operation_assign(&b, |_, _| ()).map(|m| (m.nrows(), m.ncols())));
                }
                for (i, j) in [((0, 0), (s.0 - (s.0 > 0) as usize, 0)), ((s.0, 0), (0, 0)), ((0, s.1), (0, 0)), ((0, 0), (0, s.1 - (s.1 > 0) as usize))] {
                    let mut x = a.clone();
                    note("swap", x.swap(i, j).map(|m| (m.nrows(), m.ncols())));
                    note("get", x.get(i).map(|_| (0, 0)));
                    note("wrap", x.get(WrappingIndex::new(i.0 as isize, !j.1 as isize)).map(|_| (0, 0)));
                }
                for n in [0, s.0, s.0.wrapping_sub(1), s.1, s.1.wrapping_sub(1), m] {
                    note("nth row", a.iter_nth_row(n).map(|it| (it.len(), 0)));
                    note("nth col", a.iter_nth_col(n).map(|it| (it.len(), 0)));
                }
                st.inc("order combinations of extreme shapes");
                match &first { None => first = Some(out), Some(f) => ensure_eq!(out, *f, "orders {}{} against row-major operands", oname(o), oname(p)) }
            } }
            Ok(())
        });
    } }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C07");
    equality(&mut cx, "u32", |v| v);
    equality(&mut cx, "u8", |v| v as u8);
    equality(&mut cx, "classes of ten", Class);
    equality(&mut cx, "seven is unequal to itself", Odd);
    equality(&mut cx, "never equal zst", |_| Never);
    equality(&mut cx, "string", |v| v.to_string());
    equality(&mut cx, "()", |_| ());
    floats(&mut cx);
    exhaustive(&mut cx);
    large(&mut cx);
    display(&mut cx);
    huge(&mut cx);
    operations::<W4>(&mut cx, [2, 500, 9000], 6);
    operations::<T12>(&mut cx, [2, 180, 4000], 5);
    operations::<Nest>(&mut cx, [0, 20, 600], 4);
    if cx.vast() { vast(&mut cx); }
    #[cfg(debug_assertions)]
    {
        operations::<Unit>(&mut cx, [1, 20, 100], 4);
        let n = cx.pick(0, 10, 120);
        big(&mut cx, n);
    }
    cx.finish()
}

/// Beyond the sizes at which an implementation might change its ways.
fn vast(cx: &mut Ctx) {
    let pairs = [((65, 33), (65, 33)), ((64, 64), (64, 64)), ((130, 70), (70, 65)), ((257, 129), (257, 129)), ((300, 300), (300, 300)), ((300, 221), (260, 270)), ((3, 22_001), (3, 22_001)),
        ((66_000, 1), (66_000, 1)), ((22_001, 3), (22_001, 3)), ((1, 66_000), (66_000, 1)), ((100, 257), (257, 3)), ((66_001, 2), (2, 1))];
    let n = cx.pick(0, 30, 300);
    for key in 0..(pairs.len() + n) as u64 {
        let mut g = cx.rng("ops-vast", key);
        let (a, b) = match pairs.get(key as usize) {
            Some(p) => *p,
            None => {
                let (r, c) = (g.range(1, 330), g.range(1, 330));
                ((r, c), match g.below(4) { 0 | 1 => (r, c), 2 => (c, g.range(1, 40)), _ => (g.range(1, 330), g.range(1, 330)) })
            }
        };
        cx.case("ops-vast", key, true, || format!("order-agnostic operations on {a:?} and {b:?} of u32 in the four combinations of orders"), |st| {
            st.inc("vast pairs");
            ops_pair::<W4>(&mut g, a, b, 3, st)
        });
    }
}

#[cfg(debug_assertions)]
fn big(cx: &mut Ctx, n: usize) {
    for key in 0..n as u64 {
        let mut g = cx.rng("ops-big", key);
        cx.case("ops-big", key, true, || "every order-agnostic operation on a pair of u32 matrices up to 40x40".into(), |st| ops_case::<W4>(&mut g, 40, true, st));
    }
}
