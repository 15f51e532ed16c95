//! C12: elementwise operations, with operands that know their position and
//! results that know their operands.
use harness::*;
use std::collections::HashSet;
use std::ops::*;

#[derive(Clone, Debug, PartialEq)]
struct L(u32, u32, Vec<(char, u32, u32)>);
#[derive(Clone, Debug, PartialEq)]
struct R(u32, u32);
/// (operator, left operand, right operand)
#[derive(Clone, Debug, PartialEq)]
struct Res(char, (u32, u32), (u32, u32));
macro_rules! ops { ($($t:ident $f:ident $ta:ident $fa:ident $ch:literal),*) => { $(
    impl $t<R> for L { type Output = Res; fn $f(self, r: R) -> Res { Res($ch, (self.0, self.1), (r.0, r.1)) } }
    impl $ta<R> for L { fn $fa(&mut self, r: R) { self.2.push(($ch, r.0, r.1)) } }
)* }; }
ops!(Add add AddAssign add_assign '+', Sub sub SubAssign sub_assign '-', Mul mul MulAssign mul_assign '*', Div div DivAssign div_assign '/', Rem rem RemAssign rem_assign '%');

fn make<T>(r: usize, c: usize, ord: Order, how: usize, f: impl Fn(u32, u32) -> T + Copy) -> Result<Matrix<T>, String> {
    let g = |ord: Order| -> Result<Matrix<T>, String> {
        let mut mem = Vec::with_capacity(r * c + how);
        for p in 0..r * c { let (i, j) = if ord == Order::RowMajor { (p / c, p % c) } else { (p % r, p / r) }; mem.push(f(i as u32, j as u32)) }
        let mut m = Matrix::from_row(mem);
        m.set_order_without_rearrangement(ord);
        m.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
        Ok(m)
    };
    if how % 3 == 1 { let mut m = g(ops::flip(ord))?; m.switch_order(); return Ok(m); }
    if how % 3 == 2 { let mut m = g(ord)?; m.shrink_to_fit(); m.switch_order(); m.switch_order(); return Ok(m); }
    g(ord)
}
fn ml(a: (usize, usize), o: Order, how: usize) -> Result<Matrix<L>, String> { make(a.0, a.1, o, how, |i, j| L(i, j, vec![])) }
fn mr(b: (usize, usize), o: Order, how: usize) -> Result<Matrix<R>, String> { make(b.0, b.1, o, how, R) }

fn head<T>(m: &Matrix<T>, a: (usize, usize), o: Order, what: &str) -> Result<(), String> {
    ensure_eq!((m.nrows(), m.ncols(), m.size(), m.order()), (a.0, a.1, a.0 * a.1, o), "{what}: shape, size and order");
    ensure_eq!(m.iter_elements().count(), a.0 * a.1, "{what}: number of elements");
    Ok(())
}
fn results(m: Result<Matrix<Res>, Error>, ch: char, a: (usize, usize), o: Order, what: &str, st: &mut Stats) -> Result<(), String> {
    let m = m.map_err(|e| format!("{what}: {e:?}"))?;
    head(&m, a, o, what)?;
    for i in 0..a.0 { for j in 0..a.1 {
        let p = (i as u32, j as u32);
        ensure_eq!(m.get((i, j)).ok(), Some(&Res(ch, p, p)), "{what}: element ({i}, {j}) (operator, lhs position, rhs position)");
    } }
    st.add("operand pairs checked", (a.0 * a.1) as u64);
    Ok(())
}
fn assigned(m: &Matrix<L>, ch: char, a: (usize, usize), o: Order, what: &str, st: &mut Stats) -> Result<(), String> {
    head(m, a, o, what)?;
    for i in 0..a.0 { for j in 0..a.1 {
        let p = (i as u32, j as u32);
        ensure_eq!(m.get((i, j)).ok(), Some(&L(p.0, p.1, vec![(ch, p.0, p.1)])), "{what}: element ({i}, {j})");
    } }
    st.add("operand pairs checked", (a.0 * a.1) as u64);
    Ok(())
}

fn pair(a: (usize, usize), b: (usize, usize), o: Order, p: Order, how: usize, st: &mut Stats) -> Result<(), String> {
    let l = ml(a, o, how)?;
    let r = mr(b, p, how / 3)?;
    let conf = a == b;
    let what = |n: &str| format!("{n} of {}x{}{} and {}x{}{}", a.0, a.1, oname(o), b.0, b.1, oname(p));
    ensure_eq!(l.is_elementwise_operation_conformable(&r), conf, "{}", what("is_elementwise_operation_conformable"));
    ensure_eq!(r.is_elementwise_operation_conformable(&l), conf, "{}", what("is_elementwise_operation_conformable (exchanged)"));
    let err = Error::ShapeNotConformable;
    ensure_eq!(l.ensure_elementwise_operation_conformable(&r).map(|_| ()), if conf { Ok(()) } else { Err(err) }, "{}", what("ensure_elementwise_operation_conformable"));
    macro_rules! named { ($($ch:literal $f:ident $fc:ident $fa:ident),*) => { $({
        let res = l.$f::<R, Res>(&r);
        if conf { results(res, $ch, a, o, &what(stringify!($f)), st)?; } else { ensure_eq!(res.err(), Some(err), "{}", what(stringify!($f))); }
        let res = l.clone().$fc::<R, Res>(&r);
        if conf { results(res, $ch, a, o, &what(stringify!($fc)), st)?; } else { ensure_eq!(res.err(), Some(err), "{}", what(stringify!($fc))); }
        let mut x = l.clone();
        let res = x.$fa(&r).map(|_| ());
        ensure_eq!(res, if conf { Ok(()) } else { Err(err) }, "{}", what(stringify!($fa)));
        if conf { assigned(&x, $ch, a, o, &what(stringify!($fa)), st)?; } else { ensure!(x == l && x.order() == o, "{}: lhs changed", what(stringify!($fa))); }
    })* }; }
    named!('+' elementwise_add elementwise_add_consume_self elementwise_add_assign, '-' elementwise_sub elementwise_sub_consume_self elementwise_sub_assign,
        '*' elementwise_mul elementwise_mul_consume_self elementwise_mul_assign, '/' elementwise_div elementwise_div_consume_self elementwise_div_assign,
        '%' elementwise_rem elementwise_rem_consume_self elementwise_rem_assign);
    // operators, in all forms
    macro_rules! operators { ($($name:literal $ch:literal $e:expr),*) => { $({
        let res: Result<Matrix<Res>, String> = catch(|| $e);
        match res {
            Ok(m) if conf => results(Ok(m), $ch, a, o, &what($name), st)?,
            Ok(_) => return Err(format!("{} did not panic", what($name))),
            Err(e) => ensure!(!conf, "{}: {e}", what($name)),
        }
    })* }; }
    operators!("&l + &r" '+' &l + &r, "l + &r" '+' l.clone() + &r, "&l + r" '+' &l + r.clone(), "l + r" '+' l.clone() + r.clone(),
        "&l - &r" '-' &l - &r, "l - &r" '-' l.clone() - &r, "&l - r" '-' &l - r.clone(), "l - r" '-' l.clone() - r.clone());
    macro_rules! compound { ($($name:literal $ch:literal |$x:ident| $e:expr),*) => { $({
        let mut m = l.clone();
        let res = { let $x = &mut m; catch(|| $e) };
        match res {
            Ok(()) if conf => assigned(&m, $ch, a, o, &what($name), st)?,
            Ok(()) => return Err(format!("{} did not panic", what($name))),
            Err(e) => ensure!(!conf, "{}: {e}", what($name)),
        }
        if !conf { ensure!(m == l && m.order() == o, "{}: lhs changed", what($name)); }
    })* }; }
    compound!("l += &r" '+' |x| *x += &r, "l += r" '+' |x| *x += r.clone(), "l -= &r" '-' |x| *x -= &r, "l -= r" '-' |x| *x -= r.clone());

    // the generic forms, counting calls and watching addresses
    let (lr, rr) = (&l, &r);
    for form in 0..3 {
    let mut seen = HashSet::new();
    let mut bad: Option<String> = None;
    let mut judge = |x: (u32, u32), y: &R, px: usize| -> u32 {
        let mut go = || -> Result<(), String> {
            ensure!((y.0, y.1) == x, "applied to lhs[{}][{}] and rhs[{}][{}]", x.0, x.1, y.0, y.1);
            ensure!(seen.insert(x), "applied twice at {x:?}");
            let at = (x.0 as usize, x.1 as usize);
            ensure!(rr.get(at).is_ok_and(|e| std::ptr::eq(e, y)), "at {x:?}: the right argument is not the element of rhs");
            ensure!(px == 0 || lr.get(at).is_ok_and(|e| e as *const L as usize == px), "at {x:?}: the left argument is not the element of lhs");
            Ok(())
        };
        if let Err(e) = go() { bad.get_or_insert(e); }
        x.0 * 100_003 + x.1 + 1
    };
        let name = what(["elementwise_operation", "elementwise_operation_consume_self", "elementwise_operation_assign"][form]);
        let res: Result<Matrix<u32>, Error> = match form {
            0 => l.elementwise_operation(&r, |x, y| judge((x.0, x.1), y, x as *const L as usize)),
            1 => l.clone().elementwise_operation_consume_self(&r, |x, y| judge((x.0, x.1), y, 0)),
            _ => {
                let mut m = l.clone();
                m.elementwise_operation_assign(&r, |x, y| { let v = judge((x.0, x.1), y, 0); x.2.push(('g', v, 0)) }).map(|_| ())
                    .and_then(|()| m.map_ref(|x| if x.2.len() == 1 { x.2[0].1 } else { u32::MAX }))
            }
        };
        if !conf { ensure_eq!(res.err(), Some(err), "{name}"); continue; }
        let m = res.map_err(|e| format!("{name}: {e:?}"))?;
        head(&m, a, o, &name)?;
        for i in 0..a.0 { for j in 0..a.1 { ensure_eq!(m.get((i, j)).ok(), Some(&((i * 100_003 + j + 1) as u32)), "{name}: element ({i}, {j})"); } }
        st.add("operand pairs checked", (a.0 * a.1) as u64);
        if let Some(e) = bad { return Err(format!("{name}: closure {e}")); }
        ensure_eq!(seen.len(), a.0 * a.1, "{name}: closure calls");
    }
    st.inc(if conf { "conformable pairs" } else { "non-conformable pairs" });
    Ok(())
}
fn numbers<T>(cx: &mut Ctx, name: &str, n: [usize; 3], mk: impl Fn(&mut Rng) -> T + Copy)
where
    T: Copy + PartialEq + std::fmt::Debug + Add<Output = T> + Sub<Output = T> + Mul<Output = T> + Div<Output = T> + Rem<Output = T>
        + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign,
{
    let max = cx.pick(3, 24, 60);
    let n = cx.pick(n[0], n[1], n[2]);
    let sec = format!("numbers-{name}");
    for key in 0..n as u64 {
        let mut g = cx.rng(&sec, key);
        cx.case(&sec, key, true, || format!("named methods and operators on {name} against the primitive operators"), |st| {
            let (r, c) = (g.range(1, max), g.range(1, max));
            let (o, p) = (*g.pick(&ORDERS), *g.pick(&ORDERS));
            let x: Vec<Vec<T>> = (0..r).map(|_| (0..c).map(|_| mk(&mut g)).collect()).collect();
            let y: Vec<Vec<T>> = (0..r).map(|_| (0..c).map(|_| mk(&mut g)).collect()).collect();
            let l = make(r, c, o, g.below(3), |i, j| x[i as usize][j as usize])?;
            let q = make(r, c, p, g.below(3), |i, j| y[i as usize][j as usize])?;
            macro_rules! each { ($($op:tt $f:ident $fc:ident $fa:ident),*) => { $({
                let a = l.$f(&q).map_err(|e| format!("{}: {e:?}", stringify!($f)))?;
                let b = l.clone().$fc(&q).map_err(|e| format!("{}: {e:?}", stringify!($fc)))?;
                let mut d = l.clone();
                d.$fa(&q).map_err(|e| format!("{}: {e:?}", stringify!($fa)))?;
                let e = l.elementwise_operation(&q, |a, b| *a $op *b).map_err(|e| format!("generic: {e:?}"))?;
                for i in 0..r { for j in 0..c {
                    let w = x[i][j] $op y[i][j];
                    for (n, m) in [(stringify!($f), &a), (stringify!($fc), &b), (stringify!($fa), &d), ("elementwise_operation", &e)] {
                        ensure_eq!(m.get((i, j)).ok(), Some(&w), "{n}: element ({i}, {j}) from {:?} and {:?}", x[i][j], y[i][j]);
                    }
                } }
                st.add("numeric elements compared", 4 * (r * c) as u64);
            })* }; }
            each!(+ elementwise_add elementwise_add_consume_self elementwise_add_assign, - elementwise_sub elementwise_sub_consume_self elementwise_sub_assign,
                * elementwise_mul elementwise_mul_consume_self elementwise_mul_assign, / elementwise_div elementwise_div_consume_self elementwise_div_assign,
                % elementwise_rem elementwise_rem_consume_self elementwise_rem_assign);
            let s = (&l + &q, &l - &q);
            let (mut t, mut u) = (l.clone(), l.clone());
            t += &q;
            u -= q.clone();
            for i in 0..r { for j in 0..c {
                ensure_eq!(s.0.get((i, j)).ok(), Some(&(x[i][j] + y[i][j])), "&l + &r: element ({i}, {j})");
                ensure_eq!(s.1.get((i, j)).ok(), Some(&(x[i][j] - y[i][j])), "&l - &r: element ({i}, {j})");
                ensure_eq!(t.get((i, j)).ok(), Some(&(x[i][j] + y[i][j])), "l += &r: element ({i}, {j})");
                ensure_eq!(u.get((i, j)).ok(), Some(&(x[i][j] - y[i][j])), "l -= r: element ({i}, {j})");
            } }
            Ok(())
        });
    }
}

/// Operators must panic where the methods fail for lack of capacity, too.
#[derive(Clone)]
struct Z;
impl Add for Z { type Output = u64; fn add(self, _: Z) -> u64 { 1 } }
impl Sub for Z { type Output = u64; fn sub(self, _: Z) -> u64 { 1 } }
fn capacity(cx: &mut Ctx) {
    for (k, (r, c)) in [(1usize << 60, 1), (1, 1 << 60), (1 << 32, 1 << 28), (usize::MAX, 1), (3, usize::MAX / 3)].into_iter().enumerate() { for (o, p) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
        cx.case("capacity", (k * 4 + o * 2 + p) as u64, true, || format!("{r}x{c} of a zero-sized type whose sums are u64"), |st| {
            let mk = |o: usize| -> Result<Matrix<Z>, String> {
                let mut v: Vec<Z> = vec![];
                unsafe { v.set_len(r * c) };
                let mut m = Matrix::from_row(v);
                m.set_order_without_rearrangement(ORDERS[o]);
                m.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
                Ok(m)
            };
            let (a, b) = (mk(o)?, mk(p)?);
            ensure_eq!(a.elementwise_add(&b).err(), Some(Error::CapacityOverflow), "elementwise_add");
            ensure_eq!(a.elementwise_sub(&b).err(), Some(Error::CapacityOverflow), "elementwise_sub");
            ensure!(catch(|| &a + &b).is_err(), "&a + &b did not panic");
            ensure!(catch(|| &a - &b).is_err(), "&a - &b did not panic");
            let (x, y) = (mk(o)?, mk(o)?);
            ensure!(catch(|| x + &b).is_err(), "a + &b did not panic");
            ensure!(catch(|| y - &b).is_err(), "a - &b did not panic");
            st.inc("operators refused for lack of capacity");
            Ok(())
        });
    } }
}

/// Elements of every size and kind, the result of another size.
fn sized<T: Full>(a: (usize, usize), o: Order, p: Order, g: &mut Rng, st: &mut Stats) -> Result<(), String> {
    led::reset();
    {
        let x = Model::build(a.0, a.1, o, |_, _| T::norm(g.u32()));
        let y = Model::build(a.0, a.1, p, |_, _| T::norm(g.u32()));
        let want = |f: fn(u32, u32) -> u32| Model::build(a.0, a.1, o, |i, j| T::norm(f(x.rows[i][j], y.rows[i][j])));
        let what = |n: &str| format!("{n} of {}x{}{} and {} of {}", a.0, a.1, oname(o), oname(p), T::NAME);
        let (l, r) = (realize::<T>(&x)?, realize::<T>(&y)?);
        let ids = |m: &Matrix<T>| m.iter_elements().map(|e| e.id()).collect::<Vec<_>>();
        let (li, ri) = (ids(&l), ids(&r));
        let ok = |m: &Matrix<T>, f: fn(u32, u32) -> u32, n: &str| agrees(m, &want(f)).map_err(|e| format!("{}: {e}", what(n)));
        ok(&(&l + &r), sem::add, "&l + &r")?;
        ok(&(l.clone() + &r), sem::add, "l + &r")?;
        ok(&(&l - r.clone()), sem::sub, "&l - r")?;
        ok(&(l.clone() - r.clone()), sem::sub, "l - r")?;
        let mut m = l.clone();
        m += &r;
        ok(&m, sem::add, "l += &r")?;
        m.overwrite(&l);
        m -= r.clone();
        ok(&m, sem::sub, "l -= r")?;
        // the named methods take references on the right: their elements are combined through the generic form
        macro_rules! named { ($($f:ident),*) => { $({
            let e = |e: Error| format!("{}: {e:?}", what(concat!("generic ", stringify!($f))));
            let n = concat!("generic ", stringify!($f));
            let q = l.elementwise_operation(&r, |a, b| T::new(sem::$f(a.val(), b.val()))).map_err(e)?;
            ok(&q, sem::$f, n)?;
            let q = q.elementwise_operation_consume_self(&r, |a, b| { let _ = (&a, b.val()); a }).map_err(e)?;
            ok(&q, sem::$f, n)?;
            let mut q = l.clone();
            q.elementwise_operation_assign(&r, |a, b| { let v = sem::$f(a.val(), b.val()); a.set(v) }).map_err(e)?;
            ok(&q, sem::$f, n)?;
        })* }; }
        named!(mul, div, rem);
        let small = l.elementwise_operation(&r, |a, b| (a.val() ^ b.val()) as u8).map_err(|e| format!("{}: {e:?}", what("into u8")))?;
        let large = l.clone().elementwise_operation_consume_self(&r, |a, b| [(a.val() as u64) << 32 | b.val() as u64; 5]).map_err(|e| format!("{}: {e:?}", what("into [u64; 5]")))?;
        ensure_eq!((small.nrows(), small.ncols(), small.order(), large.nrows(), large.ncols(), large.order()), (a.0, a.1, o, a.0, a.1, o), "{}", what("shapes of results"));
        for i in 0..a.0 { for j in 0..a.1 {
            let (v, w) = (x.rows[i][j], y.rows[i][j]);
            ensure_eq!(small.get((i, j)), Ok(&((v ^ w) as u8)), "{}: element ({i}, {j})", what("into u8"));
            ensure_eq!(large.get((i, j)), Ok(&[(v as u64) << 32 | w as u64; 5]), "{}: element ({i}, {j})", what("into [u64; 5]"));
        } }
        ensure!(ids(&l) == li && ids(&r) == ri, "{}: elements of an operand were exchanged", what("operations on references"));
        agrees(&l, &x).map_err(|e| format!("{}: lhs: {e}", what("operations on references")))?;
        agrees(&r, &y).map_err(|e| format!("{}: rhs: {e}", what("operations on references")))?;
        st.inc("operands of various sizes");
    }
    led::check()?;
    if let Some(v) = live_of::<T>() { ensure!(v == 0, "{v} elements of {} leaked", T::NAME); }
    Ok(())
}

fn sizes(cx: &mut Ctx) {
    let n = cx.pick(2, 160, 3000);
    for key in 0..n as u64 {
        let mut g = cx.rng("sizes", key);
        let max = if cx.miri() { 3 } else if key % 8 == 0 { 40 } else { 9 };
        cx.case("sizes", key, true, || "elements of every size and kind".into(), |st| {
            for (o, p) in [(0, 0), (0, 1), (1, 0), (1, 1)] {
                let (o, p) = (ORDERS[o], ORDERS[p]);
                macro_rules! each { ($($t:ty),*) => { $({ let a = (g.range(0, max), g.range(0, max)); sized::<$t>(a, o, p, &mut g, st)?; })* }; }
                each!(B1, W8, Bx, Zt);
                if max > 3 { each!(W2, W4, P3, P24, A16, Big, Unit, T12, TBox, Fat, Half<3>, Half<8>, Wide<2>, Wide<4>, Quad<2>); }
            }
            Ok(())
        });
    }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C12");
    let d = cx.pick(1, 4, 6);
    for r in 0..=d { for c in 0..=d { for r2 in 0..=d { for c2 in 0..=d {
        let key = ((r * 16 + c) * 16 + r2) * 16 + c2;
        if (r, c) != (r2, c2) && (r, c) != (c2, r2) && r * c != r2 * c2 && key % 2 == 1 && !cx.thorough { continue; }
        cx.case("shapes", key as u64, true, || format!("{r}x{c} and {r2}x{c2}, all orders, all forms"), |st| {
            for (w, (o, p)) in [(0, 0), (0, 1), (1, 0), (1, 1)].into_iter().enumerate() { pair((r, c), (r2, c2), ORDERS[o], ORDERS[p], w + r + c, st)?; }
            Ok(())
        });
    } } } }
    let mut list = vec![(1, 300), (300, 1), (16, 16), (17, 15), (64, 3), (3, 64), (2, 129), (31, 33), (40, 40)];
    let mut g = cx.rng("large", 0);
    for _ in 0..cx.pick(0, 20, 400) { list.push((g.range(1, 40), g.range(1, 40))); }
    if cx.vast() { list.extend(VAST); }
    if cx.miri() { list.clear(); }
    for (i, &(r, c)) in list.iter().enumerate() {
        let mut g = cx.rng("large", i as u64 + 1);
        cx.case("large", i as u64, true, || format!("{r}x{c}, all orders, all forms"), |st| {
            for (o, p) in [(0, 0), (0, 1), (1, 0), (1, 1)] { pair((r, c), (r, c), ORDERS[o], ORDERS[p], g.below(9), st)?; }
            pair((r, c), (c, r), *g.pick(&ORDERS), *g.pick(&ORDERS), 0, st)?;
            pair((r, c), (r, c + 1), *g.pick(&ORDERS), *g.pick(&ORDERS), 0, st)
        });
    }
    numbers::<i32>(&mut cx, "i32", [2, 60, 1500], |g| { let v = g.below(20000) as i32 - 10000; if v == 0 { 3 } else { v } });
    numbers::<f64>(&mut cx, "f64", [1, 60, 1500], |g| (g.below(2_000_001) as f64 - 1e6) / 7.0 + 0.001);
    sizes(&mut cx);
    capacity(&mut cx);
    cx.together([0, 8, 80], |g, st| {
        for how in 0..12 { let s = (g.below(12), g.below(12)); pair(s, if how % 4 == 0 { (s.1, s.0) } else { s }, *g.pick(&ORDERS), *g.pick(&ORDERS), how % 9, st)?; }
        Ok(())
    });
    cx.finish()
}
