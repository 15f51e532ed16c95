//! C11: products, with element types that record which factors went where.
use harness::*;
use std::collections::HashSet;
use std::ops::{Add, Mul};

/// Tagged factors: L(i, k), R(k, j); a product remembers its factors, a sum
/// its products. The default of a sum is not neutral, so that it shows.
#[derive(Clone, Debug, PartialEq)]
struct L(u32, u32, u32);
#[derive(Clone, Debug, PartialEq)]
struct R(u32, u32, u32);
#[derive(Clone, Debug, PartialEq)]
struct Sum { terms: Vec<(u32, u32, u32, u32, u32)>, default: u32 }
impl Default for Sum { fn default() -> Self { Sum { terms: vec![], default: 1 } } }
impl Mul<R> for L { type Output = Sum; fn mul(self, r: R) -> Sum { Sum { terms: vec![(self.0, self.1, r.0, r.1, self.2 ^ r.2)], default: 0 } } }
/// Would be chosen if the factors were exchanged.
impl Mul<L> for R { type Output = Sum; fn mul(self, _: L) -> Sum { Sum { terms: vec![], default: 1000 } } }
impl Add for Sum {
    type Output = Sum;
    fn add(mut self, mut o: Sum) -> Sum {
        if self.terms.len() < o.terms.len() { std::mem::swap(&mut self.terms, &mut o.terms) }
        self.terms.extend(o.terms);
        self.default += o.default;
        self
    }
}

fn make<T>(r: usize, c: usize, ord: Order, how: usize, f: impl Fn(u32, u32) -> T + Copy) -> Result<Matrix<T>, String> {
    let g = |ord: Order| -> Result<Matrix<T>, String> {
        let mut mem = Vec::with_capacity(r * c + how);
        for p in 0..r * c { let (i, j) = if ord == Order::RowMajor { (p / c, p % c) } else { (p % r, p / r) }; mem.push(f(i as u32, j as u32)) }
        let mut m = Matrix::from_row(mem);
        m.set_order_without_rearrangement(ord);
        m.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
        Ok(m)
    };
    if how % 3 == 1 { let mut m = g(ops::flip(ord))?; m.switch_order(); return Ok(m); }
    g(ord)
}

fn check_sums(m: &Matrix<Sum>, a: (usize, usize), b: (usize, usize), ord: Order, what: &str, st: &mut Stats) -> Result<(), String> {
    ensure_eq!((m.nrows(), m.ncols(), m.size()), (a.0, b.1, a.0 * b.1), "{what}: shape of the result");
    ensure_eq!(m.order(), ord, "{what}: order of the result");
    ensure_eq!(m.iter_elements().count(), a.0 * b.1, "{what}: elements of the result");
    for i in 0..a.0 { for j in 0..b.1 {
        let s = m.get((i, j)).map_err(|e| format!("{what}: get(({i}, {j})): {e:?}"))?;
        if a.1 == 0 {
            ensure_eq!(s, &Sum::default(), "{what}: element ({i}, {j}) with inner dimension 0");
            st.inc("defaults");
            continue;
        }
        let mut t = s.terms.clone();
        t.sort_unstable();
        let want: Vec<_> = (0..a.1 as u32).map(|k| (i as u32, k, k, j as u32, 0)).collect();
        ensure!(t.iter().map(|x| (x.0, x.1, x.2, x.3, 0)).eq(want.iter().copied()), "{what}: element ({i}, {j}) sums lhs[..][..]*rhs[..][..] over {:?}, expected k = 0..{}", &t[..t.len().min(6)], a.1);
        ensure_eq!(s.default, 0, "{what}: element ({i}, {j}): U::default() added in, or factors exchanged");
        st.add("factor pairs seen", t.len() as u64);
    } }
    Ok(())
}

fn product(a: (usize, usize), b: (usize, usize), o: Order, p: Order, how: usize, st: &mut Stats) -> Result<(), String> {
    let l = make(a.0, a.1, o, how, |i, j| L(i, j, i * 77 + j))?;
    let r = make(b.0, b.1, p, how / 3, |i, j| R(i, j, i * 13 + j))?;
    let conf = a.1 == b.0;
    let what = |n: &str| format!("{n} of {}x{}{} and {}x{}{}", a.0, a.1, oname(o), b.0, b.1, oname(p));
    ensure_eq!(l.is_multiplication_like_operation_conformable(&r), conf, "{}", what("is_multiplication_like_operation_conformable"));
    ensure_eq!(l.ensure_multiplication_like_operation_conformable(&r).map(|_| ()), if conf { Ok(()) } else { Err(Error::ShapeNotConformable) }, "{}", what("ensure_multiplication_like_operation_conformable"));
    let (l0, r0) = (l.clone(), r.clone());
    let memory = |l: &Matrix<L>, r: &Matrix<R>| -> Result<(), String> {
        ensure!(l.order() == o && (l.nrows(), l.ncols()) == a && l.iter_elements().eq(l0.iter_elements()), "{}: the left operand changed", what("operands passed by reference"));
        ensure!(r.order() == p && (r.nrows(), r.ncols()) == b && r.iter_elements().eq(r0.iter_elements()), "{}: the right operand changed", what("operands passed by reference"));
        Ok(())
    };
    let res = l.clone().multiply(r.clone());
    if !conf {
        ensure_eq!(res.err(), Some(Error::ShapeNotConformable), "{}", what("multiply"));
        let mut called = 0;
        ensure_eq!(l.clone().multiplication_like_operation(r.clone(), |_, _| { called += 1; 0u32 }).err(), Some(Error::ShapeNotConformable), "{}", what("multiplication_like_operation"));
        ensure!(catch(|| &l * &r).is_err(), "{} did not panic", what("&l * &r"));
        ensure!(catch(|| l.clone() * &r).is_err(), "{} did not panic", what("l * &r"));
        ensure!(catch(|| &l * r.clone()).is_err(), "{} did not panic", what("&l * r"));
        ensure!(catch(|| l.clone() * r.clone()).is_err(), "{} did not panic", what("l * r"));
        memory(&l, &r)?;
        st.inc("non-conformable pairs");
        return Ok(());
    }
    check_sums(&res.map_err(|e| format!("{}: {e:?}", what("multiply")))?, a, b, o, &what("multiply"), st)?;
    check_sums(&(&l * &r), a, b, o, &what("&l * &r"), st)?;
    memory(&l, &r)?;
    check_sums(&(l.clone() * &r), a, b, o, &what("l * &r"), st)?;
    memory(&l, &r)?;
    check_sums(&(&l * r.clone()), a, b, o, &what("&l * r"), st)?;
    memory(&l, &r)?;
    check_sums(&(l.clone() * r.clone()), a, b, o, &what("l * r"), st)?;
    st.inc("conformable pairs");
    // the generic form
    let mut seen = HashSet::new();
    let mut bad = None;
    let res = l.clone().multiplication_like_operation(r.clone(), |x: &[L], y: &[R]| -> Answer {
        let mut go = || -> Result<Answer, String> {
            ensure!(!x.is_empty() && !y.is_empty(), "called with an empty slice ({} and {} elements)", x.len(), y.len());
            ensure_eq!((x.len(), y.len()), (a.1, a.1), "slice lengths");
            let (i, j) = (x[0].0, y[0].1);
            for (k, (l, r)) in x.iter().zip(y).enumerate() {
                ensure!((l.0, l.1) == (i, k as u32), "lhs slice of ({i}, {j}) has lhs[{}][{}] at {k}", l.0, l.1);
                ensure!((r.0, r.1) == (k as u32, j), "rhs slice of ({i}, {j}) has rhs[{}][{}] at {k}", r.0, r.1);
            }
            ensure!(seen.insert((i, j)), "called twice for ({i}, {j})");
            Ok(Answer(i * 1000 + j))
        };
        match go() { Ok(v) => v, Err(e) => { bad.get_or_insert(e); Answer(u32::MAX) } }
    });
    let name = what("multiplication_like_operation");
    if let Some(e) = bad { return Err(format!("{name}: closure {e}")); }
    let res = res.map_err(|e| format!("{name}: {e:?}"))?;
    ensure_eq!((res.nrows(), res.ncols(), res.size()), (a.0, b.1, a.0 * b.1), "{name}: shape");
    ensure_eq!(res.order(), o, "{name}: order");
    ensure_eq!(seen.len(), if a.1 == 0 { 0 } else { a.0 * b.1 }, "{name}: closure calls");
    for i in 0..a.0 { for j in 0..b.1 {
        let want = if a.1 == 0 { Answer::default() } else { Answer((i * 1000 + j) as u32) };
        ensure_eq!(res.get((i, j)).ok(), Some(&want), "{name}: element ({i}, {j})");
    } }
    st.add("closure calls judged", seen.len() as u64);
    Ok(())
}
#[derive(PartialEq, Debug)]
struct Answer(u32);
impl Default for Answer { fn default() -> Self { Answer(987_654) } }

/// Numbers and tokens against the textbook sum.
fn numbers(a: (usize, usize), n: usize, o: Order, p: Order, g: &mut Rng, st: &mut Stats) -> Result<(), String> {
    let (m, k) = a;
    let x: Vec<Vec<i64>> = (0..m).map(|_| (0..k).map(|_| g.below(2001) as i64 - 1000).collect()).collect();
    let y: Vec<Vec<i64>> = (0..k).map(|_| (0..n).map(|_| g.below(2001) as i64 - 1000).collect()).collect();
    let want = |i: usize, j: usize| (0..k).map(|t| x[i][t] * y[t][j]).sum::<i64>();
    let l = make(m, k, o, 0, |i, j| x[i as usize][j as usize])?;
    let r = make(k, n, p, 0, |i, j| y[i as usize][j as usize])?;
    let what = format!("{m}x{k}{} times {k}x{n}{}", oname(o), oname(p));
    let q = &l * &r;
    let f = make(m, k, o, 0, |i, j| x[i as usize][j as usize] as f64)? * make(k, n, p, 0, |i, j| y[i as usize][j as usize] as f64)?;
    ensure_eq!((q.nrows(), q.ncols(), q.order()), (m, n, o), "{what}: shape and order");
    for i in 0..m { for j in 0..n {
        ensure_eq!(q.get((i, j)).ok(), Some(&want(i, j)), "{what}: i64 element ({i}, {j})");
        ensure_eq!(f.get((i, j)).ok(), Some(&(want(i, j) as f64)), "{what}: f64 element ({i}, {j})");
    } }
    st.add("numeric products compared", 2 * (m * n) as u64);
    Ok(())
}

fn tokens<T: Full>(a: (usize, usize), n: usize, o: Order, p: Order, g: &mut Rng, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let (m, k) = a;
    let x = Model::build(m, k, o, |_, _| g.u32());
    let y = Model::build(k, n, p, |_, _| g.u32());
    {
        let l = realize::<T>(&x)?;
        let r = realize::<T>(&y)?;
        let ids = |m: &Matrix<T>| m.iter_elements().map(|e| (e.id(), e.val())).collect::<Vec<_>>();
        let (il, ir) = (ids(&l), ids(&r));
        let want = Model::build(m, n, o, |i, j| (0..k).fold(0, |s, t| sem::add(s, sem::mul(T::norm(x.rows[i][t]), T::norm(y.rows[t][j])))));
        let what = format!("{m}x{k}{} times {k}x{n}{} of {}", oname(o), oname(p), T::NAME);
        // (addition is commutative and wrapping in the type's own width only for full-width values)
        let q = &l * &r;
        agrees(&q, &want).map_err(|e| format!("&l * &r, {what}: {e}"))?;
        ensure!(ids(&l) == il && ids(&r) == ir && l.order() == o && r.order() == p, "&l * &r, {what}: an operand changed");
        drop(q);
        let q = l.clone() * &r;
        agrees(&q, &want).map_err(|e| format!("l * &r, {what}: {e}"))?;
        ensure!(ids(&r) == ir && r.order() == p, "l * &r, {what}: the right operand changed");
        drop(q);
        let q = &l * r.clone();
        agrees(&q, &want).map_err(|e| format!("&l * r, {what}: {e}"))?;
        ensure!(ids(&l) == il && l.order() == o, "&l * r, {what}: the left operand changed");
        drop(q);
        let q = l.multiply(r).map_err(|e| format!("multiply, {what}: {e:?}"))?;
        agrees(&q, &want).map_err(|e| format!("multiply, {what}: {e}"))?;
        if let Some(v) = live_of::<T>() { ensure_eq!(v, (m * n) as i64, "{what}: live elements after the operands were consumed"); }
    }
    led::check()?;
    if let Some(v) = live_of::<T>() { ensure!(v == 0, "{v} elements leaked"); }
    st.inc("token products compared");
    Ok(())
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C11");
    let d = cx.pick(2, 5, 7);
    for m in 0..=d { for k in 0..=d { for k2 in 0..=d { for n in 0..=d {
        // all conformable ones, and the others thinned out
        let key = ((m * 16 + k) * 16 + k2) * 16 + n;
        if k != k2 && key % 3 != 0 { continue; }
        cx.case("shapes", key as u64, m * n > 0, || format!("{m}x{k} and {k2}x{n}, all orders, all forms"), |st| {
            for (w, (o, p)) in [(0, 0), (0, 1), (1, 0), (1, 1)].into_iter().enumerate() { product((m, k), (k2, n), ORDERS[o], ORDERS[p], w + m + n, st)?; }
            Ok(())
        });
    } } } }
    let mut list = vec![(1, 100, 1), (100, 1, 100), (17, 16, 15), (64, 3, 2), (2, 3, 64), (33, 8, 31), (8, 33, 9), (1, 1, 130), (130, 1, 1), (12, 0, 30), (3, 257, 3), (31, 32, 33)];
    let mut g = cx.rng("large", 0);
    for _ in 0..cx.pick(0, 90, 900) { list.push((g.range(1, 40), g.range(1, 40), g.range(1, 40))); }
    if cx.vast() { list.extend([(300, 2, 290), (2, 300, 300), (260, 257, 3), (1, 66_000, 2), (66_000, 1, 2), (2, 1, 66_000), (257, 256, 5)]); }
    if cx.miri() { list.clear(); }
    for (i, &(m, k, n)) in list.iter().enumerate() {
        let mut g = cx.rng("large", i as u64 + 1);
        cx.case("large", i as u64, true, || format!("{m}x{k} times {k}x{n}"), |st| {
            let (o, p) = (*g.pick(&ORDERS), *g.pick(&ORDERS));
            product((m, k), (k, n), o, p, g.below(9), st)?;
            product((m, k), (n, k), p, o, 0, st)
        });
    }
    let nums = cx.pick(3, 450, 5000);
    let max = cx.pick(4, 30, 70);
    for key in 0..nums as u64 {
        let mut g = cx.rng("numbers", key);
        cx.case("numbers", key, true, || "i64 and f64 against the textbook sum".into(), |st| {
            let s = (g.range(1, max), g.range(0, max), g.range(1, max));
            numbers((s.0, s.1), s.2, *g.pick(&ORDERS), *g.pick(&ORDERS), &mut g, st)
        });
    }
    let cx_miri = cx.miri();
    for key in 0..nums as u64 {
        let mut g = cx.rng("tokens", key);
        cx.case("tokens", key, true, || "tokens and plain elements, with the ledger".into(), |st| {
            let max = max.min(9);
            let s = (g.range(0, max), g.range(0, max), g.range(0, max));
            let (o, p) = (*g.pick(&ORDERS), *g.pick(&ORDERS));
            tokens::<T12>((s.0, s.1), s.2, o, p, &mut g, st)?;
            if key % 4 == 0 { tokens::<Nest>((s.0.min(4), s.1.min(4)), s.2.min(4), o, p, &mut g, st)?; }
            match key % 6 {
                _ if cx_miri => {}
                0 => tokens::<Bx>((s.0, s.1), s.2, o, p, &mut g, st)?,
                1 => tokens::<W8>((s.0 * 3, s.1 * 3), s.2 * 3, o, p, &mut g, st)?,
                2 => tokens::<B1>((s.0 * 3, s.1 * 3), s.2 * 3, o, p, &mut g, st)?,
                3 => tokens::<Fat>((s.0, s.1), s.2, o, p, &mut g, st)?,
                4 => tokens::<Wide<2>>((s.0, s.1), s.2, o, p, &mut g, st)?,
                _ => tokens::<W2>((s.0, s.1), s.2, o, p, &mut g, st)?,
            }
            tokens::<Nd>((s.0, s.1), s.2, o, p, &mut g, st)?;
            tokens::<W4>((s.0, s.1), s.2, o, p, &mut g, st)?;
            tokens::<Zt>((s.0, s.1), s.2, o, p, &mut g, st)
        });
    }
    cx.together([0, 8, 80], |g, st| {
        for how in 0..9 { let k = g.below(9); product((g.below(9), k), (k, g.below(9)), *g.pick(&ORDERS), *g.pick(&ORDERS), how, st)?; }
        numbers((g.range(9, 30), g.range(9, 30)), g.range(9, 30), *g.pick(&ORDERS), *g.pick(&ORDERS), g, st)
    });
    cx.finish()
}
