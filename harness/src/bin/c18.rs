//! C18: scalar operations of all 14 primitive types in every form, against
//! the primitive operator applied element by element.
use harness::*;
use std::collections::HashSet;
use std::fmt::Debug;

trait Num: Copy + Debug + 'static {
    fn small(g: &mut Rng) -> Self;
    fn edge(g: &mut Rng) -> Self;
    fn same(self, o: Self) -> bool;
    const NAME: &'static str;
}
macro_rules! ints { ($($t:ident)*) => { $(impl Num for $t {
    fn small(g: &mut Rng) -> Self { if $t::MIN == 0 { g.range(1, 11) as $t } else { g.range(0, 22) as $t - 11 } }
    fn edge(g: &mut Rng) -> Self {
        match g.below(8) { 0 => $t::MIN, 1 => $t::MAX, 2 => 0, 3 => 1, 4 => $t::MAX / 2 + 1, 5 => $t::MIN + 1, 6 => !0, _ => ((g.next() as u128) << 64 | g.next() as u128) as $t }
    }
    fn same(self, o: Self) -> bool { self == o }
    const NAME: &'static str = stringify!($t);
})* }; }
macro_rules! floats { ($($t:ident)*) => { $(impl Num for $t {
    fn small(g: &mut Rng) -> Self { (g.below(4_000_001) as $t - 2e6) / 1024.0 }
    fn edge(g: &mut Rng) -> Self {
        match g.below(12) {
            0 => $t::NAN, 1 => $t::INFINITY, 2 => $t::NEG_INFINITY, 3 => 0.0, 4 => -0.0, 5 => $t::MAX, 6 => $t::MIN, 7 => $t::MIN_POSITIVE,
            8 => $t::from_bits(1), 9 => $t::EPSILON, 10 => 1.0, _ => $t::from_bits(g.next() as _),
        }
    }
    fn same(self, o: Self) -> bool { self.to_bits() == o.to_bits() || self.is_nan() && o.is_nan() }
    const NAME: &'static str = stringify!($t);
})* }; }
ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
floats!(f32 f64);

#[derive(Clone, Copy, Debug)]
struct S { r: usize, c: usize, ord: Order, how: usize }
impl S {
    fn n(&self) -> usize { self.r * self.c }
    fn show(&self) -> String { format!("{}x{}{}/{}", self.r, self.c, oname(self.ord), self.how) }
}
/// `vals` is row-major.
fn make<T: Clone>(s: S, vals: &[T]) -> Result<Matrix<T>, String> {
    let g = |r: usize, c: usize, ord: Order, at: &dyn Fn(usize, usize) -> T, spare: usize| -> Result<Matrix<T>, String> {
        let mut mem = Vec::with_capacity(r * c + spare);
        for p in 0..r * c { let (i, j) = if ord == Order::RowMajor { (p / c, p % c) } else { (p % r, p / r) }; mem.push(at(i, j)) }
        let mut m = Matrix::from_row(mem);
        m.set_order_without_rearrangement(ord);
        m.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
        Ok(m)
    };
    let at = |i: usize, j: usize| vals[i * s.c + j].clone();
    Ok(match s.how % 4 {
        0 => g(s.r, s.c, s.ord, &at, 0)?,
        1 => g(s.r, s.c, s.ord, &at, 9)?,
        2 => { let mut m = g(s.r, s.c, ops::flip(s.ord), &at, 1)?; m.switch_order(); m }
        _ => { let mut m = g(s.c, s.r, s.ord, &|i, j| at(j, i), 0)?; m.transpose(); m }
    })
}

fn judge<T: Num>(got: Result<Matrix<T>, String>, want: &Result<Vec<T>, String>, s: S, what: &str, x: &[T], k: T, st: &mut Stats) -> Result<(), String> {
    let ctx = |n: &str| format!("{n} on Matrix<{}> {} with scalar {k:?}", T::NAME, s.show());
    match (got, want) {
        (Err(_), Err(_)) => { st.inc("operations that panic as the primitive does"); Ok(()) }
        (Err(e), Ok(_)) => Err(format!("{}: {e}", ctx(what))),
        (Ok(_), Err(e)) => Err(format!("{} succeeded although the primitive operator does not: {e}", ctx(what))),
        (Ok(m), Ok(w)) => {
            ensure_eq!((m.nrows(), m.ncols(), m.size(), m.order()), (s.r, s.c, s.n(), s.ord), "{}: shape, size and order", ctx(what));
            ensure_eq!(m.iter_elements().count(), s.n(), "{}: elements", ctx(what));
            for i in 0..s.r { for j in 0..s.c {
                let p = i * s.c + j;
                let Ok(e) = m.get((i, j)) else { return Err(format!("{}: get(({i}, {j})) failed", ctx(what))) };
                ensure!(e.same(w[p]), "{}: element ({i}, {j}) = {:?} became {e:?}, expected {:?}", ctx(what), x[p], w[p]);
            } }
            st.add("elements compared with the primitive operator", s.n() as u64);
            Ok(())
        }
    }
}
fn all<T>(it: impl Iterator<Item = T>) -> Result<Vec<T>, String> { let mut it = it; catch(move || { let mut v = vec![]; for x in &mut it { v.push(x) } v }) }

fn unchanged<T: Num>(m: &Matrix<T>, s: S, x: &[T], what: &str) -> Result<(), String> {
    ensure_eq!((m.nrows(), m.ncols(), m.order()), (s.r, s.c, s.ord), "{what}: borrowed operand");
    for p in 0..s.n() { ensure!(m.get((p / s.c, p % s.c)).is_ok_and(|e| e.same(x[p])), "{what}: the borrowed operand changed"); }
    Ok(())
}

macro_rules! suite {
    ($name:ident, $t:ident) => {
        fn $name(s: S, x: &[$t], k: $t, st: &mut Stats) -> Result<(), String> {
            let m = make(s, x)?;
            let refs: Vec<&$t> = x.iter().collect();
            let rm: Matrix<&$t> = make(s, &refs)?;
            macro_rules! op { ($op:tt, $opa:tt) => {{
                let want = all(x.iter().map(|e| *e $op k));
                let back = all(x.iter().map(|e| k $op *e));
                let o = stringify!($op);
                macro_rules! form { ($n:literal, $e:expr, $w:expr) => { judge::<$t>(catch(|| $e), $w, s, &$n.replace("op", o), x, k, st)?; }; }
                form!("m op s", m.clone() $op k, &want);
                form!("m op &s", m.clone() $op &k, &want);
                form!("&m op s", &m $op k, &want);
                form!("&m op &s", &m $op &k, &want);
                form!("rm op s", rm.clone() $op k, &want);
                form!("rm op &s", rm.clone() $op &k, &want);
                form!("&rm op s", &rm $op k, &want);
                form!("&rm op &s", &rm $op &k, &want);
                form!("s op m", k $op m.clone(), &back);
                form!("&s op m", &k $op m.clone(), &back);
                form!("s op &m", k $op &m, &back);
                form!("&s op &m", &k $op &m, &back);
                form!("s op rm", k $op rm.clone(), &back);
                form!("&s op rm", &k $op rm.clone(), &back);
                form!("s op &rm", k $op &rm, &back);
                form!("&s op &rm", &k $op &rm, &back);
                form!("m op= s", { let mut a = m.clone(); a $opa k; a }, &want);
                form!("m op= &s", { let mut a = m.clone(); a $opa &k; a }, &want);
                unchanged(&m, s, x, o)?;
            }}; }
            op!(+, +=);
            op!(-, -=);
            op!(*, *=);
            op!(/, /=);
            op!(%, %=);
            for (p, e) in rm.iter_elements().enumerate() {
                let q = if s.ord == Order::RowMajor { p } else { p % s.r * s.c + p / s.r };
                ensure!(std::ptr::eq(*e, &x[q]), "the borrowed matrix of references changed");
            }
            Ok(())
        }
    };
}
macro_rules! negs { ($name:ident, $t:ident) => {
    fn $name(s: S, x: &[$t], st: &mut Stats) -> Result<(), String> {
        let m = make(s, x)?;
        let refs: Vec<&$t> = x.iter().collect();
        let rm: Matrix<&$t> = make(s, &refs)?;
        let want = all(x.iter().map(|e| -*e));
        judge::<$t>(catch(|| -m.clone()), &want, s, "-m", x, 0 as $t, st)?;
        judge::<$t>(catch(|| -&m), &want, s, "-&m", x, 0 as $t, st)?;
        judge::<$t>(catch(|| -rm.clone()), &want, s, "-rm", x, 0 as $t, st)?;
        judge::<$t>(catch(|| -&rm), &want, s, "-&rm", x, 0 as $t, st)?;
        unchanged(&m, s, x, "-&m")
    }
}; }
suite!(s_u8, u8); suite!(s_u16, u16); suite!(s_u32, u32); suite!(s_u64, u64); suite!(s_u128, u128); suite!(s_usize, usize);
suite!(s_i8, i8); suite!(s_i16, i16); suite!(s_i32, i32); suite!(s_i64, i64); suite!(s_i128, i128); suite!(s_isize, isize);
suite!(s_f32, f32); suite!(s_f64, f64);
negs!(n_i8, i8); negs!(n_i16, i16); negs!(n_i32, i32); negs!(n_i64, i64); negs!(n_i128, i128); negs!(n_isize, isize); negs!(n_f32, f32); negs!(n_f64, f64);

fn shape(g: &mut Rng, key: u64, big: usize) -> S {
    let (r, c) = match key % 16 {
        0 => (g.below(2) * 4, g.below(2) * 3), 1 => (0, g.below(4)), 2 => (1, g.range(1, big * 8)), 3 => (g.range(1, big * 8), 1),
        4 => { let n = g.range(1, 8); (n, n) } 5 => (g.range(1, big), g.range(1, big)), _ => (g.range(1, 7), g.range(1, 7)),
    };
    S { r, c, ord: *g.pick(&ORDERS), how: g.below(4) }
}

fn types(cx: &mut Ctx, n: usize) {
    macro_rules! each { ($($t:ident $s:ident $(neg $n:ident)?),*) => { $(
        let sec = format!("primitive-{}", <$t as Num>::NAME);
        for key in 0..n as u64 {
            let mut g = cx.rng(&sec, key);
            let s = shape(&mut g, key / 2, 24);
            // small values: nothing overflows; edges: the primitive decides
            let edges = key % 2 == 1;
            let mut x: Vec<$t> = (0..s.n()).map(|_| if edges && g.chance(1, 3) { $t::edge(&mut g) } else { $t::small(&mut g) }).collect();
            let mut k = if edges && g.bool() { $t::edge(&mut g) } else { $t::small(&mut g) };
            if !edges {
                // subtraction and division in both directions are defined too
                for e in &mut x { if *e == 0 as $t { *e = 1 as $t } }
                if k == 0 as $t { k = 2 as $t }
            }
            cx.case(&sec, key, s.n() > 0, || format!("{} of {}, scalar {k:?}, elements {:?}...", s.show(), <$t as Num>::NAME, &x[..x.len().min(6)]), |st| {
                $s(s, &x, k, st)?;
                $($n(s, &x, st)?;)?
                Ok(())
            });
        }
    )* }; }
    each!(u8 s_u8, u16 s_u16, u32 s_u32, u64 s_u64, u128 s_u128, usize s_usize, i8 s_i8 neg n_i8, i16 s_i16 neg n_i16, i32 s_i32 neg n_i32,
        i64 s_i64 neg n_i64, i128 s_i128 neg n_i128, isize s_isize neg n_isize, f32 s_f32 neg n_f32, f64 s_f64 neg n_f64);
}

/// One-element and two-element matrices with every pair of interesting values.
fn grid(cx: &mut Ctx) {
    macro_rules! each { ($($t:ident $s:ident),*) => { $(
        let sec = format!("grid-{}", <$t as Num>::NAME);
        let vals: Vec<$t> = { let mut g = cx.rng(&sec, 0); let mut v: Vec<$t> = vec![0 as $t, 1 as $t, 2 as $t, 3 as $t, 7 as $t, $t::MAX, $t::MIN, $t::MAX / (2 as $t), (0 as $t) - (($t::MIN < 0 as $t) as u8 as $t)]; for _ in 0..10 { v.push($t::edge(&mut g)); } v };
        for (a, &x) in vals.iter().enumerate() { for (b, &k) in vals.iter().enumerate() {
            let key = (a * 32 + b) as u64;
            cx.case(&sec, key, true, || format!("element {x:?}, scalar {k:?}"), |st| {
                $s(S { r: 1, c: 1, ord: ORDERS[a % 2], how: 0 }, &[x], k, st)
            });
        } }
    )* }; }
    each!(u8 s_u8, u16 s_u16, u32 s_u32, u64 s_u64, u128 s_u128, usize s_usize, i8 s_i8, i16 s_i16, i32 s_i32, i64 s_i64, i128 s_i128, isize s_isize, f32 s_f32, f64 s_f64);
}

/// The generic family: calls, arguments and results.
fn generic<T: Elem + Clone>(s: S, g: &mut Rng, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let n = s.n();
    let toks: Vec<T> = (0..n).map(|p| T::new(p as u32 + 1)).collect();
    let mut m = make(s, &toks)?;
    drop(toks);
    let zst = size_of::<T>() == 0;
    let scalar = (g.u32(), "a scalar that is not Copy".to_string());
    let at = |e: &T| e as *const T as usize;
    let base = base_addr(&m);
    let head = |r: usize, c: usize, z: usize, o: Order, who: &str| -> Result<(), String> { ensure_eq!((r, c, z, o), (s.r, s.c, n, s.ord), "{who}: shape, size and order"); Ok(()) };
    let (mut calls, mut other, mut seen) = (0usize, 0usize, HashSet::new());
    let who = "scalar_operation";
    let out: Matrix<(u32, u32)> = m.scalar_operation(&scalar, |e, k| {
        calls += 1;
        if !std::ptr::eq(k, &scalar) { other += 1 }
        let v = e.val() as usize;
        if !zst && at(e) != base + flat(s.r, s.c, s.ord, (v - 1) / s.c, (v - 1) % s.c) * size_of::<T>() { other += 1 }
        seen.insert(e.val());
        (e.val(), k.0)
    }).map_err(|e| format!("{who}: {e:?}"))?;
    head(out.nrows(), out.ncols(), out.size(), out.order(), who)?;
    ensure_eq!((calls, other, seen.len()), (n, 0, if zst { n.min(1) } else { n }), "{who}: closure calls, calls with foreign arguments, distinct elements");
    for i in 0..s.r { for j in 0..s.c { ensure_eq!(out.get((i, j)).ok(), Some(&(T::norm((i * s.c + j + 1) as u32), scalar.0)), "{who}: element ({i}, {j})"); } }
    // references into both operands may be kept
    let out: Matrix<(&T, &(u32, String))> = m.scalar_operation(&scalar, |e, k| (e, k)).map_err(|e| format!("{who}: {e:?}"))?;
    for (p, (e, k)) in out.iter_elements().enumerate() { ensure!(at(e) == base + p * size_of::<T>() && std::ptr::eq(*k, &scalar), "{who}: kept references, memory position {p}"); }
    drop(out);

    let who = "scalar_operation_assign";
    let (mut calls, mut other) = (0usize, 0usize);
    let mut hit = HashSet::new();
    let me = &m as *const _ as usize;
    let before = led::tally();
    let ret = m.scalar_operation_assign(&scalar, |e, k| {
        calls += 1;
        if !std::ptr::eq(k, &scalar) { other += 1 }
        if !zst && !hit.insert(e as *mut T as usize) { other += 1 }
        let v = e.val() ^ k.0;
        e.set(v);
    }) as *const Matrix<T> as usize;
    ensure_eq!(ret, me, "{who}: returned reference");
    ensure_eq!((calls, other), (n, 0), "{who}: closure calls, calls with foreign or repeated arguments");
    ensure_eq!(led::tally(), before, "{who}: elements created or dropped");
    head(m.nrows(), m.ncols(), m.size(), m.order(), who)?;
    for i in 0..s.r { for j in 0..s.c { ensure_eq!(m.get((i, j)).map(|e| e.val()).ok(), Some(T::norm((i * s.c + j + 1) as u32 ^ scalar.0)), "{who}: element ({i}, {j})"); } }

    let who = "scalar_operation_consume_self";
    let ids: HashSet<u32> = m.iter_elements().map(|e| e.id()).collect();
    let (mut calls, mut other) = (0usize, 0usize);
    let before = led::tally();
    let out: Matrix<(T, u32)> = m.scalar_operation_consume_self(&scalar, |e, k| { calls += 1; if !std::ptr::eq(k, &scalar) || !ids.contains(&e.id()) { other += 1 } (e, k.0) }).map_err(|e| format!("{who}: {e:?}"))?;
    ensure_eq!((calls, other), (n, 0), "{who}: closure calls, calls with foreign arguments");
    ensure_eq!(led::tally(), before, "{who}: elements created or dropped");
    head(out.nrows(), out.ncols(), out.size(), out.order(), who)?;
    for i in 0..s.r { for j in 0..s.c {
        ensure!(out.get((i, j)).is_ok_and(|(e, k)| e.val() == T::norm((i * s.c + j + 1) as u32 ^ scalar.0) && *k == scalar.0 && e.alive().is_ok()), "{who}: element ({i}, {j})");
    } }
    drop(out);
    if let Some(l) = live_of::<T>() { ensure_eq!(l, 0, "live elements at the end"); }
    st.add("closure calls watched", 3 * n as u64);
    led::check()
}

/// Negation of element types of the user's own.
fn negation<T: Full>(s: S, st: &mut Stats) -> Result<(), String> {
    led::reset();
    {
        let toks: Vec<T> = (0..s.n()).map(|p| T::new((p * p + 3) as u32)).collect();
        let m = make(s, &toks)?;
        drop(toks);
        for (who, out) in [("-&m", -&m), ("-m", -m)] {
            ensure_eq!((out.nrows(), out.ncols(), out.size(), out.order()), (s.r, s.c, s.n(), s.ord), "{who}: shape, size and order");
            for i in 0..s.r { for j in 0..s.c { let p = i * s.c + j; ensure_eq!(out.get((i, j)).map(|e| e.val()).ok(), Some(T::norm(sem::neg(T::norm((p * p + 3) as u32)))), "{who}: element ({i}, {j})"); } }
            st.add("elements compared with the primitive operator", s.n() as u64);
        }
    }
    if let Some(l) = live_of::<T>() { ensure_eq!(l, 0, "live elements at the end"); }
    led::check()
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C18");
    let n = cx.pick(2, 300, 4000);
    types(&mut cx, n);
    if !cx.miri() { grid(&mut cx); }
    let n = cx.pick(4, 1000, 9000);
    for key in 0..n as u64 {
        let mut g = cx.rng("generic", key);
        let s = shape(&mut g, key, 20);
        cx.case("generic", key, s.n() > 0, || s.show(), |st| {
            match key % 5 {
                0 => generic::<Zt>(s, &mut g, st)?,
                1 => generic::<W4>(s, &mut g, st)?,
                2 => generic::<TBox>(s, &mut g, st)?,
                3 => generic::<P24>(s, &mut g, st)?,
                _ => generic::<T12>(s, &mut g, st)?,
            }
            if key % 2 == 0 { negation::<T12>(s, st) } else { negation::<W8>(s, st) }
        });
    }
    if cx.vast() {
        for (k, (r, c)) in VAST.into_iter().enumerate() { for (o, ord) in ORDERS.into_iter().enumerate() {
            let key = (k * 2 + o) as u64;
            let mut g = cx.rng("vast", key);
            let s = S { r, c, ord, how: k + o };
            cx.case("vast", key, true, || s.show(), |st| {
                generic::<W4>(s, &mut g, st)?;
                negation::<W8>(s, st)
            });
        } }
    }
    cx.together([0, 8, 80], |g, st| {
        for how in 0..12 {
            let s = S { r: g.below(12), c: g.below(12), ord: *g.pick(&ORDERS), how };
            generic::<W4>(s, g, st)?;
            negation::<W8>(s, st)?;
        }
        Ok(())
    });
    cx.finish()
}
