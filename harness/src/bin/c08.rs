//! C08: size and capacity limits, against 128-bit arithmetic, with the
//! allocator watching. Calls that must fail run under a watch that would see
//! (and refuse) any large request; calls that must get as far as allocating
//! or producing elements run in forked children that end at that point.
use harness::guard::{self, Child, Guard};
use harness::*;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

#[global_allocator]
static ALLOC: Guard = Guard;

const TOUCHED: i32 = 45;
const FITS: i32 = 44;
static IN_CHILD: AtomicBool = AtomicBool::new(false);
/// Called whenever the library asks for an element.
fn touched() { if IN_CHILD.load(SeqCst) { guard::exit(TOUCHED) } }

trait Sized0: Default + Clone + PartialEq + Send + Sync + 'static + Add<Output = Self> { fn mk() -> Self; }
struct Bytes<const N: usize>([u8; N]);
impl<const N: usize> Default for Bytes<N> { fn default() -> Self { touched(); Bytes([3; N]) } }
impl<const N: usize> Clone for Bytes<N> { fn clone(&self) -> Self { touched(); Bytes(self.0) } }
impl<const N: usize> PartialEq for Bytes<N> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<const N: usize> Add for Bytes<N> { type Output = Self; fn add(self, _: Self) -> Self { touched(); self } }
impl<const N: usize> Sized0 for Bytes<N> { fn mk() -> Self { Bytes([9; N]) } }
macro_rules! aligned { ($n:ident, $a:literal) => {
    #[repr(align($a))]
    struct $n(u8);
    impl Default for $n { fn default() -> Self { touched(); $n(3) } }
    impl Clone for $n { fn clone(&self) -> Self { touched(); $n(self.0) } }
    impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
    impl Add for $n { type Output = Self; fn add(self, _: Self) -> Self { touched(); self } }
    impl Sized0 for $n { fn mk() -> Self { $n(9) } }
}; }
aligned!(Al8, 8);
#[cfg(not(debug_assertions))]
aligned!(Al64, 64);

/// A zero-sized operand whose arithmetic yields elements of another type.
struct Src<U>(std::marker::PhantomData<fn() -> U>);
impl<U> Clone for Src<U> { fn clone(&self) -> Self { Src(std::marker::PhantomData) } }
impl<U: Sized0> Mul for Src<U> { type Output = U; fn mul(self, _: Self) -> U { touched(); U::mk() } }
impl<U: Sized0> Add for Src<U> { type Output = U; fn add(self, _: Self) -> U { touched(); U::mk() } }
impl<U: Sized0> Div for Src<U> { type Output = U; fn div(self, _: Self) -> U { touched(); U::mk() } }
impl<U: Sized0> Rem for Src<U> { type Output = U; fn rem(self, _: Self) -> U { touched(); U::mk() } }
impl<U: Sized0> Neg for Src<U> { type Output = U; fn neg(self) -> U { touched(); U::mk() } }
impl<U: Sized0> Sub for Src<U> { type Output = U; fn sub(self, _: Self) -> U { touched(); U::mk() } }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want { Fail(Error), Accept }

fn want<U>(r: usize, c: usize) -> Want {
    let n = r as u128 * c as u128;
    if n > usize::MAX as u128 { Want::Fail(Error::SizeOverflow) } else if n * size_of::<U>() as u128 > isize::MAX as u128 { Want::Fail(Error::CapacityOverflow) } else { Want::Accept }
}

const LIMIT: usize = 1 << 20;
/// Below this many bytes and elements the call is simply carried out.
const SMALL: u128 = 1 << 14;

fn code(r: &Result<(usize, usize, usize), Error>, shape: (usize, usize)) -> i32 {
    match r {
        Ok((a, b, n)) => if (*a, *b) == shape && a.checked_mul(*b) == Some(*n) { FITS } else { 46 },
        Err(Error::SizeOverflow) => 50,
        Err(Error::CapacityOverflow) => 51,
        Err(_) => 52,
    }
}
fn describe(c: Child) -> String {
    match c {
        Child::Exit(guard::ATTEMPTED) => "attempted a large allocation".into(),
        Child::Exit(TOUCHED) => "started producing elements".into(),
        Child::Exit(FITS) => "returned a matrix of the requested shape".into(),
        Child::Exit(46) => "returned a matrix of another shape, or with an incoherent size".into(),
        Child::Exit(50) => "returned SizeOverflow".into(),
        Child::Exit(51) => "returned CapacityOverflow".into(),
        Child::Exit(52) => "returned another error".into(),
        Child::Exit(53) => "panicked".into(),
        c => format!("{c:?}"),
    }
}

/// One call: `f` reports (nrows, ncols, size) of its result.
fn judge(what: &str, shape: (usize, usize), w: Want, bytes: u128, in_child: bool, st: &mut Stats, mut f: impl FnMut() -> Result<(usize, usize, usize), Error>) -> Result<(), String> {
    let n = shape.0 as u128 * shape.1 as u128;
    match w {
        Want::Fail(e) if !in_child => {
            let (r, biggest, _) = guard::watched(LIMIT, || catch(&mut f));
            let r = r.map_err(|p| format!("{what}: expected {e:?}, but {p}"))?;
            ensure_eq!(r.err(), Some(e), "{what}");
            ensure!(biggest < LIMIT, "{what}: the failing call requested {biggest} bytes");
            st.inc(if e == Error::SizeOverflow { "SizeOverflow calls" } else { "CapacityOverflow calls" });
        }
        Want::Accept if bytes <= SMALL && n <= SMALL && shape.0.max(shape.1) as u128 <= SMALL && !in_child => {
            let r = catch(&mut f).map_err(|p| format!("{what}: {p}"))?;
            match r {
                Ok((a, b, s)) => {
                    ensure_eq!((a, b), shape, "{what}: shape");
                    ensure_eq!(s as u128, n, "{what}: size");
                }
                Err(e) => return Err(format!("{what}: {e:?} although the request fits")),
            }
            st.inc("feasible calls carried out");
        }
        _ => {
            let r = guard::child(LIMIT, 2, || {
                IN_CHILD.store(w == Want::Accept && (bytes > SMALL || n > SMALL), SeqCst);
                match catch(&mut f) { Ok(r) => code(&r, shape), Err(p) => { eprintln!("child: {p}"); 53 } }
            });
            let good = match (w, r) {
                (_, Child::Unable) => { st.inc("children that could not be started"); return Ok(()) }
                (_, Child::Signal(24)) => { st.inc("children out of time"); return Ok(()) }
                (Want::Fail(Error::SizeOverflow), Child::Exit(50)) | (Want::Fail(Error::CapacityOverflow), Child::Exit(51)) => true,
                (Want::Accept, Child::Exit(guard::ATTEMPTED | TOUCHED | FITS)) => true,
                _ => false,
            };
            ensure!(good, "{what}: expected {w:?}, but the call {}", describe(r));
            st.inc(if w == Want::Accept { "large requests that reached allocation or elements" } else { "failing parallel calls" });
        }
    }
    Ok(())
}

fn dims<U>(m: Matrix<U>) -> (usize, usize, usize) { let r = (m.nrows(), m.ncols(), m.size()); if r.2 > 1 << 24 { std::mem::forget(m) } r }

/// A matrix of zero-sized elements of any shape, in any order.
fn zst<S>(r: usize, c: usize, o: Order) -> Matrix<S> {
    const { assert!(size_of::<S>() == 0) };
    let mut v: Vec<S> = vec![];
    unsafe { v.set_len(r * c) };
    let mut m = Matrix::from_row(v);
    m.set_order_without_rearrangement(o);
    m.reshape((r, c)).unwrap();
    m
}

fn shape_taking<U: Sized0>(r: usize, c: usize, o: Order, st: &mut Stats) -> Result<(), String> {
    let w = want::<U>(r, c);
    let bytes = (r as u128 * c as u128).saturating_mul(size_of::<U>() as u128);
    let s = (r, c);
    judge("with_default", s, w, bytes, false, st, || Matrix::<U>::with_default(s).map(dims))?;
    judge("with_value", s, w, bytes, false, st, || Matrix::with_value(s, U::mk()).map(dims))?;
    judge("with_initializer", s, w, bytes, false, st, || Matrix::with_initializer(s, |_| { touched(); U::mk() }).map(dims))?;
    // resizing an empty, a small and a used matrix
    for (a, b) in [(0, 0), (2, 3), (40, 1), (0, 7)] {
        let mut m = Matrix::<U>::with_default((a, b)).map_err(|e| format!("setup: {e:?}"))?;
        m.set_order(o);
        let cap = m.capacity();
        judge(&format!("resize of a {a}x{b} matrix"), s, w, bytes, false, st, || m.resize(s).map(|m| (m.nrows(), m.ncols(), m.size())))?;
        if w != Want::Accept {
            ensure_eq!((m.nrows(), m.ncols(), m.size(), m.order(), m.capacity()), (a, b, a * b, o, cap), "failed resize: the matrix changed");
        }
        if m.size() > 1 << 24 { std::mem::forget(m) }
    }
    // reshape: any other size is a mismatch
    for (a, b) in [(0, 0), (1, 1), (2, 3), (4, 6), (0, 9), (1, 64)] {
        let mut m = Matrix::<U>::with_default((a, b)).map_err(|e| format!("setup: {e:?}"))?;
        m.set_order(o);
        let fits = r as u128 * c as u128 == a as u128 * b as u128;
        let (res, biggest, _) = guard::watched(LIMIT, || catch(|| m.reshape(s).map(|m| (m.nrows(), m.ncols()))));
        let res = res.map_err(|p| format!("reshape of {a}x{b}: {p}"))?;
        ensure_eq!(res, if fits { Ok(s) } else { Err(Error::SizeMismatch) }, "reshape of {a}x{b}");
        ensure!(biggest < LIMIT, "reshape of {a}x{b}: requested {biggest} bytes");
        ensure_eq!((m.nrows(), m.ncols(), m.size()), if fits { (r, c, a * b) } else { (a, b, a * b) }, "after reshape of {a}x{b}");
        st.inc(if fits { "reshapes to the same size" } else { "reshapes to another size" });
    }
    // products with an empty inner dimension
    let mut l = Matrix::<Src<U>>::new();
    l.set_order(o);
    let mut k = Matrix::<Src<U>>::new();
    k.reshape((0, c)).map_err(|e| format!("reshape to 0x{c}: {e:?}"))?;
    l.reshape((r, 0)).map_err(|e| format!("reshape to {r}x0: {e:?}"))?;
    judge("multiply, inner dimension 0", s, w, bytes, false, st, || l.clone().multiply(k.clone()).map(dims))?;
    judge("multiplication_like_operation, inner dimension 0", s, w, bytes, false, st, || l.clone().multiplication_like_operation(k.clone(), |_, _| { touched(); U::mk() }).map(dims))?;
    if w != Want::Accept {
        // the operator has no way to report an error other than a panic
        let (x, biggest, _) = guard::watched(LIMIT, || catch(|| dims(&l * &k)));
        ensure!(x.is_err(), "&l * &k, inner dimension 0: returned {x:?}, which cannot exist");
        ensure!(biggest < LIMIT, "&l * &k, inner dimension 0: requested {biggest} bytes");
        st.inc("overflowing operator calls");
    }
    let mut lw = Matrix::<u64>::new();
    lw.set_order(o);
    lw.reshape((r, 0)).map_err(|e| format!("reshape to {r}x0: {e:?}"))?;
    judge("multiplication_like_operation of u64, inner dimension 0", s, w, bytes, false, st, || lw.clone().multiplication_like_operation(k.clone(), |_, _| { touched(); U::mk() }).map(dims))?;
    // products of zero-sized operands with inner dimension 1
    // (in the orders that need no rearranging, which would take forever)
    if r as u128 * c as u128 == 0 && r.max(c) as u128 > SMALL { return Ok(()); }
    // nor where working memory (a list of the columns, say) would be enormous
    if w == Want::Accept && r.max(c) as u128 > SMALL { return Ok(()); }
    let (x, y) = ORDERS.into();
    judge("multiply, inner dimension 1", s, w, bytes, false, st, || zst::<Src<U>>(r, 1, x).multiply(zst::<Src<U>>(1, c, y)).map(dims))?;
    judge("multiplication_like_operation, inner dimension 1", s, w, bytes, false, st, || zst::<()>(r, 1, x).multiplication_like_operation(zst::<()>(1, c, y), |_, _| { touched(); U::mk() }).map(dims))?;
    Ok(())
}

fn mapping<U: Sized0>(r: usize, c: usize, o: Order, p: Order, st: &mut Stats) -> Result<(), String> {
    let w = want::<U>(r, c);
    let bytes = (r as u128 * c as u128).saturating_mul(size_of::<U>() as u128);
    let s = (r, c);
    let mk = || { touched(); U::mk() };
    let m = zst::<()>(r, c, o);
    let n = zst::<()>(r, c, p);
    judge("map", s, w, bytes, false, st, || zst::<()>(r, c, o).map(|_| mk()).map(dims))?;
    judge("map_ref", s, w, bytes, false, st, || m.map_ref(|_| mk()).map(dims))?;
    judge("scalar_operation", s, w, bytes, false, st, || m.scalar_operation(&5, |_, _| mk()).map(dims))?;
    judge("scalar_operation_consume_self", s, w, bytes, false, st, || zst::<()>(r, c, o).scalar_operation_consume_self(&5, |_, _| mk()).map(dims))?;
    judge("elementwise_operation", s, w, bytes, false, st, || m.elementwise_operation(&n, |_, _| mk()).map(dims))?;
    judge("elementwise_operation_consume_self", s, w, bytes, false, st, || zst::<()>(r, c, o).elementwise_operation_consume_self(&n, |_, _| mk()).map(dims))?;
    let (a, b) = (zst::<Src<U>>(r, c, o), zst::<Src<U>>(r, c, p));
    macro_rules! named { ($($f:ident $g:ident)*) => { $(
        judge(stringify!($f), s, w, bytes, false, st, || a.$f(&b).map(dims))?;
        judge(stringify!($g), s, w, bytes, false, st, || zst::<Src<U>>(r, c, o).$g(&b).map(dims))?;
    )* }; }
    named!(elementwise_add elementwise_add_consume_self elementwise_sub elementwise_sub_consume_self elementwise_mul elementwise_mul_consume_self
        elementwise_div elementwise_div_consume_self elementwise_rem elementwise_rem_consume_self);
    if w != Want::Accept {
        // operators have no way to report an error other than a panic
        macro_rules! op { ($($what:literal $e:expr;)*) => { $(
            let (x, biggest, _) = guard::watched(LIMIT, || catch(|| dims($e)));
            ensure!(x.is_err(), "{}: returned {x:?}, which cannot exist", $what);
            ensure!(biggest < LIMIT, "{}: requested {biggest} bytes", $what);
            st.inc("overflowing operator calls");
        )* }; }
        op!("&a + &b" &a + &b; "a - &b" zst::<Src<U>>(r, c, o) - &b; "&a + b" &a + zst::<Src<U>>(r, c, p); "a - b" zst::<Src<U>>(r, c, o) - zst::<Src<U>>(r, c, p);
            "-&a" -&a; "-a" -zst::<Src<U>>(r, c, o););
    }
    // never in this process: a forked child of a process with a thread pool
    // could not use it
    if bytes > SMALL || r.wrapping_mul(c) as u128 > SMALL {
        judge("par_map", s, w, bytes, true, st, || zst::<()>(r, c, o).par_map(|_| mk()).map(dims))?;
        judge("par_map_ref", s, w, bytes, true, st, || m.par_map_ref(|_| mk()).map(dims))?;
    }
    Ok(())
}

/// The inverse of an odd number modulo 2^64.
fn inverse(a: usize) -> usize {
    let mut x = a;
    for _ in 0..6 { x = x.wrapping_mul(2usize.wrapping_sub(a.wrapping_mul(x))); }
    x
}

fn boundary(size: usize, g: &mut Rng, extra: usize) -> Vec<(usize, usize)> {
    let m = usize::MAX;
    let i = isize::MAX as usize;
    let mut v = vec![(0, 0), (0, 1), (1, 0), (0, m), (m, 0), (1, 1), (2, 3), (7, 5), (1, 100), (100, 1), (32, 33), (m, m), (m, 1), (1, m), (m, 2), (2, m), (1 << 32, 1 << 32), ((1 << 32) - 1, (1 << 32) + 1), ((1 << 32) + 1, (1 << 32) - 1), (1 << 32, (1 << 32) - 1), (1 << 63, 2), (2, 1 << 63), (1 << 63, 1), (1, 1 << 63), (i, 1), (1, i), (i, 2), (2, i), (i, 3), (3, i), (1 << 62, 4), (4, 1 << 62), (m / 3, 3), (3, m / 3), (m / 3 + 1, 3), (3, m / 3 + 1), (m / 5, 5), (5, m / 5 + 1), (m / 2, 2), (m / 2 + 1, 2), (2, m / 2 + 1)];
    // element counts around the byte limit
    let top = i / size.max(1);
    for n in [top, top.saturating_sub(1), top.saturating_add(1), top.saturating_add(2), top / 2, top / 2 + 1] {
        v.extend([(n, 1), (1, n)]);
        for d in [2, 3, 4, 5, 7, 255, 256, 65536, 65537, 1 << 31, (1 << 32) - 1] {
            let q = n / d;
            v.extend([(q, d), (d, q), (q.saturating_add(1), d), (d, q.saturating_add(1))]);
        }
    }
    // products that wrap around to something small
    for t in [0usize, 1, 2, 6, 24, 9, 64] {
        for _ in 0..3 {
            let a = g.next() as usize | 1;
            v.push((a, t.wrapping_mul(inverse(a))));
            v.push((t.wrapping_mul(inverse(a)), a));
        }
        for k in [1usize, 16, 31, 33, 48, 62] { v.push((1 << k, (1 << (64 - k)) | if k == 1 { 0 } else { 0 })); if t > 0 { v.push((1 << k, (1usize << (64 - k)).wrapping_add(t >> k.min(6)))) } }
    }
    // totals in bytes that wrap around to something small
    for n in [(1u128 << 64) / size.max(1) as u128, (1u128 << 65) / size.max(1) as u128] {
        for d in 0..3 { let x = (n + d) as usize; v.extend([(x, 1), (1, x), (x / 2, 2), (x / 4 + 1, 4)]); }
    }
    for _ in 0..extra {
        let (a, b) = (g.below(64) as u32, g.below(64) as u32);
        v.push(((g.next() as usize) >> a, (g.next() as usize) >> b));
        // close to either limit
        let lim = if g.bool() { m as u128 } else { top as u128 };
        let r = ((g.next() as usize) >> g.below(64)).max(1);
        let c = (lim / r as u128) as usize;
        v.push((r, c.saturating_add(g.below(3)).saturating_sub(1)));
    }
    // a few empty shapes are enough: calls that walk a huge empty extent are slow
    v.retain(|(r, c)| *r != 0 && *c != 0 || [0, 1, m].contains(r) && [0, 1, m].contains(c));
    v.sort_unstable();
    v.dedup();
    v
}

fn limits<U: Sized0>(cx: &mut Ctx, name: &str, extra: [usize; 2]) {
    let mut g = cx.rng(name, 0);
    let list = boundary(size_of::<U>(), &mut g, extra[cx.thorough as usize]);
    for (k, (r, c)) in list.into_iter().enumerate() { for (o, ord) in ORDERS.into_iter().enumerate() {
        if o == 1 && k % 2 == 1 && !cx.thorough { continue; }
        let big = r as u128 * c as u128 > SMALL;
        cx.case(&format!("shapes-{name}"), (k * 2 + o) as u64, big, || format!("{r} x {c}{} of {} bytes each", oname(ord), size_of::<U>()), |st| {
            st.seen("distinct shapes", (r as u64).wrapping_mul(0x9E37_79B9).wrapping_add(c as u64));
            shape_taking::<U>(r, c, ord, st)
        });
        if r as u128 * c as u128 <= usize::MAX as u128 {
            cx.case(&format!("maps-{name}"), (k * 2 + o) as u64, big, || format!("{r} x {c}{} of () to {} bytes each", oname(ord), size_of::<U>()), |st| mapping::<U>(r, c, ord, if k % 4 < 2 { ord } else { ops::flip(ord) }, st));
        }
    } }
}

/// Conversions from rows of zero-sized elements.
fn rows(cx: &mut Ctx) {
    let m = usize::MAX;
    let row = |n: usize| { let mut v: Vec<()> = vec![]; unsafe { v.set_len(n) }; v };
    let mut list = vec![];
    for n in [0usize, 1, 2, 3, 5, 16] { for c in [0, 1, 7, m, m - 1, m / 2, m / 2 + 1, m / 3, m / 3 + 1, m / 5, m / 5 + 1, m / 16, m / 16 + 1, 1 << 63, 1 << 62, 1 << 60, (1 << 60) - 1] { list.push((n, c)); } }
    for (k, (n, c)) in list.into_iter().enumerate() {
        let count = n as u128 * c as u128;
        let over = count > m as u128;
        cx.case("rows-zst", k as u64, over, || format!("{n} rows of {c} zero-sized elements"), |st| {
            let shape = (n, if n == 0 { 0 } else { c });
            let w = if over { Want::Fail(Error::SizeOverflow) } else { Want::Accept };
            // (carrying out a conversion of 2^60 elements is only possible where it does not loop)
            if !over && count > SMALL { return Ok(()); }
            judge("TryFrom<Vec<Vec<()>>>", shape, w, 0, false, st, || Matrix::try_from((0..n).map(|_| row(c)).collect::<Vec<_>>()).map(dims))?;
            let v: Vec<Vec<()>> = (0..n).map(|_| row(c)).collect();
            judge("TryFrom<&[Vec<()>]>", shape, w, 0, false, st, || Matrix::try_from(&v[..]).map(dims))?;
            macro_rules! arr { ($($n:literal)*) => { match n { $($n => judge("TryFrom<[Vec<()>; N]>", shape, w, 0, false, st, || Matrix::try_from(std::array::from_fn::<Vec<()>, $n, _>(|_| row(c))).map(dims))?,)* _ => {} } }; }
            arr!(1 2 3 5 16);
            Ok(())
        });
    }
}

fn main() {
    let mut cx = Ctx::from_args("C08");
    rows(&mut cx);
    limits::<Bytes<0>>(&mut cx, "0", [40, 400]);
    limits::<Bytes<1>>(&mut cx, "1", [40, 400]);
    limits::<Bytes<3>>(&mut cx, "3", [40, 400]);
    limits::<Al8>(&mut cx, "8a8", [40, 400]);
    limits::<Bytes<4096>>(&mut cx, "4096", [40, 400]);
    #[cfg(not(debug_assertions))]
    {
        limits::<Bytes<2>>(&mut cx, "2", [10, 100]);
        limits::<Bytes<24>>(&mut cx, "24", [10, 100]);
        limits::<Bytes<65537>>(&mut cx, "65537", [10, 100]);
        limits::<Al64>(&mut cx, "64a64", [10, 100]);
    }
    cx.finish()
}
