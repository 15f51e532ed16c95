//! C14: overwrite copies exactly the overlap, as clones, and touches nothing
//! else.
use harness::*;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
struct Side { r: usize, c: usize, ord: Order, how: usize }
impl Side {
    fn show(&self) -> String { format!("{}x{}{}/{}", self.r, self.c, oname(self.ord), self.how) }
}

fn make<T>(s: Side, f: impl Fn(usize, usize) -> T + Copy) -> Result<Matrix<T>, String> {
    let g = |r: usize, c: usize, ord: Order, spare: usize, f: &dyn Fn(usize, usize) -> T| -> Result<Matrix<T>, String> {
        let mut mem = Vec::with_capacity(r * c + spare);
        for p in 0..r * c { let (i, j) = if ord == Order::RowMajor { (p / c, p % c) } else { (p % r, p / r) }; mem.push(f(i, j)) }
        let mut m = Matrix::from_row(mem);
        m.set_order_without_rearrangement(ord);
        m.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
        Ok(m)
    };
    let m = match s.how % 4 {
        0 => g(s.r, s.c, s.ord, 0, &f)?,
        1 => g(s.r, s.c, s.ord, 5 + s.r, &f)?,
        2 => { let mut m = g(s.r, s.c, ops::flip(s.ord), 0, &f)?; m.switch_order(); m }
        _ => { let mut m = g(s.c, s.r, s.ord, 3, &|i, j| f(j, i))?; m.transpose(); m }
    };
    if m.shape() != Shape::new(s.r, s.c) || m.order() != s.ord { return Err(format!("setup: {}x{} {:?}", m.nrows(), m.ncols(), m.order())); }
    Ok(m)
}

fn head<T>(m: &Matrix<T>, s: Side, what: &str) -> Result<(), String> {
    ensure_eq!((m.nrows(), m.ncols(), m.size(), m.order()), (s.r, s.c, s.r * s.c, s.ord), "{what}: shape, size and order");
    ensure_eq!(m.iter_elements().count(), s.r * s.c, "{what}: number of elements");
    Ok(())
}

fn tokens<T: Elem + Clone>(d: Side, s: Side, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let what = format!("overwrite of {} by {}", d.show(), s.show());
    let mut dest = make(d, |i, j| T::new((1 << 20 | i << 10 | j) as u32))?;
    let src = make(s, |i, j| T::new((2 << 20 | i << 10 | j) as u32))?;
    let ids = |m: &Matrix<T>, t: Side| -> Vec<u32> { (0..t.r * t.c).map(|p| m.get((p / t.c, p % t.c)).map_or(0, |e| e.id())).collect() };
    let addrs = |m: &Matrix<T>, t: Side| -> Vec<usize> { (0..t.r * t.c).map(|p| m.get((p / t.c, p % t.c)).map_or(0, |e| e as *const T as usize)).collect() };
    let (did, sid, sad) = (ids(&dest, d), ids(&src, s), addrs(&src, s));
    let before = led::tally();
    dest.overwrite(&src);
    let after = led::tally();
    head(&dest, d, &what)?;
    head(&src, s, &format!("{what}: source"))?;
    ensure_eq!(ids(&src, s), sid, "{what}: identities of the source's elements");
    ensure_eq!(addrs(&src, s), sad, "{what}: addresses of the source's elements");
    let (mr, mc) = (d.r.min(s.r), d.c.min(s.c));
    let mut fresh = HashSet::new();
    for i in 0..d.r { for j in 0..d.c {
        let e = dest.get((i, j)).map_err(|e| format!("{what}: get(({i}, {j})): {e:?}"))?;
        e.alive().map_err(|x| format!("{what}: element ({i}, {j}): {x}"))?;
        let inside = i < mr && j < mc;
        let v = T::norm((if inside { 2 } else { 1 } << 20 | i << 10 | j) as u32);
        ensure!(e.val() == v, "{what}: element ({i}, {j}) is {:x}, expected {v:x}", e.val());
        if e.id() == 0 { continue; }
        if inside {
            ensure!(!sid.contains(&e.id()) || sid.len() > 4000, "{what}: element ({i}, {j}) is an element of the source, not a clone");
            ensure!(fresh.insert(e.id()), "{what}: element ({i}, {j}) duplicates another one");
        } else {
            ensure!(e.id() == did[i * d.c + j], "{what}: element ({i}, {j}), outside the overlap, was replaced");
        }
    } }
    for i in 0..s.r { for j in 0..s.c {
        let e = src.get((i, j)).map_err(|e| format!("{what}: source get(({i}, {j})): {e:?}"))?;
        e.alive().map_err(|x| format!("{what}: source element ({i}, {j}): {x}"))?;
        let v = T::norm((2 << 20 | i << 10 | j) as u32);
        ensure!(e.val() == v, "{what}: source element ({i}, {j}) changed");
    } }
    if let Some(n) = live_of::<T>() {
        ensure_eq!(n, (d.r * d.c + s.r * s.c) as i64, "{what}: live elements");
    }
    if live_of::<T>().is_some() || T::new(1).id() != 0 {
        ensure!(after.clones - before.clones >= (mr * mc) as u64, "{what}: {} clones for {} copied elements", after.clones - before.clones, mr * mc);
        ensure_eq!(after.defaults, before.defaults, "{what}: default values made");
    }
    st.add("elements copied", (mr * mc) as u64);
    st.add("elements kept", (d.r * d.c - mr * mc) as u64);
    st.seen("overlap kinds", [d.r < s.r, d.r == s.r, d.c < s.c, d.c == s.c, d.ord == s.ord, d.ord == Order::RowMajor, mr == 0, mc == 0].iter().fold(0, |h, b| h * 2 + *b as u64));
    drop(src);
    contents_after_source(&dest, d, mr, mc, &what)?;
    drop(dest);
    if let Some(n) = live_of::<T>() { ensure_eq!(n, 0, "{what}: live elements after dropping both"); }
    led::check()
}
fn contents_after_source<T: Elem>(dest: &Matrix<T>, d: Side, mr: usize, mc: usize, what: &str) -> Result<(), String> {
    for i in 0..d.r { for j in 0..d.c {
        let v = T::norm((if i < mr && j < mc { 2 } else { 1 } << 20 | i << 10 | j) as u32);
        ensure!(dest.get((i, j)).is_ok_and(|e| e.val() == v && e.alive().is_ok()), "{what}: element ({i}, {j}) after the source was dropped");
    } }
    Ok(())
}

/// The same on ordinary types (for which the library or std may take other
/// paths): copyable, heap-owning.
fn plain<T: Clone + PartialEq + std::fmt::Debug>(d: Side, s: Side, f: impl Fn(u32) -> T + Copy) -> Result<(), String> {
    let what = format!("overwrite of {} by {}", d.show(), s.show());
    let v = |k: usize, i: usize, j: usize| f((k * 100 + 1 + i * 37 + j * 3) as u32);
    let mut dest = make(d, |i, j| v(1, i, j))?;
    let src = make(s, |i, j| v(2, i, j))?;
    dest.overwrite(&src);
    head(&dest, d, &what)?;
    head(&src, s, &what)?;
    let (mr, mc) = (d.r.min(s.r), d.c.min(s.c));
    for i in 0..d.r { for j in 0..d.c { ensure_eq!(dest.get((i, j)).ok(), Some(&v(if i < mr && j < mc { 2 } else { 1 }, i, j)), "{what}: element ({i}, {j})"); } }
    for i in 0..s.r { for j in 0..s.c { ensure_eq!(src.get((i, j)).ok(), Some(&v(2, i, j)), "{what}: source element ({i}, {j})"); } }
    Ok(())
}
/// Shared pointers count their own clones.
fn shared(d: Side, s: Side) -> Result<(), String> {
    let what = format!("overwrite of {} by {}", d.show(), s.show());
    let old: Vec<Rc<usize>> = (0..d.r * d.c).map(Rc::new).collect();
    let new: Vec<Rc<usize>> = (0..s.r * s.c).map(Rc::new).collect();
    let mut dest = make(d, |i, j| old[i * d.c + j].clone())?;
    let src = make(s, |i, j| new[i * s.c + j].clone())?;
    let (mr, mc) = (d.r.min(s.r), d.c.min(s.c));
    dest.overwrite(&src);
    for i in 0..d.r { for j in 0..d.c {
        let inside = i < mr && j < mc;
        ensure_eq!(Rc::strong_count(&old[i * d.c + j]), 1 + !inside as usize, "{what}: owners of the old element ({i}, {j})");
        let want = if inside { &new[i * s.c + j] } else { &old[i * d.c + j] };
        ensure!(dest.get((i, j)).is_ok_and(|e| Rc::ptr_eq(e, want)), "{what}: element ({i}, {j})");
    } }
    for i in 0..s.r { for j in 0..s.c {
        ensure_eq!(Rc::strong_count(&new[i * s.c + j]), 2 + (i < mr && j < mc) as usize, "{what}: owners of the source element ({i}, {j})");
    } }
    drop(src);
    drop(dest);
    ensure!(old.iter().chain(&new).all(|e| Rc::strong_count(e) == 1), "{what}: owners left after dropping both");
    Ok(())
}

fn all(d: Side, s: Side, st: &mut Stats) -> Result<(), String> {
    tokens::<T12>(d, s, st)?;
    tokens::<Nd>(d, s, st)?;
    plain(d, s, |v| v)?;
    shared(d, s)
}
fn extra(d: Side, s: Side, st: &mut Stats) -> Result<(), String> {
    tokens::<TBox>(d, s, st)?;
    tokens::<Nest>(d, s, st)?;
    tokens::<Bx>(d, s, st)?;
    tokens::<Fat>(d, s, st)?;
    plain(d, s, |v| v as u64 ^ 0xFF << 40)?;
    plain(d, s, |v| v as u16)?;
    tokens::<Zt>(d, s, st)?;
    plain(d, s, |v| Wide::<2>::new(v))?;
    plain(d, s, |v| Wide::<4>::new(v))?;
    plain(d, s, |v| Half::<5>::new(v))?;
    plain(d, s, |v| v as u8)?;
    plain(d, s, |v| [v as u64, !(v as u64), 7])?;
    plain(d, s, |v| v.to_string())
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C14");
    let d = cx.pick(2, 4, 6);
    let miri = cx.miri();
    for r in 0..=d { for c in 0..=d { for r2 in 0..=d { for c2 in 0..=d {
        let key = (((r * 8 + c) * 8 + r2) * 8 + c2) as u64;
        if miri && !cx.thorough && key % 3 != 0 { continue; }
        cx.case("shapes", key, r * c * r2 * c2 > 0, || format!("{r}x{c} overwritten by {r2}x{c2}, all orders"), |st| {
            for w in 0..4 {
                let how = key as usize + w;
                let a = Side { r, c, ord: ORDERS[w / 2], how: how * 5 + 1 };
                let b = Side { r: r2, c: c2, ord: ORDERS[w % 2], how: how * 7 / 3 };
                if miri { if w % 2 == 0 { tokens::<TBox>(a, b, st)? } else { tokens::<Nd>(a, b, st)? } } else {
                    all(a, b, st)?;
                    if how % 3 == 0 { extra(a, b, st)?; }
                }
            }
            Ok(())
        });
    } } } }
    if !miri {
        let n = cx.pick(0, 1500, 12_000);
        for key in 0..n as u64 {
            let mut g = cx.rng("random", key);
            let side = |g: &mut Rng| {
                let (r, c) = match g.below(8) {
                    0 => (1, g.range(1, 300)), 1 => (g.range(1, 300), 1), 2 => { let n = 1 << g.below(6); (n, n + g.below(3)) }
                    3 => (g.below(3), g.below(40)), _ => (g.range(1, 40), g.range(1, 40)),
                };
                Side { r, c, ord: *g.pick(&ORDERS), how: g.below(4) }
            };
            let a = side(&mut g);
            let mut b = side(&mut g);
            match g.below(6) { 0 => { b.r = a.r } 1 => { b.c = a.c } 2 => { b.r = a.c; b.c = a.r } 3 => { b.r = a.r + g.below(3) } _ => {} }
            cx.case("random", key, true, || format!("{} overwritten by {}", a.show(), b.show()), |st| {
                all(a, b, st)?;
                if key % 4 == 0 { extra(a, b, st)?; }
                Ok(())
            });
        }
        let list = [((100, 100), (100, 100)), ((5000, 1), (1, 5000)), ((1, 5000), (5000, 1)), ((64, 64), (65, 63)), ((128, 9), (9, 128)), ((255, 4), (256, 3)), ((1000, 3), (999, 4))];
        let mut list = list.to_vec();
        if cx.vast() { list.extend([((300, 300), (290, 310)), ((290, 310), (257, 256)), ((1, 66_000), (2, 33_100)), ((66_000, 2), (33_100, 3)), ((3, 66_000), (3, 66_001)), ((66_001, 3), (66_000, 3)), ((257, 300), (300, 257))]); }
        for (k, (p, q)) in list.into_iter().enumerate() { for w in 0..4 {
            let (a, b) = (Side { r: p.0, c: p.1, ord: ORDERS[w / 2], how: k }, Side { r: q.0, c: q.1, ord: ORDERS[w % 2], how: k + w });
            cx.case("large", (k * 4 + w) as u64, true, || format!("{} overwritten by {}", a.show(), b.show()), |_| {
                plain(a, b, |v| v)?;
                plain(a, b, |v| v.to_string())?;
                shared(a, b)
            });
        } }
    }
    cx.together([0, 8, 80], |g, _| {
        for how in 0..40 {
            let mut side = || Side { r: g.below(14), c: g.below(14), ord: *g.pick(&ORDERS), how };
            let (a, b) = (side(), side());
            plain(a, b, |v| v)?;
            plain(a, b, |v| v.to_string())?;
        }
        Ok(())
    });
    cx.finish()
}
