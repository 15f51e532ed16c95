//! C15: element iterators visit memory order exactly once; indexed variants
//! pair every element with its own coordinates.
use harness::*;
use rayon::iter::ParallelIterator;
use std::collections::HashSet;
use std::sync::Mutex;

#[derive(Clone, Copy, Debug)]
struct S { r: usize, c: usize, ord: Order, how: usize }
impl S {
    fn n(&self) -> usize { self.r * self.c }
    fn show(&self) -> String { format!("{}x{}{}/{}", self.r, self.c, oname(self.ord), self.how) }
    fn at(&self, p: usize) -> (usize, usize) { if self.ord == Order::RowMajor { (p / self.c, p % self.c) } else { (p % self.r, p / self.r) } }
}
fn v(i: usize, j: usize) -> u32 { (i << 12 | j) as u32 + 1 }

fn make<T: Elem>(s: S) -> Result<Matrix<T>, String> {
    let model = Model::build(s.r, s.c, s.ord, v);
    let mut m = match s.how % 6 {
        0 => realize::<T>(&model)?,
        1 => { let mut m = realize::<T>(&model.transposed())?; m.transpose(); m }
        2 => { let mut o = model.clone(); o.ord = ops::flip(s.ord); let mut m = realize::<T>(&o)?; m.switch_order(); m }
        3 => { let mut t = model.transposed(); t.ord = ops::flip(s.ord); let mut m = realize::<T>(&t)?; m.switch_order_without_rearrangement(); m }
        4 => { // rows and columns exchanged there and back
            let mut m = realize::<T>(&model)?;
            if s.r > 1 { m.swap_rows(0, s.r - 1).unwrap(); m.swap_rows(s.r - 1, 0).unwrap(); }
            if s.c > 1 { m.swap_cols(0, s.c - 1).unwrap(); m.swap_cols(0, s.c - 1).unwrap(); }
            m
        }
        _ => { let mut m = realize::<T>(&model)?; let n = m.size(); m.reshape((n, 1)).unwrap(); m.reshape((s.r, s.c)).unwrap(); m }
    };
    if s.how % 2 == 0 { m.shrink_to_fit(); }
    ensure_eq!((m.nrows(), m.ncols(), m.order(), m.size()), (s.r, s.c, s.ord, s.n()), "setup");
    Ok(m)
}

/// Takes everything (or `stop` items) from both ends; `item` gets the position
/// the item stands for.
fn walk<I, X>(mut it: I, n: usize, g: &mut Rng, style: usize, stop: usize, who: &str, mut item: impl FnMut(usize, X) -> Result<(), String>) -> Result<bool, String>
where
    I: ExactSizeIterator<Item = X> + DoubleEndedIterator,
{
    let (mut lo, mut hi) = (0, n);
    let hint = |it: &I, left: usize| -> Result<(), String> {
        ensure_eq!(it.len(), left, "{who}: len()");
        ensure_eq!(it.size_hint(), (left, Some(left)), "{who}: size_hint()");
        Ok(())
    };
    hint(&it, n)?;
    let mut complete = true;
    let mut taken = 0;
    while lo < hi {
        if taken >= stop { return Ok(false); }
        taken += 1;
        let how = match style { 0 => 0, 1 => 1, 2 => taken % 2, 3 => g.below(2), _ => g.below(6) };
        let left = hi - lo;
        let k = if how >= 4 { g.below(4.min(left) + 1) } else { 0 };
        let (p, x, name) = match how {
            0 | 2 => { lo += 1; (lo - 1, it.next(), "next") }
            1 | 3 => { hi -= 1; (hi, it.next_back(), "next_back") }
            4 => { let x = it.nth(k); if k >= left { ensure!(x.is_none(), "{who}: nth({k}) of {left} yielded an item"); lo = hi; complete = false; continue; } if k > 0 { complete = false; } lo += k + 1; (lo - 1, x, "nth") }
            _ => { let x = it.nth_back(k); if k >= left { ensure!(x.is_none(), "{who}: nth_back({k}) of {left} yielded an item"); hi = lo; complete = false; continue; } if k > 0 { complete = false; } hi -= k + 1; (hi, x, "nth_back") }
        };
        let Some(x) = x else { return Err(format!("{who}: {name} ended with position {p} of {n} still to come")) };
        item(p, x)?;
        hint(&it, hi - lo)?;
    }
    ensure!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), "{who}: yields more than {n} items");
    hint(&it, 0)?;
    Ok(complete)
}

struct Geo { base: usize, size: usize, s: S }
impl Geo {
    fn of<T>(m: &Matrix<T>, s: S) -> Self { Geo { base: base_addr(m), size: size_of::<T>(), s } }
    fn here(&self, p: usize, got: usize, who: &str) -> Result<(), String> {
        let want = self.base + p * self.size;
        ensure!(got == want, "{who}: position {p} of {}: reference at buffer offset {}, expected {}", self.s.show(), got.wrapping_sub(self.base) as isize, p * self.size);
        Ok(())
    }
    /// The address the library itself gives for an index.
    fn paired(&self, ix: Index, got: usize, who: &str) -> Result<usize, String> {
        ensure!(ix.row < self.s.r && ix.col < self.s.c, "{who}: index ({}, {}) on {}", ix.row, ix.col, self.s.show());
        let p = flat(self.s.r, self.s.c, self.s.ord, ix.row, ix.col);
        let want = self.base + p * self.size;
        ensure!(got == want, "{who}: on {} paired ({}, {}) with the element at buffer offset {}, that index names offset {}", self.s.show(), ix.row, ix.col, got.wrapping_sub(self.base) as isize, p * self.size);
        Ok(p)
    }
}
fn value<T: Elem>(e: &T, s: S, p: usize, who: &str) -> Result<(), String> {
    let (i, j) = s.at(p);
    ensure!(e.val() == T::norm(v(i, j)), "{who}: position {p} of {}: value {:#x}, expected element ({i}, {j})", s.show(), e.val());
    e.alive().map_err(|x| format!("{who}: position {p}: {x}"))
}
fn once(seen: &mut HashSet<(usize, usize)>, ix: Index, s: S, who: &str) -> Result<(), String> {
    ensure!(ix.row < s.r && ix.col < s.c, "{who}: index ({}, {}) on {}", ix.row, ix.col, s.show());
    ensure!(seen.insert((ix.row, ix.col)), "{who}: index ({}, {}) twice on {}", ix.row, ix.col, s.show());
    Ok(())
}

fn sequential<T: Elem>(s: S, g: &mut Rng, styles: &[usize], st: &mut Stats) -> Result<(), String> {
    led::reset();
    let n = s.n();
    for &style in styles {
        let mut m = make::<T>(s)?;
        let geo = Geo::of(&m, s);
        // get agrees with the definition of memory order
        let want: Vec<usize> = (0..n).map(|p| m.get(s.at(p)).map_or(0, |e| e as *const T as usize)).collect();
        for (p, a) in want.iter().enumerate() { geo.here(p, *a, "get")?; }
        walk(m.iter_elements(), n, g, style, usize::MAX, "iter_elements", |p, e| { geo.here(p, e as *const T as usize, "iter_elements")?; value(e, s, p, "iter_elements") })?;
        walk(m.iter_elements_mut(), n, g, style, usize::MAX, "iter_elements_mut", |p, e| { geo.here(p, e as *mut T as usize, "iter_elements_mut")?; value(e, s, p, "iter_elements_mut") })?;
        // the references live together
        let held: Vec<&mut T> = m.iter_elements_mut().collect();
        ensure_eq!(held.len(), n, "iter_elements_mut: number of references");
        for (p, e) in held.into_iter().enumerate() { value(e, s, p, "iter_elements_mut, collected")?; e.set(!v(s.at(p).0, s.at(p).1)); }
        for (p, e) in m.iter_elements().enumerate() { let (i, j) = s.at(p); ensure!(e.val() == T::norm(!v(i, j)), "write through iter_elements_mut at position {p}"); }
        for e in m.iter_elements_mut() { let w = !e.val(); e.set(w); }

        for who in ["iter_elements_with_index", "iter_elements_mut_with_index"] {
            let mut seen = HashSet::new();
            let mut item = |ix: Index, a: usize| -> Result<(), String> { geo.paired(ix, a, who)?; once(&mut seen, ix, s, who) };
            let done = if who == "iter_elements_with_index" {
                walk(m.iter_elements_with_index(), n, g, style, usize::MAX, who, |_, (ix, e)| item(ix, e as *const T as usize))?
            } else {
                walk(m.iter_elements_mut_with_index(), n, g, style, usize::MAX, who, |_, (ix, e)| {
                    item(ix, e as *mut T as usize)?;
                    ensure!(e.val() == T::norm(v(ix.row, ix.col)), "{who}: value at ({}, {})", ix.row, ix.col);
                    Ok(())
                })?
            };
            ensure!(!done || seen.len() == n, "{who}: {} of {n} indices", seen.len());
        }
        // through get, index by index, as the statement has it
        for (ix, e) in m.iter_elements_with_index() {
            ensure!(m.get(ix).is_ok_and(|x| std::ptr::eq(x, e)), "get({ix:?}) is not the element paired with it on {}", s.show());
        }
        // consuming, completely or partly
        let ids: Vec<u32> = m.iter_elements().map(|e| e.id()).collect();
        let stop = if style >= 3 && g.bool() { g.below(n + 1) } else { usize::MAX };
        let before = led::tally();
        let mut out = vec![];
        walk(m.into_iter_elements(), n, g, style, stop, "into_iter_elements", |p, e| {
            value(&e, s, p, "into_iter_elements")?;
            ensure!(e.id() == ids[p], "into_iter_elements: position {p} is not the original element");
            if g_keep(p) { out.push(e) }
            Ok(())
        })?;
        check_live::<T>(out.len(), before, "into_iter_elements")?;
        drop(out);
        check_live::<T>(0, before, "into_iter_elements, items dropped")?;

        let m = make::<T>(s)?;
        let ids: Vec<u32> = m.iter_elements().map(|e| e.id()).collect();
        let before = led::tally();
        let mut seen = HashSet::new();
        let mut out = vec![];
        let who = "into_iter_elements_with_index";
        let done = walk(m.into_iter_elements_with_index(), n, g, style, stop, who, |_, (ix, e)| {
            once(&mut seen, ix, s, who)?;
            ensure!(e.val() == T::norm(v(ix.row, ix.col)), "{who}: value at ({}, {}) of {}: {:#x}", ix.row, ix.col, s.show(), e.val());
            ensure!(e.id() == ids[flat(s.r, s.c, s.ord, ix.row, ix.col)], "{who}: the element at ({}, {}) is not the original one", ix.row, ix.col);
            e.alive()?;
            out.push(e);
            Ok(())
        })?;
        ensure!(!done || seen.len() == n, "{who}: {} of {n} indices", seen.len());
        check_live::<T>(out.len(), before, who)?;
        drop(out);
        check_live::<T>(0, before, who)?;
        // whole-iterator adaptors
        let m = make::<T>(s)?;
        let fwd: Vec<u32> = (0..n).map(|p| { let (i, j) = s.at(p); T::norm(v(i, j)) }).collect();
        let mut bwd = fwd.clone();
        bwd.reverse();
        ensure_eq!(m.iter_elements().rev().map(|e| e.val()).collect::<Vec<_>>(), bwd, "iter_elements().rev()");
        ensure_eq!(m.iter_elements().fold(vec![], |mut a, e| { a.push(e.val()); a }), fwd, "iter_elements().fold()");
        ensure_eq!(m.iter_elements().rfold(vec![], |mut a, e| { a.push(e.val()); a }), bwd, "iter_elements().rfold()");
        ensure_eq!(m.iter_elements().last().map(|e| e.val()), fwd.last().copied(), "iter_elements().last()");
        for (ix, e) in m.iter_elements_with_index().rev() { geo_check(&m, ix, e, "iter_elements_with_index().rev()")?; }
        m.iter_elements_with_index().try_for_each(|(ix, e)| geo_check(&m, ix, e, "iter_elements_with_index().try_for_each()"))?;
        for (ix, e) in m.iter_elements_with_index().skip(n / 2).step_by(2) { geo_check(&m, ix, e, "iter_elements_with_index().skip().step_by()")?; }
        let out: Vec<T> = m.into_iter_elements().rev().collect();
        ensure_eq!(out.iter().map(|e| e.val()).collect::<Vec<_>>(), bwd, "into_iter_elements().rev()");
        drop(out);
        check_live::<T>(0, before, "after all iterators")?;
        st.add("elements visited", 12 * n as u64);
    }
    led::check()
}
fn g_keep(p: usize) -> bool { p % 3 != 1 }
fn geo_check<T>(m: &Matrix<T>, ix: Index, e: &T, who: &str) -> Result<(), String> {
    ensure!(m.get(ix).is_ok_and(|x| std::ptr::eq(x, e)), "{who}: get({ix:?}) is not the element paired with it on {}x{}{}", m.nrows(), m.ncols(), oname(m.order()));
    Ok(())
}
fn check_live<T: Elem>(want: usize, before: Tally, who: &str) -> Result<(), String> {
    if let Some(n) = live_of::<T>() {
        ensure_eq!(n, want as i64, "{who}: live elements");
        ensure_eq!(led::tally().clones, before.clones, "{who}: clones made");
    }
    led::check()
}

fn parallel<T: Elem>(s: S, pool: &rayon::ThreadPool, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let n = s.n();
    let mut m = make::<T>(s)?;
    let geo = Geo::of(&m, s);
    let complete = |got: Vec<Result<usize, String>>, who: &str| -> Result<(), String> {
        let mut seen = vec![false; n];
        for p in got { let p = p?; ensure!(!std::mem::replace(&mut seen[p], true), "{who}: position {p} of {} visited twice", s.show()); }
        ensure!(seen.iter().all(|b| *b), "{who}: position {:?} of {} not visited", seen.iter().position(|b| !b), s.show());
        Ok(())
    };
    let threads = Mutex::new(HashSet::new());
    let ran = || { threads.lock().unwrap().insert(rayon::current_thread_index()); };
    let who = "par_iter_elements_with_index";
    complete(pool.install(|| m.par_iter_elements_with_index().map(|(ix, e)| { ran(); geo.paired(ix, e as *const T as usize, who) }).collect()), who)?;
    let who = "par_iter_elements_mut_with_index";
    complete(pool.install(|| m.par_iter_elements_mut_with_index().map(|(ix, e)| { ran(); let w = !v(ix.row, ix.col); let r = geo.paired(ix, e as *mut T as usize, who); e.set(w); r }).collect()), who)?;
    for (p, e) in m.iter_elements().enumerate() { let (i, j) = s.at(p); ensure!(e.val() == T::norm(!v(i, j)), "{who}: write at position {p}"); }
    let who = "into_par_iter_elements_with_index";
    let ids: Vec<u32> = m.iter_elements().map(|e| e.id()).collect();
    let before = led::tally();
    let mut kept: Vec<T> = vec![];
    let mut got = vec![];
    let items: Vec<(Index, T)> = pool.install(|| m.into_par_iter_elements_with_index().map(|x| { ran(); x }).collect());
    check_live::<T>(n, before, who)?;
    for (ix, e) in items {
        ensure!(ix.row < s.r && ix.col < s.c, "{who}: index ({}, {}) on {}", ix.row, ix.col, s.show());
        let p = flat(s.r, s.c, s.ord, ix.row, ix.col);
        ensure!(e.val() == T::norm(!v(ix.row, ix.col)) && e.id() == ids[p], "{who}: paired ({}, {}) of {} with another element", ix.row, ix.col, s.show());
        got.push(Ok(p));
        kept.push(e);
    }
    complete(got, who)?;
    drop(kept);
    check_live::<T>(0, before, who)?;
    // items that are filtered out or dropped inside are dropped once as well
    let m = make::<T>(s)?;
    let ids: HashSet<u32> = m.iter_elements().map(|e| e.id()).collect();
    let before = led::tally();
    let kept: Vec<T> = pool.install(|| m.into_par_iter_elements().filter(|e| { ran(); e.val() % 2 == 0 }).collect());
    let want = (0..n).filter(|p| { let (i, j) = s.at(*p); T::norm(v(i, j)) % 2 == 0 }).count();
    ensure_eq!(kept.len(), want, "into_par_iter_elements: items");
    ensure!(kept.iter().all(|e| ids.contains(&e.id())), "into_par_iter_elements: foreign element");
    check_live::<T>(kept.len(), before, "into_par_iter_elements")?;
    drop(kept);
    check_live::<T>(0, before, "into_par_iter_elements")?;
    st.add("elements visited in parallel", 4 * n as u64);
    st.seen("threads at work", threads.into_inner().unwrap().len() as u64);
    led::check()
}

/// Indices whose computation must not overflow, on both ends of a matrix of
/// usize::MAX zero-sized elements.
fn huge(cx: &mut Ctx) {
    let m = usize::MAX;
    let list = [(m, 1), (1, m), (3, m / 3), (m / 3, 3), (65537, m / 65537), ((1 << 32) - 1, 1 << 32), (1 << 32, (1 << 32) - 1)];
    let mut key = 0;
    for (r, c) in list { for ord in ORDERS {
        key += 1;
        cx.case("huge", key, true, || format!("{r} x {c}{} of ()", oname(ord)), |st| {
            let mk = || -> Result<Matrix<()>, String> {
                let mut v: Vec<()> = Vec::new();
                unsafe { v.set_len(r * c) };
                let mut m = Matrix::from_row(v);
                m.set_order_without_rearrangement(ord);
                m.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
                Ok(m)
            };
            let s = S { r, c, ord, how: 0 };
            let mut m = mk()?;
            fn ends<X>(mut it: impl ExactSizeIterator<Item = (Index, X)> + DoubleEndedIterator, s: S, who: &str) -> Result<(), String> {
                let n = s.n();
                for k in 0..70 {
                    ensure_eq!(it.len(), n - 2 * k, "{who}: len()");
                    let (a, b) = (it.next().map(|x| (x.0.row, x.0.col)), it.next_back().map(|x| (x.0.row, x.0.col)));
                    ensure_eq!(a, Some(s.at(k)), "{who}: index of position {k} of {}", s.show());
                    ensure_eq!(b, Some(s.at(n - 1 - k)), "{who}: index of position {k} from the end of {}", s.show());
                }
                Ok(())
            }
            ends(m.iter_elements_with_index(), s, "iter_elements_with_index")?;
            ends(m.iter_elements_mut_with_index(), s, "iter_elements_mut_with_index")?;
            // not dropped: dropping the remainder may count it down
            let it = m.into_iter_elements_with_index();
            let mut it = std::mem::ManuallyDrop::new(it);
            ends(&mut *it, s, "into_iter_elements_with_index")?;
            st.inc("huge matrices entered from both ends");
            Ok(())
        });
    } }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C15");
    let miri = cx.miri();
    let d = cx.pick(2, 6, 9);
    let pools: Vec<rayon::ThreadPool> = (if miri { vec![2] } else { vec![1, 2, 3, 5, 8, 16] }).into_iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).collect();
    let mut list: Vec<(usize, usize)> = (0..=d).flat_map(|r| (0..=d).map(move |c| (r, c))).collect();
    if miri { list.extend([(3, 4), (5, 2)]); } else {
        list.extend([(1, 64), (64, 1), (7, 64), (64, 9), (31, 33), (128, 3), (3, 255), (0, 100), (100, 0), (17, 19)]);
        if cx.thorough { list.extend([(100, 100), (1, 4000), (4000, 1), (257, 63)]); }
        if cx.vast() { list.extend(&VAST[2..7]); }
    }
    for (k, &(r, c)) in list.iter().enumerate() { for (o, ord) in ORDERS.into_iter().enumerate() { for how in 0..6 {
        let key = (k * 2 + o) as u64 * 6 + how as u64;
        if miri && (key + how as u64) % 4 != 0 { continue; }
        if r * c > 400 && how % 3 != k % 3 && !cx.thorough { continue; }
        let mut g = cx.rng("forms", key);
        let s = S { r, c, ord, how };
        let styles: &[usize] = if miri { &[4] } else { &[0, 1, 2, 3, 4, 4, 4] };
        cx.case("forms", key, r * c > 0, || s.show(), |st| {
            if miri { return match key % 3 { 0 => sequential::<TBox>(s, &mut g, styles, st), 1 => sequential::<W4>(s, &mut g, styles, st), _ => sequential::<Unit>(s, &mut g, styles, st) }; }
            sequential::<T12>(s, &mut g, styles, st)?;
            match key % 4 {
                0 => { sequential::<Bx>(s, &mut g, styles, st)?; sequential::<B1>(s, &mut g, styles, st) }
                1 => { sequential::<W8>(s, &mut g, styles, st)?; sequential::<P24>(s, &mut g, styles, st) }
                2 => sequential::<Zt>(s, &mut g, styles, st),
                _ => sequential::<Unit>(s, &mut g, styles, st),
            }
        });
    } } }
    let mut list: Vec<(usize, usize)> = vec![(0, 0), (0, 3), (1, 1), (2, 3), (1, 7), (9, 1), (3, 5), (8, 8), (16, 17), (33, 31), (1, 1000), (1000, 1), (100, 100), (3, 1001)];
    if miri { list.truncate(4); }
    if cx.vast() { list.extend([(257, 300), (1, 66_000), (66_000, 1), (2, 33_100)]); }
    if cx.thorough && !miri { list.extend([(300, 300), (1023, 65), (64, 1024), (7, 9001)]); }
    for (k, &(r, c)) in list.iter().enumerate() { for (o, ord) in ORDERS.into_iter().enumerate() { for (w, pool) in pools.iter().enumerate() {
        let key = ((k * 2 + o) * 8 + w) as u64;
        let s = S { r, c, ord, how: k + o + w };
        cx.case("parallel", key, r * c > 1, || format!("{} in a pool of {}", s.show(), pool.current_num_threads()), |st| {
            parallel::<T12>(s, pool, st)?;
            if !miri {
                parallel::<W4>(s, pool, st)?;
                parallel::<TBox>(s, pool, st)?;
                if k % 2 == w % 2 { parallel::<Bx>(s, pool, st)?; parallel::<W8>(s, pool, st)?; }
            }
            Ok(())
        });
    } } }
    if !miri { huge(&mut cx); }
    cx.together([0, 6, 60], |g, st| {
        for how in 0..6 { sequential::<W4>(S { r: g.below(12), c: g.below(12), ord: *g.pick(&ORDERS), how }, g, &[0, 4], st)?; }
        Ok(())
    });
    cx.finish()
}
