//! C03: mutable row/column iterators under every interleaving of calls on the
//! outer iterator and on the iterators it yields.
use harness::*;
use std::collections::HashSet;

struct Geo { base: usize, r: usize, c: usize, ord: Order, rows: bool, size: usize, align: usize }
impl Geo {
    fn n(&self) -> usize { if self.rows { self.r } else { self.c } }
    fn len(&self) -> usize { if self.rows { self.c } else { self.r } }
    fn addr(&self, v: usize, p: usize) -> usize {
        let (i, j) = if self.rows { (v, p) } else { (p, v) };
        self.base + flat(self.r, self.c, self.ord, i, j) * self.size
    }
}

fn hints<I: ExactSizeIterator>(it: &I, want: usize, who: &str) -> Result<(), String> {
    ensure_eq!(it.len(), want, "{who}: len()");
    ensure_eq!(it.size_hint(), (want, Some(want)), "{who}: size_hint()");
    Ok(())
}

/// How the next step is chosen.
enum Plan { Masks { outer: u64, inner: u64 }, Random { g: Rng, partial: bool, adaptors: bool } }

type Held<'a, T> = Vec<(usize, usize, &'a mut T)>;

fn take<'a, T: Elem>(geo: &Geo, held: &mut Held<'a, T>, v: usize, p: usize, e: Option<&'a mut T>, how: &str) -> Result<(), String> {
    let Some(e) = e else { return Err(format!("vector {v}: {how} returned None with position {p} still to come")) };
    let got = e as *mut T as usize;
    ensure!(got % geo.align == 0 && got != 0, "vector {v}, position {p}: misaligned or null reference {got:#x}");
    if geo.size > 0 {
        let want = geo.addr(v, p);
        ensure!(got == want, "vector {v}, position {p} ({how}): reference at buffer offset {}, the element is at {}", got.wrapping_sub(geo.base) as isize, want - geo.base);
    }
    held.push((v, p, e));
    Ok(())
}

/// A distance past the end of `left` items, up to the extremes of usize.
fn far(g: &mut Rng, left: usize) -> usize {
    *g.pick(&[left, left + 1, 2 * left, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, (usize::MAX / left.max(1)).saturating_add(1).max(left), 1 << 62, 1 << 61, 1 << 32])
}

fn run<'a, T: Elem, O, I>(mut outer: O, geo: &Geo, plan: &mut Plan, st: &mut Stats) -> Result<(Held<'a, T>, bool), String>
where
    O: ExactSizeIterator<Item = I> + DoubleEndedIterator,
    I: ExactSizeIterator<Item = &'a mut T> + DoubleEndedIterator,
{
    let mut held: Held<'a, T> = vec![];
    let (n, len) = (geo.n(), geo.len());
    let (mut lo, mut hi) = (0, n);
    hints(&outer, n, "outer")?;
    match plan {
        Plan::Masks { outer: om, inner: im } => {
            let mut live: Vec<(usize, I)> = vec![];
            let mut step = 0;
            while lo < hi {
                let back = *om >> (step % 64) & 1 == 1;
                step += 1;
                let it = if back { outer.next_back() } else { outer.next() };
                let v = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
                let Some(it) = it else { return Err(format!("outer ended with vector {v} still to come")) };
                hints(&outer, hi - lo, "outer")?;
                hints(&it, len, "inner, fresh")?;
                live.push((v, it));
            }
            ensure!(outer.next().is_none() && outer.next_back().is_none(), "outer yields more than {n} vectors");
            hints(&outer, 0, "outer, exhausted")?;
            // step the live vectors in lockstep, so that all are in flight at once
            let mut state: Vec<(usize, usize)> = vec![(0, len); live.len()];
            for step in 0..len {
                for (k, (v, it)) in live.iter_mut().enumerate() {
                    let back = (*im).rotate_right(k as u32) >> (step % 64) & 1 == 1;
                    let (l, h) = &mut state[k];
                    let e = if back { it.next_back() } else { it.next() };
                    let p = if back { *h -= 1; *h } else { *l += 1; *l - 1 };
                    take(geo, &mut held, *v, p, e, if back { "next_back" } else { "next" })?;
                    hints(it, *h - *l, "inner")?;
                }
            }
            for (v, it) in &mut live {
                ensure!(it.next().is_none() && it.next_back().is_none() && it.next().is_none(), "vector {v} yields more than {len} elements");
                hints(it, 0, "inner, exhausted")?;
            }
            st.add("references handed out", held.len() as u64);
            Ok((held, true))
        }
        Plan::Random { g, partial, adaptors } => {
            let mut live: Vec<(usize, I, usize, usize)> = vec![];
            let mut skipped = false;
            let budget = if *partial { g.below(n * (len + 1) + 2) } else { usize::MAX };
            let mut steps = 0;
            let style = g.below(4);
            loop {
                if steps >= budget { skipped = true; break; }
                steps += 1;
                let open = live.iter().enumerate().filter(|(_, x)| x.2 < x.3).map(|(k, _)| k).collect::<Vec<_>>();
                if lo == hi && open.is_empty() { break; }
                let do_outer = lo < hi && (open.is_empty() || match style { 0 => true, 1 => false, _ => g.chance(1, 3) });
                if do_outer {
                    let how = if *adaptors { g.below(6) } else { g.below(2) };
                    let (v, it, name) = match how {
                        2 | 3 => {
                            let k = if g.chance(1, 12) { far(g, hi - lo) } else { g.below((hi - lo).min(3) + 1) };
                            let name = if how == 2 { "nth" } else { "nth_back" };
                            let it = if how == 2 { outer.nth(k) } else { outer.nth_back(k) };
                            if k > 0 { skipped = true; }
                            let left = hi - lo;
                            if k >= left {
                                ensure!(it.is_none(), "outer {name}({k}) of {left} vectors yielded one");
                                lo = hi;
                                hints(&outer, 0, "outer after nth past the end")?;
                                continue;
                            }
                            let v = if how == 2 { lo += k + 1; lo - 1 } else { hi -= k + 1; hi };
                            (v, it, name)
                        }
                        0 | 4 => { lo += 1; (lo - 1, outer.next(), "next") }
                        _ => { hi -= 1; (hi, outer.next_back(), "next_back") }
                    };
                    let Some(it) = it else { return Err(format!("outer {name} returned None with vector {v} still to come")) };
                    hints(&outer, hi - lo, "outer")?;
                    hints(&it, len, "inner, fresh")?;
                    live.push((v, it, 0, len));
                } else {
                    let x = &mut live[*g.pick(&open)];
                    let how = if *adaptors { g.below(6) } else { g.below(2) };
                    match how {
                        2 | 3 => {
                            let left = x.3 - x.2;
                            let k = if g.chance(1, 12) { far(g, left) } else { g.below(left.min(3) + 1) };
                            let name = if how == 2 { "nth" } else { "nth_back" };
                            let e = if how == 2 { x.1.nth(k) } else { x.1.nth_back(k) };
                            if k > 0 { skipped = true; }
                            if k >= left {
                                ensure!(e.is_none(), "vector {}: {name}({k}) of {left} elements yielded one", x.0);
                                x.2 = x.3;
                            } else {
                                let p = if how == 2 { x.2 += k + 1; x.2 - 1 } else { x.3 -= k + 1; x.3 };
                                take(geo, &mut held, x.0, p, e, name)?;
                            }
                        }
                        0 | 4 => { let e = x.1.next(); x.2 += 1; take(geo, &mut held, x.0, x.2 - 1, e, "next")? }
                        _ => { let e = x.1.next_back(); x.3 -= 1; take(geo, &mut held, x.0, x.3, e, "next_back")? }
                    }
                    hints(&x.1, x.3 - x.2, "inner")?;
                }
            }
            if lo == hi {
                ensure!(outer.next().is_none() && outer.next_back().is_none(), "exhausted outer iterator yields a vector");
                hints(&outer, 0, "outer, exhausted")?;
            }
            if *adaptors && lo < hi && g.bool() {
                // consume the rest at once
                skipped = true;
                let left = hi - lo;
                match g.below(6) {
                    0 => ensure_eq!(outer.count(), left, "outer count()"),
                    2 => { let mut v = lo; let mut r = Ok(()); outer.fold((), |_, mut it| { if r.is_ok() && len > 0 { let e = it.next(); r = take(geo, &mut held, v, 0, e, "outer fold, next") } v += 1 }); r?; ensure_eq!(v, hi, "outer fold") }
                    3 => { let mut v = hi; let mut r = Ok(()); outer.rfold((), |_, mut it| { v = v.wrapping_sub(1); if r.is_ok() && len > 0 { let e = it.next_back(); r = take(geo, &mut held, v, len - 1, e, "outer rfold, next_back") } }); r?; ensure_eq!(v, lo, "outer rfold") }
                    4 => { let s = g.range(1, 3); let mut v = lo; for mut it in outer.step_by(s) { if len > 0 { let e = it.next(); take(geo, &mut held, v, 0, e, "outer step_by, next")? } v += s } ensure!(v >= hi && v - s < hi, "outer step_by({s}) went to {v} of {hi}") }
                    1 => { let it = outer.last(); let v = hi - 1; let Some(mut it) = it else { return Err("outer last() is None".into()) }; if len > 0 { let e = it.next_back(); take(geo, &mut held, v, len - 1, e, "last vector, next_back")? } }
                    _ => { let mut v = hi; for mut it in outer.rev() { v -= 1; if len > 0 { let e = it.next(); take(geo, &mut held, v, 0, e, "rev, next")? } } ensure_eq!(v, lo, "outer rev() count") }
                }
            }
            for mut x in live {
                if x.2 == x.3 {
                    ensure!(x.1.next().is_none() && x.1.next_back().is_none(), "exhausted vector {} yields an element", x.0);
                    continue;
                }
                skipped = true;
                if !*adaptors { continue; }
                let left = x.3 - x.2;
                match g.below(10) {
                    0 => ensure_eq!(x.1.count(), left, "inner count()"),
                    4 => {
                        let mut got = vec![];
                        x.1.rfold((), |_, e| got.push(e));
                        ensure_eq!(got.len(), left, "inner rfold");
                        for (d, e) in got.into_iter().enumerate() { take(geo, &mut held, x.0, x.3 - 1 - d, Some(e), "rfold")? }
                    }
                    5 => { let k = g.below(left); let mut i = 0; let e = x.1.find(|_| { i += 1; i == k + 1 }); take(geo, &mut held, x.0, x.2 + k, e, "find")?; hints(&x.1, left - k - 1, "inner after find")? }
                    6 => { let k = g.below(left); let mut i = 0; let e = x.1.rfind(|_| { i += 1; i == k + 1 }); take(geo, &mut held, x.0, x.3 - 1 - k, e, "rfind")?; hints(&x.1, left - k - 1, "inner after rfind")? }
                    7 => { let s = g.range(1, 3); let mut p = x.2; for e in x.1.step_by(s) { take(geo, &mut held, x.0, p, Some(e), "step_by")?; p += s } ensure!(p >= x.3 && p - s < x.3, "inner step_by({s}) went to {p} of {}", x.3) }
                    8 => { let k = g.below(left + 2); let mut p = x.3; for e in x.1.skip(k).rev() { p -= 1; take(geo, &mut held, x.0, p, Some(e), "skip, rev")? } ensure_eq!(p, (x.2 + k).min(x.3), "inner skip({k}).rev()") }
                    1 => { let e = x.1.last(); take(geo, &mut held, x.0, x.3 - 1, e, "last")? }
                    2 => { let mut p = x.2; for e in x.1 { take(geo, &mut held, x.0, p, Some(e), "for")?; p += 1 } ensure_eq!(p, x.3, "inner for loop") }
                    3 => { let mut p = x.3; for e in x.1.rev() { p -= 1; take(geo, &mut held, x.0, p, Some(e), "rev")? } ensure_eq!(p, x.2, "inner rev loop") }
                    _ => {
                        let mut got = vec![];
                        x.1.fold((), |_, e| got.push(e));
                        ensure_eq!(got.len(), left, "inner fold");
                        for (d, e) in got.into_iter().enumerate() { take(geo, &mut held, x.0, x.2 + d, Some(e), "fold")? }
                    }
                }
            }
            st.add("references handed out", held.len() as u64);
            Ok((held, !skipped))
        }
    }
}

fn newval(v: usize, p: usize) -> u32 { (v as u32) * 1000 + p as u32 + 7 }

fn scenario<T: Elem>(model: &Model, rows: bool, spare: bool, plan: &mut Plan, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let mut m = realize::<T>(model)?;
    if !spare { m.shrink_to_fit(); }
    let geo = Geo { base: base_addr(&m), r: model.r, c: model.c, ord: model.ord, rows, size: size_of::<T>(), align: align_of::<T>() };
    let cap = m.capacity();
    let before = led::tally();
    #[cfg(feature = "hooks")]
    matreex::verif_hooks::start();
    let mut touched = vec![];
    {
        let (held, complete) = if rows { run::<T, _, _>(m.iter_rows_mut(), &geo, plan, st)? } else { run::<T, _, _>(m.iter_cols_mut(), &geo, plan, st)? };
        let distinct: HashSet<(usize, usize)> = held.iter().map(|(v, p, _)| (*v, *p)).collect();
        ensure_eq!(distinct.len(), held.len(), "positions handed out more than once");
        if geo.size > 0 {
            let addrs: HashSet<usize> = held.iter().map(|(_, _, e)| &**e as *const T as usize).collect();
            ensure_eq!(addrs.len(), held.len(), "distinct addresses among the references");
        }
        if complete { ensure_eq!(held.len(), model.size(), "references handed out by exhausted iterators"); }
        // all references are used while all are alive
        for (v, p, e) in held {
            e.set(newval(v, p));
            touched.push((v, p));
        }
    }
    #[cfg(feature = "hooks")]
    {
        let ev = matreex::verif_hooks::stop();
        st.add("pointer events observed", ev.len() as u64);
        if geo.size > 0 && model.size() > 0 {
            let end = geo.base + cap * geo.size;
            for e in ev {
                if e.elem_size != geo.size { continue; }
                ensure!(e.addr >= geo.base && e.addr <= end, "{} formed a pointer {} bytes from a buffer of {} bytes", e.site, e.addr.wrapping_sub(geo.base) as isize, cap * geo.size);
                ensure!((e.addr - geo.base) % geo.size == 0, "{} formed a pointer between elements (offset {})", e.site, e.addr - geo.base);
            }
        }
    }
    let _ = cap;
    let after = led::tally();
    ensure_eq!(after, before, "iteration created, cloned or dropped elements: ledger");
    let mut want = model.clone();
    for (v, p) in touched { let (i, j) = if rows { (v, p) } else { (p, v) }; want.rows[i][j] = newval(v, p); }
    agrees(&m, &want)?;
    drop(m);
    led::check()
}

fn exhaustive<T: Elem>(cx: &mut Ctx, dim: usize, dmask: usize) {
    let section = format!("masks-{}", T::NAME);
    let mut key = 0;
    for r in 0..=dim { for c in 0..=dim { for ord in ORDERS { for rows in [true, false] {
        let (n, len) = if rows { (r, c) } else { (c, r) };
        let (bn, bl) = (n.min(dmask), len.min(dmask));
        for outer in 0..1u64 << bn { for inner in 0..1u64 << bl {
            key += 1;
            let model = Model::build(r, c, ord, |i, j| (i * 16 + j) as u32);
            cx.case(&section, key, r * c > 0, || format!("{r}x{c}{} of {}, {}, outer mask {outer:b}, inner mask {inner:b}", oname(ord), T::NAME, if rows { "rows" } else { "cols" }), |st| {
                st.seen_str("shape x order x axis x masks", &format!("{r} {c} {ord:?} {rows} {outer} {inner}"));
                scenario::<T>(&model, rows, key % 2 == 0, &mut Plan::Masks { outer, inner }, st)
            });
        } }
    } } } }
}

fn random<T: Elem>(cx: &mut Ctx, count: usize, max: usize) {
    let section = format!("random{}-{}", if max > 100 { "-vast" } else { "" }, T::NAME);
    for key in 0..count as u64 {
        let mut g = cx.rng(&section, key);
        let d = |g: &mut Rng| match g.below(8) { 0 => 0, 1 => 1, 2 => max, _ => g.range(1, max) };
        let line = (max * max).min(3000);
        let (r, c) = if g.chance(1, 8) { if g.bool() { (1, g.below(line) + 1) } else { (g.below(line) + 1, 1) } } else { (d(&mut g), d(&mut g)) };
        let ord = *g.pick(&ORDERS);
        let rows = g.bool();
        let (partial, adaptors, spare) = (g.chance(1, 3), g.chance(1, 2), g.chance(1, 3));
        let model = Model::build(r, c, ord, |i, j| (i * 100_003 + j) as u32);
        cx.case(&section, key, r * c > 0, || format!("{r}x{c}{} of {}, {}, partial={partial}, adaptors={adaptors}, spare={spare}", oname(ord), T::NAME, if rows { "rows" } else { "cols" }), |st| {
            scenario::<T>(&model, rows, spare, &mut Plan::Random { g, partial, adaptors }, st)
        });
    }
}

fn huge_vec<T: Copy>() -> Vec<T> {
    assert!(size_of::<T>() == 0);
    let mut v = Vec::new();
    // a Vec of a zero-sized type has unlimited capacity
    unsafe { v.set_len(usize::MAX) };
    v
}

#[derive(Clone, Copy)]
struct Zu;
#[derive(Clone, Copy)]
#[repr(align(64))]
struct Zu64;

/// Zero-sized elements with counts up to usize::MAX: only a few items can be
/// taken, but lengths must be exact throughout.
fn huge<T: Copy + 'static>(cx: &mut Ctx, name: &str) {
    let section = format!("huge-{name}");
    let m = usize::MAX;
    // usize::MAX = 3 * 5 * 17 * 257 * 641 * 65537 * 6700417
    let shapes = [(m, 1), (1, m), (3, m / 3), (m / 3, 3), (65537, m / 65537), (m / 257, 257), (m / 641 / 5, 641 * 5), (m / 65537 / 641, 65537 * 641), (15, m / 15)];
    let mut key = 0;
    for (r, c) in shapes { for ord in ORDERS { for rows in [true, false] { for variant in 0..4u64 {
        key += 1;
        let mut g = cx.rng(&section, key);
        cx.case(&section, key, true, || format!("{r} x {c} {} of {name}, {}, variant {variant}", oname(ord), if rows { "rows" } else { "cols" }), |st| {
            let mut mm = Matrix::from_row(huge_vec::<T>());
            mm.set_order_without_rearrangement(ord);
            mm.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
            let (n, len) = if rows { (r, c) } else { (c, r) };
            fn go<'a, T: 'a, I: ExactSizeIterator<Item = &'a mut T> + DoubleEndedIterator>(mut outer: impl ExactSizeIterator<Item = I> + DoubleEndedIterator, n: usize, len: usize, g: &mut Rng, st: &mut Stats) -> Result<(), String> {
                hints(&outer, n, "outer")?;
                let mut left = n;
                let mut inners = vec![];
                for _ in 0..8 {
                    if left == 0 { ensure!(outer.next().is_none() && outer.next_back().is_none(), "outer yields too many"); break; }
                    let it = if g.bool() { outer.next() } else { outer.next_back() };
                    let Some(it) = it else { return Err(format!("outer ended with {left} vectors still to come")) };
                    left -= 1;
                    hints(&outer, left, "outer")?;
                    hints(&it, len, "inner, fresh")?;
                    inners.push((it, len));
                }
                for _ in 0..40 {
                    let (it, left) = { let k = g.below(inners.len()); &mut inners[k] };
                    let e = if g.bool() { it.next() } else { it.next_back() };
                    if *left == 0 { ensure!(e.is_none(), "exhausted inner iterator yields an element"); continue; }
                    let Some(e) = e else { return Err(format!("inner ended with {left} elements still to come")) };
                    let a = e as *mut T as usize;
                    ensure!(a != 0 && a % align_of::<T>() == 0, "misaligned reference {a:#x}");
                    *left -= 1;
                    hints(it, *left, "inner")?;
                    st.inc("references handed out");
                }
                Ok(())
            }
            if rows { go::<T, _>(mm.iter_rows_mut(), n, len, &mut g, st) } else { go::<T, _>(mm.iter_cols_mut(), n, len, &mut g, st) }
        });
    } } } }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C03");
    let miri = cx.miri();
    if miri {
        let (d, n) = if cx.thorough { (3, 40) } else { (2, 8) };
        exhaustive::<W4>(&mut cx, d, 2);
        exhaustive::<Unit>(&mut cx, 2, 1);
        random::<W4>(&mut cx, n, 5);
        random::<P3>(&mut cx, n, 5);
        random::<A16>(&mut cx, n / 2, 4);
        random::<P24>(&mut cx, n / 2, 4);
        random::<T12>(&mut cx, n / 2, 4);
        random::<Z8>(&mut cx, n / 2, 4);
        random::<Zt>(&mut cx, n / 2, 4);
        huge::<Zu>(&mut cx, "()");
    } else {
        let d = cx.pick(3, 4, 6);
        exhaustive::<W4>(&mut cx, d, 6);
        exhaustive::<B1>(&mut cx, d.min(4), 4);
        exhaustive::<P24>(&mut cx, d.min(4), 4);
        exhaustive::<Unit>(&mut cx, d, 6);
        exhaustive::<Z8>(&mut cx, d.min(4), 4);
        let n = cx.pick(0, 1500, 12_000);
        random::<W4>(&mut cx, n * 2, 40);
        random::<P3>(&mut cx, n, 40);
        random::<B1>(&mut cx, n, 40);
        random::<A16>(&mut cx, n, 30);
        random::<P24>(&mut cx, n, 30);
        random::<Big>(&mut cx, n, 20);
        random::<W8>(&mut cx, n / 2, 30);
        random::<W2>(&mut cx, n / 2, 30);
        random::<Bx>(&mut cx, n / 4, 20);
        random::<Fat>(&mut cx, n / 6, 20);
        random::<Half<3>>(&mut cx, n / 6, 20);
        random::<Half<5>>(&mut cx, n / 6, 20);
        random::<Half<8>>(&mut cx, n / 6, 20);
        random::<Half<32>>(&mut cx, n / 6, 20);
        random::<Wide<2>>(&mut cx, n / 6, 20);
        random::<Wide<4>>(&mut cx, n / 6, 20);
        random::<Wide<8>>(&mut cx, n / 6, 20);
        random::<Quad<2>>(&mut cx, n / 6, 20);
        random::<Quad<5>>(&mut cx, n / 6, 20);
        random::<T12>(&mut cx, n, 20);
        random::<Unit>(&mut cx, n, 40);
        random::<Z8>(&mut cx, n, 30);
        random::<Zt>(&mut cx, n, 20);
        if cx.vast() {
            let n = cx.pick(0, 60, 600);
            random::<W4>(&mut cx, n, 310);
            random::<P3>(&mut cx, n / 2, 310);
        }
        huge::<Zu>(&mut cx, "()");
        huge::<Zu64>(&mut cx, "zst align 64");
    }
    cx.finish()
}
