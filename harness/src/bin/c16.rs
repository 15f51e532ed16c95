//! C16: parallel operations against their sequential counterparts, over pool
//! sizes, work divisions and injected delays.
use harness::*;
use rayon::iter::ParallelIterator;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};
use std::time::Duration;

#[derive(Clone, Copy, Debug)]
struct S { r: usize, c: usize, ord: Order, how: usize }
impl S {
    fn n(&self) -> usize { self.r * self.c }
    fn show(&self) -> String { format!("{}x{}{}/{}", self.r, self.c, oname(self.ord), self.how) }
    fn at(&self, p: usize) -> (usize, usize) { if self.ord == Order::RowMajor { (p / self.c, p % self.c) } else { (p % self.r, p / self.r) } }
}
fn make<T: Elem>(s: S) -> Result<Matrix<T>, String> {
    // element values are their row-major position plus one
    let m = match s.how % 4 {
        0 => realize::<T>(&Model::build(s.r, s.c, s.ord, |i, j| (i * s.c + j + 1) as u32))?,
        1 => { let mut m = realize::<T>(&Model::build(s.c, s.r, s.ord, |i, j| (j * s.c + i + 1) as u32))?; m.transpose(); m }
        2 => { let mut m = realize::<T>(&Model::build(s.r, s.c, ops::flip(s.ord), |i, j| (i * s.c + j + 1) as u32))?; m.switch_order(); m }
        _ => { let mut m = realize::<T>(&Model::build(s.c, s.r, ops::flip(s.ord), |i, j| (j * s.c + i + 1) as u32))?; m.switch_order_without_rearrangement(); m }
    };
    ensure_eq!((m.nrows(), m.ncols(), m.order(), m.size()), (s.r, s.c, s.ord, s.n()), "setup");
    Ok(m)
}

/// Watches one parallel call: how often each position was processed, by whom.
struct Watch { hits: Vec<AtomicU32>, by: Vec<AtomicU32>, strays: AtomicUsize, clock: AtomicUsize, delay: usize }
impl Watch {
    fn new(n: usize, delay: usize) -> Self {
        Watch { hits: (0..n).map(|_| AtomicU32::new(0)).collect(), by: (0..n).map(|_| AtomicU32::new(0)).collect(), strays: AtomicUsize::new(0), clock: AtomicUsize::new(0), delay }
    }
    fn hit(&self, p: usize) {
        let t = self.clock.fetch_add(1, Relaxed);
        match self.hits.get(p) {
            Some(h) => { h.fetch_add(1, Relaxed); self.by[p].store(rayon::current_thread_index().map_or(0, |i| i as u32 + 1), Relaxed); }
            None => { self.strays.fetch_add(1, Relaxed); }
        }
        match self.delay {
            1 => if (p ^ t) % 13 == 0 { std::thread::yield_now() },
            2 => if p % 97 == 5 { std::thread::sleep(Duration::from_micros(80)) },
            3 => { // the beginning is slow
                if p < 6 { std::thread::sleep(Duration::from_micros(200)) }
            }
            4 => for _ in 0..(p * 7919 % 251) { std::hint::spin_loop() },
            5 => if p % 31 == 0 { rayon::yield_now(); },
            _ => {}
        }
    }
    fn judge(&self, n: usize, who: &str, st: &mut Stats) -> Result<(), String> {
        ensure_eq!(self.strays.load(Relaxed), 0, "{who}: calls for things that are no element");
        for (p, h) in self.hits.iter().enumerate().take(n) {
            let h = h.load(Relaxed);
            ensure!(h == 1, "{who}: closure ran {h} times for element number {p}");
        }
        let by: Vec<u32> = self.by.iter().map(|b| b.load(Relaxed)).collect();
        let used: HashSet<u32> = by.iter().copied().collect();
        st.seen("distinct divisions of the elements among threads", by.iter().fold(n as u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3)));
        st.seen("numbers of threads at work in one call", used.len() as u64);
        st.add("closure calls watched", n as u64);
        Ok(())
    }
}
fn f(v: u32) -> u32 { v.wrapping_mul(2654435761).rotate_left(7) ^ 0x55 }

fn same<U: PartialEq + std::fmt::Debug>(got: &Matrix<U>, want: &Matrix<U>, who: &str) -> Result<(), String> {
    ensure_eq!((got.nrows(), got.ncols(), got.size(), got.order()), (want.nrows(), want.ncols(), want.size(), want.order()), "{who}: shape, size and order against the sequential result");
    for (p, (a, b)) in got.iter_elements().zip(want.iter_elements()).enumerate() { ensure_eq!(a, b, "{who}: memory position {p} against the sequential result"); }
    for i in 0..got.nrows() { for j in 0..got.ncols() { ensure!(got.get((i, j)) == want.get((i, j)), "{who}: element ({i}, {j}) against the sequential result"); } }
    Ok(())
}

/// `pos` numbers elements by value for identifiable types.
fn suite<T: Elem + Clone>(s: S, delay: usize, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let n = s.n();
    let zst = size_of::<T>() == 0;
    let auto = AtomicUsize::new(0);
    // elements that cannot be told apart are numbered as they come
    let pos = |e: &T| if zst { auto.fetch_add(1, Relaxed) } else { (e.val() as usize).wrapping_sub(1) };
    let src = make::<T>(s)?;
    let seq: Matrix<u32> = src.map_ref(|e| f(e.val())).map_err(|e| format!("map_ref: {e:?}"))?;
    let base = base_addr(&src);

    // par_map_ref
    let w = Watch::new(n, delay);
    let bad = AtomicUsize::new(0);
    auto.store(0, Relaxed);
    let m = src.par_map_ref(|e| {
        w.hit(pos(e));
        let (v, a) = (e.val() as usize, e as *const T as usize);
        if !zst && (v == 0 || v > n || a != base + flat(s.r, s.c, s.ord, (v - 1) / s.c, (v - 1) % s.c) * size_of::<T>()) { bad.fetch_add(1, Relaxed); }
        f(e.val())
    }).map_err(|e| format!("par_map_ref: {e:?}"))?;
    w.judge(n, "par_map_ref", st)?;
    ensure_eq!(bad.load(Relaxed), 0, "par_map_ref: references to something else than the elements");
    same(&m, &seq, "par_map_ref")?;
    // references may be kept
    let m: Matrix<&T> = src.par_map_ref(|e| e).map_err(|e| format!("par_map_ref: {e:?}"))?;
    for (p, e) in m.iter_elements().enumerate() { ensure!(*e as *const T as usize == base + p * size_of::<T>(), "par_map_ref(|e| e): memory position {p}"); }
    ensure_eq!((m.nrows(), m.ncols(), m.order()), (s.r, s.c, s.ord), "par_map_ref(|e| e)");

    // par_map
    let w = Watch::new(n, delay);
    auto.store(0, Relaxed);
    let before = led::tally();
    let m = src.clone().par_map(|e| { w.hit(pos(&e)); f(e.val()) }).map_err(|e| format!("par_map: {e:?}"))?;
    w.judge(n, "par_map", st)?;
    same(&m, &seq, "par_map")?;
    if let Some(live) = live_of::<T>() {
        ensure_eq!(live, n as i64, "par_map: live elements after consuming a copy");
        ensure_eq!(led::tally().clones - before.clones, n as u64, "par_map: clones made");
    }
    // elements moved through
    let ids: HashSet<u32> = src.iter_elements().map(|e| e.id()).collect();
    let m: Matrix<(T, u32)> = src.par_map(|e| { let v = f(e.val()); (e, v) }).map_err(|e| format!("par_map: {e:?}"))?;
    for (p, (e, v)) in m.iter_elements().enumerate() {
        let (i, j) = s.at(p);
        ensure!(e.val() == T::norm((i * s.c + j + 1) as u32) && *v == f(e.val()) && ids.contains(&e.id()), "par_map moving elements: memory position {p}");
    }
    if let Some(live) = live_of::<T>() { ensure_eq!(live, n as i64, "par_map moving elements: live elements"); }
    let mut src = m.map(|(e, _)| e).map_err(|e| format!("map: {e:?}"))?;

    // par_apply
    let w = Watch::new(n, delay);
    auto.store(0, Relaxed);
    let at = &src as *const _ as usize;
    let ret = src.par_apply(|e| { w.hit(pos(e)); let v = f(e.val()); e.set(v) }) as *const Matrix<T> as usize;
    w.judge(n, "par_apply", st)?;
    ensure_eq!(ret, at, "par_apply: returned reference");
    let got: Matrix<u32> = src.map_ref(|e| e.val()).map_err(|e| format!("{e:?}"))?;
    let want: Matrix<u32> = seq.map_ref(|v| T::norm(*v)).map_err(|e| format!("{e:?}"))?;
    same(&got, &want, "par_apply")?;
    coherent(&src)?;
    drop((src, got));
    if let Some(live) = live_of::<T>() { ensure_eq!(live, 0, "live elements at the end"); }
    led::check()?;

    // item multisets
    let mut src = make::<T>(s)?;
    let key = |ix: Index, v: u32| (ix.row, ix.col, v);
    let sorted = |mut v: Vec<(usize, usize, u32)>| { v.sort_unstable(); v };
    let want = sorted(src.iter_elements_with_index().map(|(ix, e)| key(ix, e.val())).collect());
    let vals = { let mut v: Vec<u32> = want.iter().map(|x| x.2).collect(); v.sort_unstable(); v };
    let sortedv = |mut v: Vec<u32>| { v.sort_unstable(); v };
    for form in 0..6 {
        let w = Watch::new(n, delay);
        auto.store(0, Relaxed);
        let who = ["par_iter_elements", "par_iter_elements_mut", "into_par_iter_elements", "par_iter_elements_with_index", "par_iter_elements_mut_with_index", "into_par_iter_elements_with_index"][form];
        let hit = |e: &T| { w.hit(pos(e)); e.val() };
        let (a, b): (Vec<u32>, Vec<(usize, usize, u32)>) = match form {
            0 => (src.par_iter_elements().map(hit).collect(), vec![]),
            1 => (src.par_iter_elements_mut().map(|e| hit(e)).collect(), vec![]),
            2 => (make::<T>(s)?.into_par_iter_elements().map(|e| hit(&e)).collect(), vec![]),
            3 => (vec![], src.par_iter_elements_with_index().map(|(ix, e)| key(ix, hit(e))).collect()),
            4 => (vec![], src.par_iter_elements_mut_with_index().map(|(ix, e)| key(ix, hit(e))).collect()),
            _ => (vec![], make::<T>(s)?.into_par_iter_elements_with_index().map(|(ix, e)| key(ix, hit(&e))).collect()),
        };
        w.judge(n, who, st)?;
        if form < 3 { ensure!(sortedv(a) == vals, "{who}: items differ from the sequential ones"); }
        else {
            let b = sorted(b);
            if let Some((x, y)) = b.iter().zip(&want).find(|(x, y)| x != y) { return Err(format!("{who}: item ({}, {}) -> {:#x}, sequentially ({}, {}) -> {:#x}", x.0, x.1, x.2, y.0, y.1, y.2)); }
            ensure_eq!(b.len(), want.len(), "{who}: number of items");
        }
        ensure!(src.par_iter_elements().count() == n && src.par_iter_elements_with_index().count() == n, "{who}: count()");
    }
    // writes
    src.par_iter_elements_mut_with_index().for_each(|(ix, e)| e.set((ix.row * 100_003 + ix.col) as u32));
    for i in 0..s.r { for j in 0..s.c { ensure!(src.get((i, j)).is_ok_and(|e| e.val() == T::norm((i * 100_003 + j) as u32)), "write through par_iter_elements_mut_with_index at ({i}, {j})"); } }
    src.par_iter_elements_mut().for_each(|e| { let v = f(e.val()); e.set(v) });
    for i in 0..s.r { for j in 0..s.c { ensure!(src.get((i, j)).is_ok_and(|e| e.val() == T::norm(f(T::norm((i * 100_003 + j) as u32)))), "write through par_iter_elements_mut at ({i}, {j})"); } }
    drop(src);
    if let Some(live) = live_of::<T>() { ensure_eq!(live, 0, "live elements at the end"); }
    led::check()
}

/// Short-circuiting and splitting consumers still see genuine pairs.
fn consumers(s: S, st: &mut Stats) -> Result<(), String> {
    let m = make::<W4>(s)?;
    let n = s.n();
    let ok = |ix: Index, e: &W4| ix.row < s.r && ix.col < s.c && e.0 as usize == ix.row * s.c + ix.col + 1;
    for t in 0..8 {
        let target = n * t / 8 + 1;
        let any = m.par_iter_elements_with_index().find_any(|(_, e)| e.0 as usize >= target);
        ensure!(any.is_some() == (target <= n), "find_any for {target} of {n}");
        if let Some((ix, e)) = any { ensure!(ok(ix, e), "find_any: ({}, {}) paired with element {}", ix.row, ix.col, e.0); }
        let (a, b): (Vec<_>, Vec<_>) = m.par_iter_elements_with_index().partition(|(_, e)| (e.0 as usize) < target);
        ensure!(a.len() == (target - 1).min(n) && a.len() + b.len() == n, "partition at {target}: {} and {}", a.len(), b.len());
        ensure!(a.iter().chain(&b).all(|(ix, e)| ok(*ix, e)), "partition at {target}: mispaired");
    }
    let total: u64 = m.par_iter_elements().map(|e| e.0 as u64).sum();
    ensure_eq!(total, (n as u64) * (n as u64 + 1) / 2, "par_iter_elements().sum()");
    ensure!(m.par_iter_elements_with_index().all(|(ix, e)| ok(ix, e)), "all: mispaired");
    let r = m.par_iter_elements_with_index().flat_map_iter(|(ix, e)| [ok(ix, e); 2]).filter(|b| *b).count();
    ensure_eq!(r, 2 * n, "flat_map_iter");
    st.inc("consumer suites");
    Ok(())
}

fn overflow(cx: &mut Ctx) {
    let m = usize::MAX;
    let list = [(m, 1), (1, m), (3, m / 3), (1 << 60, 1), (1, 1 << 60), (1 << 32, 1 << 28), (1 << 59, 2), ((1 << 61) - 1, 1), (1 << 62, 1), (1 << 63, 1), ((1 << 63) - 1, 2), (1 << 56, 1), (1 << 57, 1)];
    let pools: Vec<_> = [1, 2, 5].map(|n| rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()).into();
    for (k, (r, c)) in list.into_iter().enumerate() { for (o, ord) in ORDERS.into_iter().enumerate() {
        cx.case("overflow", (k * 2 + o) as u64, true, || format!("{r}x{c}{} of ()", oname(ord)), |st| {
            let mk = || -> Result<Matrix<()>, String> {
                let mut v: Vec<()> = vec![];
                unsafe { v.set_len(r * c) };
                let mut m = Matrix::from_row(v);
                m.set_order_without_rearrangement(ord);
                m.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
                Ok(m)
            };
            fn one<U: Send + Clone>(mk: impl Fn() -> Result<Matrix<()>, String>, u: U, n: usize, name: &str, st: &mut Stats) -> Result<(), String> {
                if (n as u128) * (size_of::<U>() as u128) <= isize::MAX as u128 { return Ok(()); }
                let u = std::sync::Mutex::new(u);
                let calls = AtomicUsize::new(0);
                let g = || { calls.fetch_add(1, Relaxed); u.lock().unwrap().clone() };
                let e = Some(Error::CapacityOverflow);
                ensure_eq!(mk()?.map(|_| g()).err(), e, "map to {name}");
                ensure_eq!(mk()?.map_ref(|_| g()).err(), e, "map_ref to {name}");
                ensure_eq!(mk()?.par_map(|_| g()).err(), e, "par_map to {name}");
                ensure_eq!(mk()?.par_map_ref(|_| g()).err(), e, "par_map_ref to {name}");
                ensure_eq!(calls.load(Relaxed), 0, "closure calls of refused maps to {name}");
                st.inc("refused alike");
                Ok(())
            }
            let n = r * c;
            let all = |st: &mut Stats| -> Result<(), String> {
                one(mk, 0u8, n, "u8", st)?;
                one(mk, 0u16, n, "u16", st)?;
                one(mk, 0u32, n, "u32", st)?;
                one(mk, 0u64, n, "u64", st)?;
                one(mk, [0u8; 3], n, "[u8; 3]", st)?;
                one(mk, [0u64; 3], n, "[u64; 3]", st)?;
                one(mk, [0u8; 129], n, "[u8; 129]", st)
            };
            all(st)?;
            for pool in &pools { pool.install(|| all(st)).map_err(|e| format!("in a pool of {}: {e}", pool.current_num_threads()))?; }
            Ok(())
        });
    } }
}

/// Elements of any size, told apart by their addresses.
fn sized<T: Elem + Clone>(s: S, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let n = s.n();
    {
        let src = make::<T>(s)?;
        let who = |f: &str| format!("{f} on {} of {}", s.show(), T::NAME);
        let base = base_addr(&src);
        let slot = |b: usize, e: &T| (e as *const T as usize).wrapping_sub(b) / size_of::<T>();
        let hits = || (0..n).map(|_| AtomicU32::new(0)).collect::<Vec<_>>();
        let once = |h: &[AtomicU32], f: &str| -> Result<(), String> {
            for (p, x) in h.iter().enumerate() { let x = x.load(Relaxed); ensure!(x == 1, "{}: closure called {x} times for memory position {p}", who(f)); }
            Ok(())
        };
        let bad = AtomicUsize::new(0);
        let hit = |h: &[AtomicU32], p: usize| { match h.get(p) { Some(x) => { x.fetch_add(1, Relaxed); } None => { bad.fetch_add(1, Relaxed); } } };

        let h = hits();
        let got = src.par_map_ref(|e| { hit(&h, slot(base, e)); f(e.val()) }).map_err(|e| format!("{}: {e:?}", who("par_map_ref")))?;
        once(&h, "par_map_ref")?;
        same(&got, &src.map_ref(|e| f(e.val())).map_err(|e| format!("{e:?}"))?, &who("par_map_ref"))?;

        let mut m = src.clone();
        let b = base_addr(&m);
        let h = hits();
        m.par_apply(|e| { hit(&h, slot(b, e)); let v = f(e.val()); e.set(v) });
        once(&h, "par_apply")?;
        let mut want = src.clone();
        want.apply(|e| { let v = f(e.val()); e.set(v) });
        let vals = |m: &Matrix<T>| m.map_ref(|e| e.val()).map_err(|e| format!("{e:?}"));
        same(&vals(&m)?, &vals(&want)?, &who("par_apply"))?;
        drop(want);

        let calls = AtomicUsize::new(0);
        let got = m.clone().par_map(|e| { calls.fetch_add(1, Relaxed); (e.val() as u64) << 7 | 1 }).map_err(|e| format!("{}: {e:?}", who("par_map")))?;
        ensure_eq!(calls.load(Relaxed), n, "{}: number of calls", who("par_map"));
        same(&got, &m.clone().map(|e| (e.val() as u64) << 7 | 1).map_err(|e| format!("{e:?}"))?, &who("par_map"))?;
        let got = m.clone().par_map(|e| e).map_err(|e| format!("{}: {e:?}", who("par_map(|e| e)")))?;
        same(&vals(&got)?, &vals(&m)?, &who("par_map(|e| e)"))?;
        let got = got.par_map(|e| e.val() as u8).map_err(|e| format!("{}: {e:?}", who("par_map into u8")))?;
        same(&got, &m.map_ref(|e| e.val() as u8).map_err(|e| format!("{e:?}"))?, &who("par_map into u8"))?;

        let h = hits();
        src.par_iter_elements().for_each(|e| hit(&h, slot(base, e)));
        once(&h, "par_iter_elements")?;
        let h = hits();
        let at = |ix: Index| if s.ord == Order::RowMajor { ix.row * s.c + ix.col } else { ix.col * s.r + ix.row };
        src.par_iter_elements_with_index().for_each(|(ix, e)| { let p = slot(base, e); if ix.row >= s.r || ix.col >= s.c || at(ix) != p { bad.fetch_add(1, Relaxed); } hit(&h, p) });
        once(&h, "par_iter_elements_with_index")?;
        let b = base_addr(&m);
        let h = hits();
        m.par_iter_elements_mut().for_each(|e| hit(&h, slot(b, e)));
        once(&h, "par_iter_elements_mut")?;
        let h = hits();
        m.par_iter_elements_mut_with_index().for_each(|(ix, e)| { let p = slot(b, e); if ix.row >= s.r || ix.col >= s.c || at(ix) != p { bad.fetch_add(1, Relaxed); } hit(&h, p); e.set(T::norm(p as u32)) });
        once(&h, "par_iter_elements_mut_with_index")?;
        let h = hits();
        m.clone().into_par_iter_elements_with_index().for_each(|(ix, e)| { let p = at(ix); if e.val() != T::norm(p as u32) { bad.fetch_add(1, Relaxed); } hit(&h, p) });
        once(&h, "into_par_iter_elements_with_index")?;
        let mut all: Vec<u32> = m.into_par_iter_elements().map(|e| e.val()).collect();
        let mut want: Vec<u32> = (0..n).map(|p| T::norm(p as u32)).collect();
        all.sort_unstable();
        want.sort_unstable();
        ensure!(all == want, "{}", who("into_par_iter_elements"));
        ensure_eq!(bad.load(Relaxed), 0, "{}: elements outside of the matrix or paired with a wrong index", s.show());
        st.inc("matrices of elements of various sizes");
    }
    led::check()?;
    if let Some(v) = live_of::<T>() { ensure!(v == 0, "{v} elements of {} leaked", T::NAME); }
    Ok(())
}

fn of_every_size(cx: &mut Ctx) {
    let n = cx.pick(2, 60, 1500);
    for key in 0..n as u64 {
        let mut g = cx.rng("sizes", key);
        let (miri, tsan) = (cx.miri(), cx.engine == Engine::Tsan);
        if tsan && key >= 12 { break; }
        cx.case("sizes", key, true, || "elements of every size and kind".into(), |st| {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(g.range(1, if miri { 2 } else { 6 })).build().map_err(|e| format!("setup: {e}"))?;
            let top = if miri { 3 } else if key % 5 == 0 { 75 } else { 24 };
            macro_rules! each { ($($t:ty),*) => { $({
                let (r, c) = if !miri && g.chance(1, 6) { if g.bool() { (1, g.range(1, 3000)) } else { (g.range(1, 3000), 1) } } else { (g.range(0, top), g.range(0, top)) };
                let s = S { r, c, ord: *g.pick(&ORDERS), how: g.below(4) };
                if g.chance(1, 8) { sized::<$t>(s, st)? } else { pool.install(|| sized::<$t>(s, st))? }
            })* }; }
            each!(B1, Bx);
            if !miri { each!(W2, P3, W4, W8, P24, A16, Big, T12, TBox, Fat, Half<3>, Half<5>, Quad<2>, Wide<2>, Wide<4>); }
            Ok(())
        });
    }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C16");
    let (miri, tsan) = (cx.miri(), cx.engine == Engine::Tsan);
    let mut list = vec![(0, 0), (0, 4), (4, 0), (1, 1), (1, 2), (2, 3), (3, 2), (1, 17), (17, 1), (5, 5), (16, 16), (31, 33), (64, 7), (1, 1000), (1000, 1), (100, 101)];
    let mut big = vec![(317, 211), (1, 65537), (65536, 1)];
    if miri { list = vec![(2, 3), (0, 4), (4, 1), (3, 3)]; big.clear(); }
    if tsan { big.truncate(1); }
    if cx.thorough && !miri { big.extend([(1000, 1000), (3, 99991), (4096, 33)]); list.extend([(2, 2), (7, 3), (127, 2), (2, 129), (63, 65), (255, 257), (10, 1000)]); }
    let sizes: Vec<usize> = if miri { vec![1, 2, 3] } else if tsan { vec![2, 4, 8] } else { vec![1, 2, 3, 4, 5, 7, 8, 12, 16] };
    let reps = cx.pick(1, 1, 3);
    let mut key = 0;
    for (w, &threads) in sizes.iter().enumerate() {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        for (k, &(r, c)) in list.iter().chain(&big).enumerate() { for ord in ORDERS { for rep in 0..reps {
            key += 1;
            let how = k + w + rep;
            if miri && !cx.thorough && (how + (ord == Order::RowMajor) as usize) % 2 == 0 { continue; }
            if r * c > 20_000 && !cx.thorough && (w + k + rep) % 3 != 0 { continue; }
            let s = S { r, c, ord, how };
            let delay = if miri { [0, 1, 5][how % 3] } else { (how + rep * 3) % 6 };
            cx.case("pools", key, r * c > 1, || format!("{} in a pool of {threads}, delays {delay}", s.show()), |st| {
                if miri { return pool.install(|| suite::<TBox>(s, delay, st)); }
                pool.install(|| suite::<W4>(s, delay, st))?;
                if r * c <= 12_000 {
                    pool.install(|| suite::<T12>(s, delay, st))?;
                    if how % 3 == 0 { pool.install(|| suite::<Bx>(s, delay, st))?; pool.install(|| suite::<W8>(s, delay, st))?; }
                    if r * c < 255 { pool.install(|| suite::<B1>(s, delay, st))?; }
                    if how % 2 == 0 { pool.install(|| suite::<Zt>(s, delay, st))?; pool.install(|| suite::<P24>(s, delay, st))?; }
                }
                pool.install(|| consumers(s, st))?;
                // called from a thread outside of any pool (the global one), or nested
                if how % 4 == 0 || r * c > 20_000 && how % 2 == 0 { suite::<W4>(s, delay, st).map_err(|e| format!("outside of any pool: {e}"))?; }
                if how % 4 == 0 && r * c < 3000 {
                    let res: Vec<Result<(), String>> = pool.install(|| {
                        let m: Matrix<usize> = Matrix::with_initializer((2, 3), |ix| ix.row * 3 + ix.col).unwrap();
                        m.par_map(|_| { let mut own = Stats::default(); suite::<W4>(s, 0, &mut own) }).unwrap().into_iter_elements().collect()
                    });
                    for r in res { r.map_err(|e| format!("nested in par_map: {e}"))?; }
                }
                Ok(())
            });
        } } }
    }
    of_every_size(&mut cx);
    if !miri { overflow(&mut cx); }
    // calls that are under way at the same time, in pools of their own and in the same one
    if !miri {
        let shared = rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap();
        cx.together([0, 6, 60], |g, st| {
            let own = rayon::ThreadPoolBuilder::new().num_threads(g.range(1, 4)).build().map_err(|e| format!("setup: {e}"))?;
            for how in 0..8 {
                let s = S { r: g.below(60), c: g.below(60), ord: *g.pick(&ORDERS), how };
                if how % 2 == 0 { shared.install(|| suite::<W4>(s, how % 3, st))? } else { own.install(|| suite::<W4>(s, how % 3, st))? }
                own.install(|| suite::<P24>(s, 0, st))?;
            }
            Ok(())
        });
    }
    cx.finish()
}
