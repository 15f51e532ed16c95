//! C17: who may cross threads, and that concurrent mutation through distinct
//! rows/columns touches disjoint elements and loses nothing.
use harness::*;
use rayon::iter::{ParallelBridge, ParallelIterator};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{Arc, Barrier, Mutex, MutexGuard, mpsc};

// ---------------------------------------------------------------- traits
// Inherent methods win over trait methods exactly when their bounds hold.

struct Probe<T>(PhantomData<T>);
fn probe<T>(_: &T) -> Probe<T> { Probe(PhantomData) }
impl<T: Send> Probe<T> { fn send(&self) -> bool { true } }
impl<T: Sync> Probe<T> { fn sync(&self) -> bool { true } }
trait NotSend { fn send(&self) -> bool { false } }
trait NotSync { fn sync(&self) -> bool { false } }
impl<T> NotSend for Probe<T> {}
impl<T> NotSync for Probe<T> {}

struct NoSend(#[allow(dead_code)] PhantomData<MutexGuard<'static, u32>>);
impl NoSend { fn new() -> Self { NoSend(PhantomData) } }

fn nothing() {}

macro_rules! auto {
    ($cx:ident, $key:ident, $name:expr, $t:ty, $val:expr, $send:expr, $sync:expr) => {{
        $key += 1;
        $cx.case("auto", $key, true, || format!("iterators over {}", $name), |st| {
            for ord in ORDERS { for rows in [true, false] {
                let mut m: Matrix<$t> = { let v: Vec<$t> = vec![$val, $val, $val, $val]; Matrix::from_row(v) };
                m.set_order_without_rearrangement(ord);
                m.reshape((2, 2)).map_err(|e| format!("setup: {e:?}"))?;
                let who = if rows { "iter_rows_mut" } else { "iter_cols_mut" };
                // the type itself is classified correctly
                let x: $t = $val;
                ensure_eq!((probe(&x).send(), probe(&x).sync()), ($send, $sync), "setup: classification of {}", $name);
                let (os, oy, is, iy);
                if rows {
                    let mut it = m.iter_rows_mut();
                    os = probe(&it).send(); oy = probe(&it).sync();
                    let v = it.next().ok_or("setup: no row")?;
                    is = probe(&v).send(); iy = probe(&v).sync();
                } else {
                    let mut it = m.iter_cols_mut();
                    os = probe(&it).send(); oy = probe(&it).sync();
                    let v = it.next().ok_or("setup: no column")?;
                    is = probe(&v).send(); iy = probe(&v).sync();
                }
                ensure!($send || !os, "{who} of {} (not Send) is Send", $name);
                ensure!($send || !is, "the vectors yielded by {who} of {} (not Send) are Send", $name);
                ensure!($sync || !oy, "{who} of {} (not Sync) is Sync", $name);
                ensure!($sync || !iy, "the vectors yielded by {who} of {} (not Sync) are Sync", $name);
                // the single-vector iterators hand out the same references
                let v = m.iter_nth_row_mut(0).map_err(|e| format!("{e:?}"))?;
                ensure!(($send || !probe(&v).send()) && ($sync || !probe(&v).sync()), "iter_nth_row_mut of {}", $name);
                drop(v);
                let v = m.iter_nth_col_mut(0).map_err(|e| format!("{e:?}"))?;
                ensure!(($send || !probe(&v).send()) && ($sync || !probe(&v).sync()), "iter_nth_col_mut of {}", $name);
                st.add("auto-trait verdicts", 8);
                st.seen("auto-trait outcomes", (os as u64) << 3 | (oy as u64) << 2 | (is as u64) << 1 | iy as u64);
            } }
            Ok(())
        });
    }};
}

fn autos(cx: &mut Ctx) {
    let mut key = 0;
    auto!(cx, key, "u32", u32, 1, true, true);
    auto!(cx, key, "String", String, String::new(), true, true);
    auto!(cx, key, "()", (), (), true, true);
    auto!(cx, key, "Cell<u32>", Cell<u32>, Cell::new(1), true, false);
    auto!(cx, key, "RefCell<String>", RefCell<String>, RefCell::new(String::new()), true, false);
    auto!(cx, key, "UnsafeCell<u8>", UnsafeCell<u8>, UnsafeCell::new(1), true, false);
    auto!(cx, key, "Rc<u32>", Rc<u32>, Rc::new(1), false, false);
    auto!(cx, key, "*mut u8", *mut u8, std::ptr::null_mut(), false, false);
    auto!(cx, key, "&Cell<u32>", &'static Cell<u32>, &*Box::leak(Box::new(Cell::new(1))), false, false);
    auto!(cx, key, "Sync but not Send", NoSend, NoSend::new(), false, true);
    auto!(cx, key, "zero-sized, neither", PhantomData<Rc<()>>, PhantomData, false, false);
    auto!(cx, key, "Box<dyn Fn()>", Box<dyn Fn()>, Box::new(nothing) as Box<dyn Fn()>, false, false);
    auto!(cx, key, "Box<dyn Fn() + Send>", Box<dyn Fn() + Send>, Box::new(nothing) as Box<dyn Fn() + Send>, true, false);
    auto!(cx, key, "Arc<Cell<u32>>", Arc<Cell<u32>>, Arc::new(Cell::new(1)), false, false);
    auto!(cx, key, "Arc<Mutex<u32>>", Arc<Mutex<u32>>, Arc::new(Mutex::new(1)), true, true);
    auto!(cx, key, "mpsc::Sender<Rc<u32>>", mpsc::Sender<Rc<u32>>, mpsc::channel().0, false, false);
    auto!(cx, key, "Option<Rc<u32>>", Option<Rc<u32>>, None, false, false);
}

// ---------------------------------------------------------------- threads

#[derive(Clone, Copy, Debug)]
struct S { r: usize, c: usize, ord: Order, rows: bool }
impl S {
    fn n(&self) -> usize { if self.rows { self.r } else { self.c } }
    fn len(&self) -> usize { if self.rows { self.c } else { self.r } }
    fn at(&self, v: usize, p: usize) -> (usize, usize) { if self.rows { (v, p) } else { (p, v) } }
    fn show(&self) -> String { format!("{}x{}{} by {}", self.r, self.c, oname(self.ord), if self.rows { "rows" } else { "columns" }) }
}
fn val(i: usize, j: usize) -> u32 { (i * 1000 + j) as u32 + 1 }
fn upd(v: u32, who: usize, p: usize) -> u32 { v.wrapping_mul(31).wrapping_add((who * 7 + p * 3) as u32) }

fn make<T: Elem>(s: S) -> Result<(Matrix<T>, Model), String> {
    let model = Model::build(s.r, s.c, s.ord, val);
    Ok((realize::<T>(&model)?, model))
}

/// (vector, position, address) of a reference used by the current thread.
type Log = Vec<(usize, usize, usize)>;

fn delay(g: &mut Rng, kind: usize) {
    match kind {
        1 => std::thread::yield_now(),
        2 => for _ in 0..g.below(200) { std::hint::spin_loop() },
        3 => if g.chance(1, 8) { std::thread::sleep(std::time::Duration::from_micros(50)) },
        _ => {}
    }
}

/// Mutates (and reads) everything the vector still yields, in `style`.
fn work<'a, T: Elem>(v: usize, mut it: impl ExactSizeIterator<Item = &'a mut T> + DoubleEndedIterator, mut lo: usize, mut hi: usize, g: &mut Rng, kind: usize, log: &mut Log) -> Result<(), String> {
    let style = g.below(3);
    let mut held: Vec<(usize, &'a mut T)> = vec![];
    while lo < hi {
        ensure_eq!(it.len(), hi - lo, "len() of vector {v}");
        let back = match style { 0 => false, 1 => true, _ => g.bool() };
        let e = if back { it.next_back() } else { it.next() };
        let p = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
        let Some(e) = e else { return Err(format!("vector {v} ended with position {p} still to come")) };
        log.push((v, p, e as *mut T as usize));
        let x = upd(e.val(), v, p);
        e.set(x);
        held.push((p, e));
        delay(g, kind);
    }
    ensure!(it.next().is_none(), "vector {v} yields too many elements");
    // all of them once more, after the iterator has ended
    for (p, e) in held { let x = upd(e.val(), p, v); e.set(x); }
    Ok(())
}

fn judge<T: Elem>(m: &Matrix<T>, model: &Model, s: S, base: usize, logs: Vec<Log>, how: &str, st: &mut Stats) -> Result<(), String> {
    let size = size_of::<T>();
    let mut owner: HashMap<usize, usize> = HashMap::new();
    let mut seen = vec![false; s.n() * s.len()];
    let mut owners: HashMap<usize, usize> = HashMap::new();
    for (t, log) in logs.iter().enumerate() {
        if !log.is_empty() { *owners.entry(t).or_default() += log.len(); }
        for &(v, p, a) in log {
            ensure!(!std::mem::replace(&mut seen[v * s.len() + p], true), "{how}: position {p} of vector {v} handed out twice");
            if size == 0 { continue; }
            let (i, j) = s.at(v, p);
            let want = base + flat(s.r, s.c, s.ord, i, j) * size;
            ensure!(a == want, "{how}: position {p} of vector {v}: reference at buffer offset {}, the element is at {}", a.wrapping_sub(base) as isize, want - base);
            if let Some(o) = owner.insert(a, t) { return Err(format!("{how}: element ({i}, {j}) reachable from threads {o} and {t}")); }
        }
    }
    ensure!(seen.iter().all(|b| *b), "{how}: an element was not handed out");
    // the same mutations, sequentially
    let mut want = model.clone();
    for v in 0..s.n() { for p in 0..s.len() {
        let (i, j) = s.at(v, p);
        let x = T::norm(upd(T::norm(want.rows[i][j]), v, p));
        want.rows[i][j] = T::norm(upd(x, p, v));
    } }
    agrees(m, &want).map_err(|e| format!("{how}: after concurrent mutation: {e}"))?;
    st.seen("numbers of threads that mutated", owners.len() as u64);
    st.seen("ownership maps (vector -> thread)", logs.iter().enumerate().fold(0, |h, (t, l)| l.iter().fold(h, |h: u64, x| h.wrapping_add(rng::mix64((x.0 * 64 + t) as u64 ^ (s.n() as u64) << 32)))));
    st.add("elements mutated concurrently", (s.n() * s.len()) as u64);
    Ok(())
}

fn concurrent<'a, T, O, I>(mut outer: O, s: S, plan: usize, threads: usize, g: &mut Rng, kind: usize) -> Result<Vec<Log>, String>
where
    T: Elem,
    O: ExactSizeIterator<Item = I> + DoubleEndedIterator + Send + Sync,
    I: ExactSizeIterator<Item = &'a mut T> + DoubleEndedIterator + Send + Sync,
{
    let (n, len) = (s.n(), s.len());
    let seeds: Vec<Rng> = (0..64).map(|_| Rng::new(g.next())).collect();
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let fail = |r: Result<(), String>| if let Err(e) = r { errors.lock().unwrap().push(e) };
    let logs = match plan {
        // vectors dealt out to threads, all starting together
        0 => {
            let mut hands: Vec<Vec<(usize, I)>> = (0..threads).map(|_| vec![]).collect();
            let (mut lo, mut hi) = (0, n);
            while lo < hi {
                let back = g.bool();
                let it = if back { outer.next_back() } else { outer.next() };
                let v = if back { hi -= 1; hi } else { lo += 1; lo - 1 };
                let Some(it) = it else { return Err(format!("outer ended with vector {v} still to come")) };
                hands[if g.chance(1, 4) { g.below(threads) } else { v % threads }].push((v, it));
            }
            ensure!(outer.next().is_none(), "outer yields more than {n} vectors");
            let barrier = Barrier::new(threads);
            std::thread::scope(|sc| {
                let hs: Vec<_> = hands.into_iter().enumerate().map(|(t, hand)| {
                    let mut g = seeds[t].clone();
                    let (barrier, fail) = (&barrier, &fail);
                    sc.spawn(move || {
                        let mut log = vec![];
                        barrier.wait();
                        for (v, it) in hand { fail(work(v, it, 0, len, &mut g, kind, &mut log)); }
                        log
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        }
        // the outer iterator itself travels: every thread takes one vector from
        // it, passes it on and works
        1 => {
            let slot = Mutex::new((outer, 0usize, n));
            std::thread::scope(|sc| {
                let hs: Vec<_> = (0..threads).map(|t| {
                    let mut g = seeds[t].clone();
                    let (slot, fail) = (&slot, &fail);
                    sc.spawn(move || {
                        let mut log = vec![];
                        loop {
                            let (v, it) = {
                                let mut s = slot.lock().unwrap();
                                if s.1 == s.2 { break; }
                                if s.0.len() != s.2 - s.1 { fail(Err(format!("outer len() {} with {} to come", s.0.len(), s.2 - s.1))); break; }
                                if g.bool() { s.2 -= 1; (s.2, s.0.next_back()) } else { s.1 += 1; (s.1 - 1, s.0.next()) }
                            };
                            let Some(it) = it else { fail(Err(format!("outer ended with vector {v} still to come"))); break };
                            fail(work(v, it, 0, len, &mut g, kind, &mut log));
                        }
                        log
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        }
        // half of every vector on one thread, the rest of it on the next one;
        // meanwhile others look at its length through a shared reference
        2 => {
            let mut logs: Vec<Log> = (0..threads).map(|_| vec![]).collect();
            let mut first: Vec<(usize, I, usize, usize)> = vec![];
            for (v, it) in outer.by_ref().enumerate() { first.push((v, it, 0, len)); }
            ensure_eq!(first.len(), n, "vectors yielded by outer");
            let mut hands: Vec<Vec<(usize, I, usize, usize)>> = (0..threads).map(|_| vec![]).collect();
            for x in first { hands[x.0 % threads].push(x); }
            let after: Vec<(Vec<(usize, I, usize, usize)>, Vec<(usize, usize, &'a mut T)>, Log)> = std::thread::scope(|sc| {
                let hs: Vec<_> = hands.into_iter().enumerate().map(|(t, mut hand)| {
                    let mut g = seeds[t].clone();
                    let fail = &fail;
                    sc.spawn(move || {
                        let (mut log, mut held) = (vec![], vec![]);
                        for (v, it, lo, hi) in &mut hand {
                            for _ in 0..len / 2 {
                                let back = g.bool();
                                let e = if back { it.next_back() } else { it.next() };
                                let p = if back { *hi -= 1; *hi } else { *lo += 1; *lo - 1 };
                                let Some(e) = e else { fail(Err(format!("vector {v} ended with position {p} still to come"))); break };
                                log.push((*v, p, e as *mut T as usize));
                                let x = upd(e.val(), *v, p);
                                e.set(x);
                                held.push((*v, p, e));
                            }
                        }
                        (hand, held, log)
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            // shared references: len() from several threads at once
            std::thread::scope(|sc| for t in 0..2 {
                let (after, fail, outer) = (&after, &fail, &outer);
                sc.spawn(move || {
                    if outer.len() != 0 { fail(Err(format!("outer len() {} at the end (thread {t})", outer.len()))) }
                    for (v, it, lo, hi) in after.iter().flat_map(|x| &x.0) {
                        if it.len() != hi - lo { fail(Err(format!("len() of vector {v}, seen from another thread: {} of {}", it.len(), hi - lo))) }
                    }
                });
            });
            // everything changes hands
            let mut hands: Vec<(Vec<(usize, I, usize, usize)>, Vec<(usize, usize, &'a mut T)>)> = vec![];
            for (t, (hand, held, log)) in after.into_iter().enumerate() { logs[t] = log; hands.push((hand, held)); }
            hands.rotate_left(1);
            let more: Vec<Log> = std::thread::scope(|sc| {
                let hs: Vec<_> = hands.into_iter().enumerate().map(|(t, (hand, held))| {
                    let mut g = seeds[t + threads].clone();
                    let fail = &fail;
                    sc.spawn(move || {
                        let mut log = vec![];
                        // references obtained earlier stay exclusive
                        for (v, p, e) in held { let x = upd(e.val(), p, v); e.set(x); }
                        for (v, it, lo, hi) in hand { fail(work(v, it, lo, hi, &mut g, kind, &mut log)); }
                        log
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            logs.extend(more);
            logs
        }
        // single references scattered over the threads
        3 => {
            let mut hands: Vec<Vec<(usize, usize, &'a mut T)>> = (0..threads).map(|_| vec![]).collect();
            for (v, it) in outer.enumerate() { for (p, e) in it.enumerate() { hands[g.below(threads)].push((v, p, e)); } }
            let barrier = Barrier::new(threads);
            std::thread::scope(|sc| {
                let hs: Vec<_> = hands.into_iter().map(|hand| {
                    let barrier = &barrier;
                    sc.spawn(move || {
                        barrier.wait();
                        hand.into_iter().map(|(v, p, e)| {
                            let a = e as *mut T as usize;
                            let x = upd(e.val(), v, p);
                            e.set(x);
                            std::thread::yield_now();
                            let x = upd(e.val(), p, v);
                            e.set(x);
                            (v, p, a)
                        }).collect::<Log>()
                    })
                }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        }
        // rayon's bridge pulls vectors from whichever worker is free
        _ => {
            let logs: Vec<Mutex<Log>> = (0..17).map(|_| Mutex::new(vec![])).collect();
            outer.enumerate().par_bridge().for_each(|(v, it)| {
                let t = rayon::current_thread_index().map_or(0, |i| i + 1).min(16);
                let mut g = seeds[v % 64].clone();
                let mut log = vec![];
                fail(work(v, it, 0, len, &mut g, kind, &mut log));
                logs[t].lock().unwrap().extend(log);
            });
            logs.into_iter().map(|l| l.into_inner().unwrap()).collect()
        }
    };
    let errors = errors.into_inner().unwrap();
    if let Some(e) = errors.into_iter().next() { return Err(e); }
    Ok(logs)
}

fn run<T: Elem>(s: S, plan: usize, threads: usize, g: &mut Rng, st: &mut Stats) -> Result<(), String> {
    led::reset();
    let how = format!("{} of {}, plan {plan}, {threads} threads", s.show(), T::NAME);
    let (mut m, model) = make::<T>(s)?;
    let base = base_addr(&m);
    let before = led::tally();
    let kind = g.below(4);
    let logs = if s.rows { concurrent(m.iter_rows_mut(), s, plan, threads, g, kind) } else { concurrent(m.iter_cols_mut(), s, plan, threads, g, kind) };
    let logs = logs.map_err(|e| format!("{how}: {e}"))?;
    judge(&m, &model, s, base, logs, &how, st)?;
    ensure_eq!(led::tally(), before, "{how}: elements created or dropped");
    st.inc(["runs: vectors dealt out", "runs: travelling outer iterator", "runs: half-consumed vectors handed over", "runs: scattered references", "runs: rayon bridge"][plan]);
    drop(m);
    led::check()
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C17");
    autos(&mut cx);
    let (miri, tsan) = (cx.miri(), cx.engine == Engine::Tsan);
    let n = cx.pick(24, 900, 12_000);
    for key in 0..n as u64 {
        let mut g = cx.rng("threads", key);
        let plan = if miri { key as usize % 4 } else { key as usize % 5 };
        let max = if miri { 4 } else { 24 };
        let dim = |g: &mut Rng| match g.below(10) { 0 => 1, 1 => max, 2 if !miri => 64, 3 if !miri => g.range(1, 130), _ => g.range(1, max) };
        let (mut r, mut c) = (dim(&mut g), dim(&mut g));
        if g.chance(1, 25) { if g.bool() { r = 0 } else { c = 0 } }
        if key % 40 == 7 && !miri { c = 700; }
        let s = S { r, c, ord: ORDERS[g.below(2)], rows: g.bool() };
        let threads = if miri { 2 + g.below(2) } else { *g.pick(&[2, 2, 3, 4, 8, 13]) };
        let t = key / 5 % 8;
        cx.case("threads", key, r * c > 1 && s.n() > 1, || format!("{} plan {plan} {threads} threads", s.show()), |st| {
            match t {
                0 | 1 => run::<W4>(s, plan, threads, &mut g, st),
                2 | 3 => run::<B1>(s, plan, threads, &mut g, st),
                4 => run::<P24>(s, plan, threads, &mut g, st),
                5 if !tsan => run::<TBox>(s, plan, threads, &mut g, st),
                6 => run::<Unit>(S { r: s.r, c: s.c, ..s }, plan, threads, &mut g, st),
                _ => run::<P3>(s, plan, threads, &mut g, st),
            }
        });
    }
    cx.finish()
}
