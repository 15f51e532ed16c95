//! C01: random operation histories against the row-of-rows model, with the
//! token ledger deciding "exactly once" for every element.
use harness::*;
use harness::ops::*;

const SLOTS: usize = 3;

struct World<T: Full> { ms: Vec<Matrix<T>>, ws: Vec<Model> }

fn check_world<T: Full>(w: &World<T>, full: bool, touched: &[usize]) -> Result<(), String> {
    led::check()?;
    let mut total = 0i64;
    for (k, (m, model)) in w.ms.iter().zip(&w.ws).enumerate() {
        total += m.size() as i64;
        if full || touched.contains(&k) {
            agrees(m, model).map_err(|e| format!("slot {k}: {e}"))?;
        } else {
            ensure_eq!((m.nrows(), m.ncols(), m.size(), m.order()), (model.r, model.c, model.size(), model.ord), "slot {k} changed by an operation on other matrices: shape/size/order");
        }
    }
    if let Some(live) = live_of::<T>() {
        ensure!(live == total, "{live} live elements, but the matrices hold {total}");
    }
    if full {
        let mut ids: Vec<u32> = w.ms.iter().flat_map(|m| m.iter_elements().map(|e| e.id())).collect();
        ids.retain(|id| *id != 0); // 0: elements without an identity
        let n = ids.len();
        ids.sort_unstable();
        ids.dedup();
        ensure!(ids.len() == n, "{} elements share an identity (duplicated)", n - ids.len());
    }
    led::check()
}

fn slots_of(op: &Op) -> Vec<usize> {
    // every slot index an op mentions is < SLOTS and appears first in its fields
    let s = format!("{op:?}");
    let inner = s.split_once('(').map(|x| x.1).unwrap_or("");
    inner.split([',', ')', '(']).take(2).filter_map(|t| t.trim().parse::<usize>().ok()).filter(|n| *n < SLOTS).collect()
}

fn history<T: Full>(st: &mut Stats, g: &mut Rng, gen_: &Gen, steps: usize) -> Result<(), String> {
    led::reset();
    let mut w = World::<T> { ms: (0..SLOTS).map(|_| Matrix::new()).collect(), ws: vec![Model::empty(); SLOTS] };
    let mut log: Vec<String> = vec![];
    let mut prev = String::new();
    let result = (|| {
        for step in 0..steps {
            for op in gen_.ops(g, &w.ws) {
                log.push(format!("{op:?}"));
                let want = op.model::<T>(&mut w.ws);
                let got = match catch(|| op.real(&mut w.ms)) { Ok(o) => o, Err(p) => { if want.res != Res::Panic { return Err(format!("unexpected {p}")); } Out { res: Res::Panic, obs: vec![] } } };
                // Which error is reported is not this property's business.
                let same = matches!((&got.res, &want.res), (Res::Ok, Res::Ok) | (Res::Err(_), Res::Err(_)) | (Res::Panic, Res::Panic));
                ensure!(same, "outcome {:?}, model {:?}", got.res, want.res);
                ensure_eq!(got.obs, want.obs, "observation");
                let name = op.name();
                st.inc(&format!("op {name}"));
                match got.res { Res::Ok => st.inc("ops succeeded"), Res::Err(_) => st.inc("ops reported an error"), Res::Panic => st.inc("ops panicked as documented") }
                st.seen_str("operation pairs", &format!("{prev}>{name}"));
                prev = name;
                check_world(&w, step % 8 == 7, &slots_of(&op))?;
                for m in &w.ws { st.seen_str("shapes and orders", &format!("{}x{}{}", m.r, m.c, oname(m.ord))); }
            }
        }
        check_world(&w, true, &[])
    })();
    if let Err(e) = result {
        let tail = log.iter().rev().take(30).rev().cloned().collect::<Vec<_>>().join("; ");
        return Err(format!("{e}\n{} element, history (last {} of {} ops): {tail}", T::NAME, log.len().min(30), log.len()));
    }
    let World { ms, .. } = w;
    drop(ms);
    led::check()?;
    if let Some(live) = live_of::<T>() { ensure!(live == 0, "{live} elements never dropped after all matrices were dropped"); }
    let t = led::tally();
    st.add("elements created", t.created);
    st.add("elements dropped", t.drops);
    Ok(())
}

fn run<T: Full>(cx: &mut Ctx, n: usize, steps: usize, max_dim: usize, max_elems: usize, tag: &str) {
    let section = format!("history-{tag}-{}", T::NAME);
    let par = !cx.miri();
    for key in 0..n as u64 {
        let mut g = cx.rng(&section, key);
        cx.case(&section, key, true, || format!("{steps} random operations on {SLOTS} matrices of {}", T::NAME), |st| {
            history::<T>(st, &mut g, &Gen { max_dim, par, max_elems }, steps)
        });
    }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C01");
    let n = cx.pick(2, 270, 1800);
    let steps = cx.pick(25, 60, 80);
    run::<T12>(&mut cx, n * 2, steps, 7, 400, "small");
    run::<Zt>(&mut cx, n, steps, 7, 400, "small");
    run::<W4>(&mut cx, n, steps, 9, 600, "small");
    run::<Nest>(&mut cx, n / 3, steps, 5, 100, "small");
    run::<Nd>(&mut cx, n / 2, steps, 7, 400, "small");
    if !cx.miri() {
        run::<T12>(&mut cx, n / 6, 40, 70, 5000, "large");
        run::<W4>(&mut cx, n / 6, 40, 70, 5000, "large");
    }
    if cx.vast() {
        let n = cx.pick(0, 12, 100);
        run::<T12>(&mut cx, n, 16, 300, 100_000, "vast");
        run::<W4>(&mut cx, n, 16, 300, 100_000, "vast");
    }
    // Fewer instantiations in the optimised build, to keep its compile time down.
    #[cfg(debug_assertions)]
    {
        run::<TBox>(&mut cx, n, steps, 6, 300, "small");
        if !cx.miri() {
            run::<Bx>(&mut cx, n / 2, steps, 7, 400, "small");
            run::<Fat>(&mut cx, n / 2, steps, 7, 400, "small");
            run::<W8>(&mut cx, n / 2, steps, 9, 600, "small");
            run::<B1>(&mut cx, n / 2, steps, 9, 600, "small");
            run::<P3>(&mut cx, n, steps, 9, 600, "small");
            run::<A16>(&mut cx, n, steps, 9, 600, "small");
            run::<Big>(&mut cx, n / 2, steps, 9, 300, "small");
        }
    }
    cx.together([0, 12, 120], |g, st| {
        history::<W4>(st, g, &Gen { max_dim: 8, par: true, max_elems: 500 }, 120)?;
        history::<W4>(st, g, &Gen { max_dim: 30, par: false, max_elems: 3000 }, 30)
    });
    cx.finish()
}
