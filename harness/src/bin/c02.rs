//! C02: enumerate the caller-code calls an operation makes, make each one
//! panic in turn, and check every matrix that is still reachable.
use harness::ops::*;
use harness::*;

/// What must hold of every reachable matrix after a caught panic.
fn survivors<T: Full>(ms: &[Matrix<T>]) -> Result<Vec<Model>, String> {
    led::check()?;
    let mut models = vec![];
    let mut total = 0i64;
    let mut ids = vec![];
    for (k, m) in ms.iter().enumerate() {
        models.push(observe(m).map_err(|e| format!("slot {k}: {e}"))?);
        total += m.size() as i64;
        ids.extend(m.iter_elements().map(|e| e.id()));
    }
    if T::LEDGER && size_of::<T>() > 0 {
        let n = ids.len();
        ids.sort_unstable();
        ids.dedup();
        ensure!(ids.len() == n, "{} elements appear twice after the panic", n - ids.len());
    }
    if let Some(live) = live_of::<T>() {
        ensure!(live >= total, "matrices hold {total} elements but only {live} are live");
    }
    led::check()?;
    Ok(models)
}

/// Uses and drops the matrices normally.
fn aftermath<T: Full>(mut ms: Vec<Matrix<T>>, mut models: Vec<Model>, salt: u32, short: bool) -> Result<(), String> {
    let n = ms.len();
    for a in 0..n {
        let (r, c) = (models[a].r, models[a].c);
        let b = (a + 1) % n;
        let mut follow = vec![Op::Transpose(a), Op::CloneOf(b, a), Op::Resize(a, c + 1, r + 1)];
        if !short {
            follow.extend([
                Op::VectorsMut(a, 0, 0b0110, usize::MAX, salt), Op::SwitchOrder(a), Op::VectorsMut(a, 1, 0b1001, usize::MAX, salt),
                Op::Eq(a, b), Op::Overwrite(b, a), Op::SwapRows(a, 0, c), Op::Swap(a, (0, 0), (c, r), 0), Op::Show(a, 0), Op::ShrinkToFit(a),
                Op::Resize(a, 1, 2), Op::Map(a, 3), Op::Clear(a), Op::Resize(a, 2, 2), Op::IntoElems(a, 0, 5, 1),
            ]);
        }
        for op in follow {
            let want = op.model::<T>(&mut models);
            let got = catch(|| op.real(&mut ms)).map_err(|p| format!("using slot {a} after the panic: {op:?}: {p}"))?;
            ensure!(got == want, "using slot {a} after the panic: {op:?}: {got:?}, model {want:?}");
            for s in [a, b] { agrees(&ms[s], &models[s]).map_err(|e| format!("using slot {a} after the panic: {op:?}: slot {s}: {e}"))?; }
        }
    }
    catch(|| drop(ms)).map_err(|p| format!("dropping the matrices: {p}"))?;
    led::check()
}

fn setup<T: Full>(worlds: &[Op]) -> Result<(Vec<Matrix<T>>, Vec<Model>), String> {
    led::reset();
    let mut ms: Vec<Matrix<T>> = (0..3).map(|_| Matrix::new()).collect();
    let mut ws = vec![Model::empty(); 3];
    for op in worlds {
        op.model::<T>(&mut ws);
        op.real(&mut ms);
    }
    for (m, w) in ms.iter().zip(&ws) { agrees(m, w).map_err(|e| format!("setup: {e}"))?; }
    Ok((ms, ws))
}

/// Every fault point of `op` from the given world.
fn enumerate<T: Full>(st: &mut Stats, world: &[Op], op: &Op, cap: u64, short: bool) -> Result<(), String> {
    let mut k = 1;
    loop {
        let (mut ms, ws) = setup::<T>(world)?;
        fault::arm(k);
        let r = catch(|| op.real(&mut ms));
        let fired = fault::fired();
        let calls = fault::calls();
        fault::disarm();
        if !fired {
            // the operation without a fault: counts as one more observation
            st.inc("fault-free runs");
            if let Err(p) = r {
                let mut models = ws.clone();
                if op.model::<T>(&mut models).res != Res::Panic { return Err(format!("without a fault: {p}")); }
            }
            let models = survivors(&ms)?;
            return aftermath(ms, models, k as u32, true).map_err(|e| format!("no fault: {e}"));
        }
        let _ = calls;
        let kind = fault::kind();
        st.inc("faults injected");
        st.inc(&format!("fault in {kind}"));
        if T::LEDGER { st.seen_str("operation x faulting callback", &format!("{}/{kind}", op.name())); }
        if r.is_ok() { st.inc("faults absorbed"); }
        let at = |e: String| format!("{e}\nafter a panic in call {k} of caller code ({kind}) during {op:?} on {} elements; world {world:?}", T::NAME);
        let models = survivors(&ms).map_err(at)?;
        aftermath(ms, models, k as u32, short).map_err(at)?;
        k += 1;
        if k > cap { st.inc("operations with more fault points than enumerated"); return Ok(()); }
    }
}

/// Operations on slot 0 (shape r x c) with slot 1 as the other operand.
fn menu(r: usize, c: usize) -> Vec<(Vec<Op>, Op)> {
    let b_same = |ord: u8| { let mut v = vec![Op::WithInit(1, r, c, 77)]; if ord == 1 { v.push(Op::SwitchOrder(1)) } v };
    let mut m: Vec<(Vec<Op>, Op)> = vec![];
    let mut put = |op: Op| m.push((vec![], op));
    for (a, b) in [(r + 1, c), (r, c + 2), (r * 2 + 1, c * 2 + 1), (c, r), (r, c), (r / 2, c), (r, c / 2), (1, 1), (0, 3), (c + 1, r)] { put(Op::Resize(0, a, b)); }
    put(Op::Reshape(0, c, r));
    put(Op::Reshape(0, c + 1, r));
    put(Op::WithDefault(0, r, c));
    put(Op::WithValue(0, r, c, 5));
    put(Op::WithInit(0, r, c, 5));
    put(Op::FromRow(0, 4, 1));
    put(Op::FromCol(0, 4, 1));
    for k in 0..4 { put(Op::FromRows(0, k, r, c, 3)); }
    for k in 0..3 { put(Op::Ragged(0, k, r.max(2), c, 1, 4)); put(Op::Ragged(0, k, r.max(2), c, r.max(2) - 1, 5)); }
    for k in [0, 1, 2, 3] { put(Op::FromArr(0, k, 0, 9)); }
    for k in 4..=8 { put(Op::FromArr(0, k, 1, 9)); }
    put(Op::CloneOf(0, 1));
    put(Op::CloneOf(1, 0));
    put(Op::CloneFrom(0, 1));
    put(Op::CloneFrom(0, 2));
    put(Op::CloneFrom(2, 0));
    for op in [Op::Transpose(0), Op::SwitchOrder(0), Op::SwitchOrderRaw(0), Op::SetOrder(0, Order::ColMajor), Op::ShrinkToFit(0), Op::ShrinkTo(0, 1), Op::Clear(0), Op::New(0)] { put(op); }
    put(Op::Apply(0, 3));
    put(Op::ParApply(0, 3));
    for form in 0..5 { put(Op::SetElem(0, r / 2, c / 2, form, 8)); }
    put(Op::SetElem(0, r, c, 4, 8));
    for form in 0..3 { put(Op::Swap(0, (0, 0), (r.saturating_sub(1), c.saturating_sub(1)), form)); }
    put(Op::SwapRows(0, 0, r.saturating_sub(1)));
    put(Op::SwapCols(0, 0, c.saturating_sub(1)));
    for kind in 0..2 {
        put(Op::VectorsMut(0, kind, 0b0101, usize::MAX, 4));
        put(Op::NthMut(0, kind, 0, 0b11, 4));
        put(Op::ElemsMut(0, kind, 0b011, 4));
        put(Op::ElemsMut(0, 2 + kind, 0, 4));
        put(Op::IntoElems(0, kind, 0b0101, usize::MAX));
        put(Op::IntoElems(0, kind, 0b0101, r * c / 2));
        put(Op::IntoElems(0, 2 + kind, 0, usize::MAX));
        put(Op::Neg(0, kind));
        put(Op::Show(0, kind));
    }
    for op in [Op::Map(0, 1), Op::MapRef(0, 1), Op::ParMap(0, 1), Op::ParMapRef(0, 1), Op::MapVia(0, 1), Op::Scalar(0, 1), Op::ScalarConsume(0, 1), Op::ScalarAssign(0, 1)] { put(op); }
    put(Op::Contains(0, 0xFFFF_FFF0));
    put(Op::Get(0, 0, 0, 1));
    put(Op::Get(0, r.saturating_sub(1), 0, 3));
    for ord in 0..2 {
        for op in [Op::EwAssign(0, 1, Arith::Mul), Op::EwOpAssign(0, 1, 2), Op::Compound(0, 1, Arith::Add, 0), Op::Compound(0, 1, Arith::Sub, 1),
            Op::Ew(0, 1, Arith::Div), Op::EwConsume(0, 1, Arith::Rem), Op::EwOp(0, 1, 2), Op::EwOpConsume(0, 1, 2), Op::AddSub(0, 1, Arith::Add, 0),
            Op::AddSub(0, 1, Arith::Sub, 1), Op::AddSub(0, 1, Arith::Add, 2), Op::AddSub(0, 1, Arith::Sub, 3), Op::Eq(0, 1)] { m.push((b_same(ord), op)); }
        let same = { let mut v = vec![Op::CloneOf(1, 0)]; if ord == 1 { v.push(Op::SwitchOrder(1)) } v };
        m.push((same, Op::Eq(0, 1)));
        for (br, bc) in [(c, r), (r + 1, c), (r, c / 2)] {
            let mut v = vec![Op::WithInit(1, br, bc, 29)];
            if ord == 1 { v.push(Op::SwitchOrder(1)) }
            m.push((v, Op::CloneFrom(0, 1)));
        }
        for (br, bc) in [(r, c), (r + 1, c + 1), (1, c), (r, 1), (2, 2)] {
            let mut v = vec![Op::WithInit(1, br, bc, 31)];
            if ord == 1 { v.push(Op::SwitchOrder(1)) }
            m.push((v, Op::Overwrite(0, 1)));
        }
        for k in [0, 1, 2] {
            let mut v = vec![Op::WithInit(1, c, k, 31)];
            if ord == 1 { v.push(Op::SwitchOrder(1)) }
            for op in [Op::Multiply(0, 1), Op::MulLike(0, 1), Op::Product(0, 1, 0), Op::Product(0, 1, 1), Op::Product(0, 1, 2), Op::Product(0, 1, 3)] { m.push((v.clone(), op)); }
        }
    }
    // non-conformable operands: the operation fails by itself
    for op in [Op::EwAssign(0, 1, Arith::Add), Op::AddSub(0, 1, Arith::Add, 1), Op::Compound(0, 1, Arith::Add, 0), Op::Multiply(0, 1)] { m.push((vec![Op::WithInit(1, r + 1, c + 2, 3)], op)); }
    m
}

fn run<T: Full>(cx: &mut Ctx, shapes: &[(usize, usize)], stride: usize, cap: u64, short: bool) {
    let section = format!("points-{}", T::NAME);
    let miri = cx.miri();
    let mut key = 0u64;
    for &(r, c) in shapes {
        for ord in 0..2 {
            for spare in 0..2 {
                for (i, (pre, op)) in menu(r, c).into_iter().enumerate() {
                    key += 1;
                    if miri && op.parallel() { continue; }
                    if stride > 1 && (i + key as usize / 97 + cx.seed as usize) % stride != 0 { continue; }
                    let mut world = vec![Op::WithInit(0, r, c, 3)];
                    if ord == 1 { world.push(Op::SwitchOrder(0)) }
                    if spare == 1 {
                        // spare capacity: grow, then come back
                        world.push(Op::Resize(0, r + 3, c + 3));
                        world.push(Op::Resize(0, r, c));
                    }
                    world.push(Op::WithInit(2, 2, 2, 55));
                    world.extend(pre);
                    cx.case(&section, key, true, || format!("all fault points of {op:?} after {world:?}"), |st| enumerate::<T>(st, &world, &op, cap, short));
                }
            }
        }
    }
}

/// Sizes at which an implementation might change its ways: a choice of fault
/// points per operation, the first and last ones always among them.
fn large<T: Full>(cx: &mut Ctx, shapes: &[(usize, usize)], points: usize) {
    let section = format!("large-{}", T::NAME);
    let mut key = 0u64;
    for &(r, c) in shapes { for ord in 0..2 { for (i, (pre, op)) in menu(r, c).into_iter().enumerate() {
        key += 1;
        let skip = match r * c { 0..=250 => 1, 251..=2000 => 3, _ => 6 };
        if !cx.thorough && (i as u64 + cx.seed + ord) % skip != 0 { continue; }
        let mut g = cx.rng(&section, key);
        let mut world = vec![Op::WithInit(0, r, c, 3)];
        if ord == 1 { world.push(Op::SwitchOrder(0)) }
        if g.chance(1, 4) { world.extend([Op::Resize(0, r + 3, c + 3), Op::Resize(0, r, c)]); }
        world.push(Op::WithInit(2, 2, 2, 55));
        world.extend(pre);
        cx.case(&section, key, true, || format!("fault points of {op:?} after {world:?}"), |st| {
            let (mut ms, ws) = setup::<T>(&world)?;
            fault::arm(i64::MAX as u64);
            let res = catch(|| op.real(&mut ms));
            let calls = fault::calls();
            fault::disarm();
            if let Err(p) = res { if op.model::<T>(&mut ws.clone()).res != Res::Panic { return Err(format!("without a fault: {p}")); } }
            survivors(&ms)?;
            drop(ms);
            led::check()?;
            let mut ks = vec![1, 2, calls / 2, calls.saturating_sub(1), calls];
            for _ in 0..points { ks.push(1 + g.below(calls.max(1) as usize) as u64); }
            for _ in 0..2 { ks.push(1 + g.below(70) as u64); }
            ks.retain(|k| (1..=calls).contains(k));
            ks.sort_unstable();
            ks.dedup();
            for k in ks {
                let (mut ms, _) = setup::<T>(&world)?;
                fault::arm(k);
                let r = catch(|| op.real(&mut ms));
                let fired = fault::fired();
                let kind = fault::kind();
                fault::disarm();
                drop(r);
                if !fired { continue; }
                st.inc("faults injected");
                st.inc("faults injected into large matrices");
                let at = |e: String| format!("{e}\nafter a panic in call {k} of {calls} of caller code ({kind}) during {op:?} on {} elements; world {world:?}", T::NAME);
                let models = survivors(&ms).map_err(at)?;
                aftermath(ms, models, k as u32, true).map_err(at)?;
            }
            Ok(())
        });
    } } }
}

fn histories<T: Full>(cx: &mut Ctx, n: usize, steps: usize, dim: usize) {
    let section = format!("history-{}", T::NAME);
    let par = !cx.miri();
    for key in 0..n as u64 {
        let mut g = cx.rng(&section, key);
        cx.case(&section, key, true, || format!("{steps} random operations with faults on {}", T::NAME), |st| {
            let (mut ms, mut ws) = setup::<T>(&[])?;
            let gen_ = Gen { max_dim: dim, par, max_elems: 60 };
            let mut log = vec![];
            for _ in 0..steps {
                for op in gen_.ops(&mut g, &ws) {
                    let k = 1 + if g.bool() { g.below(6) } else { g.below(60) } as u64;
                    log.push(format!("{op:?}@{k}"));
                    fault::arm(k);
                    let r = catch(|| op.real(&mut ms));
                    let fired = fault::fired();
                    fault::disarm();
                    if fired {
                        st.inc("faults injected");
                        st.seen_str("operation x faulting callback", &format!("{}/{}", op.name(), fault::kind()));
                    } else { st.inc("fault-free runs"); }
                    drop(r);
                    let tail = |e: String| format!("{e}\n{} elements, history with faults (op@k: k-th caller-code call panics): {}", T::NAME, log[log.len().saturating_sub(25)..].join("; "));
                    ws = survivors(&ms).map_err(tail)?;
                }
            }
            aftermath(ms, ws, 1, true)
        });
    }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C02");
    let all: &[(usize, usize)] = &[(2, 3), (1, 1), (3, 2), (0, 0), (1, 4), (4, 1), (3, 3), (0, 3), (3, 0), (5, 4), (6, 3)];
    if cx.miri() {
        let (shapes, stride, cap) = if cx.thorough { (&all[..5], 3, 30) } else { (&all[..3], 17, 8) };
        run::<T12>(&mut cx, shapes, stride, cap, true);
        run::<TBox>(&mut cx, &all[..1], stride * 2, 6, true);
        run::<Zt>(&mut cx, &all[..1], stride * 2, 6, true);
    } else {
        let (shapes, cap) = if cx.thorough { (all, 2000) } else { (&all[..10], 200) };
        run::<T12>(&mut cx, shapes, 1, cap, false);
        run::<TBox>(&mut cx, &shapes[..4], 1, cap, true);
        run::<Bx>(&mut cx, &shapes[..3], 2, cap, true);
        run::<Fat>(&mut cx, &shapes[..3], 3, cap, true);
        run::<Nest>(&mut cx, &shapes[..3], 3, cap / 4, true);
        run::<Zt>(&mut cx, &shapes[..6], 1, cap, true);
        run::<W4>(&mut cx, &shapes[..4], 1, cap, true);
        let big: &[(usize, usize)] = &[(9, 8), (17, 13), (40, 27), (300, 1), (1, 300), (64, 64), (129, 66)];
        large::<T12>(&mut cx, big, 3);
        large::<TBox>(&mut cx, &big[1..3], 1);
        large::<Zt>(&mut cx, &big[2..3], 1);
        let n = cx.pick(0, 150, 3000);
        histories::<T12>(&mut cx, n, 40, 5);
        histories::<Zt>(&mut cx, n / 2, 40, 5);
        histories::<TBox>(&mut cx, n / 2, 40, 5);
    }
    cx.finish()
}
