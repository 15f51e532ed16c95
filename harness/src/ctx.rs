//! Case bookkeeping: filtering, sharding, panic capture, violation reports
//! and the counts that go into the evidence file.
use crate::rng::{Rng, hash_str, mix64};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{self, AssertUnwindSafe};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Engine { Native, Asan, Tsan, Miri }

#[derive(Default)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
}

impl Stats {
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(name) { *c += n } else { self.counts.insert(name.into(), n); }
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, n) in o.counts { self.add(&k, n) }
        for (k, s) in o.sets { for h in s { self.seen(&k, h) } }
    }
    pub fn inc(&mut self, name: &str) { self.add(name, 1) }
    /// Counts distinct observations.
    pub fn seen(&mut self, name: &str, h: u64) {
        if let Some(s) = self.sets.get_mut(name) { s.insert(h); } else {
            self.sets.insert(name.into(), HashSet::from([h]));
        }
    }
    pub fn seen_str(&mut self, name: &str, s: &str) { self.seen(name, hash_str(s)) }
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub engine: Engine,
    pub seed: u64,
    pub stats: Stats,
    trace: bool,
    filter: Option<(String, u64)>,
    skip: Vec<String>,
    watching: bool,
    slowest: (u64, String, u64),
    only_section: Option<String>,
    shard: (u64, u64),
    evals: u64,
    distinct: HashSet<u64>,
    samples: BTreeMap<String, Vec<String>>,
    violations: u64,
    per_section: BTreeMap<String, u64>,
    start: Instant,
    budget: Duration,
    truncated: Vec<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static LAST_PANIC_ANY: Mutex<Option<String>> = Mutex::new(None);
static TRACE: AtomicBool = AtomicBool::new(false);

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ------------------------------------------------------------- watchdog
/// The case being run, for the watchdog: (section, key, desc, CPU time at its
/// start, slow implementations tolerated).
static CURRENT: Mutex<Option<(String, u64, u64, bool)>> = Mutex::new(None);

unsafe extern "C" {
    fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
    fn _exit(code: i32) -> !;
}

/// CPU time of the whole process in milliseconds.
fn cpu_ms() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

const MOST_MB: u64 = 5000;

/// Ends the process when one case has used far more CPU time than any should:
/// with a violation (the library does not come to an end), or, where a correct
/// but slow implementation would take as long (extents near usize::MAX), with
/// a request to be run again without that section.
fn watch_cases(limit_ms: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        // nor memory: an endless iterator may well be collected
        let resident = std::fs::read_to_string("/proc/self/statm").ok().and_then(|t| t.split(' ').nth(1)?.parse::<u64>().ok()).unwrap_or(0) >> 8;
        let Ok(cur) = CURRENT.lock() else { return };
        if let Some((section, key, start, tolerated)) = &*cur {
            let used = cpu_ms().saturating_sub(*start);
            if resident > MOST_MB || used > if *tolerated { limit_ms / 4 } else { limit_ms } {
                if *tolerated {
                    println!("SLOW\t{section}\t{key}");
                } else {
                    println!("VIOL\t{section}\t{key}\t{section}:{key}\tdoes not finish: this case has used {} s of CPU time, {resident} MB of memory", used / 1000);
                }
                let _ = std::io::stdout().flush();
                unsafe { _exit(if *tolerated { 77 } else { 10 }) }
            }
        }
    });
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic payload>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {loc}: {msg}");
        if TRACE.load(Ordering::Relaxed)
            || msg.starts_with("unsafe precondition")
            || msg.contains("panic in a destructor during cleanup")
        {
            let _ = writeln!(std::io::stderr(), "{text}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(text.clone()));
        if let Ok(mut g) = LAST_PANIC_ANY.lock() { *g = Some(text) }
    }));
}

/// Runs `f`, returning the panic text (location and message) if it unwinds.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(payload) => {
            let text = LAST_PANIC.with(|p| p.borrow_mut().take())
                .or_else(|| LAST_PANIC_ANY.lock().ok().and_then(|mut g| g.take()))
                .unwrap_or_else(|| "panic".into());
            drop(payload);
            Err(text)
        }
    }
}

impl Ctx {
    pub fn from_args(prop: &str) -> Self {
        install_hook();
        let mut cx = Ctx {
            prop: prop.into(), thorough: false, engine: Engine::Native, seed: 1,
            stats: Stats::default(), trace: false, filter: None, skip: Vec::new(), watching: false, slowest: (0, String::new(), 0), only_section: None, shard: (0, 1),
            evals: 0, distinct: HashSet::new(), samples: BTreeMap::new(), violations: 0,
            per_section: BTreeMap::new(), start: Instant::now(), budget: Duration::from_secs(60),
            truncated: Vec::new(),
        };
        let args: Vec<String> = std::env::args().skip(1).collect();
        let mut i = 0;
        while i < args.len() {
            let val = || args.get(i + 1).cloned().unwrap_or_default();
            match args[i].as_str() {
                "--tier" => { cx.thorough = val() == "thorough"; i += 1 }
                "--engine" => {
                    cx.engine = match val().as_str() {
                        "asan" => Engine::Asan, "tsan" => Engine::Tsan, "miri" => Engine::Miri, _ => Engine::Native,
                    };
                    i += 1
                }
                "--seed" => { cx.seed = val().parse().unwrap_or(1); i += 1 }
                "--budget" => { cx.budget = Duration::from_secs(val().parse().unwrap_or(60)); i += 1 }
                "--shard" => {
                    let v = val();
                    let (a, b) = v.split_once('/').unwrap_or(("0", "1"));
                    cx.shard = (a.parse().unwrap_or(0), b.parse().unwrap_or(1));
                    i += 1
                }
                "--replay" => {
                    let v = val();
                    let (s, k) = v.rsplit_once(':').unwrap_or((&v, "0"));
                    cx.filter = Some((s.into(), k.parse().unwrap_or(0)));
                    i += 1
                }
                "--skip" => { cx.skip.push(val()); i += 1 }
                "--section" => { cx.only_section = Some(val()); i += 1 }
                "--trace" => cx.trace = true,
                "--noop" => std::process::exit(0),
                _ => {}
            }
            i += 1;
        }
        TRACE.store(cx.trace, Ordering::Relaxed);
        if cfg!(feature = "heap") {
            match crate::heap::selftest() {
                Ok(n) => cx.stats.add("heap misuses recognised in the control", n),
                Err(e) => { eprintln!("the heap monitor does not work: {e}"); std::process::exit(3) }
            }
        }
        cx.watching = !cx.miri();
        if cx.watching {
            watch_cases(if cx.engine == Engine::Native { 30_000 } else { 90_000 } * if cx.thorough { 2 } else { 1 });
        }
        cx
    }

    /// Runs `f` on several threads of one process at once, `n` times: calls on
    /// different matrices have nothing to do with each other. Not for elements
    /// entered in the ledger, which is shared.
    pub fn together(&mut self, n: [usize; 3], f: impl Fn(&mut Rng, &mut Stats) -> Result<(), String> + Sync) {
        const THREADS: usize = 4;
        let n = self.pick(n[0], n[1], n[2]);
        for key in 0..n as u64 {
            let rngs: Vec<Rng> = (0..THREADS as u64).map(|t| self.rng("together", key * 100 + t)).collect();
            self.case("together", key, true, || format!("{THREADS} threads at once"), |st| {
                let barrier = std::sync::Barrier::new(THREADS);
                let done: Vec<(Result<(), String>, Stats)> = std::thread::scope(|sc| {
                    let all: Vec<_> = rngs.into_iter().map(|mut g| { let (f, barrier) = (&f, &barrier); sc.spawn(move || {
                        let mut own = Stats::default();
                        barrier.wait();
                        let r = catch(|| f(&mut g, &mut own)).unwrap_or_else(Err);
                        (r, own)
                    }) }).collect();
                    all.into_iter().map(|t| t.join().unwrap_or_else(|_| (Err("a thread died".into()), Stats::default()))).collect()
                });
                for (r, own) in done { r.map_err(|e| format!("with other threads at work: {e}"))?; st.merge(own); }
                Ok(())
            });
        }
    }

    pub fn miri(&self) -> bool { self.engine == Engine::Miri }
    /// Whether extents beyond 255 and 65 535 are affordable: optimised and
    /// uninstrumented.
    pub fn vast(&self) -> bool { self.engine == Engine::Native && !cfg!(debug_assertions) }

    /// A size that depends on the engine: interpreter, quick or thorough run.
    pub fn pick(&self, miri: usize, quick: usize, thorough: usize) -> usize {
        if self.miri() {
            if self.thorough { miri * 4 } else { miri }
        } else if self.thorough { thorough } else if self.engine == Engine::Native { quick } else { (quick / 2).max(1) }
    }

    pub fn rng(&self, section: &str, key: u64) -> Rng {
        Rng::new(mix64(self.seed ^ hash_str(section)).wrapping_add(mix64(key)))
    }

    pub fn out_of_time(&self) -> bool { self.start.elapsed() > self.budget }

    /// Whether this process should run the case at all.
    pub fn wants(&self, section: &str, key: u64) -> bool {
        if let Some((s, k)) = &self.filter { return s == section && *k == key; }
        if let Some(s) = &self.only_section { if s != section { return false; } }
        self.shard.1 <= 1 || mix64(key ^ hash_str(section)) % self.shard.1 == self.shard.0
    }

    /// Runs one case. `f` returns `Err` to report a violation; an escaping
    /// panic is a violation as well.
    pub fn case(
        &mut self,
        section: &str,
        key: u64,
        nontrivial: bool,
        desc: impl Fn() -> String,
        f: impl FnOnce(&mut Stats) -> Result<(), String>,
    ) {
        if !self.wants(section, key) { return; }
        if self.violations >= 12 { return; }
        if self.out_of_time() && self.filter.is_none() {
            if self.truncated.last().map(|s| s.as_str()) != Some(section) { self.truncated.push(section.into()); }
            return;
        }
        if self.skip.iter().any(|s| s == section) {
            let note = format!("{section} (too slow)");
            if !self.truncated.contains(&note) { self.truncated.push(note) }
            return;
        }
        if self.trace || self.miri() {
            println!("CASE\t{section}\t{key}\t{}", esc(&desc()));
            let _ = std::io::stdout().flush();
        }
        self.evals += 1;
        *self.per_section.entry(section.into()).or_insert(0) += 1;
        if nontrivial && self.distinct.len() < 4_000_000 {
            self.distinct.insert(mix64(key ^ hash_str(section)));
        }
        let n = self.samples.get(section).map_or(0, |v| v.len());
        if n < 2 && nontrivial {
            let d = format!("{section}:{key} {}", desc());
            self.samples.entry(section.into()).or_default().push(d.chars().take(400).collect());
        }
        let mut start = 0;
        if self.watching {
            start = cpu_ms();
            let slow = section.starts_with("huge") || section == "capacity" || section == "overflow" || self.prop == "C08";
            if let Ok(mut cur) = CURRENT.lock() { *cur = Some((section.into(), key, start, slow)) }
        }
        let mut stats = std::mem::take(&mut self.stats);
        let result = catch(|| f(&mut stats));
        self.stats = stats;
        if self.watching {
            if let Ok(mut cur) = CURRENT.lock() { *cur = None }
            let used = cpu_ms().saturating_sub(start);
            if used > self.slowest.0 { self.slowest = (used, section.into(), key) }
        }
        let problem = match result {
            // what happened on the heap, after everything the case made is gone
            Ok(Ok(())) => crate::heap::check().err(),
            Ok(Err(e)) => Some(e),
            Err(p) => Some(format!("unexpected {p}")),
        };
        if let Some(msg) = problem {
            self.violations += 1;
            println!("VIOL\t{section}\t{key}\t{}\t{}", esc(&desc()), esc(&msg));
            let _ = std::io::stdout().flush();
        }
    }

    /// Reports counts and exits: 0 if no case failed, 10 otherwise.
    pub fn finish(mut self) -> ! {
        if crate::heap::released() > 0 { self.stats.add("heap blocks checked on release", crate::heap::released()); }
        let mut o = String::from("{");
        o.push_str(&format!("\"evaluations\":{},\"distinct\":{},\"violations\":{}", self.evals, self.distinct.len(), self.violations));
        o.push_str(",\"sections\":{");
        o.push_str(&self.per_section.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(","));
        o.push_str("},\"counts\":{");
        o.push_str(&self.stats.counts.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(","));
        o.push_str("},\"distinct_seen\":{");
        o.push_str(&self.stats.sets.iter().map(|(k, v)| {
            let mut v: Vec<u64> = v.iter().copied().collect();
            v.sort_unstable();
            v.truncate(3000);
            format!("{}:[{}]", json_str(k), v.iter().map(|h| h.to_string()).collect::<Vec<_>>().join(","))
        }).collect::<Vec<_>>().join(","));
        o.push_str("},\"truncated\":[");
        o.push_str(&self.truncated.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
        o.push_str("],\"samples\":[");
        o.push_str(&self.samples.values().flatten().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
        o.push_str("]}");
        println!("SLOWEST\t{} ms\t{}:{}", self.slowest.0, self.slowest.1, self.slowest.2);
        println!("RESULT\t{o}");
        let _ = std::io::stdout().flush();
        std::process::exit(if self.violations > 0 { 10 } else { 0 })
    }
}
