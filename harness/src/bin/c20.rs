//! C20: formatted text, tokenised line by line.
use harness::*;
use std::collections::BTreeMap;
use std::fmt::{self, Debug, Display, Write};

/// An element whose renderings are given.
#[derive(Clone, PartialEq)]
struct E { shown: String, debugged: String }
impl Display for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.shown) } }
impl Debug for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for ch in self.debugged.chars() { f.write_char(ch)?; } Ok(()) } }

#[derive(Clone, Copy, Debug)]
struct S { r: usize, c: usize, ord: Order, how: usize }
impl S { fn show(&self) -> String { format!("{}x{}{}/{}", self.r, self.c, oname(self.ord), self.how) } }

fn make<T: Clone>(s: S, vals: &[T]) -> Result<Matrix<T>, String> {
    let g = |r: usize, c: usize, ord: Order, at: &dyn Fn(usize, usize) -> T| -> Result<Matrix<T>, String> {
        let mut mem = vec![];
        for p in 0..r * c { let (i, j) = if ord == Order::RowMajor { (p / c, p % c) } else { (p % r, p / r) }; mem.push(at(i, j)) }
        let mut m = Matrix::from_row(mem);
        m.set_order_without_rearrangement(ord);
        m.reshape((r, c)).map_err(|e| format!("setup: {e:?}"))?;
        Ok(m)
    };
    let at = |i: usize, j: usize| vals[i * s.c + j].clone();
    Ok(match s.how % 3 {
        0 => g(s.r, s.c, s.ord, &at)?,
        1 => { let mut m = g(s.r, s.c, ops::flip(s.ord), &at)?; m.switch_order(); m }
        _ => { let mut m = g(s.c, s.r, s.ord, &|i, j| at(j, i))?; m.transpose(); m }
    })
}

fn single(s: &str) -> bool { !s.contains(['\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}']) }

/// Removes white space and then `want` from the front of `rest`. If `word`,
/// no digit may follow directly.
fn eat<'a>(rest: &'a str, want: &str, word: bool) -> Option<&'a str> {
    let r = rest.trim_start().strip_prefix(want.trim_start())?;
    if word && r.starts_with(|c: char| c.is_ascii_digit()) { return None; }
    Some(r)
}
/// Whether what follows an element is told apart from it.
fn apart(rest: &str) -> bool { rest.starts_with(|c: char| !c.is_alphanumeric()) }

/// The lines belonging to rows: everything between the first and last line
/// that has an opening and a closing bracket at its ends.
fn display_rows(text: &str) -> Vec<&str> {
    text.split('\n').filter(|l| { let t = l.trim(); t.starts_with('[') && t.ends_with(']') && t.len() >= 2 }).collect()
}
fn debug_rows(text: &str) -> Vec<&str> {
    text.split('\n').filter(|l| { let t = l.trim(); t.starts_with(|c: char| c.is_ascii_digit()) && t.ends_with(']') && t.trim_start_matches(|c: char| c.is_ascii_digit()).trim_start().starts_with('[') }).collect()
}
fn widths(rows: &[&str], what: &str, text: &str) -> Result<(), String> {
    let w: Vec<usize> = rows.iter().map(|l| l.chars().count()).collect();
    ensure!(w.windows(2).all(|p| p[0] == p[1]), "{what}: row lines of widths {w:?} in\n{text}");
    Ok(())
}

fn check_display(text: &str, s: S, at: impl Fn(usize, usize) -> String) -> Result<(), String> {
    let what = format!("Display of {}", s.show());
    let rows = display_rows(text);
    ensure_eq!(rows.len(), s.r, "{what}: bracketed lines in\n{text}\n");
    widths(&rows, &what, text)?;
    for (i, line) in rows.iter().enumerate() {
        let t = line.trim();
        let mut rest = &t[1..t.len() - 1];
        for j in 0..s.c {
            rest = eat(rest, &at(i, j), false).ok_or_else(|| format!("{what}: line of row {i} does not have {:?} as element {j}: {line:?}\n{text}", at(i, j)))?;
            ensure!(j + 1 == s.c || at(i, j).trim().is_empty() || apart(rest), "{what}: nothing between the elements {j} and {} of row {i}: {line:?}\n{text}", j + 1);
        }
        ensure!(rest.trim().is_empty(), "{what}: line of row {i} has more than {} elements: {line:?}\n{text}", s.c);
    }
    Ok(())
}
fn check_debug(text: &str, s: S, at: impl Fn(usize, usize) -> String) -> Result<(), String> {
    let what = format!("Debug of {}", s.show());
    let rows = debug_rows(text);
    ensure_eq!(rows.len(), s.r, "{what}: bracketed lines in\n{text}\n");
    widths(&rows, &what, text)?;
    let cols: Vec<String> = (0..s.c).map(|j| j.to_string()).collect();
    ensure!(text.split('\n').any(|l| l.split_whitespace().eq(cols.iter())), "{what}: no line numbers the columns in\n{text}");
    for (i, line) in rows.iter().enumerate() {
        let bad = |j: usize, what2: &str| format!("{what}: row {i}, column {j}: {what2}: {line:?}\n{text}");
        let rest = eat(line, &i.to_string(), true).ok_or_else(|| bad(0, "line is not labelled with the row number"))?.trim();
        let mut rest = rest.strip_prefix('[').and_then(|r| r.strip_suffix(']')).ok_or_else(|| bad(0, "no bracket after the row number"))?;
        for j in 0..s.c {
            let p = flat(s.r, s.c, s.ord, i, j).to_string();
            rest = eat(rest, &p, true).ok_or_else(|| bad(j, &format!("element is not labelled with its position in memory order, {p}")))?;
            rest = eat(rest, &at(i, j), false).ok_or_else(|| bad(j, &format!("{:?} expected", at(i, j))))?;
            ensure!(j + 1 == s.c || at(i, j).trim().is_empty() || apart(rest), "{}", bad(j, "nothing between this element and the next label"));
        }
        ensure!(rest.trim().is_empty(), "{}", bad(s.c, "more elements than columns"));
    }
    Ok(())
}

/// How often each visible character occurs, brackets left out, and digits
/// too where they may be labels.
fn tally<'a>(texts: impl Iterator<Item = &'a str>, digits: bool) -> BTreeMap<char, usize> {
    let mut n = BTreeMap::new();
    for ch in texts.flat_map(str::chars) {
        if !ch.is_whitespace() && !['[', ']'].contains(&ch) && (digits || !ch.is_ascii_digit()) { *n.entry(ch).or_default() += 1 }
    }
    n
}
/// Renderings of one or several lines: for the latter nothing is prescribed about the layout, but
/// every element is there once, and in its row where rows can be told apart.
fn check_lines(text: &str, s: S, debug: bool, all: &[String]) -> Result<bool, String> {
    if all.iter().any(|t| t.contains(['[', ']'])) { return Ok(false); }
    let what = format!("{} of {}", if debug { "Debug" } else { "Display" }, s.show());
    let strs = |v: &[String]| tally(v.iter().map(String::as_str), !debug);
    let (got, want) = (tally([text].into_iter(), !debug), strs(all));
    ensure!(got == want, "{what}: the text has the characters {got:?}, the elements {want:?}:\n{text}");
    let heads = if debug { debug_rows(text) } else { display_rows(text) };
    if heads.len() != s.r { return Ok(true); }
    let mut starts: Vec<usize> = heads.iter().map(|h| h.as_ptr() as usize - text.as_ptr() as usize).collect();
    starts.push(text.len());
    for i in 0..s.r {
        let (got, want) = (tally([&text[starts[i]..starts[i + 1]]].into_iter(), !debug), strs(&all[i * s.c..(i + 1) * s.c]));
        ensure!(got == want, "{what}: the lines of row {i} have the characters {got:?}, its elements {want:?}:\n{text}");
    }
    Ok(true)
}

/// Accepts so many bytes and then fails.
struct Limited { left: usize, text: String }
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left { return Err(fmt::Error); }
        self.left -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

fn check<T: Display + Debug + Clone + PartialEq>(r: usize, c: usize, vals: &[T], how: usize, pair: (usize, usize), st: &mut Stats) -> Result<(), String> {
    let shown: Vec<String> = vals.iter().map(|v| v.to_string()).collect();
    let debugged: Vec<String> = vals.iter().map(|v| format!("{v:?}")).collect();
    let mut texts = vec![];
    for (k, ord) in ORDERS.into_iter().enumerate() {
        let s = S { r, c, ord, how: how + k * (how % 5) };
        let m = make(s, vals)?;
        let text = catch(|| m.to_string()).map_err(|p| format!("Display of {}: {p}", s.show()))?;
        let dbg = catch(|| format!("{m:?}")).map_err(|p| format!("Debug of {}: {p}", s.show()))?;
        if r * c > 0 {
            // labels and texts that end in a digit cannot be told apart below
            if shown.iter().all(|t| single(t)) { check_display(&text, s, |i, j| shown[i * c + j].clone())?; st.inc("Display texts tokenised"); }
            if debugged.iter().all(|t| single(t)) { check_debug(&dbg, s, |i, j| debugged[i * c + j].clone())?; st.inc("Debug texts tokenised"); }
            for (debug, t, all) in [(false, &text, &shown), (true, &dbg, &debugged)] {
                if check_lines(t, s, debug, all)? && !all.iter().all(|t| single(t)) { st.inc("texts with elements of several lines"); }
            }
        }
        ensure!(!dbg.contains('\u{1b}') || debugged.iter().any(|t| t.contains('\u{1b}')), "Debug of {}: coloured although the output supports no colour\n{dbg:?}", s.show());
        st.add("characters formatted", (text.len() + dbg.len()) as u64);
        st.seen_str("distinct texts", &text);
        // the same text every time and by every route
        ensure_eq!(format!("{m}"), text, "Display of {}, again", s.show());
        ensure_eq!(format!("{m:?}"), dbg, "Debug of {}, again", s.show());
        // formatting options and failing writers: no panic
        if how % 4 == 0 {
            for t in [catch(|| format!("{m:#?}")), catch(|| format!("{m:>12}")), catch(|| format!("{m:#}")), catch(|| format!("{m:05.2?}")), catch(|| format!("{m:*^7x?}")), catch(|| format!("{:?}", &&m)), catch(|| format!("{:?}", Some(&m))), catch(|| format!("{:#?}", [&m]))] {
                t.map_err(|p| format!("formatting {} with options: {p}", s.show()))?;
            }
            for left in [0, 1, 2, text.len() / 2, text.len().saturating_sub(1), pair.0 % (text.len() + 1)] {
                let mut w = Limited { left, text: String::new() };
                let res = catch(|| write!(w, "{m}")).map_err(|p| format!("Display of {} to a writer that fails: {p}", s.show()))?;
                ensure!(res.is_err() == (left < text.len()) && text.starts_with(&w.text), "Display of {} to a writer of {left} bytes: {res:?}", s.show());
                let mut w = Limited { left: left.min(dbg.len() - 1), text: String::new() };
                let res = catch(|| write!(w, "{m:?}")).map_err(|p| format!("Debug of {} to a writer that fails: {p}", s.show()))?;
                ensure!(res.is_err() && dbg.starts_with(&w.text), "Debug of {} to a writer of {left} bytes: {res:?}", s.show());
            }
            st.inc("failing writers");
        }
        texts.push((text, m));
    }
    ensure!(texts[0].1 == texts[1].1 || vals.iter().any(|v| v != v), "setup: matrices differ");
    ensure!(texts[0].0 == texts[1].0, "Display of {r}x{c} depends on the storage order:\n{}\n{}", texts[0].0, texts[1].0);
    Ok(())
}

const WORDS: [&str; 34] = [
    "0", "1", "12", "-7", "x", "ab", "3.25", "a b", "a  b", "héllo", "日本語", "🦀", "👩‍👩‍👧", "e\u{301}e", "\u{200b}", "\u{202e}x", "[", "]", "[]", "[1]", "\"q\"", "\\", "{}", "{0}", "%s",
    "\t", "a\tb", "NaN", "inf", "\u{1F1E9}\u{1F1EA}", "ß", "\u{a0}y", "{:?}", "Ω",
];
fn word(g: &mut Rng, kind: usize) -> String {
    match kind {
        // plain numbers, signed, of mixed widths
        0 => format!("{}", (g.next() >> g.below(64)) as i64),
        1 => format!("{:.3}", g.below(200_000) as f64 / 7.0 - 1e4),
        2 => "abcdefghijklmnopqrstuvwxyz".chars().take(g.range(1, 26)).collect(),
        3 => { let w = WORDS[g.below(9)]; w.to_string() }
        // anything on one line
        4 => { let n = g.below(4); (0..=n).map(|_| *g.pick(&WORDS)).collect() }
        5 => if g.chance(1, 3) { String::new() } else { g.pick(&WORDS).to_string() },
        6 => (0..g.below(6)).map(|_| loop { if let Some(c) = char::from_u32(g.u32() % 0x11_0000) && single(&c.to_string()) { break c } }).collect(),
        // several lines
        7 => { let n = g.range(0, 4); (0..n).map(|_| format!("{}{}", g.pick(&WORDS), g.pick(&["\n", "\r\n", "\n\n", "", "\r"]))).collect() }
        _ => (0..g.below(9)).map(|_| *g.pick(&['a', '\n', '\r', ' ', '\t', '\u{2028}', '\u{85}', '\u{1b}', '\0', '日', '\u{301}'])).collect(),
    }
}

/// For the tokeniser to be exact, single-line Debug texts must not start with
/// a digit next to a label; white space separates them, so they may.
fn random(cx: &mut Ctx) {
    let n = cx.pick(3, 2500, 60_000);
    for key in 0..n as u64 {
        let mut g = cx.rng("random", key);
        let kind = key as usize % 9;
        let (r, c) = match g.below(10) {
            0 => (1, g.range(1, 30)), 1 => (g.range(1, 30), 1), 2 => (g.below(2), g.below(2)), 3 => (0, g.below(9)), 4 => (g.below(9), 0),
            5 => (g.range(9, 12), g.range(9, 12)), _ => (g.range(1, 8), g.range(1, 8)),
        };
        let one = g.chance(1, 6).then(|| word(&mut g, kind));
        let vals: Vec<E> = (0..r * c).map(|_| {
            let shown = match &one { Some(w) => w.clone(), None => word(&mut g, kind) };
            let debugged = if g.bool() { shown.clone() } else { word(&mut g, kind) };
            E { shown, debugged }
        }).collect();
        let pair = (g.below(100_000), 0);
        cx.case("random", key, r * c > 1, || format!("{r}x{c}, kind {kind}, {:?}...", vals.iter().take(4).map(|e| &e.shown).collect::<Vec<_>>()), |st| check(r, c, &vals, key as usize, pair, st));
    }
}

fn types(cx: &mut Ctx) {
    let mut key = 0;
    macro_rules! each { ($($name:literal $t:ty, $f:expr);* $(;)?) => { $(
        for (r, c) in [(1, 1), (2, 3), (3, 2), (4, 4), (10, 1), (1, 11), (10, 11), (5, 20)] {
            key += 1;
            let mut g = cx.rng("types", key);
            cx.case("types", key, true, || format!("{r}x{c} of {}", $name), |st| {
                let f: fn(&mut Rng) -> $t = $f;
                let vals: Vec<$t> = (0..r * c).map(|_| f(&mut g)).collect();
                check(r, c, &vals, key as usize, (17, 0), st)
            });
        }
    )* }; }
    each! {
        "i32" i32, |g| g.next() as i32 >> g.below(32);
        "u8" u8, |g| g.next() as u8;
        "i128" i128, |g| (g.next() as i128) << (g.below(64)) ;
        "f64" f64, |g| match g.below(6) { 0 => f64::NAN, 1 => f64::NEG_INFINITY, 2 => -0.0, 3 => 1e300, _ => g.below(1000) as f64 / 8.0 };
        "bool" bool, |g| g.bool();
        "char" char, |g| char::from_u32(0x20 + g.below(0x3000) as u32).unwrap_or('x');
        "String" String, |g| word(g, 2);
        "&str" &'static str, |g| WORDS[g.below(34)];
        "Box<u64>" Box<u64>, |g| Box::new(g.next() >> g.below(64));
        "std::num::Wrapping<i8>" std::num::Wrapping<i8>, |g| std::num::Wrapping(g.next() as i8);
        "std::net::Ipv6Addr" std::net::Ipv6Addr, |g| std::net::Ipv6Addr::from(((g.next() as u128) << 64 | g.next() as u128) >> g.below(120));
    }
    // nested matrices render over several lines
    for n in 0..4usize {
        cx.case("nested", n as u64, true, || format!("matrices of {n}x2 matrices"), |st| {
            let inner = |k: u32| make(S { r: n, c: 2, ord: ORDERS[k as usize % 2], how: 0 }, &(0..2 * n as u32).map(|x| x * 10 + k).collect::<Vec<_>>());
            let vals: Vec<Matrix<u32>> = (0..6).map(inner).collect::<Result<_, _>>()?;
            check(2, 3, &vals, 0, (5, 0), st)
        });
    }
}

/// Sizes at which labels change width, and very wide or very many elements.
fn extents(cx: &mut Ctx) {
    let mut list = vec![(3, 3), (3, 4), (2, 5), (5, 2), (11, 9), (10, 10), (100, 1), (1, 100), (101, 1), (1, 101), (33, 31), (12, 84), (1000, 1), (1, 1001), (100, 11), (40, 25)];
    if cx.vast() { list.extend([(100, 100), (1, 10_001), (10_001, 1), (257, 300), (1, 66_000), (40_000, 2)]); }
    if cx.miri() { list.truncate(3); }
    if cx.thorough && !cx.miri() { list.extend([(100, 100), (10001, 1), (1, 10001), (250, 401), (317, 317)]); }
    for (k, &(r, c)) in list.iter().enumerate() {
        for how in 0..3 {
            cx.case("extents", (k * 3 + how) as u64, true, || format!("{r}x{c} of numbers"), |st| {
                let vals: Vec<i64> = (0..r * c).map(|p| (p as i64 * 7919 % 1009) - if p % 3 == 0 { 500 } else { 0 }).collect();
                check(r, c, &vals, how * 4, (k * 37, 0), st)
            });
        }
    }
    if cx.miri() { return; }
    for (k, w) in [254usize, 255, 256, 257, 1000, 65534, 65535, 65536, 65537, 70000, 131072, 200_000].into_iter().enumerate() {
        cx.case("wide", k as u64, true, || format!("an element {w} characters wide"), |st| {
            for ch in ["x", "é", "🦀"] {
                let e = |n: usize| E { shown: ch.repeat(n), debugged: ch.repeat(n) };
                check(2, 2, &[e(1), e(w), e(3), e(0)], k, (w, 0), st)?;
            }
            let e = |n: usize| E { shown: "y\n".repeat(n), debugged: "y\n".repeat(n / 64) };
            if w < 70000 { check(2, 2, &[e(w), e(1), e(3), e(0)], 1, (w, 0), st)?; }
            Ok(())
        });
    }
}

harness::checked_heap!();

fn main() {
    let mut cx = Ctx::from_args("C20");
    random(&mut cx);
    types(&mut cx);
    extents(&mut cx);
    cx.together([0, 8, 80], |g, st| {
        for key in 0..30 {
            let kind = g.below(9);
            let (r, c) = (g.below(9), g.below(9));
            let vals: Vec<E> = (0..r * c).map(|_| E { shown: word(g, kind), debugged: word(g, kind) }).collect();
            let pair = (g.below(100_000), 0);
            check(r, c, &vals, key, pair, st)?;
        }
        Ok(())
    });
    cx.finish()
}
