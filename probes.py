"""Probes that need more than one process: programs that must not compile (C17)
and outputs on pipes and terminals (C20)."""
import concurrent.futures as cf, glob, json, os, pty, re, select, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))


def result(name, viols=(), note=None, evaluations=0, distinct=0, counts=None, sections=None, samples=()):
    return dict(engine="probe:" + name, args=[], viols=list(viols), note=note, rc=0, err="",
                result=dict(evaluations=evaluations, distinct=distinct, counts=counts or {}, sections=sections or {},
                            distinct_seen={}, samples=list(samples), truncated=[]))


def viol(section, key, desc, msg):
    return dict(section=section, key=key, desc=desc, msg=msg)


# ------------------------------------------------------------------ C17
# (name, preamble and body with PICK(bad|good))
PRE = """#![allow(unused)]
use matreex::*;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex, MutexGuard};
fn send<T: Send>(_: &T) {}
fn sync<T: Sync>(_: &T) {}
fn eat<T>(_: T) {}
fn mk<T: Clone>(x: T) -> Matrix<T> { let mut m: Matrix<T> = Matrix::from_row(vec![x.clone(), x.clone(), x.clone(), x]); m.reshape((2, 2)).unwrap(); m }
"""


def c17_programs():
    out = []
    notsend = [("Rc", "Rc::new(1u32)", "Arc::new(1u32)"), ("raw pointer", "std::ptr::null_mut::<u8>()", "0usize"),
               ("&Cell", "{ let r: &'static Cell<u8> = Box::leak(Box::new(Cell::new(1))); r }", "{ let r: &'static u8 = Box::leak(Box::new(1)); r }"),
               ("Arc<Cell>", "Arc::new(Cell::new(1u8))", "Arc::new(Mutex::new(1u8))")]
    notsync = [("Cell", "Cell::new(1u32)", "1u32"), ("RefCell", "RefCell::new(1u32)", "String::new()"), ("Rc", "Rc::new(1)", "Box::new(1)")]
    for f, nth in (("iter_rows_mut", "iter_nth_row_mut"), ("iter_cols_mut", "iter_nth_col_mut")):
        for name, bad, good in notsend:
            out.append((f"{f} of {name} crosses a thread", "fn main() { let mut m = mk(PICK); let it = m.%s(); std::thread::scope(|s| { s.spawn(move || { for v in it { for e in v { eat(e); } } }); }); }" % f, bad, good))
            out.append((f"a vector of {f} of {name} crosses a thread", "fn main() { let mut m = mk(PICK); let v = m.%s().next().unwrap(); std::thread::scope(|s| { s.spawn(move || { for e in v { eat(e); } }); }); }" % f, bad, good))
            out.append((f"{nth} of {name} is Send", "fn main() { let mut m = mk(PICK); let v = m.%s(0).unwrap(); send(&v); }" % nth, bad, good))
        for name, bad, good in notsync:
            out.append((f"{f} of {name} is shared", "fn main() { let mut m = mk(PICK); let it = m.%s(); std::thread::scope(|s| { let r = &it; s.spawn(move || r.len()); r.len(); }); }" % f, bad, good))
            out.append((f"a vector of {f} of {name} is shared", "fn main() { let mut m = mk(PICK); let v = m.%s().next().unwrap(); std::thread::scope(|s| { let r = &v; s.spawn(move || r.len()); r.len(); }); }" % f, bad, good))
            out.append((f"{nth} of {name} is Sync", "fn main() { let mut m = mk(PICK); let v = m.%s(1).unwrap(); sync(&v); }" % nth, bad, good))
        # the borrow that keeps elements reachable from one place only
        M = "let mut m = mk(1u32); "
        end_a, end_b = "drop(a);", "drop(b);"
        for other in ("iter_rows_mut().next()", "iter_cols_mut().next()", "iter_elements_mut().next()", "get_mut((0, 0))", "iter_rows().next().map(|_| ())", "iter_elements().next()", "get((0, 0))", "iter_nth_row_mut(0)", "iter_nth_col_mut(0)"):
            out.append((f"{other} while {f} is alive", "fn main() { %slet a = m.%s(); PICK }" % (M, f), f"let b = m.{other}; {end_a} {end_b}", f"{end_a} let b = m.{other}; {end_b}"))
            out.append((f"{other} while a vector of {f} is alive", "fn main() { %slet a = m.%s().next(); PICK }" % (M, f), f"let b = m.{other}; {end_a} {end_b}", f"{end_a} let b = m.{other}; {end_b}"))
            out.append((f"{other} while a reference from {f} is alive", "fn main() { %slet a = m.%s().next().unwrap().next().unwrap(); PICK }" % (M, f), f"let b = m.{other}; *a = 1; {end_b}", f"*a = 1; let b = m.{other}; {end_b}"))
            out.append((f"{other} while {nth} is alive", "fn main() { %slet a = m.%s(0); PICK }" % (M, nth), f"let b = m.{other}; {end_a} {end_b}", f"{end_a} let b = m.{other}; {end_b}"))
        for what, stmt in (("dropped", "drop(m);"), ("moved", "let n = m;"), ("transposed", "m.transpose();"), ("resized", "m.resize((3, 3)).unwrap();"), ("cleared", "m.clear();"), ("assigned", "m = mk(2);"), ("shrunk", "m.shrink_to_fit();"), ("swapped", "m.swap_rows(0, 1).unwrap();"), ("read", "let n = m.size();")):
            for kind, start in (("iterator", f"let a = m.{f}();"), ("vector", f"let a = m.{f}().next().unwrap();"), ("reference", f"let a = m.{f}().next().unwrap().next_back().unwrap();"), ("nth", f"let a = m.{nth}(1).unwrap();")):
                out.append((f"matrix {what} while the {kind} of {f} is alive", "fn main() { %s%s PICK }" % (M, start), f"{stmt} {end_a}", f"{end_a} {stmt}"))
        out.append((f"a reference from {f} outlives the matrix", "fn main() { let mut keep = vec![]; PICK for k in keep { let k: &mut u32 = k; *k += 1; } }", "{ let mut m = mk(1u32); for v in m.%s() { for e in v { keep.push(e); } } }" % f, "let mut m = mk(1u32); { for v in m.%s() { for e in v { keep.push(e); } } }" % f))
        out.append((f"{f} through a shared reference", "fn f(m: PICK Matrix<u32>) { for v in m.%s() { for e in v { *e += 1; } } } fn main() { }" % f, "&", "&mut"))
        out.append((f"{nth} through a shared reference", "fn f(m: PICK Matrix<u32>) { for e in m.%s(0).unwrap() { *e += 1; } } fn main() { }" % nth, "&", "&mut"))
        out.append((f"{f} gives out references longer than its borrow", "fn f<'a, 'b: 'a>(m: &'a mut Matrix<&'b u32>) -> impl Iterator<Item = impl Iterator<Item = &'PICK mut &'b u32>> { m.%s() } fn main() { }" % f, "b", "a"))
        out.append((f"{f} lets a short reference into a matrix of long ones", "fn f<'a>(m: &mut Matrix<&'PICK str>, s: &'a str) { for v in m.%s() { for e in v { *e = s; } } } fn main() { }" % f, "static", "a"))
        out.append((f"a vector of {f} is used twice", "fn main() { %slet a = m.%s().next().unwrap(); for e in a { *e += 1; } PICK }" % (M, f), "for e in a { *e += 1; }", ""))
    return out


def c17_compile(tier, seed):
    libs = sorted(glob.glob(os.path.join(ROOT, "target/dbg/debug/deps/libmatreex-*.rlib")), key=os.path.getmtime)
    if not libs:
        return result("compile", note="no built library to compile against")
    lib = libs[-1]
    programs = c17_programs()
    d = tempfile.mkdtemp(prefix="c17probe-")
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)

    def compile_(k, which, body, part):
        src = os.path.join(d, f"p{k}{which}.rs")
        with open(src, "w") as f:
            f.write(PRE + body.replace("PICK", part))
        p = subprocess.run(["rustc", "--edition", "2024", "--crate-name", f"p{k}{which}", "--emit=metadata", "-o", src + ".rmeta", "--error-format=short", "--cap-lints", "allow",
                            "--extern", "matreex=" + lib, "-L", "dependency=" + os.path.dirname(lib), src], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        return p.returncode, p.stdout.decode("utf8", "replace")

    viols, notes, codes, ok = [], [], {}, 0
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            futs = [(k, ex.submit(compile_, k, "b", body, bad), ex.submit(compile_, k, "g", body, good)) for k, (_, body, bad, good) in enumerate(programs)]
            for k, fb, fg in futs:
                name, body, bad, good = programs[k]
                (rb, ob), (rg, og) = fb.result(), fg.result()
                if rg != 0:
                    notes.append(f"the harmless twin of '{name}' does not compile: {og[:400]}")
                    continue
                if rb == 0:
                    viols.append(viol("compile", k, name, f"this program must be rejected, but it compiles:\n{body.replace('PICK', bad)}"))
                    continue
                ok += 1
                for c in sorted(set(re.findall(r"error\[(E\d+)\]", ob))) or ["other"]:
                    codes["rejected with " + c] = codes.get("rejected with " + c, 0) + 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    counts = {"misuse programs rejected": ok, **codes}
    note = None
    if not ok and not viols:
        note = notes[0] if notes else "no program was compiled"
    elif notes:
        counts["programs skipped (their twin does not compile)"] = len(notes)
    return result("compile", viols, note, evaluations=len(programs), distinct=ok + len(viols), counts=counts,
                  sections={"compile": len(programs)}, samples=[f"compile:{k} {programs[k][0]}: {programs[k][1]}" for k in (0, len(programs) // 2)])


# ------------------------------------------------------------------ C20

SCRUB = ("NO_COLOR", "FORCE_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "IGNORE_IS_TERMINAL", "CI", "COLORTERM", "TERM_PROGRAM")


def c20_build(color):
    import check
    env = check.env_for("dbg")
    env["CARGO_TARGET_DIR"] = os.path.join(ROOT, "target", "fmt-color" if color else "fmt-plain")
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(ROOT, "harness-fmt/Cargo.toml")] + (["--features", "color"] if color else [])
    rc, out, err = check.run(cmd, env, 400, os.path.join(ROOT, "harness-fmt"))
    return (os.path.join(env["CARGO_TARGET_DIR"], "debug/harness-fmt") if rc == 0 else None), out + err


def drain(fds, deadline):
    bufs = {fd: b"" for fd in fds}
    live = set(fds)
    while live and time.time() < deadline:
        r, _, _ = select.select(list(live), [], [], 1.0)
        for fd in r:
            try:
                b = os.read(fd, 1 << 16)
            except OSError:
                b = b""
            if b:
                bufs[fd] += b
            else:
                live.discard(fd)
    return bufs, not live


def c20_run(exe, args, env, out_tty, err_tty):
    """Runs exe with stdout/stderr on a pipe or a terminal; returns its stderr."""
    import tty
    ends = []
    for is_tty in (out_tty, err_tty):
        if is_tty:
            m, s = pty.openpty()
            tty.setraw(s)
        else:
            m, s = os.pipe()
        ends.append((m, s))
    p = subprocess.Popen([exe] + args, env=env, stdin=subprocess.DEVNULL, stdout=ends[0][1], stderr=ends[1][1], start_new_session=True)
    for _, s in ends:
        os.close(s)
    bufs, done = drain([m for m, _ in ends], time.time() + 120)
    if not done:
        p.kill()
    rc = p.wait()
    for m, _ in ends:
        os.close(m)
    return (rc if done else None), bufs[ends[1][0]]


def c20_colour(tier, seed):
    with cf.ThreadPoolExecutor(2) as ex:
        (plain, log1), (color, log2) = ex.map(c20_build, (False, True))
    if not plain or not color:
        return result("colour", note="the format programs do not build: " + (log1 if not plain else log2)[-800:])
    base = {k: v for k, v in os.environ.items() if k not in SCRUB and k != "TERM"}
    n = "4000" if tier == "thorough" else "400"
    args = [str(seed), n]
    rc, want = c20_run(plain, args, {**base, "TERM": "xterm-256color"}, False, False)
    if rc != 0 or not want:
        return result("colour", [viol("colour", 0, "without the feature", f"the program that formats matrices failed with status {rc}: {want[-500:]!r}")] if rc == 101 else [], None if rc == 101 else f"the plain program ended with {rc}")
    viols, counts, used = [], {}, 0
    if b"\x1b" in want:
        viols.append(viol("colour", 0, "without the feature", "escape sequences in the output of the build without colours"))
    # outputs that do not support colour, as owo-colors' supports-colors decides
    cases = [
        ("stdout is a pipe", {"TERM": "xterm-256color"}, False, False),
        ("stdout is a pipe, stderr a terminal", {"TERM": "xterm-256color"}, False, True),
        ("stdout is a pipe, COLORTERM set", {"TERM": "xterm-256color", "COLORTERM": "truecolor"}, False, False),
        ("stdout is a terminal, TERM=dumb", {"TERM": "dumb"}, True, False),
        ("both are terminals, TERM=dumb", {"TERM": "dumb"}, True, True),
        ("stdout is a terminal, NO_COLOR=1", {"TERM": "xterm-256color", "NO_COLOR": "1"}, True, False),
        ("both are terminals, NO_COLOR=1", {"TERM": "xterm-256color", "NO_COLOR": "1"}, True, True),
        ("no TERM, pipe", {}, False, False),
    ]
    nm = want.count(b"\x01")
    for k, (name, extra, o, e) in enumerate(cases, 1):
        rc, got = c20_run(color, args, {**base, **extra}, o, e)
        if rc is None:
            return result("colour", viols, f"{name}: timed out")
        used += 1
        if rc != 0:
            viols.append(viol("colour", k, name, f"formatting failed with status {rc}: {got[-500:].decode('utf8', 'replace')}"))
        elif got != want:
            a, b = want.split(b"\x01"), got.split(b"\x01")
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
            viols.append(viol("colour", k, name, f"with the colour feature the text differs although colours are not supported ({name}); first difference:\n"
                              f"without the feature: {a[i][:700]!r}\nwith it: {b[i][:700]!r}"))
        counts["texts compared with and without the colour feature"] = counts.get("texts compared with and without the colour feature", 0) + 3 * nm
    # not required by the property, but shows that the comparison can fail
    rc, got = c20_run(color, args, {**base, "TERM": "xterm-256color"}, True, False)
    counts["escape sequences seen on a terminal that supports colours"] = got.count(b"\x1b[")
    return result("colour", viols, None, evaluations=used, distinct=used, counts=counts, sections={"colour": used},
                  samples=[f"colour: {c[0]}" for c in cases[:2]])
