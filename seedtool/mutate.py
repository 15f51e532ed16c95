#!/usr/bin/env python3
"""Development: small syntactic changes to matreex, sifted by its own tests, the
survivors put before the harness (dbg engine, all properties).

  mutate.py gen OUT.json            list the mutants
  mutate.py test OUT.json RES N     which survive the repository's tests (N workers)
  mutate.py check RES OUT2 N [ids]  run the survivors through the dbg engine
"""
import glob, json, os, re, shutil, subprocess, sys, threading, queue

REPO = "/repo"; W = "/tmp/mut"

RULES = [
    (r"(?<![<>=!-])<(?==)?=(?!=)", None),
]
SIMPLE = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" < ", " > "), (r" > ", " < "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
    (r" \+= ", " -= "), (r" -= ", " += "),
    (r" && ", " || "), (r" \|\| ", " && "),
    (r"\bmajor\b", "minor"), (r"\bminor\b", "major"), (r"\bnrows\b", "ncols"), (r"\bncols\b", "nrows"),
    (r"\brow\b", "col"), (r"\bcol\b", "row"), (r"\brows\b", "cols"), (r"\bcols\b", "rows"),
    (r"\bRowMajor\b", "ColMajor"), (r"\bColMajor\b", "RowMajor"),
    (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\bself\.order\b", "rhs.order"), (r"\bself\b(?!,|:|\))", "rhs"),
    (r"\bsource\b", "self"), (r"\bstart\b", "end"), (r"\bend\b", "start"), (r"\blower\b", "upper"), (r"\bupper\b", "lower"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"),
    (r"\bchecked_mul\(([^()]*(?:\([^()]*\)[^()]*)*)\)", r"checked_add(\1)"),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"),
    (r"\bSizeOverflow\b", "CapacityOverflow"), (r"\bCapacityOverflow\b", "SizeOverflow"), (r"\bSizeMismatch\b", "SizeOverflow"), (r"\bIndexOutOfBounds\b", "SizeMismatch"), (r"\bShapeNotConformable\b", "SizeMismatch"), (r"\bLengthInconsistent\b", "SizeMismatch"),
    (r"\bnext_back\(\)", "next()"), (r"\bnext\(\)", "next_back()"), (r"\.rev\(\)", ""), (r"\bnth_back\b", "nth"), (r"\bnth\b", "nth_back"),
    (r"\bisize::MAX\b", "usize::MAX"), (r"\busize::MAX\b", "isize::MAX"),
    (r"\bsize_of::<U>\(\)", "size_of::<T>()"), (r"\bsize_of::<T>\(\)", "align_of::<T>()"),
    (r"\bstep_by\b", "skip"), (r"\bskip\b", "take"), (r"\btake\b", "skip"),
    (r"\bif ([^{]+) \{", r"if true {"), (r"\bif ([^{]+) \{", r"if false {"), (r"\bwhile ([^{]+) \{", "while false {"),
    (r"\bSend\b", "Sync"), (r"\bSync\b", "Send"),
    (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"),
    (r"!(?=[a-z(])", ""),
    (r"\bwrapping_add\b", "wrapping_sub"), (r"\bwrapping_sub\b", "wrapping_add"),
    (r"\bunchecked", "checked"), (r"\bchecked_(\w+)", r"wrapping_\1"),
    (r"\brem_euclid\b", "wrapping_rem"), (r"\bdiv_ceil\b", "div_euclid"),
    (r"\bis_empty\(\)", "is_empty() == false"), (r"\bis_none\(\)", "is_some()"), (r"\bis_some\(\)", "is_none()"), (r"\bis_ok\(\)", "is_err()"), (r"\bis_err\(\)", "is_ok()"),
    (r"\bstride\.major\(\)", "stride.minor()"), (r"\bNonZero\b", "NonZero"),
    (r"\bcopy_nonoverlapping\b", "copy"), (r"\bforget\b", "drop"),
    (r"\bset_len\(([^()]*)\)", "set_len(0)"),
    (r"^(\s*)((?!let |return |break|continue|use |pub |type |impl |fn |\}|mod )[a-zA-Z_*(][^{}]*;)\s*$", r"\1"),   # delete a statement
    (r"\.to_(row|col)\w*\(", r".to_x\1("),
    (r"(\w+)\.(\w+)\((\w+), (\w+)\)", r"\1.\2(\4, \3)"),
    (r"\bFn(Mut|Once)?\b", "Fn"),
    (r"\.clone\(\)", ""),
    (r"\b(add|sub|mul|div|rem)\b", "sub"), (r"\b(add|sub|mul|div|rem)\b", "add"), (r"\b(Add|Sub|Mul|Div|Rem)\b", "Sub"),
    (r"(\w+) (\+|-|\*|/|%) (\w+)", r"\3 \2 \1"),
    (r"\|(\w+), (\w+)\|", r"|\2, \1|"),
    (r"\b(\w+)_rows\b", r"\1_cols"), (r"\b(\w+)_cols\b", r"\1_rows"), (r"\b(\w+)_row\b", r"\1_col"), (r"\b(\w+)_col\b", r"\1_row"),
    (r"\bfirst\b", "last"), (r"\blast\b", "first"), (r"\blen\(\)", "capacity()"), (r"\bcapacity\(\)", "len()"),
    (r"\breserve_exact\b", "reserve"), (r"\btruncate\b", "resize"),
    (r"\bswap\b", "replace"),
]


def gen(out):
    muts = []
    for f in sorted(glob.glob(REPO + "/src/**/*.rs", recursive=True)):
        if f.endswith(("verif_hooks.rs", "error.rs")):
            continue
        text = open(f).read()
        cut = re.search(r"^#\[cfg\(test\)\]\nmod tests", text, re.M)
        body = text[:cut.start()] if cut else text
        pos = 0
        for ln, line in enumerate(body.splitlines(True), 1):
            s = line.strip()
            if s and not s.startswith(("//", "#[", "#![", "use ", "pub use", "mod ", "pub mod", "assert_", "debug_assert")) and "verif" not in s:
                seen = set()
                code = line.split(" // ")[0] if " // " in line else line
                for k, (pat, rep) in enumerate(SIMPLE):
                    for m in re.finditer(pat, code):
                        new = line[:m.start()] + m.expand(rep) + line[m.end():]
                        if new != line and new not in seen:
                            seen.add(new)
                            muts.append(dict(id=len(muts), file=os.path.relpath(f, REPO), line=ln, pos=pos, old=line, new=new))
            pos += len(line)
    json.dump(muts, open(out, "w"))
    print(len(muts))


def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return None, "timeout"


def prepare(n):
    d = f"{W}/w{n}"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/repo"):
        subprocess.check_call(["git", "clone", "-q", REPO, d + "/repo"])
    else:
        subprocess.check_call(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
        subprocess.check_call(["git", "-C", d + "/repo", "pull", "-q"])
    return d


def apply(d, m):
    p = f"{d}/repo/{m['file']}"
    t = open(p).read()
    assert t[m["pos"]:m["pos"] + len(m["old"])] == m["old"]
    open(p, "w").write(t[:m["pos"]] + m["new"] + t[m["pos"] + len(m["old"]):])
    return p, t


def pool(jobs, res_path, n, work):
    q = queue.Queue(); [q.put(j) for j in jobs]
    lock = threading.Lock(); done = {}
    if os.path.exists(res_path):
        done = {int(k): v for k, v in json.load(open(res_path)).items()}
    def loop(i):
        d = prepare(i)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            if m["id"] in done: continue
            p, t = apply(d, m)
            try: r = work(d, m)
            except Exception as e: r = ["error", repr(e)]
            finally: open(p, "w").write(t)
            with lock:
                done[m["id"]] = r
                if len(done) % 20 == 0: json.dump(done, open(res_path, "w"))
    ts = [threading.Thread(target=loop, args=(i,)) for i in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    json.dump(done, open(res_path, "w"))
    return done


def test(muts, res, n):
    def work(d, m):
        env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true", CARGO_BUILD_JOBS="1", RUST_BACKTRACE="0", CARGO_PROFILE_TEST_DEBUG="0", CARGO_PROFILE_DEV_DEBUG="0")
        rc, o = sh(["cargo", "check", "-q", "--offline", "--features", "full"], d + "/repo", env, 120)
        if rc: return ["nobuild"]
        rc, o = sh(["cargo", "test", "-q", "--offline", "--features", "full", "--lib", "--tests"], d + "/repo", env, 120)
        if rc != 0: return ["killed"]
        rc, o = sh(["cargo", "test", "-q", "--offline", "--features", "full", "--doc"], d + "/repo", env, 300)
        return ["survived"] if rc == 0 else ["killed"]
    done = pool(muts, res, n, work)
    from collections import Counter
    print(Counter(v[0] for v in done.values()))


def check(muts, res, n):
    every = ["c%02d" % i for i in range(1, 21)]
    first = {"src/arithmetic.rs": "12 11 18 07 08", "src/arithmetic/mul.rs": "11 18 12 08", "src/construct.rs": "19 08", "src/convert.rs": "19 08", "src/eq.rs": "07",
             "src/fmt.rs": "20", "src/index.rs": "04 13 15", "src/iter.rs": "06 15 03", "src/iter/iter_mut.rs": "03 06 17", "src/lib.rs": "05 09 14 01 08", "src/macros.rs": "19",
             "src/order.rs": "05 01", "src/parallel.rs": "16 15", "src/shape.rs": "08 01 05", "src/swap.rs": "10"}
    def work(d, m):
        h = d + "/harness"
        if not os.path.exists(h):
            shutil.copytree("/verif/harness", h, ignore=shutil.ignore_patterns("target"))
            c = open(h + "/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"')
            open(h + "/Cargo.toml", "w").write(c)
        env = dict(os.environ, CARGO_TARGET_DIR=d + "/htarget", CARGO_NET_OFFLINE="true", CARGO_BUILD_JOBS="1", RUST_BACKTRACE="0", TERM="dumb")
        order = ["c" + x for x in first.get(m["file"], "18 12 11").split()]
        order += [b for b in every if b not in order]
        for b in order:
            rc, o = sh(["cargo", "build", "-q", "--offline", "--features", "full,hooks", "--bin", b], h, env, 900)
            if rc: return ["nobuild", o[-300:]]
            rc, o = sh([f"{d}/htarget/debug/{b}", "--tier", "quick", "--engine", "native", "--seed", "1", "--shard", "0/1", "--budget", "40"], h, env, 120)
            v = [l for l in o.splitlines() if l.startswith("VIOL")]
            if v: return ["caught", [b, v[0][:200]]]
            if "RESULT\t" not in o: return ["caught", [b, f"crash rc={rc} {o[-200:]}"]]
        return ["missed"]
    return pool(muts, res, n, work)


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "gen": gen(sys.argv[2])
    elif cmd == "test": test(json.load(open(sys.argv[2])), sys.argv[3], int(sys.argv[4]))
    elif cmd == "check":
        muts = json.load(open(sys.argv[2])); res = {int(k): v for k, v in json.load(open(sys.argv[3])).items()}
        surv = [m for m in muts if res.get(m["id"], [""])[0] == "survived"]
        if len(sys.argv) > 6: surv = [m for m in surv if m["id"] in set(map(int, sys.argv[6].split(",")))]
        done = check(surv, sys.argv[4], int(sys.argv[5]))
        for m in surv:
            r = done.get(m["id"])
            if r and r[0] != "caught": print(m["id"], r[0], m["file"], m["line"], "\n  -", m["old"].strip(), "\n  +", m["new"].strip())
