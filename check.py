#!/usr/bin/env python3
"""Driver: builds the monitored harness from /repo's working tree, runs one
property's workloads on several engines and decides.

  check.py C05                      tier from VERIF_TIER, seed from VERIF_SEED
  check.py C05 --tier thorough --seed 3
  check.py C05 --engines dbg,miri   (development: restrict engines)
  check.py --replay replays/C05-1.json
  check.py --setup

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: inconclusive (build failure, timeout, out of memory, nothing observed).
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
REPO = "/repo"
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
TRIPLE = "x86_64-unknown-linux-gnu"

sys.path.insert(0, ROOT)
from props import PROPS, GENERIC_ASSUMPTIONS  # noqa: E402

ENGINES = {
    "dbg": dict(toolchain=None, profile="debug", features="full,hooks,heap", arg="native"),
    "rel": dict(toolchain=None, profile="release", features="heap", arg="native"),
    "asan": dict(toolchain="nightly", profile="debug", features="full,hooks", arg="asan", triple=True,
                 rustflags="-Zsanitizer=address"),
    "tsan": dict(toolchain="nightly", profile="debug", features="full", arg="tsan", triple=True,
                 rustflags="-Zsanitizer=thread", extra=["-Zbuild-std"]),
    "miri": dict(toolchain="nightly", profile="debug", features="full,hooks", arg="miri", miri=True),
}


# Engines whose build with the recording hooks failed: a change to the hooked
# code may have broken the hooks only, and no verdict rests on them alone.
UNHOOKED = set()


def env_for(engine):
    e = dict(os.environ)
    for k in list(e):
        if k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "NO_COLOR", "FORCE_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "IGNORE_IS_TERMINAL") \
                or k.startswith("CARGO_PROFILE") or k.startswith("CARGO_BUILD") or k.startswith("RAYON"):
            del e[k]
    cfg = ENGINES[engine]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, engine)
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e["TERM"] = "dumb"
    if cfg.get("rustflags"):
        e["RUSTFLAGS"] = cfg["rustflags"]
    e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:max_allocation_size_mb=8192:allocator_may_return_null=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:suppressions=" + os.path.join(ROOT, "tsan.supp")
    e["MIRIFLAGS"] = "-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance"
    return e


def cargo(engine, sub):
    cfg = ENGINES[engine]
    c = ["cargo"]
    if cfg["toolchain"]:
        c.append("+" + cfg["toolchain"])
    c += sub + ["--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
    if cfg["profile"] == "release":
        c.append("--release")
    feats = [f for f in cfg["features"].split(",") if f and not (f == "hooks" and engine in UNHOOKED)]
    if feats:
        c += ["--features", ",".join(feats)]
    if cfg.get("triple"):
        c += ["--target", TRIPLE]
    return c + cfg.get("extra", [])


def repo_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml"]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def freshen(engine):
    """cargo trusts mtimes; we also make sure of the content."""
    d = os.path.join(TARGET, engine)
    stamp = os.path.join(d, "repo.sha256")
    h = repo_hash()
    old = open(stamp).read().strip() if os.path.exists(stamp) else None
    if old != h:
        for p in glob.glob(d + "/**/.fingerprint/matreex-*", recursive=True):
            shutil.rmtree(p, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        open(stamp, "w").write(h + "\n")


def limit():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


RUNNING = set()
FOUND = threading.Event()


def stop_others():
    """A violation decides the check: the remaining shards are not needed."""
    FOUND.set()
    for p in list(RUNNING):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def run(cmd, env, timeout, cwd=HARNESS):
    """Returns (rc, stdout, stderr); rc None on timeout."""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limit)
    RUNNING.add(p)
    try:
        return wait(p, timeout)
    finally:
        RUNNING.discard(p)


def wait(p, timeout):
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode("utf8", "replace"), err.decode("utf8", "replace")


def build(engine, bin_, deadline):
    freshen(engine)
    env = env_for(engine)
    P = PROPS.get(bin_.upper(), {})
    if engine == "rel" and "rel_opt" in P:
        env["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = str(P["rel_opt"])
    t = time.time()
    while True:
        if ENGINES[engine].get("miri"):
            cmd = cargo(engine, ["miri", "run"]) + ["--bin", bin_, "--", "--noop"]
        else:
            cmd = cargo(engine, ["build"]) + ["--bin", bin_]
        rc, out, err = run(cmd, env, max(30, deadline - time.time()))
        if rc in (0, None) or engine in UNHOOKED or "hooks" not in ENGINES[engine]["features"]:
            break
        UNHOOKED.add(engine)
    return rc == 0, time.time() - t, (out + err)[-4000:]


def exe(engine, bin_):
    cfg = ENGINES[engine]
    if cfg.get("miri"):
        return cargo(engine, ["miri", "run", "-q"]) + ["--bin", bin_, "--"]
    return [os.path.join(TARGET, engine, TRIPLE if cfg.get("triple") else "", cfg["profile"], bin_)]


def unesc(s):
    return s.replace("\\n", "\n").replace("\\t", "\t").replace("\\r", "\r").replace("\\\\", "\\")


def parse(out):
    viols, result, last = [], None, None
    for line in out.splitlines():
        f = line.split("\t")
        if f[0] == "VIOL" and len(f) >= 5:
            viols.append(dict(section=f[1], key=int(f[2]), desc=unesc(f[3]), msg=unesc(f[4])))
        elif f[0] == "CASE" and len(f) >= 4:
            last = dict(section=f[1], key=int(f[2]), desc=unesc(f[3]))
        elif f[0] == "RESULT":
            try:
                result = json.loads(f[1])
            except ValueError:
                pass
    return viols, result, last


CRASH = [
    # (pattern in stderr, verdict)
    (r"error: unsupported operation", None),
    (r"memory allocation of \d+ bytes failed|out of memory|resource exhaustion|Cannot allocate memory", None),
    (r"ERROR: AddressSanitizer: (?:allocation-size-too-big|out of memory|requested allocation size|calloc-overflow)", None),
    (r"error: Undefined Behavior[^\n]*(?:\n[^\n]*){0,14}", "undefined behaviour"),
    (r"ERROR: AddressSanitizer[^\n]*(?:\n[^\n]*){0,14}", "AddressSanitizer report"),
    (r"ERROR: LeakSanitizer[^\n]*(?:\n[^\n]*){0,14}", "leak"),
    (r"WARNING: ThreadSanitizer[^\n]*(?:\n[^\n]*){0,24}", "data race"),
    (r"unsafe precondition[^\n]*", "std detected undefined behaviour"),
    (r"panic in a destructor during cleanup[^\n]*|panic in a function that cannot unwind[^\n]*|thread panicked while processing panic[^\n]*", "abort"),
    (r"has overflowed its stack", "stack overflow"),
]


def crash_verdict(rc, out, err):
    """(is_violation, text) for a run that ended without RESULT."""
    if rc is None:
        return False, "timed out"
    text = err + "\n" + out[-2000:]
    for pat, verdict in CRASH:
        m = re.search(pat, text)
        if m:
            return (verdict is not None), f"{verdict or 'inconclusive'}: {m.group(0)[:1500]}"
    if rc < 0 or rc > 128:
        sig = -rc if rc < 0 else rc - 128
        name = signal.Signals(sig).name if sig in signal.valid_signals() else str(sig)
        if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP, signal.SIGABRT):
            return True, f"killed by {name}: {err[-800:]}"
        return False, f"ended by {name}"
    return False, f"harness ended with status {rc}: {err[-800:]}"


def run_shard(engine, bin_, args, timeout):
    cmd = exe(engine, bin_) + args
    skipped = dict(engine=engine, args=args, viols=[], result=None, note=None, rc=None, err="")
    if FOUND.is_set():
        return skipped
    t_end = time.time() + timeout
    for _ in range(12):
        rc, out, err = run(cmd, env_for(engine), max(5, t_end - time.time()))
        if FOUND.is_set() and rc == -signal.SIGKILL:
            return skipped
        m = re.search(r"^SLOW\t(.*)\t(\d+)$", out, re.M)
        if not m:
            break
        # extents on which a correct implementation may be slow: go on without
        cmd = cmd + ["--skip", m.group(1)]
    viols, result, last = parse(out)
    note = None
    if result is None:
        bad, text = crash_verdict(rc, out, err)
        if bad and last is None:
            # find the case: once more, announcing each one
            rc2, out2, err2 = run(cmd + ["--trace"], env_for(engine), timeout)
            v2, r2, last2 = parse(out2)
            if r2 is None:
                last = last2
        if bad:
            viols.append(dict(section=(last or {}).get("section", "?"), key=(last or {}).get("key", 0), desc=(last or {}).get("desc", "crash outside a case"), msg=text, crash=True))
        elif not viols:
            note = text
    if viols and not is_known(bin_.upper(), viols):
        stop_others()
    return dict(engine=engine, args=args, viols=viols, result=result, note=note, rc=rc, err=err[-2000:])


def is_known(pid, viols):
    return any(match_known(v, [k for k in known_findings() if k[0] == pid]) for v in viols)


def match_known(v, known):
    return next((k for k in known if re.fullmatch(k[1], f"{v['section']}:{v['key']}") or k[1] in v["msg"]), None)


def known_findings():
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known:\s+property=(\S+)\s+match=(\S+)\s+(.*)", line.strip())
            if m:
                res.append((m.group(1), m.group(2), m.group(3)))
    return res


def write_evidence(pid, tier, seed, P, engines, results, builds, wall, nviol, extra_notes):
    per_engine, counts, seen, sections, samples, truncated = {}, {}, {}, {}, [], []
    for r in results:
        e = r["engine"]
        pe = per_engine.setdefault(e, dict(shards=0, evaluations=0, distinct=0))
        pe["shards"] += 1
        res = r["result"]
        if not res:
            continue
        pe["evaluations"] += res["evaluations"]
        pe["distinct"] += res["distinct"]
        for k, v in res["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in res["sections"].items():
            sections[k] = sections.get(k, 0) + v
        for k, v in res["distinct_seen"].items():
            seen.setdefault(k, set()).update(v)
        for s in res["samples"]:
            if len(samples) < 40 and not any(x.split(":")[0] == s.split(":")[0] for x in samples):
                samples.append(s)
        truncated += res["truncated"]
    cov = dict(
        evaluations=sum(p["evaluations"] for p in per_engine.values()),
        distinct_nontrivial=max([p["distinct"] for p in per_engine.values()] or [0]),
        rule=P["rule"],
        samples=samples or ["(none)"],
        per_engine=per_engine,
        cases_per_section=sections,
        observed=counts,
        distinct_observed={k: len(v) for k, v in seen.items()},
        build_seconds={e: round(t, 1) for e, t in builds.items()},
        out_of_time_sections=sorted(set(truncated)),
    )
    if extra_notes:
        cov["inconclusive"] = extra_notes
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "exploration"), coverage=cov,
              assumptions=P.get("assumptions", []) + GENERIC_ASSUMPTIONS, wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", pid + ".json")
    tmp = p + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, p)
    return cov


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--engines")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.seed is None:
        try:
            a.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            a.seed = 1
    if a.setup:
        return setup()
    if a.replay:
        return replay(a.replay)
    pid, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    P = PROPS[pid]
    t0 = time.time()
    plan = dict(P["engines"][tier])
    if a.engines:
        plan = {e: plan.get(e, 2) for e in a.engines.split(",")}
    bin_ = pid.lower()
    hard = t0 + (800 if tier == "quick" else 840)
    budget = P.get("budget", {}).get(tier, 60 if tier == "quick" else 420)
    notes, builds, results, tool_notes = [], {}, [], []
    with cf.ThreadPoolExecutor(16) as ex:
        bf = {e: ex.submit(build, e, bin_, hard) for e in plan}
        for e, f in bf.items():
            ok, secs, log = f.result()
            builds[e] = secs
            if not ok:
                notes.append(f"build of {e} failed")
                print(f"build of engine {e} failed:\n{log}", file=sys.stderr)
        if not notes:
            jobs = []
            for e, shards in plan.items():
                for s in range(shards):
                    args = ["--tier", tier, "--engine", ENGINES[e]["arg"], "--seed", str(a.seed), "--shard", f"{s}/{shards}", "--budget", str(budget)]
                    jobs.append((e, args))
            # interpreter shards first, they are the long ones
            jobs.sort(key=lambda j: j[0] != "miri")
            with cf.ThreadPoolExecutor(P.get("parallel", 8)) as ex2:
                fs = [ex2.submit(run_shard, e, bin_, args, max(20, min(hard - time.time(), budget * 2 + 120))) for e, args in jobs]
                for f in fs:
                    results.append(f.result())
    for probe in P.get("probes", []):
        if FOUND.is_set():
            break
        if not notes or probe.get("always"):
            import probes
            results.append(getattr(probes, probe["name"])(tier, a.seed))
    viols = []
    for r in results:
        if r["note"]:
            notes.append(f"{r['engine']} {' '.join(r['args'])}: {r['note']}")
        for v in r["viols"]:
            viols.append((r, v))
    known = [k for k in known_findings() if k[0] == pid]
    new, hit = [], set()
    for r, v in viols:
        k = match_known(v, known)
        if k:
            hit.add(k)
        else:
            new.append((r, v))
    for k in known:
        # listed findings are announced even when sampling did not reach them
        print(f"KNOWN-FINDING: property={pid} {k[2]}")
    cov = write_evidence(pid, tier, a.seed, P, plan, results, builds, time.time() - t0, len(new), notes)
    print(f"{pid} {tier} seed={a.seed}: {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct) on {', '.join(f'{e}:{p['evaluations']}' for e, p in cov['per_engine'].items())}; build {max(builds.values() or [0]):.0f}s, total {time.time()-t0:.0f}s")
    if new:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        paths = []
        for n, (r, v) in enumerate(new[:5], 1):
            path = os.path.join(ROOT, "replays", f"{pid}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, engine=r["engine"], tier=tier, seed=a.seed, **v), f, indent=1)
                f.write("\n")
            paths.append(path)
            print(f"--- {r['engine']} {v['section']}:{v['key']} [{v['desc'][:300]}]\n    {v['msg'][:1500]}")
        print(f"VIOLATION property={pid} replay={paths[0]}")
        return 1
    if notes:
        for n in notes:
            print("INCONCLUSIVE:", n)
        return 2
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
        print("INCONCLUSIVE: nothing was observed")
        return 2
    need = P.get("min_observed", {})
    seen = {**cov["observed"], **cov["distinct_observed"]}
    for k, n in need.items():
        if seen.get(k, 0) < n:
            print(f"INCONCLUSIVE: observed only {seen.get(k, 0)} of '{k}' (needs {n})")
            return 2
    return 0


def replay(path):
    d = json.load(open(path))
    pid, e = d["property"], d["engine"]
    if e not in ENGINES:
        print("this violation comes from a probe; run the check again"); return 2
    ok, _, log = build(e, pid.lower(), time.time() + 800)
    if not ok:
        print(log); return 2
    r = run_shard(e, pid.lower(), ["--tier", d["tier"], "--engine", ENGINES[e]["arg"], "--seed", str(d["seed"]), "--replay", f"{d['section']}:{d['key']}", "--budget", "600", "--trace"], 800)
    for v in r["viols"]:
        print(f"--- {e} {v['section']}:{v['key']} [{v['desc']}]\n{v['msg']}")
    if r["viols"]:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(r["note"] or "not reproduced")
    return 2 if r["note"] else 0


def setup():
    ok = True
    for cmd in (["cargo", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "+nightly", "miri", "--version"]):
        rc, out, err = run(cmd, dict(os.environ), 120, ROOT)
        print(" ".join(cmd), "->", (out or err).strip())
        ok &= rc == 0
    # the dependencies resolve offline
    rc, out, err = run(["cargo", "metadata", "--offline", "--format-version", "1", "--manifest-path", HARNESS + "/Cargo.toml"], env_for("dbg"), 300, ROOT)
    ok &= rc == 0
    if rc:
        print(err[-2000:])
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
