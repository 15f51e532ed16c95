#!/usr/bin/env python3
"""Development tool: turns the entries of seeds.py into /verif/seeded/<id>/ after
confirming, in a scratch copy of /repo, that each builds, passes the stable
tests, and is told apart by its demo.   mk.py [id...]   (parallel: -j N)"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
spec = importlib.util.spec_from_file_location("seeds", os.path.join(HERE, "seeds.py"))
S = importlib.util.module_from_spec(spec); spec.loader.exec_module(S)
STABLE = None

DEMO = '''#!/bin/bash
# Run in the root of matreex: exit 0 if the property holds there.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/matreex-demo.XXXXXX) || exit 3
trap 'rm -rf -- "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/main.rs" "$tmp/src/main.rs" || exit 3
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
matreex = {{ path = "$repo", default-features = false, features = [{features}] }}
[profile.dev]
debug = false
[workspace]
EOF
cd "$tmp" || exit 3
unset RUSTFLAGS NO_COLOR FORCE_COLOR CLICOLOR CLICOLOR_FORCE
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 TERM=xterm-256color
{run}
'''
RUN = {
    "debug": "timeout 200 cargo run -q --offline",
    "release": "timeout 200 cargo run -q --offline --release",
    "miri": "export MIRIFLAGS='-Zmiri-tree-borrows -Zmiri-disable-isolation'\ntimeout 280 cargo +nightly miri run -q --offline",
}

def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode("utf8", "replace")

def one(sid):
    s = S.SEEDS[sid]
    d = os.path.join(OUT, sid)
    wt = tempfile.mkdtemp(prefix="seedwt-", dir="/tmp")
    try:
        repo = os.path.join(wt, "repo")
        sh(["git", "clone", "-q", "/repo", repo], "/")
        for f, old, new, *rest in s["edits"]:
            p = os.path.join(repo, f); t = open(p).read()
            n = rest[0] if rest else 1
            if t.count(old) != n:
                return sid, f"EDIT: {f}: found {t.count(old)} times: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        rc, diff = sh(["git", "diff"], repo)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "main.rs"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.format(features=", ".join(f'"{x}"' for x in s.get("features", [])), run=s.get("runsh") or RUN[s.get("run", "debug")]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(wt, "target"), CARGO_NET_OFFLINE="true")
        rc, out = sh(["cargo", "build", "-q", "--offline", "--features", "full"], repo, env=env)
        if rc: return sid, "BUILD: " + out[-1500:]
        rc, out = sh(["cargo", "test", "--offline", "--no-fail-fast", "--features", "full"], repo, env=env)
        bad = [l for l in out.splitlines() if l.startswith("test ") and "FAILED" in l]
        if rc: return sid, "TESTS: " + str(bad[:8]) + ("" if bad else out[-800:])
        demo = os.path.join(d, "demo.sh")
        clean = os.path.join(wt, "clean"); sh(["git", "clone", "-q", "/repo", clean], "/")
        r1, o1 = sh([demo], clean)
        r2, o2 = sh([demo], repo)
        if r1 != 0: return sid, f"DEMO fails on the clean tree ({r1}): {o1[-900:]}"
        if r2 == 0: return sid, f"DEMO passes with the patch: {o2[-500:]}"
        return sid, f"ok (demo {r2}: {o2.strip().splitlines()[-1][:150] if o2.strip() else ''})"
    except subprocess.TimeoutExpired as e:
        return sid, f"TIMEOUT {e.cmd}"
    finally:
        shutil.rmtree(wt, ignore_errors=True)

ids = [a for a in sys.argv[1:]] or list(S.SEEDS)
good = 0
with cf.ThreadPoolExecutor(6) as ex:
    for sid, msg in ex.map(one, ids):
        ok = msg.startswith("ok")
        good += ok
        if not ok:
            shutil.rmtree(os.path.join(OUT, sid), ignore_errors=True)
        print(sid, msg, flush=True)
print(f"{good}/{len(ids)} kept")
