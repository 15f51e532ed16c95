#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os
from props import PROPS
ROOT = os.path.dirname(os.path.abspath(__file__))
checks = []
for pid, P in PROPS.items():
    engines = sorted(set(P["engines"]["quick"]) | set(P["engines"]["thorough"]))
    checks.append(dict(
        property=pid,
        quick_cmd=f"python3 check.py {pid} --tier quick",
        thorough_cmd=f"python3 check.py {pid} --tier thorough",
        evidence_file=f"evidence/{pid}.json",
        technique=P["technique"],
        level=P.get("level", "exploration"),
        level_note=f"Held on the executions observed, no more: {P['note']}. Engines: {', '.join(engines)}. Trusts rustc, std, rayon and the sanitizers.",
    ))
m = dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    hooks=dict(
        guard="cargo feature verif-hooks (off by default)",
        enable="the harness crate's feature `hooks` enables matreex/verif-hooks; check.py passes it for the dbg, asan and miri engines",
        source_commits=["96c9496d613ae94051a1f017fbddb0fdd48d8c85"],
    ),
    checks=checks,
    not_applicable=[],
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
