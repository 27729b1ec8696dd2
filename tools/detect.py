#!/usr/bin/env python3
"""Applies planted bugs to /repo one at a time, runs checks, undoes them. usage: detect.py [--all] [ID...]

Without --all only the check of the bug's own property runs. Prints what caught what."""
import json, os, subprocess, sys

V = "/verif"
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
for i in ids:
    own = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    subprocess.run(f"git -C /repo apply {V}/seeded/{i}/patch.diff", shell=True, check=True)
    try:
        got = []
        for p in (props if every else [own]):
            r = subprocess.run(f"python3 {V}/run.py {p}", shell=True, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1"))
            hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
            got.append((p, "caught" if hit else f"rc={r.returncode}" if r.returncode else "quiet", r.stdout[:300] if hit and not every else r.stdout[-300:] if r.returncode not in (0, 1) else ""))
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True, check=True)
    if every:
        print(i, "own:", [g[1] for g in got if g[0] == own], "caught by:", " ".join(g[0] for g in got if g[1] == "caught"), [g for g in got if g[1].startswith("rc")], flush=True)
    else:
        print(i, got[0][1], got[0][2].split("\n")[0][:200], flush=True)
