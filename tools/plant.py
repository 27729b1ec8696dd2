#!/usr/bin/env python3
"""Makes planted bugs from a specification file and confirms them in a scratch copy of /repo.

usage: plant.py SPEC.py [ID...]

SPEC.py defines BUGS: a list of dicts with id, property, needs, breaks, edits [(file, old, new)], and the demo: either
main (source of a program against the crate) or files {name: text} with demo.sh. Writes /verif/seeded/<id>/.
"""
import json, os, shutil, subprocess, sys

SEEDED = "/verif/seeded"
W = "/tmp/w"
REPO = W + "/repo"

DEMO = r'''#!/bin/bash
# Run in the repository's root. Builds a small program against the crate and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
rm -rf /tmp/poker-demo-@ID@
mkdir -p /tmp/poker-demo-@ID@/src
cp "$here/main.rs" /tmp/poker-demo-@ID@/src/main.rs
cat > /tmp/poker-demo-@ID@/Cargo.toml <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
poker = { path = "$repo" }
rand = "0.8"
[profile.dev]
opt-level = 2
END
cd /tmp/poker-demo-@ID@ && CARGO_TARGET_DIR=/tmp/poker-demo-@ID@/target cargo run -q --offline 2>&1
rc=$?
cd / && rm -rf /tmp/poker-demo-@ID@
exit $rc
'''


def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def tests(out):
    return sh(f"cd {REPO} && cargo test --offline --locked 2>&1 | tail -400 > {out}", timeout=900)


def one(b):
    id = b["id"]
    sh(f"git -C {REPO} checkout -q -- . && git -C {REPO} clean -qfd")
    for f, old, new in b["edits"]:
        p = os.path.join(REPO, f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"{f}: {s.count(old)} matches for {old!r}"
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {REPO} diff").stdout
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    files = dict(b.get("files", {}))
    if "main" in b:
        files["main.rs"] = b["main"].lstrip("\n")
        files.setdefault("demo.sh", DEMO)
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t.replace("@ID@", id).lstrip("\n"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh(f"cargo test --offline --locked 2>&1", cwd=REPO, timeout=900)
    if "test result: FAILED" in r.stdout or "error" in r.stdout and "test result" not in r.stdout:
        return "TESTS FAIL\n" + "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "error" in l or "panicked" in l)[:2000]
    if r.returncode != 0:
        return "BUILD FAILS " + r.stdout[-2000:]
    bad = sh(f"bash {d}/demo.sh", cwd=REPO, timeout=300)
    good = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
    ok = bad.returncode != 0 and good.returncode == 0
    return ("ok" if ok else "DEMO WRONG") + f"  with the change: {bad.returncode} {bad.stdout.strip()[-300:]!r}; without: {good.returncode} {good.stdout.strip()[-300:]!r}"


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    ids = sys.argv[2:]
    if not os.path.exists(REPO):
        os.makedirs(W, exist_ok=True)
        shutil.copytree("/repo", REPO, symlinks=True)
    for b in spec["BUGS"]:
        if not ids or b["id"] in ids:
            print(b["id"], one(b), flush=True)


main()
