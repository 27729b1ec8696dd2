#!/usr/bin/env python3
"""Builds the harness from /repo's working tree, runs one check, merges its evidence.

usage: run.py ID            (VERIF_SEED, VERIF_TIER from the environment)
       run.py --setup       build everything
       run.py --replay FILE
Exit: 0 held, 1 violated (with a VIOLATION line), 2 no decision (build failure, time limit, machinery error).
"""
import fcntl, json, os, resource, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
from checks import C  # noqa: E402

REPO = "/repo"
TARGET = os.path.join(HERE, "target")
ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
# The profile of the examples, without link-time optimisation (which takes long and changes nothing).
ENV.update(CARGO_PROFILE_RELEASE_LTO="false", CARGO_PROFILE_RELEASE_CODEGEN_UNITS="16")
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never",
           PC_FINDINGS=os.path.join(HERE, "KNOWN_FINDINGS.txt"), PC_SCRATCH=os.path.join(TARGET, "scratch"))
for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "PROPTEST_CASES", "RUST_BACKTRACE"):
    ENV.pop(k, None)
PROFILES = ["release", "checked"]
CONFIG = {"C16", "C21", "C22", "C23"}
PROGRAMS = {"C17", "C18"}
USAGE = {"C20"}


class NoDecision(Exception):
    pass


def bounded():
    """A library that takes memory without end is stopped by this limit rather than by the machine's."""
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sh(cmd, timeout, env=ENV, cwd=HERE):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=bounded)
    except subprocess.TimeoutExpired:
        raise NoDecision("time limit: " + " ".join(cmd))


def cargo(args, what):
    r = sh(["cargo"] + args, 800)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        raise NoDecision(f"{what} does not build from {REPO}")


def build(ids):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if ids & (set(C) - CONFIG - USAGE):
            for p in PROFILES:
                cargo(["build", "--offline", "--profile", p, "--manifest-path", "harness/Cargo.toml"], "the harness")
        if ids & CONFIG:
            for p in PROFILES:
                cargo(["build", "--offline", "--profile", p, "--manifest-path", "config/Cargo.toml"], "the crate with other features")
        if ids & USAGE:
            cargo(["build", "--offline", "--release", "--manifest-path", "usage/Cargo.toml"], "the generator of programs")
            for p in ("release", "dev"):
                r = subprocess.run(["cargo", "build", "--offline", "--locked", "--lib", "--profile", p, "--manifest-path", REPO + "/Cargo.toml",
                                    "--target-dir", TARGET + "/programs", "--message-format", "json"], env=ENV, cwd=HERE, timeout=800,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                if r.returncode != 0:
                    print(r.stderr[-6000:])
                    raise NoDecision(f"the library does not build from {REPO}")
                made = {}
                for line in r.stdout.splitlines():
                    m = json.loads(line)
                    if m.get("reason") == "compiler-artifact" and "lib" in m["target"]["kind"]:
                        made[m["target"]["name"]] = next(f for f in m["filenames"] if f.endswith(".rlib"))
                with open(f"{TARGET}/usage-{p}.json", "w") as f:
                    json.dump({"PC_RLIB": made["poker"], "PC_RAND": made["rand"], "PC_DEPS": f"{TARGET}/programs/{'release' if p == 'release' else 'debug'}/deps"}, f)
        if ids & PROGRAMS:
            for p in ("release", "dev"):
                cargo(["build", "--offline", "--locked", "--examples", "--profile", p, "--manifest-path", REPO + "/Cargo.toml",
                       "--target-dir", TARGET + "/programs"], "the examples")
            r = sh(["gcc", "-O1", "-shared", "-fPIC", "-o", TARGET + "/entropy.so", "tools/entropy.c"], 120)
            if r.returncode != 0:
                print(r.stdout)
                raise NoDecision("entropy.c does not build")


def programs(profile):
    """The examples are run as built for release, and as `cargo run --example` builds them."""
    return {"PC_PROGRAMS": f"{TARGET}/programs/{'release' if profile == 'release' else 'debug'}/examples", "PC_ENTROPY_SO": TARGET + "/entropy.so"}


def libraries(profile):
    return json.load(open(f"{TARGET}/usage-{'release' if profile == 'release' else 'dev'}.json"))


def binary(id, profile):
    if id in USAGE:
        return os.path.join(TARGET, "release", "usagecheck")
    return os.path.join(TARGET, profile, {"C16": "configcheck", "C21": "memorycheck", "C22": "costcheck", "C23": "effectcheck"}.get(id, "pokercheck"))


def merge(id, tier, seed, parts, t0):
    subs, samples, evals, nontrivial = {}, [], 0, 0
    for prof, doc in parts:
        for name, s in doc["subs"].items():
            m = subs.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0, "exhaustive": False, "classes": {}, "note": ""})
            m["evaluations"] += s["evaluations"]
            m["distinct_nontrivial"] = max(m["distinct_nontrivial"], s["distinct_nontrivial"])
            m["exhaustive"] = m["exhaustive"] or s["exhaustive"]
            m["note"] = m["note"] or s["note"]
            for k, v in s["classes"].items():
                m["classes"][k] = m["classes"].get(k, 0) + v
            if prof == "release" or not any(x["sub"] == name for x in samples):
                samples += [{"sub": name, "case": c} for c in s["samples"][:2]]
    evals = sum(m["evaluations"] for m in subs.values())
    nontrivial = sum(m["distinct_nontrivial"] for m in subs.values())
    violations = sum(d["violations"] for _, d in parts)
    ev = {
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": nontrivial, "rule": C[id]["rule"], "samples": samples[:40],
                     "subchecks": subs, "builds": [p for p, _ in parts]},
        "assumptions": [C[id]["note"]],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", id + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(path + ".tmp", path)


def listed(id):
    out = {}
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt"), encoding="utf-8"):
        w = line.split()
        if line.startswith("open:") and f"property={id}" in w:
            sig = next((x[10:] for x in w if x.startswith("signature=")), "")
            out[sig] = line[5:].strip()
    return out


def lost(id, prof, tier, seed, status, limit, t0):
    """The process that ran the cases did not survive. Repeats the run with every worker noting what it is at,
    then each of the last cases alone. Returns (what happened, the case, replay file); (None, results, None) if the
    same cases, run again, are all survived, and those results then count; or raises NoDecision."""
    gone = f"the {prof} run of {id} ended with status {status}"
    trace = os.path.join(TARGET, "trace", id)
    shutil.rmtree(trace, ignore_errors=True)
    os.makedirs(trace)
    part = os.path.join(trace, "part")
    env = dict(ENV, PC_TRACE=trace)
    r = sh([binary(id, prof), "run", id, "--tier", tier, "--seed", str(seed), "--profile", prof, "--part", part,
            "--replays", os.path.join(HERE, "replays")], max(limit - (time.time() - t0), 5), env)
    if os.path.exists(part) and r.returncode in (0, 1):
        print(r.stdout + gone + ", but not when repeated with the same cases: the repeated run counts")
        return None, json.load(open(part, encoding="utf-8")), None
    for name in sorted(os.listdir(trace)):
        try:
            doc = json.load(open(os.path.join(trace, name), encoding="utf-8"))
        except ValueError:
            continue  # another worker was about to write this one
        doc["message"] = f"the process does not survive this: status {r.returncode}"
        alone = doc["case"] is not None
        # A killed process says nothing by itself: the machine may have run out of memory for other reasons.
        if not alone and r.returncode in (-9, 2, 101):
            continue
        path = os.path.join(HERE, "replays", f"{id}-{doc['sub']}-{prof}-lost.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        json.dump(doc, open(path, "w"), indent=1)
        if alone:
            q = sh([binary(id, prof), "replay", path], max(min(120, limit - (time.time() - t0)), 5))
            bad = q.returncode == 1 or q.returncode < 0 or q.returncode == r.returncode not in (2, 101) and "\nholds" not in q.stdout
        else:
            q = sh(whole(doc, trace), max(min(300, limit - (time.time() - t0)), 5), dict(ENV, PC_ONLY=doc["sub"]))
            bad = q.returncode == r.returncode
        if bad:
            if alone:
                doc["case"] = smaller(id, prof, doc, path, min(t0 + limit, time.time() + 90))
                json.dump(doc, open(path, "w"), indent=1)
            return doc["message"], doc, path
        os.remove(path)
    raise NoDecision(gone)


def smaller(id, prof, doc, path, until):
    """Drops cards, characters or elements from a case as long as a process of its own still does not survive it."""
    case = doc["case"]
    if isinstance(case, list):
        parts, join = case, list
    elif isinstance(case, str):
        words = case.split(" ")
        hand = all(len(w) == 2 and w[0] in "23456789TJQKA" and w[1] in "chsd" for w in words)
        parts, join = (words, " ".join) if hand else (list(case), "".join)
    else:
        return case
    step = max(len(parts) // 2, 1)
    while parts and time.time() < until:
        i, n = 0, len(parts)
        while i < len(parts) and time.time() < until:
            less = parts[:i] + parts[i + step:]
            json.dump(dict(doc, case=join(less)), open(path, "w"), indent=1)
            try:
                gone = sh([binary(id, prof), "replay", path], max(until - time.time(), 1)).returncode < 0
            except NoDecision:
                gone = False
            if gone:
                parts = less
            else:
                i += step
        if step == 1 and len(parts) == n:
            break
        step = max(step // 2, 1)
    return join(parts)


def whole(doc, scratch):
    """A saved failure of an enumeration that ended the process: the sub-check is run again."""
    return [binary(doc["property"], doc["profile"]), "run", doc["property"], "--tier", "quick", "--seed", str(doc["seed"]),
            "--profile", doc["profile"], "--part", os.path.join(scratch, "again"), "--replays", scratch]


def run(id):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    raw = os.environ.get("VERIF_SEED", "1")
    try:
        seed = int(raw) & (2**64 - 1)
    except ValueError:
        seed = int.from_bytes(raw.encode()[:8], "little")
    build({id})
    parts, findings = [], {}
    replay = None
    limit = 860 if tier == "quick" else 6 * 3600
    for prof in PROFILES:
        part = os.path.join(TARGET, "parts", f"{id}-{prof}.json")
        if os.path.exists(part):
            os.remove(part)
        if id in PROGRAMS:
            ENV.update(programs(prof))
        if id in USAGE:
            ENV.update(libraries(prof))
        left = limit - (time.time() - t0)
        r = sh([binary(id, prof), "run", id, "--tier", tier, "--seed", str(seed), "--profile", prof, "--part", part,
                "--replays", os.path.join(HERE, "replays")], max(left, 5))
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1) or not os.path.exists(part):
            message, doc, replay = lost(id, prof, tier, seed, r.returncode, limit, t0)
            if message:
                print(f"{id} [{prof}] {doc['sub']}: {message}\n  case: {json.dumps(doc['case'], ensure_ascii=False)}"[:2000])
                parts.append((prof, {"subs": {}, "violations": 1, "findings": {}}))
                break
        else:
            doc = json.load(open(part, encoding="utf-8"))
        parts.append((prof, doc))
        findings.update({k: v for k, v in doc["findings"].items() if k not in findings})
        if doc["violations"]:
            replay = doc["replay"]
            break
    merge(id, tier, seed, parts, t0)
    known = listed(id)
    for sig, example in findings.items():
        if sig not in known:
            raise NoDecision(f"finding {sig} is not listed")
        print(f"KNOWN-FINDING: property={id} signature={sig} {example}")
    if replay:
        print(f"VIOLATION property={id} replay={os.path.relpath(replay, HERE)}")
        return 1
    e = json.load(open(os.path.join(HERE, "evidence", id + ".json"), encoding="utf-8"))
    print(f"{id} held: {e['coverage']['evaluations']} evaluations, {e['coverage']['distinct_nontrivial']} distinct non-trivial, {e['wall_s']} s")
    return 0


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        build(set(C))
        return 0
    if len(a) == 2 and a[0] == "--replay":
        doc = json.load(open(a[1]))
        build({doc["property"]})
        ENV.update(programs(doc["profile"]))
        if doc["property"] in USAGE:
            ENV.update(libraries(doc["profile"]))
        if doc["case"] is None:
            scratch = os.path.join(TARGET, "trace", "replay")
            shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch)
            return subprocess.run(whole(doc, scratch), env=dict(ENV, PC_ONLY=doc["sub"]), cwd=HERE).returncode
        return subprocess.run([binary(doc["property"], doc["profile"]), "replay", a[1]], env=ENV, cwd=HERE).returncode
    if len(a) == 1 and a[0] in C:
        return run(a[0])
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoDecision as e:
        print(f"NO DECISION: {e}")
        sys.exit(2)
