#!/usr/bin/env python3
"""Decides one property: check.py ID [--only HARNESS] [--keep].

Regenerates the encoding from /repo's working tree, lets the symbolic executor
and the SMT solvers decide every harness of the property, replays every
counterexample against the real code, and writes evidence/ID.json.
"""
import concurrent.futures
import fcntl
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from harnesses import PROPERTIES  # noqa: E402

BUILD = os.path.join(HERE, ".build")
TOOLCHAIN = None


def toolchain():
    """The toolchain /repo's own build uses, so that the IR is the same code."""
    out = subprocess.run(["rustup", "show", "active-toolchain"], cwd="/repo", capture_output=True, text=True)
    return out.stdout.split()[0] if out.returncode == 0 and out.stdout.split() else None


def env(target, rustflags=""):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS")):
            if k not in ("CARGO_HOME",):
                del e[k]
    if TOOLCHAIN:
        e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, target)
    e["CARGO_NET_OFFLINE"] = "true"
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    return e


class Fail(Exception):
    pass


def sh(cmd, cwd, e, timeout=1500):
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        raise Fail("command failed: %s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-6000:]))
    return r.stdout


def build_engine():
    e = env("engine")
    sh(["cargo", "build", "--release", "--offline", "-q"], os.path.join(HERE, "engine"), e)
    return os.path.join(BUILD, "engine", "release", "llsym")


IRFLAGS = "-C no-vectorize-slp -C no-vectorize-loops"


def build_ir(feature, scratch):
    cwd = os.path.join(HERE, "harness")
    e = env("harness", IRFLAGS)
    sh(["cargo", "clean", "-q", "--offline", "--release", "-p", "traffic-sim", "-p", "harness"], cwd, e)
    sh(["cargo", "rustc", "-q", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--features", feature, "--", "--emit=llvm-ir"], cwd, e)
    src = os.path.join(BUILD, "harness", "release", "deps", "harness.ll")
    dst = os.path.join(scratch, "harness.ll")
    shutil.move(src, dst)
    return dst


def build_replay(feature, scratch):
    cwd = os.path.join(HERE, "replay")
    e = env("replay")
    sh(["cargo", "clean", "-q", "--offline", "--release", "-p", "traffic-sim", "-p", "harness", "-p", "replay"], cwd, e)
    sh(["cargo", "build", "-q", "--release", "--offline", "--features", feature], cwd, e)
    dst = os.path.join(scratch, "replay")
    shutil.copy(os.path.join(BUILD, "replay", "release", "replay"), dst)
    return dst


def lines(inputs):
    return "".join("%s=%s\n" % (i["name"], i["bits"]) for i in inputs)


def native(binary, harness, path, timeout=60):
    """Runs a harness natively: (exit status, failed checks, panic, notes)."""
    try:
        r = subprocess.run([binary, harness, path], capture_output=True, text=True, timeout=timeout, env={**os.environ, "RUST_BACKTRACE": "0"})
    except subprocess.TimeoutExpired:
        return "timeout", [], None, []
    failed, notes, panic = [], [], None
    for l in r.stdout.splitlines():
        w = l.split(" ")
        if w[0] == "check" and w[2] == "FAIL":
            failed.append(w[1])
        elif w[0] == "note":
            notes.append((w[1], w[2]))
        elif w[0] == "panic":
            panic = l[6:]
    if r.returncode not in (0, 1, 3, 4) and panic is None:
        panic = "terminated with status %s: %s" % (r.returncode, r.stderr.strip().splitlines()[-1:] or "")
    return r.returncode, failed, panic, notes


class Stop:
    """Set once a violation is confirmed; running executors get a little longer, then end."""
    GRACE = 15

    def __init__(self):
        self.at = None

    def over(self):
        return self.at is not None and time.time() > self.at + self.GRACE


def run_engine(llsym, ll, h, scratch, tier, stop, known):
    out = os.path.join(scratch, h["name"] + ".json")
    cmd = [llsym, ll, h["name"], "--out", out, "--time", str(h.get("time", 500 if tier == "quick" else 7200)),
           "--query-ms", str(h.get("query_ms", 30000))] + h.get("args", []) + (["--keep-going"] if known else [])
    if stop.over():
        return {"harness": h["name"], "stopped": True}
    log = os.path.join(scratch, h["name"] + ".log")
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=f, env={**os.environ, "PATH": "/usr/local/bin:" + os.environ.get("PATH", "")}, start_new_session=True)
        while p.poll() is None:
            time.sleep(0.05)
            if stop.over():
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return {"harness": h["name"], "stopped": True}
    if p.returncode != 0 or not os.path.exists(out):
        return {"harness": h["name"], "crash": open(log).read()[-2000:] or "exit status %d" % p.returncode}
    return json.load(open(out))


def confirm(rep, v, name, path):
    """Replays a counterexample on the real code: (reproduced, status, failed checks, panic)."""
    open(path, "w").write(lines(v["inputs"]))
    st, failed, panic, _ = native(rep, name, path)
    ok = v["id"] in failed if v["kind"] == "assertion" else panic is not None or st == "timeout"
    return ok or bool(failed) or panic is not None, st, failed, panic


def fixed_notes(llsym, ll, h, path, scratch, k):
    """Observations of the executor when run on fixed inputs (every operation concrete)."""
    out = os.path.join(scratch, "%s.fixed%d.json" % (h["name"], k))
    a = [x for x in h.get("args", [])]
    r = subprocess.run([llsym, ll, h["name"], "--fixed", path, "--out", out] + a, capture_output=True, text=True)
    if r.returncode != 0:
        raise Fail("executor failed on fixed inputs: " + r.stderr[-500:])
    d = json.load(open(out))
    return [tuple(n) for n in (d["notes"][0] if d["notes"] else [])], d


def main():
    global TOOLCHAIN
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    pid = args[0]
    only = [a[7:] for a in sys.argv[1:] if a.startswith("--only=")]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop = PROPERTIES[pid]
    hs = [h for h in prop["harnesses"] if tier == "thorough" or h.get("tier", "quick") == "quick"]
    if tier == "thorough":
        replaced = {h["replaces"] for h in hs if "replaces" in h}
        hs = [h for h in hs if h["name"] not in replaced]
    if only:
        hs = [h for h in prop["harnesses"] if h["name"] in only]
    feature = pid.lower()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    TOOLCHAIN = toolchain()
    scratch = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    try:
        with open(os.path.join(BUILD, "lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            llsym = shutil.copy(build_engine(), os.path.join(scratch, "llsym"))
            with concurrent.futures.ThreadPoolExecutor(2) as ex:
                a = ex.submit(build_ir, feature, scratch)
                b = ex.submit(build_replay, feature, scratch)
                ll, rep = a.result(), b.result()
        t_build = time.time() - t0
        return decide(pid, prop, hs, tier, seed, llsym, ll, rep, scratch, t0, t_build)
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(scratch, ignore_errors=True)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["open"] if os.path.exists(p) else []


def decide(pid, prop, hs, tier, seed, llsym, ll, rep, scratch, t0, t_build):
    errors, violations, known = [], [], []
    findings = [f for f in known_findings() if f["property"] == pid]
    stop = Stop()

    def one(h):
        mine = [f for f in findings if f["harness"] == h["name"]]
        d = run_engine(llsym, ll, h, scratch, tier, stop, bool(mine))
        for v in d.get("violations", []):
            ok, _, failed, _ = confirm(rep, v, h["name"], os.path.join(scratch, h["name"] + ".early.in"))
            if ok and not any(v["id"] == f["check"] or f["check"] in failed for f in mine):
                stop.at = stop.at or time.time()
        return d

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, sorted(hs, key=lambda h: -h.get("cost", 1))))
    byname = {h["name"]: h for h in hs}
    validated, samples, per = 0, [], []
    for d in res:
        name = d["harness"]
        h = byname[name]
        if "stopped" in d:
            continue
        if "crash" in d:
            errors.append("%s: executor stopped: %s" % (name, d["crash"]))
            continue
        for i in d["inconclusive"]:
            errors.append("%s: inconclusive: %s" % (name, i))
        if not d["checks"]:
            errors.append("%s: no assertion was reached" % name)
        if not d["violations"]:
            for c, ok in d["covers"].items():
                if not ok:
                    errors.append("%s: vacuous: no input reaches '%s'" % (name, c))
        # differential validation of the executor on models the solver produced
        for k, m in enumerate(d["sample_models"][:2]):
            p = os.path.join(scratch, "%s.%d.in" % (name, k))
            open(p, "w").write(lines(m))
            st, failed, panic, notes = native(rep, name, p)
            if st == 4:
                continue
            en, fd = fixed_notes(llsym, ll, h, p, scratch, k)
            if st == 3:
                continue
            if notes != en:
                errors.append("%s: executor and native run disagree on a sample: %s vs %s" % (name, en[:6], notes[:6]))
                continue
            if not notes:
                errors.append("%s: harness makes no observation" % name)
            validated += 1
            if len(samples) < 6:
                samples.append({"harness": name, "inputs": {i["name"]: i["value"] for i in m}, "observations": len(notes)})
        for v in d["violations"]:
            p = os.path.join(scratch, "%s.ce.in" % name)
            ok, st, failed, panic = confirm(rep, v, name, p)
            if not ok:
                errors.append("%s: counterexample for '%s' does not reproduce natively (status %s; %s): %s" % (
                    name, v["id"], st, v["msg"], {i["name"]: i["value"] for i in v["inputs"]}))
                continue
            what = panic if panic and v["kind"] != "assertion" else ", ".join(failed) or v["msg"]
            k = [f for f in findings if f["harness"] == name and (v["id"] == f["check"] or f["check"] in failed)]
            if k:
                known.append(k[0])
                continue
            os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
            rp = os.path.join(HERE, "evidence", "replay", "%s-%s-%s.in" % (pid, name, "".join(c if c.isalnum() or c == "-" else "_" for c in v["id"])))
            with open(rp, "w") as f:
                f.write("# %s: %s fails (%s)\n# run: .build/replay/release/replay %s %s   (built with --features %s)\n" % (pid, v["id"], what, name, rp, pid.lower()))
                for i in v["inputs"]:
                    f.write("# %s = %s\n" % (i["name"], i["value"]))
                f.write(lines(v["inputs"]))
            violations.append((rp, name, v["id"], what))
    good = [d for d in res if "crash" not in d and "stopped" not in d]
    for d in good:
        q = d["queries"]
        per.append({"harness": d["harness"], "about": byname[d["harness"]].get("about", ""), "mode": d["mode"], "paths": d["paths"],
                    "queries": q["solver"], "sat": q["sat"], "unsat": q["unsat"], "unknown": q["unknown"], "solver_s": round(q["solver_s"], 2),
                    "assertions": d["checks"], "bounds": d["inputs"], "atoms": d["atoms"], "wall_s": d["wall_s"]})
    funcs = sorted({f for d in good for f in d["functions"] if "traffic_sim" in f})
    tot = lambda k: sum(d["queries"][k] for d in good)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(d["paths"] for d in good),
            "transitions": sum(d["instructions"] for d in good),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "explanation": "states: symbolic paths run to completion; transitions: LLVM instructions executed symbolically; "
                           "every assertion on every path was decided by the solver for all input values within the bounds listed per harness",
            "assertions_decided": sum(sum(d["checks"].values()) for d in good),
            "queries_discharged": tot("solver"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"),
            "decided_by_interval_analysis": tot("interval"), "query_cache_hits": tot("cached"),
            "solver_s": round(tot("solver_s"), 2), "by_z3": tot("z3"), "by_cvc5": tot("cvc5"),
            "functions_encoded": len(funcs), "functions": funcs[:120],
            "harnesses": per, "build_s": round(t_build, 1),
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        ev["coverage"]["functions"] = funcs[:30]
        for x in per:
            x.pop("atoms", None)
        txt = json.dumps(ev)
    open(os.path.join(HERE, "evidence", pid + ".json"), "w").write(txt)
    seen = set()
    for f in known:
        t = "KNOWN-FINDING: property=%s %s" % (pid, f["what"])
        if t not in seen:
            print(t)
        seen.add(t)
    for rp, name, cid, what in violations:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  %s: %s: %s" % (name, cid, what))
    for e in errors:
        print("ERROR: " + e)
    print("%s %s: %d harnesses, %d paths, %d assertions, %d queries (%.1f s solver), %d samples validated, %.1f s" % (
        pid, tier, len(good), ev["coverage"]["states"], ev["coverage"]["assertions_decided"], tot("solver"), tot("solver_s"), validated, time.time() - t0))
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fail as e:
        print("ERROR: %s" % e)
        sys.exit(2)
