#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | --setup

Decides one property of /repo's current tree by symbolic execution of its compiled code (see
DESIGN.md): builds the harness crate twice from the current sources (bitcode for the symbolic
executor, native code for replay), lets the executor and Z3 decide every obligation on every path
within the bounds, validates sampled path models against the native code, replays
counterexamples, and rewrites evidence/PROPERTY.json.

exit 0 held, 1 violation (a VIOLATION line on stdout), anything else: no answer.
"""
import fcntl, glob, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
REPO = "/repo"
T0 = time.time()
TRUST = [
    "rustc/LLVM's optimised bitcode of combine (debug assertions and overflow checks kept in) has the meaning of the source",
    "the symbolic executor /verif/engine (sampled path models are re-executed natively on every run and must agree)",
    "Z3 (satisfying models are re-evaluated by the executor; unsatisfiable answers are trusted)",
]


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(kw)
    return e


def sh(cmd, cwd, e, log, timeout=1500):
    with open(log, "w") as f:
        try:
            return subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return 124


def die(msg, log=None):
    print("ERROR:", msg)
    if log and os.path.exists(log):
        print("".join(open(log, errors="replace").readlines()[-40:]))
    sys.exit(3)


def build_engine():
    log = os.path.join(B, "engine.log")
    rc = sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"), env(CARGO_TARGET_DIR=os.path.join(B, "e")), log)
    if rc:
        return "engine build failed", log
    return None


def build_bc(feats):
    log = os.path.join(B, "sym.log")
    t = os.path.join(B, "s")
    for f in glob.glob(os.path.join(t, "release/deps/cvh*.bc")):
        os.unlink(f)
    # rustc must run again for the .bc to exist even if cargo thinks the unit is fresh
    stamp = os.path.join(B, "stamp.rs")
    rc = sh(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--features", " ".join(["sym"] + feats), "--", "--emit=llvm-bc"],
            os.path.join(V, "harness"), env(CARGO_TARGET_DIR=t, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp"), log)
    if rc:
        return "bitcode build failed", log
    if not glob.glob(os.path.join(t, "release/deps/cvh*.bc")):
        for d in glob.glob(os.path.join(t, "release/.fingerprint/cvh-*")):
            for f in glob.glob(os.path.join(d, "*")):
                os.unlink(f)
        rc = sh(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--features", " ".join(["sym"] + feats), "--", "--emit=llvm-bc"],
                os.path.join(V, "harness"), env(CARGO_TARGET_DIR=t, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp"), log)
        if rc or not glob.glob(os.path.join(t, "release/deps/cvh*.bc")):
            return "bitcode build produced nothing", log
    return None


def build_native(feats):
    log = os.path.join(B, "native.log")
    rc = sh(["cargo", "build", "--offline", "--bin", "replay", "--features", " ".join(feats)], os.path.join(V, "harness"),
            env(CARGO_TARGET_DIR=os.path.join(B, "t")), log)
    if rc:
        return "native build failed", log
    return None


def replay(lines, timeout=120):
    """Runs recorded inputs against the native code: one result per line; None if the process died."""
    p = subprocess.Popen([os.path.join(B, "t/debug/replay"), "run"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
    try:
        o, err = p.communicate("\n".join(lines) + "\n", timeout=timeout)
        out = o.splitlines()
        end = "exit %s %s" % (p.returncode, err.strip()[-300:])
    except subprocess.TimeoutExpired:
        p.kill()
        o, _ = p.communicate()
        out = (o or "").splitlines()
        end = "did not terminate within %d s" % timeout
    return out, end


def reproduces(line):
    out, end = replay([line], 60)
    if out and out[0].startswith("PANIC"):
        return True, out[0]
    if out and out[0].startswith("OK"):
        return False, out[0]
    if out and out[0].startswith("ASSUME"):
        return False, out[0]
    return True, "process ended: " + end


def miri(line, feats):
    """Undefined behaviour has no visible effect natively: ask the interpreter."""
    e = env(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(B, "m"), MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance")
    try:
        p = subprocess.run(["cargo", "miri", "run", "--offline", "--bin", "replay", "--features", " ".join(feats), "--", "run"], cwd=os.path.join(V, "harness"), env=e,
                           input=line + "\n", text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        if "Undefined Behavior" in p.stdout:
            return True, [l for l in p.stdout.splitlines() if "Undefined Behavior" in l][0]
        return False, p.stdout[-400:]
    except Exception as x:  # noqa
        return False, str(x)


def functions(lines):
    """file -> executed lines  =>  the functions those lines lie in"""
    res = []
    for f, ls in sorted(lines.items()):
        m = re.search(r"/repo/(src/.*)$", f)
        if not m:
            continue
        try:
            src = open(os.path.join(REPO, m.group(1)), errors="replace").read().split("\n")
        except OSError:
            continue
        names, cur, seen = [], None, {}
        for i, l in enumerate(src, 1):
            x = re.search(r"\bfn\s+([A-Za-z_0-9]+)", l)
            if x and not l.lstrip().startswith("//"):
                cur = "%s:%d" % (x.group(1), i)
            names.append(cur)
        for n in ls:
            if 0 < n <= len(names) and names[n - 1]:
                seen[names[n - 1]] = seen.get(names[n - 1], 0) + 1
        for k in seen:
            res.append("%s %s" % (m.group(1), k))
    return res


def main():
    a = sys.argv[1:]
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    lock = open(os.path.join(B, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if a and a[0] == "--setup":
        r = build_engine()
        if r:
            die(*r)
        print("setup done")
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    feats = [prop.lower()] + (["thorough"] if tier == "thorough" else [])
    res = {}
    th = [threading.Thread(target=lambda k=k, f=f, x=x: res.__setitem__(k, f(*x)))
          for k, f, x in (("engine", build_engine, ()), ("bc", build_bc, (feats,)), ("native", build_native, (feats,)))]
    [t.start() for t in th]
    [t.join() for t in th]
    for k in ("engine", "bc", "native"):
        if res.get(k, ("no result", None)):
            die(*(res.get(k) or ("no result", None)))
    build_s = time.time() - T0
    table = {}
    for l in subprocess.run([os.path.join(B, "t/debug/replay"), "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        n, c, d = l.split("\t", 2)
        table[n] = (int(c), d)
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, env=env()).stdout.strip()
    llvm = sorted(f for f in glob.glob(sysroot + "/lib/libLLVM*so*") if os.path.getsize(f) > 1 << 20)
    bc = sorted(glob.glob(os.path.join(B, "s/release/deps/cvh*.bc")))
    if not llvm or not bc:
        die("no LLVM library or bitcode")
    out = os.path.join(B, "out-%s.json" % prop)
    if os.path.exists(out):
        os.unlink(out)
    limit = 700 if tier == "quick" else 10000
    elog = os.path.join(B, "engine-run.log")
    rc = sh([os.path.join(B, "e/release/rxsym"), "--llvm", llvm[0], "--bc", bc[0], "--harness", "h_%s_*" % prop.lower(), "--threads", str(min(8, os.cpu_count() or 8)),
             "--time-limit", str(limit), "--samples", "24", "--shard", "4", "--seed", str(seed), "--out", out], V, env(), elog, limit + 120)
    if rc or not os.path.exists(out):
        die("symbolic executor failed (%s)" % rc, elog)
    o = json.load(open(out))
    known = json.load(open(os.path.join(V, "known_findings.json")))
    kf = {k["harness"]: k for k in known["findings"] if k["property"] == prop}
    viol, problems, findings = [], [], []
    val = {"n": 0, "bad": []}
    names = {h["name"] for h in o["harnesses"]}
    if names != set(table):
        problems.append("harness lists differ: %s" % sorted(names ^ set(table)))
    # 1. models of sampled paths, against the native code
    lines, meta = [], []
    for h in o["harnesses"]:
        for s in h["samples"]:
            lines.append(h["name"] + " " + " ".join(str(x[1]) for x in s["inputs"]))
            meta.append((h["name"], s))
    if lines:
        got, end = replay(lines, 300)
        for i, (n, s) in enumerate(meta):
            g = got[i] if i < len(got) else "missing (" + end + ")"
            want = ("OK " + " ".join(str(x) for x in s["obs"])).strip()
            val["n"] += 1
            if g.strip() != want:
                val["bad"].append("%s: executor %s, native %s" % (lines[i], want, g))
    tot = dict(paths=0, checks=0, checks_solver=0, branches=0, forks=0, steps=0, queries=0, cache_hits=0, infeasible=0)
    solver_s, maxq = 0.0, 0.0
    for h in o["harnesses"]:
        for k in tot:
            tot[k] += h[k]
        solver_s += h["solver_s"]
        maxq = max(maxq, h["max_query_s"])
        for e in h["errors"]:
            problems.append("%s: %s" % (h["name"], e))
        if h["name"] not in kf and not h["violations"]:
            for c in range(table.get(h["name"], (0,))[0]):
                if str(c) not in h["covers"]:
                    problems.append("%s: point %d was not reached (vacuous)" % (h["name"], c))
            if not h["paths"]:
                problems.append("%s: no path" % h["name"])
        for v in h["violations"]:
            line = h["name"] + " " + " ".join(str(x[1]) for x in v["inputs"])
            ok, how = reproduces(line)
            if not ok and how.startswith("OK"):
                ok, how2 = miri(line, feats)
                how = how2 if ok else how + " / miri: " + how2
            if not ok:
                problems.append("%s: counterexample does not reproduce natively: %s %s [%s] -> %s" % (h["name"], v["kind"], v["msg"], line, how))
            elif h["name"] in kf and re.match(r"check at line 9\d{5} ", v["msg"]):
                findings.append((kf[h["name"]], line, how))
            else:
                viol.append((h["name"], v, line, how))
    if val["bad"] and not viol:
        problems += ["executor and native code disagree: " + b for b in val["bad"][:5]]
    for x in dict.fromkeys(k["what"] for k, line, how in findings):
        print("KNOWN-FINDING: property=%s %s" % (prop, x))
    rep = None
    if viol:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        rep = os.path.join(V, "replays", "%s.txt" % prop)
        with open(rep, "w") as f:
            for n, v, line, how in viol:
                f.write("property %s\nharness %s: %s\n%s %s\nnative replay: %s\ninputs: %s\n" % (prop, n, table.get(n, (0, ""))[1], v["kind"], v["msg"], how, line))
                f.write("rerun: echo '%s' | %s run\ntrace:\n  %s\n\n" % (line, os.path.join(B, "t/debug/replay"), "\n  ".join(v["trace"])))
    fn = functions(o["lines"])
    wall = time.time() - T0
    samples = [{"harness": n, "inputs": [x[1] for x in s["inputs"]], "observed": s["obs"]} for n, s in meta[:: max(1, len(meta) // 12)]][:14]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(viol),
        "assumptions": TRUST,
        "coverage": {
            "explanation": "symbolic execution of the compiled implementation; states = path ends explored, transitions = branch decisions taken; every obligation decided for all values of the symbolic inputs of its path (by Z3, or by the executor's simplifier where the condition folds to a constant)",
            "states": tot["paths"], "transitions": tot["branches"],
            "traces_validated_against_impl": val["n"] - len(val["bad"]),
            "samples": samples,
            "obligations_decided": tot["checks"], "obligations_needing_solver": tot["checks_solver"],
            "solver_queries": tot["queries"], "solver_cache_hits": tot["cache_hits"], "solver_s": round(solver_s, 3), "max_query_s": maxq,
            "forks": tot["forks"], "infeasible_prefixes": tot["infeasible"], "instructions": tot["steps"],
            "functions_encoded": fn, "build_s": round(build_s, 1),
            "bounds": {n: d for n, (c, d) in table.items()},
            "exhaustive_within_bounds": not problems,
            "per_harness": {h["name"]: {"paths": h["paths"], "obligations": h["checks"], "queries": h["queries"], "cpu_s": h["cpu_s"], "covers": h["covers"]} for h in o["harnesses"]},
            "known_findings": [k["what"] for k, _, _ in findings],
            "problems": problems[:20],
        },
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d harnesses, %d paths, %d obligations (%d by solver), %d queries, solver %.1f s, %d functions of combine, %d models validated natively, wall %.0f s (build %.0f s)" % (
        prop, tier, len(o["harnesses"]), tot["paths"], tot["checks"], tot["checks_solver"], tot["queries"], solver_s, len(fn), val["n"] - len(val["bad"]), wall, build_s))
    if viol:
        for x in dict.fromkeys("  %s: %s %s -> %s" % (n, v["kind"], v["msg"], how) for n, v, line, how in viol):
            print(x)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rep, V)))
        return 1
    if problems:
        for p in problems[:20]:
            print("ERROR:", p)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
