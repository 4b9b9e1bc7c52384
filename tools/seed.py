#!/usr/bin/env python3
"""seed.py ID [--nocheck|--onlycheck]: confirm a planted bug in a scratch copy, then run its property's check on it in /repo (undone afterwards)."""
import subprocess, sys, os, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc"
def sh(c, cwd, quiet=True):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout
def one(i, mode):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    res = [i, meta["property"]]
    if mode != "--onlycheck":
        if not os.path.isdir(SC): sh("cp -a /repo /tmp/sc", "/")
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", SC)
        rc, o = sh("bash %s/demo.sh" % d, SC)
        res.append("clean-demo=%d" % rc)
        if rc: print(o[-1500:])
        rc, o = sh("git apply %s/patch.diff" % d, SC)
        if rc: print("PATCH FAILS", o); return
        rc, o = sh("(cargo test --offline --workspace --all-features --lib --bins --tests --examples --bench http --bench json --no-fail-fast; cargo test --offline --workspace --all-features --doc --no-fail-fast; cargo test --offline --no-default-features --features alloc --lib --tests --examples --no-fail-fast) 2>&1 | grep -E '^test .*FAILED|^error' | head; cargo check -q --offline --no-default-features 2>&1 | grep -E '^error' | head", SC)
        res.append("tests=" + (o.strip().replace("\n", ";")[:300] or "ok"))
        rc, o = sh("bash %s/demo.sh" % d, SC)
        res.append("bug-demo=%d" % rc)
        sh("git checkout -q -- .", SC)
    if mode != "--nocheck":
        rc, o = sh("git apply %s/patch.diff" % d, "/repo")
        try:
            rc, o = sh("python3 check.py " + meta["property"], V)
            res.append("check=%d %s" % (rc, o.strip()[-300:].replace("\n", " | ")))
        finally:
            sh("git checkout -q -- .", "/repo")
    print(" ".join(res), flush=True)
a = sys.argv[1:]
mode = next((x for x in a if x.startswith("--")), "")
ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(V + "/seeded"))
for i in ids: one(i, mode)
