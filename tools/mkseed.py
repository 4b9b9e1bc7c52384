#!/usr/bin/env python3
"""mkseed.py: reads a python file defining SEEDS=[dict(id,prop,file,old,new,needs,breaks,demo[,edits])] and writes seeded/<id>/ from /repo HEAD."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = os.path.join(V, "seeded", s["id"])
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout.strip()
    try:
        for (f, old, new) in s.get("edits") or [(s["file"], s["old"], s["new"])]:
            p = "/repo/" + f
            t = open(p).read()
            n = t.count(old)
            assert n >= 1, (s["id"], "not found", old)
            if n > 1:
                k = s.get("nth")
                assert k is not None, (s["id"], "ambiguous", n)
                parts = t.split(old)
                t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                t = t.replace(old, new)
            open(p, "w").write(t)
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy(V + "/tools/demo.sh", d + "/demo.sh")
    open(d + "/demo.rs", "w").write(s["demo"])
    for k in ("features", "deps"):
        if s.get(k): open(d + "/" + k, "w").write(s[k] + "\n")
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])
