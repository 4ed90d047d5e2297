#!/usr/bin/env python3
"""mkseed.py SPEC.py -- development tool: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust) and writes seeded/<ID>."""
import json, os, shutil, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for path in sys.argv[1:]:
    s = runpy.run_path(path)
    for b in s["BUGS"]:
        d = os.path.join(ROOT, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        t = "/tmp/mkseed_tree"
        shutil.rmtree(t, ignore_errors=True)
        for f in {e[0] for e in b["edits"]}:
            for side in ("a", "b"):
                os.makedirs(os.path.dirname(f"{t}/{side}/{f}"), exist_ok=True)
                shutil.copy(f"/repo/{f}", f"{t}/{side}/{f}")
        for f, old, new in b["edits"]:
            x = open(f"{t}/b/{f}").read()
            assert x.count(old) == 1, (b["id"], f, x.count(old), old)
            open(f"{t}/b/{f}", "w").write(x.replace(old, new))
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, text=True, stdout=subprocess.PIPE)
        out = r.stdout.replace("diff --git a/", "diff --git a/")
        open(d + "/patch.diff", "w").write(out)
        open(d + "/demo.rs", "w").write(b["demo"])
        shutil.copy(ROOT + "/bin/demo_template.sh", d + "/demo.sh")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("wrote", b["id"])
