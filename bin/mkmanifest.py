#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a check in bin/props."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i + ".py")):
        m = importlib.import_module("props." + i)
        checks.append({"property": i, "quick_cmd": f"python3 bin/check.py {i} quick",
                       "thorough_cmd": f"python3 bin/check.py {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": m.TECHNIQUE,
                       "level": getattr(m, "LEVEL", "model_checking"), "level_note": m.LEVEL_NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
man = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
       "hooks": {"guard": "cfg(doodle_verif)", "enable": "RUSTFLAGS=\"--cfg doodle_verif\"", "source_commits": ['dfeecd3', '033c131']},
       "notes": "/repo carries fix: commits, listed in known_findings.jsonl, and guarded hook modules."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
