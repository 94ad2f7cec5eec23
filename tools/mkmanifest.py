#!/usr/bin/env python3
"""Generates MANIFEST.json from properties.jsonl, the existing checks and the notes below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["04b9b7b"]
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i)
    if n and "na" in n:
        na.append({"property": i, "reason": n["na"]})
    elif n and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": n["technique"], "level": "exploration", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "no check built yet for this property; nothing is claimed for it"})
full = [subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True).stdout.strip() or h for h in HOOKS]
m = {"version": 1, "setup_cmd": "python3 lib/vbuild.py plain asan pat vg",
     "hooks": {"guard": "GANDALF_VERIF_HOOKS", "enable": "lib/vbuild.py compiles /repo/src with -DGANDALF_VERIF_HOOKS and links cpp/gdrv.cpp, which installs the hook function",
               "source_commits": full},
     "checks": checks, "not_applicable": na,
     "notes": "All checks run the real code (rebuilt from /repo's working tree, content-hash incremental) under generated workloads and judge recorded states with oracles in lib/ and checks/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
