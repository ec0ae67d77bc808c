#!/usr/bin/env python3
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NOT_APPLICABLE, NOTES
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
HOOKS = {"guard": "cargo feature verif-hooks of vortex-array (off by default)",
         "enable": "concharness depends on vortex-array with features = [\"verif-hooks\"]; only the M01 check uses it, the other harnesses use public APIs of the unhooked crates",
         "source_commits": subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^verif-hooks:"], capture_output=True, text=True).stdout.split()}
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py check {i} --tier quick",
                       "thorough_cmd": f"python3 run.py check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": p.get("technique", "TLA+ specification; TLC validates traces recorded from the library and replays model behaviours"),
                       "level": p["level"], "level_note": p.get("note", NOTES)})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": HOOKS,
           "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
