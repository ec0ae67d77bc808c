"""Rewrites the 'fixed' list of known_findings.json from /repo's fix: commits and this table
(subject of the commit -> property whose check found it)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for line in open(V + "/tools/fixed.txt"):
    if line.strip():
        p, s = line.rstrip("\n").split("\t")
        PROP[s] = p
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], capture_output=True, text=True).stdout
out = []
for l in log.splitlines():
    h, s = l.split("\t", 1)
    if s.startswith("fix: ") and s[5:] in PROP:
        out.append(f"fixed: property={PROP[s[5:]]} {h} {s[5:]}")
k = json.load(open(V + "/known_findings.json"))
k["fixed"] = out
json.dump(k, open(V + "/known_findings.json", "w"), indent=1)
print(len(out), "of", len(PROP))
