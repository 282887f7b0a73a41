#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per scenario compiled into the simulator."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
src = ""
d = root + "/sim/src/scen"
for f in sorted(os.listdir(d)):
    src += open(d + "/" + f).read()
allm = re.search(r"pub static ALL.*?\[(.*?)\];", src, re.S).group(1)
have = set(re.findall(r"::([A-Z]\d\d)\b", allm))
NOTE = {}
exec(open(root + "/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        m = re.search(r'id: "%s".*?level: "(\w+)"' % i, src, re.S)
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "./check.sh " + i,
            "technique": "deterministic simulation with fault injection: seeded search over simulated runs",
            "level": m.group(1),
            "level_note": NOTE.get(i, "seeded sample of runs; bounds in DESIGN.md"),
            "evidence_file": "evidence/%s.json" % i,
        })
    else:
        na.append({"property": i, "reason": "simulation scenario not built yet; no check is claimed"})
m = {"version": 1, "setup_cmd": "./build.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the seam is the C library boundary, defined by the simulator executable; /repo is built unmodified", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Replay a failure with: sim/target/debug/bisim replay <file> (C18, C19: cli/target/debug/barc replay <file>). See DESIGN.md."}
open(root + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
