#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property in the simulator's table; the rest is not_applicable."""
import json, os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
 "N01": "parsing a configuration text is a pure function of its input: no concurrency, time, I/O, crash point or second party for a simulated schedule or fault to vary",
 "N02": "parsing and generating a URI is a pure function of its input: no concurrency, time, I/O, crash point or second party for a simulated schedule or fault to vary",
}
na_file = os.path.join(here, "tools", "na.json")
if os.path.exists(na_file): NA = json.load(open(na_file))
src = open(os.path.join(here, "sim", "props.cc")).read()
have = re.findall(r'\{"([A-Z][0-9]{2,3})",', src)
checks = []
for p in props:
    i = p["id"]
    if i not in have: continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
      "technique": "deterministic simulation with fault injection: seeded search over schedules, packet fates and faults against an executable reference model",
      "level": "exploration",
      "level_note": "real code from /repo runs in a simulated kernel (network, timers, clock, threads, files); each run is one repeatable seed; violations are minimised and replayed in a fresh process before being reported"})
na = [{"property": p["id"], "reason": NA.get(p["id"], "no check has been built for it yet")} for p in props if p["id"] not in have]
m = {"version": 1, "setup_cmd": "make -s -C sim -j8 REPO=/repo B=/verif/build all", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile /repo's unmodified sources into node images and substitute the C library's system-call layer at link time", "source_commits": []},
     "notes": "Each check rebuilds the node images from /repo's working tree into /verif/build. ./replay.sh FILE re-runs a reported replay file. Known findings and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
