#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "TLA+/TLC: "
CODEC = "trace validation of recorded sessions against Codec.tla"
NOTE = {}
TECH = {p: T + CODEC for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10")}
COMMON = "Every recorded call of the real code is checked by TLC to be a step the specification allows; coverage is the generated sessions (types x values x inputs), not a proof."
SMALL = "Every recorded call of the real code is checked by TLC to be a step the specification allows: random sessions, systematic ones, and all behaviours that CodecMC.tla has at its small scope (on which TLC also checks the property's invariants). No proof beyond those."
for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07", "P09"):
    TECH[p] = T + "trace validation of recorded sessions against Codec.tla; exhaustive small-scope behaviours of CodecMC.tla, model checked and replayed"
    NOTE[p] = SMALL
TECH["P11"] = T + "model checking of DescCache.tla, trace validation of concurrent sessions (race build)"
TECH["P12"] = T + "trace validation of type acceptance histories against Types.tla"
TECH["P13"] = T + "trace validation of nested messages against Depth.tla"
if os.path.exists(os.path.join(V, "tools", "gmanifest.py")):
    exec(open(os.path.join(V, "tools", "gmanifest.py")).read())
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in TECH:
        continue
    checks.append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                   "technique": TECH[p], "level": "model_checking", "level_note": NOTE.get(p, COMMON)})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
