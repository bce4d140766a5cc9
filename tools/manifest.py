#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/stages.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
from stages import STAGES

TRACE = "TLA+ specification checked with TLC; "
COMMON = (" Trusts TLC, the recorder (which calls the public interface and judges nothing) and, where named, the committed reference data.")
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in STAGES:
        n = NOTES[p]
        checks.append({"property": p, "quick_cmd": f"python3 checks/run.py {p}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 checks/run.py {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": TRACE + n["technique"],
                       "level": "model_checking", "level_note": n["note"] + COMMON})
na = [{"property": p, "reason": NOTES.get(p, {}).get("na", "Check not built yet.")} for p in props if p not in STAGES]
m = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. spec/ holds the specifications, harness/ the recorders, checks/run.py runs one check. No hooks in /repo are needed: the public interface shows the abstract state."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
