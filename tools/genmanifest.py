#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from checks import CHECKS
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
m = dict(version=1, setup_cmd="python3 tools/build.py", checks=[], not_applicable=[],
         notes="No hooks in /repo: everything is observed through actions, conditions and public calls, in sanitizer builds of /repo's current sources made below /verif/build.")
for p in props:
    if p not in CHECKS:
        m["not_applicable"].append(dict(property=p, reason="not claimed yet: its harness is still being built"))
        continue
    c = CHECKS[p]
    m["checks"].append(dict(property=p, quick_cmd=f"python3 tools/run_check.py {p}",
                            thorough_cmd=f"VERIF_TIER=thorough python3 tools/run_check.py {p}",
                            evidence_file=f"evidence/{p}.json", technique=c["technique"], level="exploration",
                            level_note="Holds on the executions observed (see the evidence file), under gcc/clang's sanitizers where named. " + c["note"]))
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
