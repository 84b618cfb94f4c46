#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json; CLAIMED maps a property to the note on its check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; recorded executions of the real crate validated against it (trace validation)"
BASE = ("Bounded model checking plus conformance on generated sessions: no proof for all inputs. Trusts TLC, the numeric overrides in java/glm "
        "(IEEE double) and the rounding tolerances stated in the specification. ")
from claims import CLAIMED, NOT_APPLICABLE
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
m = dict(version=1, setup_cmd="./setup.sh",
  checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
               technique=TECH, level="model_checking", level_note=BASE + CLAIMED[p["id"]]) for p in props if p["id"] in CLAIMED],
  not_applicable=[dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet")) for p in props if p["id"] not in CLAIMED],
  notes="No hooks: the harness in /verif/harness uses only the crate's public API. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
