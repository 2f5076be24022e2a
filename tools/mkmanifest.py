#!/usr/bin/env python3
"""Regenerates MANIFEST.json from lib/props.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R + "/lib")
from props import PROPS, NA, TECH
checks = []
for p in sorted(PROPS):
    P = PROPS[p]
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}", "evidence_file": f"evidence/{p}.json",
      "technique": P.get("technique", TECH), "level": "other", "level_note": P.get("level_note", "Static abstract interpretation of every implementation directory for all contents and (unless listed as bounded in the evidence) all lengths; trusts clang's front end and the analyser; sound up to the assumptions listed in the evidence.")})
json.dump({"version": 1, "setup_cmd": "make -s -j8 -C analyzer", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
  "notes": "No hooks in /repo. Genuine defects are repaired by the fix: commits listed in known-findings.json."}, open(R + "/MANIFEST.json", "w"), indent=1)
