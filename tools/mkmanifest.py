#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        m = importlib.import_module("checks." + i)
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": getattr(m, "TECHNIQUE", "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the real code, recorded traces validated by TLC"),
                       "level": m.LEVEL,
                       "level_note": getattr(m, "NOTE", "The specification is model checked exhaustively within small bounds; the code is bound to it by replaying TLC-enumerated inputs and validating recorded executions, so assurance for the code is that of the behaviours replayed. Trusts TLC, g++ and the harness.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "CPPSORT_VERIF_HOOKS", "enable": "no hooks were needed: the drivers in /verif/harness instrument element types, comparators, iterators and the heap from outside", "source_commits": []},
           "checks": checks, "not_applicable": na, "notes": "check.py ID --tier quick|thorough; exit 0 held, 1 violated, 2 machinery error. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
