#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a check in mon/props."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/mon"); sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(V + "/mon/props/%s.py" % i.lower()):
        na.append(dict(property=i, reason="check not built yet")); continue
    m = importlib.import_module("props." + i.lower())
    checks.append(dict(property=i, quick_cmd="python3 mon/check.py " + i, thorough_cmd="python3 mon/check.py %s --thorough" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique=getattr(m, "TECHNIQUE", "the real tools, rebuilt with AddressSanitizer and UBSan, run under seeded and enumerated workloads; an independent oracle judges every output"),
                       level=getattr(m, "LEVEL", "exploration"),
                       level_note=getattr(m, "LEVEL_NOTE", "No violation on the executions observed (seeded, plus the enumerated families named in the evidence); nothing is claimed about inputs not executed. "
                       "Trusted: the oracle in mon/model.py, utf8proc's data, gcc's sanitizers.")))
json.dump(dict(version=1, setup_cmd="python3 mon/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the monitors watch processes from outside (outputs, exit status, files, sanitizer reports, preloaded allocation and I/O faults)."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
