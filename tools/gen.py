#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props/*.py (single source of truth)"""
import glob, importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.dont_write_bytecode = True
props, checks, na = [], [], []
for f in sorted(glob.glob(V + "/props/C*.py")):
    pid = os.path.basename(f)[:-3]
    spec = importlib.util.spec_from_file_location(pid, f)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    assert len(m.TITLE) <= 80, pid
    props.append({"id": pid, "title": m.TITLE, "statement": m.STATEMENT,
                  "quantifier": {"over": m.OVER, "text": m.QTEXT}, "why_tests_cant": m.WHY,
                  "anchors": {"files": m.FILES, "state": [dict(zip(("name", "meaning", "where"), s)) for s in getattr(m, "STATE", [])],
                              "mechanism": [dict(zip(("name", "where"), s)) for s in m.MECH],
                              "observe_at": getattr(m, "OBSERVE", []), "hook_needed": None}})
    if getattr(m, "NOT_APPLICABLE", None):
        na.append({"property": pid, "reason": m.NOT_APPLICABLE}); continue
    checks.append({"property": pid, "quick_cmd": f"bin/check {pid}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {pid}",
                   "evidence_file": f"evidence/{pid}.json", "technique": m.TECH, "level": getattr(m, "LEVEL", "proof"), "level_note": m.NOTE})
open(V + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: contracts live in /verif/harness and are compiled together with /repo's sources on every run. "
                    "Each check builds what it needs from /repo's working tree in a scratch directory it removes."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(props), "properties", len(checks), "checks")
