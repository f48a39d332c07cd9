"""Regenerate MANIFEST.json from lib/lanes.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from lanes import LANES, META
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in LANES:
        m = META[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m.get("technique", "property-based testing: generated inputs against an executable model"),
                       "level": m.get("level", "exploration"), "level_note": m.get("note", "Generated-input search; no violation among the cases counted in the evidence file. Trusts the oracle named in DESIGN.md and the host CPU and compilers.")})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Every check builds /repo's sources itself (lib/build.py); DESIGN.md explains oracles, bounds and findings."}, open(V + "/MANIFEST.json", "w"), indent=1)
