#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)) + "/.."
sys.path.insert(0, V)
from specs import SPECS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": s.get("technique", "exhaustive bounded exploration of the real code against a reference model"),
            "level": "model_checking", "level_note": "Exhaustive within: " + s["bounds"][0] + ". Every explored trace runs on the code compiled (with assertions and AddressSanitizer) from /repo's working tree; a crash, assertion, hang or memory error counts as a violation. Trusts: " + (lambda t: "; ".join(t) if isinstance(t, list) else t)(s.get("trust", "the reference model in harness/")) + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
m["notes"] = "check.py builds one explorer per property from /repo's working tree in a temporary directory, runs it and writes evidence/<id>.json; 'check.py ID --replay FILE' re-executes a reported case. Known findings: known_findings.txt."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks")
