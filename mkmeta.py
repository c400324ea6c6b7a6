#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in meta/*.json (run by hand)."""
import json, os, glob
D = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
for f in sorted(glob.glob(D + '/meta/C*.json')):
    m = json.load(open(f))
    props.append(m['property'])
    pid = m['property']['id']
    if 'check' in m:
        c = m['check']
        checks.append({"property": pid,
            "quick_cmd": f"bash check.sh {pid} quick", "thorough_cmd": f"bash check.sh {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": c["technique"], "level": "proof", "level_note": c["level_note"]})
    else:
        na.append({"property": pid, "reason": m['not_applicable']})
with open(D + '/properties.jsonl', 'w') as o:
    for p in props:
        o.write(json.dumps(p, ensure_ascii=False) + '\n')
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "Contracts in contracts/*.gvc; verifier (VC generator over go/ssa, SMT back ends) in govc; concrete replay harness in replay. See DESIGN.md."},
  open(D + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
