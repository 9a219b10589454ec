#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]
TECH = {
    None: "stateless model checking of the real library: exhaustive enumeration of bounded hive images and call sequences, every call compared with an independent reference model",
}
exec(open(root + '/tools/claims.py').read())  # CLAIMED: {id: (technique or None, level_note)}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": t or TECH[None], "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
