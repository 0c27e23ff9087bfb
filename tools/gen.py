#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand, output committed)."""
import json, sys, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here); sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE, NOTES
import jsonschema
ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
with open(f'{root}/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["for_all"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["obs"], "hook_needed": p.get("hook")}}
        if p.get("state"):
            d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        jsonschema.validate(d, ps)
        assert len([s for s in d["statement"].replace('e.g.', '').split('. ') if s]) <= 3, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
na = {n["property"] for n in NOT_APPLICABLE}
m = {"version": 1, "setup_cmd": "bash /verif/run.sh --build",
     "checks": [{"property": p["id"], "quick_cmd": f"bash /verif/run.sh {p['id']} --tier quick",
                 "thorough_cmd": f"bash /verif/run.sh {p['id']} --tier thorough",
                 "technique": p["technique"], "level": p.get("level", "model_checking"),
                 "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"} for p in PROPS if p["id"] not in na],
     "not_applicable": NOT_APPLICABLE, "notes": NOTES}
jsonschema.validate(m, ms)
json.dump(m, open(f'{root}/MANIFEST.json', 'w'), indent=1, ensure_ascii=False); open(f'{root}/MANIFEST.json', 'a').write("\n")
print(len(PROPS), "properties,", len(m["checks"]), "checks")
