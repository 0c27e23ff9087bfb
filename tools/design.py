#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props.py, coverage.json and seeded/*/meta.json (run by hand).
design.py DIR first collects DIR/<id>.<tier>.json (evidence of both tiers) into coverage.json."""
import json, sys, os, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here); sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
cf = f'{here}/coverage.json'
cov = json.load(open(cf)) if os.path.exists(cf) else {}
if len(sys.argv) > 1:
    for f in glob.glob(sys.argv[1] + '/*.json'):
        pid, tier = os.path.basename(f).split('.')[:2]
        e = json.load(open(f))
        cov.setdefault(pid, {})[tier] = {"parts": [{k: p[k] for k in ("part", "rule", "cases", "steps", "distinct_outcomes")} for p in e["coverage"]["parts"]], "assumptions": e.get("assumptions", []), "secs": round(sum(p["secs"] for p in e["coverage"]["parts"]))}
    json.dump(cov, open(cf, 'w'), indent=1, ensure_ascii=False, sort_keys=True); open(cf, 'a').write("\n")
k = json.load(open(f'{root}/known-findings.json'))
o = open(f'{here}/design_head.md').read()
for x in k["open"]: o += f'* **{x["property"]}** ({x["part"]}): {x["what"]}\n'
o += f'\nRepaired ({len(k["fixed"])}):\n\n' + "".join("* " + x.replace("fixed: property=", "") + "\n" for x in k["fixed"])
o += "\n" + open(f'{here}/design_mid.md').read()
o += "\n## Planted bugs\n\nEach is in `seeded/<id>`, or in `planted-more/<id>` (same form, kept apart so that the whole check stays short), builds, passes the stable tests and has a demonstration. Caught by:\n\n| bug | what it breaks | caught by |\n|---|---|---|\n"
for d in sorted(glob.glob(f'{root}/seeded/*/meta.json') + glob.glob(f'{root}/planted-more/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[-2]
    o += f'| {n} | {m["what_it_breaks"]} | {m.get("caught_by", m["property"])} |\n'
o += "\n## The properties, one by one\n"
def num(n): return f'{n:,}'.replace(',', ' ')
for p in PROPS:
    o += f'\n### {p["id"]} {p["title"]}\n\n{p["statement"]}\n\n'
    o += f'*Enumerated*: {p["for_all"]}. *Oracle and bounds*: {p["note"]}. *Beyond the tests*: {p["why"]}\n\n*Level*: {p.get("level", "model_checking")}. *Technique*: {p["technique"]}.\n\n'
    c = cov.get(p["id"])
    if c:
        q = {x["part"]: x for x in c.get("quick", {}).get("parts", [])}; t = {x["part"]: x for x in c.get("thorough", {}).get("parts", [])}
        o += "| part | what is enumerated | cases (quick) | cases (thorough) |\n|---|---|---|---|\n"
        for n in list(dict.fromkeys(list(q) + list(t))):
            x = q.get(n) or t[n]
            o += f'| {n} | {x["rule"].replace("|", "/")} | {num(q[n]["cases"]) if n in q else "–"} | {num(t[n]["cases"]) if n in t else "–"} |\n'
        o += f'\nCost: about {c.get("quick", {}).get("secs", "?")} s quick, {c.get("thorough", {}).get("secs", "?")} s thorough on 8 cores (measured with other load).\n'
        a = c.get("quick", {}).get("assumptions", [])
        if a: o += "\nAssumed: " + "; ".join(a) + ".\n"
open(f'{root}/DESIGN.md', 'w').write(o)
print(len(o))
