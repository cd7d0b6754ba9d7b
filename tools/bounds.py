#!/usr/bin/env python3
"""bounds.py: the table of harnesses in DESIGN.md, from evidence/*.json (run all checks first)."""
import json, glob, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
rows = ["| property | harness | bounds (quick run) | paths | left | assertions | queries sent to z3 | seconds |", "|---|---|---|---|---|---|---|---|"]
for i in ids:
    try: d = json.load(open(f"{V}/evidence/{i}.json"))
    except OSError: continue
    c = d["coverage"]; first = True
    for h in c["harnesses"]:
        b = ", ".join(f"{k} {v}" for k, v in sorted(h["bounds"].items())) or "fixed in the harness"
        q = f'{c["queries"]} (+{c["queries_answered_by_cache"]} cached)' if first else ""
        rows.append(f'| {i if first else ""} | {h["harness"]} | {b} | {h["paths"]} | {h["paths_left_when_time_ran_out"]} | {h["assertions_decided"]} | {q} | {h["seconds"]:.0f} |')
        first = False
t = "\n".join(rows)
seeds = ["| planted bug | caught by | what it breaks |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append(f'| {os.path.basename(os.path.dirname(f))} | {m["property"]} | {m["what_it_breaks"]} |')
u = "\n".join(seeds)
if "-w" in sys.argv:
    f = V + "/DESIGN.md"; s = open(f).read()
    s = re.sub(r"(<!-- bounds -->\n).*?(<!-- /bounds -->)", lambda m: m[1] + t + "\n" + m[2], s, flags=re.S)
    s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + u + "\n" + m[2], s, flags=re.S)
    open(f, "w").write(s)
else: print(t)
