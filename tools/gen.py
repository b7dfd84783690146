#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and DESIGN.md from meta.py, lib/cases.py and DESIGN.in.md."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here); sys.path.insert(0, os.path.join(os.path.dirname(here), "lib"))
import meta, cases
root = os.path.dirname(here)
meta.PROPS.sort(key=lambda p: p["id"])
with open(root + "/properties.jsonl", "w") as f:
    for p in meta.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in meta.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        assert p["id"] in cases.PROPS, p["id"]
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                       "technique": p.get("technique", meta.TECH), "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open(root + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
out = ["## Properties and how each is decided\n"]
for p in meta.PROPS:
    out.append(f"### {p['id']} {p['title']}\n")
    if p.get("na"):
        out.append("Not applicable: " + p["na"] + "\n")
        continue
    c = cases.PROPS[p["id"]]
    q, t = c["cases"]("quick"), c["cases"]("thorough")
    hs = sorted({x["harness"] for x in q})
    out.append(f"*Harness* {', '.join('`harness/' + h + '`' for h in hs)}; {len(q)} quick and {len(t)} thorough cases.  " + meta.HOW.get(p["id"], "") + "\n")
    out.append("*Bounds* " + "; ".join(f"{k}: {v}" for k, v in c["bounds"].items()) + ".\n")
    out.append("*Why tests cannot settle it* " + p["why_tests_cant"] + "\n")
kf = json.load(open(root + "/known-findings.json"))
fixed = "\n".join("* " + x for x in kf["fixed"]) + "".join("\n* known, not repaired: " + json.dumps(x) for x in kf["known"])
seeds = []
for d in sorted(os.listdir(root + "/seeded")):
    try:
        m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    except OSError:
        continue
    seeds.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {meta.CAUGHT.get(d, 'caught')} |")
s = open(root + "/tools/DESIGN.in.md").read()
s = s.replace("@@PROPS@@", "\n".join(out)).replace("@@FIXED@@", fixed).replace("@@SEEDS@@", "| change | property | breaks | result |\n|---|---|---|---|\n" + "\n".join(seeds))
open(root + "/DESIGN.md", "w").write(s)
