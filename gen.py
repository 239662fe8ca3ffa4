#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*/meta.json and props/not_applicable.json (single source)."""
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
TECH = "contract-based deductive verification: Verus contracts on functions extracted from the source on every run"
for p in sorted(glob.glob(os.path.join(V, "props", "*", "meta.json"))):
    pid = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    q = dict(id=pid, **m["property"])
    assert len(q["title"]) <= 80, pid
    props.append(q)
    c = {"property": pid, "quick_cmd": "python3 run.py %s --tier quick" % pid, "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
         "technique": m.get("technique", TECH), "level": m.get("level", "proof"), "level_note": m["level_note"]}
    if m.get("theorems"):
        c["theorems"] = m["theorems"]
    checks.append(c)
for e in json.load(open(os.path.join(V, "props", "not_applicable.json"))):
    r = e.pop("reason")
    assert len(e["title"]) <= 80, e["id"]
    props.append(e)
    na.append({"property": e["id"], "reason": r})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1,
           "setup_cmd": "cargo build --offline -q --manifest-path tool/Cargo.toml --target-dir build/vx",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed: the functions are extracted from /repo's source text on every run."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

# ---- DESIGN.md
o = [open(os.path.join(V, "design", "head.md")).read()]
o.append("## Properties with a check\n")
for p in sorted(glob.glob(os.path.join(V, "props", "*", "meta.json"))):
    pid = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    pr = m["property"]
    o.append("### %s %s\n" % (pid, pr["title"]))
    o.append(pr["statement"] + "\n")
    o.append("- quantified over: %s" % pr["quantifier"]["text"])
    o.append("- why tests cannot settle it: %s" % pr["why_tests_cant"])
    o.append("- code: " + "; ".join("%s (%s)" % (a["name"], a["where"]) for a in pr["anchors"]["mechanism"]))
    o.append("- decided by: %s" % m["level_note"])
    if m.get("theorems"):
        o.append("- lemmas over the contracts: " + ", ".join("`%s`" % t for t in m["theorems"]))
    if m.get("bounded"):
        o.append("- bounded stand-ins (not counted as proved): " + "; ".join(m["bounded"]))
    if m.get("assumptions"):
        o.append("- assumptions: " + "; ".join(m["assumptions"]))
    if m.get("trusted"):
        o.append("- trusted: " + "; ".join(m["trusted"]))
    for n in m.get("notes", []):
        o.append("- note: " + n)
    o.append("")
o.append("## Not applicable\n")
for e in na:
    t = next(p["title"] for p in props if p["id"] == e["property"])
    o.append("- **%s** %s: %s" % (e["property"], t, e["reason"]))
o.append("\n## Findings\n")
for l in open(os.path.join(V, "known_findings.jsonl")):
    if l.strip():
        k = json.loads(l)
        o.append("- %s" % (k.get("line") or ("open: property=%s %s" % (k["property"], k["what"]))))
o.append("\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
caught = json.load(open(os.path.join(V, "design", "caught.json"))) if os.path.exists(os.path.join(V, "design", "caught.json")) else {}
for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    b = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    o.append("| %s | %s | %s: %s | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"], caught.get(b, m["property"])))
tail = os.path.join(V, "design", "tail.md")
if os.path.exists(tail):
    o.append(open(tail).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
