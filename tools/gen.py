#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []
TECH = "abstract interpretation of the SSA form (path-sensitive, interprocedural)"
NOTE = ("Every path through the named entry points (loops by an inductive abstraction of one iteration) is covered, for "
        "arbitrary inputs, stored data and failures of every database, file or network operation; trusts the models of "
        "the libraries listed in DESIGN.md and go/ssa. ")

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over.split(), "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files.split(),
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          **({"observe_at": list(observe)} if observe else {}),
                          "hook_needed": None}})
    if na:
        NA.append({"property": id, "reason": " ".join(na.split())})
        return
    CHECKS.append({"property": id, "quick_cmd": f"./check.sh {id}", "thorough_cmd": f"./check.sh {id} thorough",
                   "technique": (tech + "; " if tech else "") + TECH, "level": "other",
                   "level_note": NOTE + " ".join((note or "").split())})

MEM = "internal/engine/memdb/"
exec(open(os.path.join(root, "tools", "props.py")).read())

P.sort(key=lambda p: p["id"])
CHECKS.sort(key=lambda p: p["property"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": CHECKS, "not_applicable": NA}, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(CHECKS), "checks")

# DESIGN.md
import re
rules = dict(re.findall(r'register\("(C\d\d)", "((?:[^"\\]|\\.)*)"', open(os.path.join(root, "checker", "rules_main.go")).read()))
seeds = {}
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    f = os.path.join(root, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((d, m["needs"], m["what_it_breaks"]))
claimed = {c["property"]: c for c in CHECKS}
body, na = [], []
for p in P:
    if p["id"] not in claimed:
        r = next(n["reason"] for n in NA if n["property"] == p["id"])
        na.append(f"* **{p['id']} {p['title']}**: {r}")
        continue
    body.append(f"### {p['id']} {p['title']}\n")
    body.append(p["statement"] + "\n")
    body.append("* *Rule:* " + rules[p["id"]])
    body.append("* *Method:* " + claimed[p["id"]]["technique"].split(";")[0] + ". *Over:* " + p["quantifier"]["text"])
    body.append("* *Anchored in:* " + ", ".join(f"{m['name']} ({m['where']})" for m in p["anchors"]["mechanism"]) + ".")
    if seeds.get(p["id"]):
        body.append("* *Planted bugs caught:* " + ", ".join("`%s`" % s[0] for s in seeds[p["id"]]) + ".")
    body.append("")
fixed = []
for l in open(os.path.join(root, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixed.append(f"* {m[1]}, {m[2]}: {m[3]}")
tab = ["Planted bugs (each builds, passes the existing tests, and has a demonstration), all caught by the check of their property:\n",
       "| Planted bug | Property | Needs | Breaks |", "| --- | --- | --- | --- |"]
for k in sorted(seeds):
    for n, a, b in seeds[k]:
        tab.append(f"| {n} | {k} | {a} | {b} |")
t = open(os.path.join(root, "tools", "design.md")).read()
for k, v in {"PROPERTIES": body, "NA": na, "FIXED": fixed, "SEEDS": tab}.items():
    t = t.replace("@@%s@@" % k, "\n".join(v).rstrip())
open(os.path.join(root, "DESIGN.md"), "w").write(t)
