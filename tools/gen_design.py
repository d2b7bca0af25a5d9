#!/usr/bin/env python3
"""Writes DESIGN.md from design_body.md, the registry, the known findings and the planted bugs."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import jobs
o = [open(os.path.join(V, "tools/design_body.md")).read()]
o.append("## 5. Per property: entries, bounds, assumptions\n")
o.append("Common assumptions: " + "; ".join(jobs.COMMON_ASSUMPTIONS) + ".\n")
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); i = d["id"]
    if i not in jobs.PROPS:
        continue
    p = jobs.PROPS[i]
    es = []
    for j in p["jobs"]:
        e = j["entry"]
        if (j["file"], e) not in es:
            es.append((j["file"], e))
    o.append("**%s — %s.** %s\n" % (i, d["title"], d["statement"]))
    o.append("* decided by: " + ", ".join("`%s:%s`" % e for e in es) + " (%d jobs)" % sum(len(j.get("expand", [0])) for j in p["jobs"]))
    o.append("* code: " + ", ".join(d["anchors"]["files"]))
    o.append("* bounds: " + p["bounds"])
    o.append("* both sides reached: " + ", ".join(p["must_reach"]))
    if p["assumptions"]:
        o.append("* assumptions: " + "; ".join(p["assumptions"]))
    o.append("")
o.append("## 6. Defects found and repaired in /repo\n")
o.append("Each was a counterexample of the named check, replayed natively, and is one `fix:` commit; reverting the commit makes the check report it again.\n")
for l in open(os.path.join(V, "known-findings.txt")):
    if l.startswith("fixed:"):
        _, p, c, w = l.strip().split(" ", 3)
        o.append("* %s `%s` %s" % (p.split("=")[1], c, w))
o.append("\n## 7. Planted bugs (`seeded/`)\n\nEach was written from a property's text and the code; all compile, pass the 39 tests, and are caught by the quick check of their property unless noted.\n")
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    o.append("* `%s` (%s): %s — needs %s%s" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"], "" if m.get("caught", True) else " — **not caught**"))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
