#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, the properties (tools/props_*.py), evidence/*.json (cost) and tools/design_tail.md."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["props.py"]
exec(open(V + "/tools/props.py").read().replace("os.path.abspath(__file__)", "'%s/tools/props.py'" % V).replace("__file__", "'%s/tools/props.py'" % V))
ORACLE = json.load(open(V + "/tools/oracles.json"))
out = [open(V + "/tools/design_head.md").read().rstrip().replace("@@N@@", str(len(PROPS))).replace("@@NA@@", ", ".join("%s %s" % (n["id"], n["title"]) for n in NA))]
out.append("\n## 2. The properties, and how each is decided\n")
out.append("Cost is that of one quick run on the 8 core sandbox (seconds of wall time; paths; IR instructions; Z3 queries + table certificates).\n")
for p in PROPS:
    ev = V + "/evidence/%s.json" % p["id"]
    cost = ""
    if os.path.exists(ev):
        try:
            c = json.load(open(ev))["coverage"]
            q = c.get("solver", {})
            ins = sum(h["insts"] for h in c["harnesses"])
            cost = "%s paths, %.1f G instructions" % (c["states"], ins / 1e9)
            w = c.get("wall_seconds") or json.load(open(ev)).get("wall_s")
            if w:
                cost = "%.0f s, " % w + cost
        except (KeyError, ValueError):
            pass
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("* Ranges over: %s." % p["qtext"].rstrip("."))
    out.append("* Why tests do not settle it: %s" % p["why"])
    if p["id"] in ORACLE:
        out.append("* Oracle: %s" % ORACLE[p["id"]])
    out.append("* Harnesses: `%s`%s%s" % (" ".join(p["core"]), "; as far as time permits: `%s`" % " ".join(p["more"]) if p["more"] else "", "; thorough tier also: `%s`" % " ".join(p["deep"]) if p["deep"] else ""))
    out.append("* Bounds: %s." % p["bounds"].rstrip("."))
    if p["outside"]:
        out.append("* Outside: %s." % p["outside"].rstrip("."))
    for a in p["assumptions"]:
        out.append("* Assumption: %s" % a)
    out.append("* Anchored in: %s (%s)." % (", ".join("`%s`" % f for f in p["files"]), "; ".join(a for a, _ in p["mech"])))
    if cost:
        out.append("* Cost: %s." % cost)
    out.append("")
out.append("## 3. Not applicable\n")
for n in NA:
    out.append("* **%s %s.** %s %s" % (n["id"], n["title"], n["statement"], n["reason"]))
out.append("")
tail = open(V + "/tools/design_tail.md").read()
fx = "\n".join("* " + l.replace("fixed: ", "") for l in json.load(open(V + "/known_findings.json")).get("fixed", []))
rs = json.load(open(V + "/tools/seed/results.json")) if os.path.exists(V + "/tools/seed/results.json") else {}
rows = ["| planted bug | property | needs | check |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "\\|"), rs.get(d, "not run")))
out.append(tail.replace("@@FIXES@@", fx).replace("@@SEEDS@@", "\n".join(rows)))
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len("\n".join(out)))
