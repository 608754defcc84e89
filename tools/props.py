#!/usr/bin/env python3
"""Single source of properties.jsonl, checks.json and MANIFEST.json: python3 tools/props.py"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, core, bounds, outside="", deep=(), more=(), more_s=60, covers=None, assumptions=(), note=None, max_steps=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, core=core.split(),
                      deep=deep.split() if deep else [], more=more.split() if more else [], more_s=more_s, bounds=bounds, outside=outside, covers=covers or {},
                      assumptions=list(assumptions), note=note, max_steps=max_steps))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))


for f in sorted(glob.glob(os.path.join(V, "tools/props_*.py"))):
    exec(open(f).read())
PROPS.sort(key=lambda p: p["id"])


def mechs(m):
    return [{"name": a, "where": b} for a, b in m]


with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": mechs(p["mech"]), "observe_at": ["Parser::parse_program"] if p in PROPS else []}}) + "\n")
with open(os.path.join(V, "checks.json"), "w") as f:
    c = {}
    for p in PROPS:
        c[p["id"]] = {"core": p["core"], "more": p["more"], "deep": p["deep"], "more_s": p["more_s"], "bounds": p["bounds"], "outside": p["outside"],
                      "covers": p["covers"], "assumptions": p["assumptions"]}
        if p["max_steps"]:
            c[p["id"]]["max_steps"] = p["max_steps"]
    json.dump(c, f, indent=1)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "bin/check --setup",
        "checks": [{
            "property": p["id"], "quick_cmd": "bin/check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough bin/check " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "symbolic execution of the crate's LLVM IR, path conditions and assertions decided by Z3 (sample re-decided by cvc5)",
            "level": "model_checking",
            "level_note": p["note"] or ("Every input within the stated bounds is decided; counterexamples and a sample of paths are replayed natively. Bounds: %s. Trusts rustc's LLVM IR, the executor rsx and Z3. Outside: %s" % (p["bounds"], p["outside"] or "longer inputs and other surroundings")),
        } for p in PROPS],
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
        "notes": "Technique: solver-based checking of the real code. The engine (engine/, `rsx`) executes the LLVM IR of /repo's crate and the harness symbolically. No hooks in /repo are needed.",
    }, f, indent=1)
print(len(PROPS), "claimed", len(NA), "not applicable")
