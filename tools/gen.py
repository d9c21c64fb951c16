#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, module=None, level="proof", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, state=state or [], level=level, note=note, na=na))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=["litevideo/" + x for x in p["files"]],
                              mechanism=[dict(name=a, where="litevideo/" + b) for a, b in p["mech"]],
                              observe_at=p["observe"]))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where="litevideo/" + c) for a, b, c in p["state"]]
        d["anchors"]["hook_needed"] = None
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(HERE, "vd", "props", p["id"].lower() + ".py"))
    if p["na"] or not have:
        na.append(dict(property=p["id"], reason=p["na"] or "no check built yet"))
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd="bash run.sh %s quick" % p["id"],
        thorough_cmd="bash run.sh %s thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique="contract-based deductive verification: verification conditions generated from the elaborated FHDL of the real classes, discharged by z3/cvc5",
        level=p["level"],
        level_note=p["note"] or NOTE))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="LITEVIDEO_VERIF", enable="no hook is needed: the checks elaborate the unmodified classes of /repo", source_commits=[]),
         checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
