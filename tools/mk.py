#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the table below (run by hand, results are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EL = "src/mesdoc/interface/elements.rs"
EI = "src/mesdoc/interface/element.rs"
LIB = "src/lib.rs"
PS = "src/mesdoc/rules/pseudo.rs"
PAT = "src/mesdoc/selector/pattern.rs"
SEL = "src/mesdoc/selector/mod.rs"
RULE = "src/mesdoc/selector/rule.rs"
UT = "src/mesdoc/utils.rs"

GEN = "cases are generated from VERIF_SEED: random documents (3 to 80 nodes; mixed, wide and deep shapes; texts and comments between elements; letter case and blanks varied) "

P = []
def prop(id, title, statement, over, qtext, why, files, mech, units, kinds, rule, note, bounded_for, assumptions, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, units=units,
                  kinds=kinds, rule=rule, note=note, bounded_for=bounded_for, assumptions=assumptions, observe=observe, state=state))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = list(p["observe"])
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    for n in NA:
        f.write(json.dumps(n["line"], ensure_ascii=False) + "\n")
cfg = {}
checks = []
for p in P:
    lvl = "proof" if p["units"] else "exploration"
    cfg[p["id"]] = {"units": p["units"], "kinds": p["kinds"], "rule": p["rule"], "level": lvl, "bounded_for": p["bounded_for"], "assumptions": p["assumptions"]}
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": "contract-based deductive verification (Verus) of functions extracted mechanically from /repo on every run; labelled bounded check for the rest" if p["units"] else "bounded stand-in for functions beyond the verifier's reach",
        "level": lvl, "level_note": p["note"] or "Bounded check only so far (stated in the evidence): the functions behind this property are not under contract yet."})
json.dump(cfg, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": n["line"]["id"], "reason": n["reason"]} for n in NA],
     "notes": "No hooks in /repo: the checks use its sources as text (extraction) and its public interface (bounded stand-in). Repairs are 'fix:' commits, see known-findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
