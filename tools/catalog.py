"""Catalogue of the properties: writes properties.jsonl and MANIFEST.json (python3 tools/catalog.py)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKED, NA = [], [], []
LEVELNOTE = ("Every obligation is generated from the LLVM IR of /repo's current source and discharged by an SMT solver, for all inputs and iterations; "
             "trusted: clang front end, the VC generator, the solvers and the assumptions listed in the evidence file. ")


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, technique=None, level="proof", theorems=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})
    assert len(title) <= 80, title
    if na:
        NA.append({"property": id, "reason": na})
        return
    if not os.path.exists(os.path.join(HERE, "props", id + ".py")):
        NA.append({"property": id, "reason": "contracts for this property are not written yet"})
        return
    CHECKED.append({"property": id, "quick_cmd": "python3 check.py %s --tier quick" % id, "thorough_cmd": "python3 check.py %s --tier thorough" % id,
                    "technique": technique or "contract-based deductive verification: function contracts and loop invariants on the extracted LLVM IR, SMT-discharged",
                    "level": level, "level_note": LEVELNOTE + (note or "")})


exec(open(os.path.join(HERE, "tools", "properties.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": CHECKED, "not_applicable": NA,
               "notes": "See DESIGN.md. The checks need no hooks in /repo: contracts are attached to functions by name in /verif/props and checked against the IR that clang emits for the current source."}, f, indent=1)
print(len(P), "properties,", len(CHECKED), "claimed")
