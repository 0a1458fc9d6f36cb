"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real code: function contracts, VC generation from clang's AST, z3/cvc5"
NOTE = ("All obligations are regenerated from the current source and discharged for all inputs and all iterations. Floating point is exact real arithmetic; "
        "library functions are modelled (vc/stdlib.py, vc/theory.py). A native cross-check of the same functions (bounded) supplies failing inputs and stands in, "
        "labelled bounded, for functions listed as not decided in the evidence.")
P, NA = [], []


def prop(id, title, statement, over, quant, why, files, mech, note="", level="proof", claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note, _level=level, _claimed=claimed, _reason=reason))


L = "RedshiftLibrary/src/lib/"
H = "RedshiftLibrary/RedshiftLibrary/"
exec(open(os.path.join(V, "tools", "proplist.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for p in P:
    if p["_claimed"]:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3-vt run_check.py " + p["id"], thorough_cmd="env VERIF_TIER=thorough python3-vt run_check.py " + p["id"],
                                technique=TECH, level=p["_level"], level_note=(p["_note"] + " " + NOTE).strip()))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=p["_reason"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not applicable")
