#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run ./props.py after editing."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, quant, why, files, mech, observe, level_note, over=("inputs",), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None), _note=level_note))
I = "include/huira/"; M = "include/huira_impl/"
exec(open(os.path.join(V, "props_list.py")).read())
NA = []
try: exec(open(os.path.join(V, "props_na.py")).read())
except FileNotFoundError: pass
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
TECH = "symbolic execution of the compiled LLVM IR + SMT (Z3/cvc5), counterexamples replayed natively"
NOTE = "Bounded symbolic execution of the real code (LLVM IR regenerated from /repo on every run); every assertion is decided by an SMT solver or polynomial normal form for all values within the stated bounds. Trusts clang's lowering, the executor, the solvers; real-mode entries idealise IEEE rounding to exact reals (with NaN/Inf), fp-mode entries are bit-precise. "
m = dict(version=1, setup_cmd="./setup.sh", checks=[dict(property=p["id"], quick_cmd="./check.py %s quick" % p["id"], thorough_cmd="./check.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"], technique=TECH, level="model_checking", level_note=NOTE + p["_note"]) for p in P if p["id"] not in [n["property"] for n in NA]], not_applicable=NA, notes="No hooks in /repo: harnesses drive the public headers; stubs for absent/third-party libraries are in harness/stubs.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
