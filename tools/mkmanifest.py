#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a contract module and an oracle."""
import ast, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    c = os.path.join(R, "contracts", i.lower() + ".py")
    if i in NA or not os.path.exists(c):
        na.append(dict(property=i, reason=NA.get(i, "contract not written yet")))
        continue
    ns = {}
    for n in ast.parse(open(c).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("LEVEL", "NOTE"):
            ns[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=i, quick_cmd="python3-vt check.py %s --tier quick" % i, thorough_cmd="python3-vt check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique="contract-based deductive verification of the Python source (VC generation by symbolic execution, z3 and cvc5), counterexamples replayed on the real code",
                       level=ns.get("LEVEL", "proof"),
                       level_note=ns.get("NOTE", "Obligations generated from /repo's source on every run hold for all inputs in real arithmetic; trusted: the VC generator, the solvers, the assumed numpy/scipy contracts named in the evidence.")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks: the verifier reads /repo's source; the concrete oracles import it."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
