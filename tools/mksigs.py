#!/usr/bin/env python3
"""Writes contracts/sigs.json: parameter names of the private helpers that carry a contract.  A helper whose parameters
changed is no longer the function the contract was written for; its section is then out of reach, not refuted."""
import ast, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for d, _, fs in os.walk("/repo/discorpy"):
    for f in sorted(fs):
        if f.endswith(".py"):
            p = os.path.join(d, f)
            mod = os.path.relpath(p, "/repo")[:-3].replace("/", ".")
            for n in ast.parse(open(p).read()).body:
                if isinstance(n, ast.FunctionDef) and n.name.startswith("_"):
                    out[mod + "." + n.name] = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
json.dump(out, open(os.path.join(R, "contracts", "sigs.json"), "w"), indent=0, sort_keys=True)
print(len(out), "helpers")
