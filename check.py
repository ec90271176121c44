#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--no-dyn] [-v]

Runs the verifier on /repo's current source for one property, replays or
searches a failing input on the real code where an obligation fails, writes
/verif/evidence/<id>.json.  Exit 0 or 1 only."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
REPO = os.environ.get("VERIF_REPO", "/repo")

COMMON_ASSUME = [
    "floating point is treated as exact real arithmetic (rounding, overflow, NaN and float32 storage are not modelled); integers are mathematical except where the code casts to a fixed-width integer type",
    "contracts of numpy, scipy, h5py, PIL, json, pickle, pathlib and builtin functions used by the code are assumed as written in /verif/pyvc/nplib.py, lib.py, imlib.py and iolib.py",
    "division by zero is a total function with 1/0 = 0 in the logic; obligations that divide state the divisor is non-zero where the property needs it",
    "array arguments have the documented number of dimensions; Python-level aliasing between distinct arguments is not considered",
]
TRUSTED = ["/verif/pyvc (VC generator: symbolic executor, loop summariser, term normaliser)", "z3 (python bindings)", "cvc5 1.1.2 (second opinion)",
           "assumed library contracts (listed in assumptions)", "CPython's ast module"]


def dyn(prop, tier, seed, budget, hints):
    import tempfile
    with tempfile.TemporaryDirectory(prefix="vdyn") as d:
        out = os.path.join(d, "o.json")
        hf = os.path.join(d, "h.json")
        json.dump(hints, open(hf, "w"))
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, OMP_NUM_THREADS="4", OPENBLAS_NUM_THREADS="4",
                   TMPDIR=d, MPLCONFIGDIR=d)
        try:
            p = subprocess.run([PY, os.path.join(HERE, "dyn", "harness.py"), prop, tier, str(seed), str(budget), out, hf],
                               env=env, cwd=d, capture_output=True, text=True, timeout=budget * 2 + 200)
        except subprocess.TimeoutExpired as e:
            return dict(evaluations=0, distinct=0, fails=[], samples=[], kinds={}, error="timeout")
        try:
            return json.load(open(out))
        except Exception:
            return dict(evaluations=0, distinct=0, fails=[], samples=[], kinds={}, error=(p.stderr or "no output")[-1500:])


def known_findings(prop):
    p = os.path.join(HERE, "KNOWN_FINDINGS.json")
    try:
        d = json.load(open(p))
    except Exception:
        return []
    return [x for x in d.get("findings", []) if x.get("property") == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-dyn", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--sections", default=None)
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from contracts import base
    mod = importlib.import_module("contracts." + prop.lower())
    secs = mod.SECTIONS
    if a.sections:
        secs = [s for s in secs if s[0] in a.sections.split(",")]
    limit = getattr(mod, "LIMIT", 200) * (1 if tier == "quick" else 2)
    results = base.run_sections(prop, secs, tier, limit)
    obls, unreached, hints = [], [], []
    functions, contracts, lib = set(), set(), set()
    for r in results:
        for o in r["obls"]:
            o = dict(o, section=r["section"])
            obls.append(o)
        if r["err"]:
            unreached.append("%s: %s" % (r["section"], r["err"]))
        functions |= set(r["functions"])
        contracts |= set(r["contracts"])
        lib |= set(r["lib"])
        unreached += [r["section"] + ": " + n for n in r["notes"]]
    real = [o for o in obls if not o.get("cover")]
    proved = [o for o in real if o["status"] == "proved"]
    cex = [o for o in real if o["status"] == "cex"]
    unk = [o for o in real if o["status"] not in ("proved", "cex")]
    hints = [o["hints"] for o in cex + unk if o.get("hints")]
    if a.v:
        for r in results:
            print("== section %s %.1fs %s" % (r["section"], r["wall"], r["err"] or ""))
            for n in r["notes"]:
                print("   note", n)
            for o in r["obls"]:
                print("   %-8s %-60s %s %.2f" % (o["status"], o["name"], o["by"], o["t"]))
                if o["status"] != "proved":
                    print("        goal:", o.get("goal"))
                    print("        detail:", o.get("detail"))
    if a.no_dyn:
        d = dict(evaluations=0, distinct=0, fails=[], samples=[], kinds={})
    else:
        budget = getattr(mod, "DYN_BUDGET", 60) * (1 if tier == "quick" else 5)
        d = dyn(prop, tier, seed, budget, hints)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay")
    known = known_findings(prop)
    newfails = []
    for f in d.get("fails", []):
        k = next((x for x in known if x.get("case") == f["case"] or (x.get("match") and x["match"] in f["message"])), None)
        if k is None:
            newfails.append(f)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k.get("what")))
    violation = None
    if newfails:
        violation = ("input", newfails[0])
    elif cex:
        violation = ("obligation", None)
    backends = {}
    for o in proved:
        for b in (o["by"] or "?").split("+"):
            backends[b] = backends.get(b, 0) + 1
    solver_s = sum((r["stats"] or {}).get("z3_s", 0) for r in results)
    status_unreached = bool(unreached or unk)
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "proof"), wall_s=round(time.time() - t0, 2),
              violations=1 if violation else 0,
              coverage=dict(obligations=len(real), discharged=len(proved),
                            checker_cmd="python3-vt check.py %s --tier %s" % (prop, tier),
                            trusted_base=TRUSTED,
                            functions_under_contract=sorted(functions), callee_contracts_used=sorted(contracts),
                            assumed_library_contracts=sorted(lib), discharged_by=backends, solver_seconds=round(solver_s, 2),
                            vacuity_covers=dict(total=sum(1 for o in obls if o.get("cover")), satisfiable=sum(1 for o in obls if o.get("cover") and o["status"] == "proved")),
                            undecided=[dict(name=o["name"], why=o.get("detail")) for o in unk][:40],
                            out_of_reach=unreached[:40],
                            obligation_names=sorted({o["name"] for o in proved})[:400],
                            bounded_standin=dict(label="bounded: concrete executions of the real code against an independent oracle; not counted as proof",
                                                 evaluations=d.get("evaluations", 0), distinct=d.get("distinct", 0), kinds=d.get("kinds", {}),
                                                 samples=d.get("samples", [])[:6], error=d.get("error"))),
              assumptions=COMMON_ASSUME + list(getattr(mod, "ASSUME", [])) + ["trusted library contract: " + x for x in sorted(lib)])
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    if a.v:
        print("obligations %d discharged %d cex %d undecided %d unreached %s dyn %s fails %d err %s  %.1fs" % (
            len(real), len(proved), len(cex), len(unk), unreached, d.get("evaluations"), len(d.get("fails", [])), d.get("error"), time.time() - t0))
        for f in d.get("fails", []):
            print("   FAIL", f)
    if violation:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".json")
        rep = dict(property=prop, case=newfails[0]["case"] if newfails else None, message=newfails[0]["message"] if newfails else None,
                   replay_cmd="%s %s --replay %s" % (PY, os.path.join(HERE, "dyn", "harness.py"), path),
                   failed_obligations=[dict(name=o["name"], section=o["section"], status=o["status"], goal=o.get("goal"), verifier_output=o.get("detail"), model=o.get("hints")) for o in cex + unk][:20])
        json.dump(rep, open(path, "w"), indent=1, default=str)
        if newfails:
            print("failing input: %s" % json.dumps(newfails[0], default=str)[:1500])
        for o in cex[:5]:
            print("failed obligation: %s" % o["name"])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if newfails else " no-failing-input-found"))
        return 1
    print("property %s: %d obligations, %d discharged (%s), %d undecided or out of reach covered by the bounded stand-in (%d executions), %.1f s" % (
        prop, len(real), len(proved), ", ".join("%s %d" % kv for kv in sorted(backends.items())), len(unk) + len(unreached), d.get("evaluations", 0), time.time() - t0))
    if not real and not d.get("evaluations"):
        print("nothing was checked")
        path = os.path.join(rdir, prop + ".json")
        os.makedirs(rdir, exist_ok=True)
        json.dump(dict(property=prop, case=None, failed_obligations=unreached, error=d.get("error")), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    sys.exit(rc)
