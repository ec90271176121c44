"""python harness.py PROPERTY TIER SEED BUDGET OUT [hints.json]   |   --replay FILE"""
import importlib
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common                                    # noqa: E402


CASE_LIMIT = 80        # seconds of processor time of one case; the slowest case of the unchanged tree needs about a tenth


class Hang(BaseException):
    pass


def watchdog(seconds, every=0.0):
    """raise Hang in the running case after that much processor time (again and again: the library has bare except clauses)"""
    def stop(*_):
        raise Hang()
    signal.signal(signal.SIGPROF, stop)
    signal.setitimer(signal.ITIMER_PROF, seconds, every)


def run_case(mod, case):
    """None if the property held, else a message"""
    try:
        watchdog(CASE_LIMIT, 2.0)
        try:
            mod.run(case)
        finally:
            watchdog(0)
    except Hang:
        return "no result within %d s of processor time" % CASE_LIMIT
    except common.Skip:
        return None
    except common.Fail as e:
        return str(e)
    except AssertionError as e:
        return "assertion: %s" % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inlib = [f for f in tb if "discorpy" in f.filename and "/dyn/" not in f.filename]
        if inlib:
            return "unexpected %s in %s:%d: %s" % (type(e).__name__, os.path.basename(inlib[-1].filename), inlib[-1].lineno, e)
        if tb and os.path.dirname(os.path.abspath(__file__)) in tb[-1].filename:
            # the oracle could not digest the result: wrong type or shape of the result
            return "oracle could not evaluate the result: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno)
        return "unexpected %s: %s" % (type(e).__name__, e)
    return None


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        if not r.get("case"):
            print("no concrete input recorded:", r.get("failed_obligations"))
            return 3
        try:
            mod = importlib.import_module(r["property"].lower())
            m = run_case(mod, r["case"])
        except Exception as e:
            m = "import: %s" % e
        print("FAILS: " + m if m else "holds")
        return 1 if m else 0
    prop, tier, seed, budget, out = sys.argv[1:6]
    hints = json.load(open(sys.argv[6])) if len(sys.argv) > 6 else []
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    budget = float(budget)
    t0 = time.time()
    res = dict(evaluations=0, kinds={}, fails=[], samples=[], distinct=0)
    seen = set()
    try:
        mod = importlib.import_module(prop.lower())
        it = mod.cases(int(seed), tier, hints)
        for case in it:
            if time.time() - t0 > budget:
                res["budget_hit"] = True
                break
            res["evaluations"] += 1
            k = case.get("kind", "?")
            res["kinds"][k] = res["kinds"].get(k, 0) + 1
            s = json.dumps(case, sort_keys=True, default=str)
            if s not in seen:
                seen.add(s)
            if len(res["samples"]) < 4 or (len(res["samples"]) < 12 and res["kinds"][k] == 1):
                res["samples"].append(case)
            m = run_case(mod, case)
            if m:
                res["fails"].append(dict(case=case, message=m))
                if len(res["fails"]) >= 3:
                    break
    except ImportError as e:
        res["fails"].append(dict(case=None, message="library cannot be imported: %s" % e))
    except Exception as e:
        res["error"] = traceback.format_exc()[-2000:]
    res["distinct"] = len(seen)
    res["wall"] = time.time() - t0
    json.dump(res, open(out, "w"), default=str)
    return 0


if __name__ == "__main__":
    sys.exit(main())
