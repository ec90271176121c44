"""Shared helpers of the concrete oracles (run under the interpreter that runs
the library).  Used to replay counterexamples on the real code and as the
bounded stand-in where the verifier does not reach; never counted as proof."""
import ast
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
import warnings                                # noqa: E402
warnings.simplefilter("ignore")
import numpy as np                             # noqa: E402
np.seterr(all="ignore")


class Fail(Exception):
    """the property does not hold for this case"""


class Skip(Exception):
    """the case does not apply (a private helper is gone or has other parameters)"""


def private(mod, name):
    """a private helper, if it still has the parameters it had"""
    import inspect
    import json
    f = getattr(mod, name, None)
    sigs = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "sigs.json")))
    if f is None or list(inspect.signature(f).parameters) != sigs.get(mod.__name__ + "." + name):
        raise Skip()
    return f


def check(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def close(a, b, msg, tol=1e-6, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Fail("%s: shape %s instead of %s" % (msg, a.shape, b.shape))
    if a.size == 0:
        return
    d = np.abs(a - b)
    s = tol * (1 + np.abs(b)) if scale is None else tol * scale
    bad = ~(d <= s)
    both = np.isnan(a) & np.isnan(b)
    bad &= ~both
    if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(bad))
        raise Fail("%s: at %s got %r, expected %r" % (msg, i, a[i], b[i]))


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return
    except Exception as e:
        raise Fail("%s raised instead of %s: %s" % (type(e).__name__, exc, e))
    raise Fail("no exception, expected %s" % (exc,))


_lits = {}


def literals(modules=None):
    """numeric literals of the library source: interesting sizes and values"""
    key = tuple(modules or ())
    if key in _lits:
        return _lits[key]
    ints, floats = set(), set()
    base = os.path.join(REPO, "discorpy")
    for d, _, fs in os.walk(base):
        for f in fs:
            if not f.endswith(".py"):
                continue
            if modules and not any(m in os.path.join(d, f) for m in modules):
                continue
            try:
                t = ast.parse(open(os.path.join(d, f)).read())
            except Exception:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    (ints if isinstance(n.value, int) else floats).add(n.value)
    _lits[key] = (sorted(ints), sorted(floats))
    return _lits[key]


def lit_sizes(lo, hi, modules=None):
    """sizes lit-1, lit, lit+1 within [lo, hi]"""
    out = set()
    for v in literals(modules)[0]:
        for w in (v - 1, v, v + 1, v + 2):
            if lo <= w <= hi:
                out.add(int(w))
    return sorted(out)


def lit_shapes(modules=None, big=5000, sq=700):
    """image shapes around every literal of the source: square, wide, tall, and with that many pixels"""
    out = []
    for v in lit_sizes(3, big, modules):
        if v <= 128:
            out += [(v, v), (v, v + 13), (v + 13, v)]
        elif v <= sq:
            out += [(v, v + 5), (v + 9, v)]
        out += [(v, 9), (11, v)] if v > 16 else []
    for v in literals(modules)[0]:
        if 256 < v <= sq * sq:
            s = int(v ** 0.5)
            out += [(s, s), (s + 1, s + 2)]
    seen = set()
    return [x for x in out if not (x in seen or seen.add(x))]


def rng_of(case):
    return np.random.default_rng([int(case.get("seed", 0)), sum(ord(c) * (i + 1) for i, c in enumerate(str(case.get("kind"))))])


def rand_centre(rng, h, w):
    m = rng.integers(0, 6)
    if m == 0:
        return (w - 1) / 2.0, (h - 1) / 2.0
    if m == 1:
        return float(rng.integers(0, w)), float(rng.integers(0, h))
    if m == 2:
        return float(rng.uniform(-0.5 * w, 1.5 * w)), float(rng.uniform(-0.5 * h, 1.5 * h))
    if m == 3:
        return float(rng.uniform(-3 * w, 4 * w)), float(rng.uniform(-3 * h, 4 * h))
    if m == 4:
        return int(rng.integers(0, w)), int(rng.integers(0, h))
    return float(rng.uniform(0, w)), float(rng.uniform(0, h))


def rand_fact(rng, size, n=None, strength=None):
    """polynomial coefficients with a controlled effect at radius `size`"""
    n = int(n if n is not None else rng.integers(1, 8))
    s = strength if strength is not None else rng.choice([0.0, 0.02, 0.1, 0.4])
    f = [1.0 if rng.random() < 0.6 else float(rng.uniform(0.7, 1.3))]
    for i in range(1, n):
        f.append(float(rng.normal() * s / size ** i))
    return f[:n]


def pad_order(x):
    return x
