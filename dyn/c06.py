from common import *
import discorpy.proc.processing as proc
from c05 import hom


def cases(seed, tier, hints):
    ns = sorted({4, 5, 6, 9, 20, 50} | set(lit_sizes(4, 200, ["proc"])))
    for h in hints:
        if "n" in h:
            ns.append(int(min(max(h["n"], 4), 300)))
    k = 0
    for n in ns:
        for mp in ("forward", "backward", "default"):
            for form in ("array", "list", "int", "int_target"):
                k += 1
                yield dict(kind=mp, seed=seed * 1000 + k, n=n, form=form)
    for i in range(60 if tier == "quick" else 1500):
        yield dict(kind=["forward", "backward", "default"][i % 3], seed=seed * 500 + i, n=[4, 4, 5, 8, 16][i % 5], form=["array", "list", "int"][i % 3 if i % 2 else 0])


def general(p):
    """no three of the first four points nearly on a line"""
    import itertools
    s = np.ptp(p, axis=0).max() + 1e-9
    for a, b, c in itertools.combinations(p[:4], 3):
        if abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) < 0.08 * s * s:
            return False
    return True


def run(case):
    rng = rng_of(case)
    size = float(rng.choice([1.0, 30.0, 1000.0, 10000.0]))
    off = rng.uniform(-1, 1, 2) * size * rng.choice([0.0, 1.0])
    while True:
        a = rng.uniform(-1, 1, (case["n"], 2)) * size + off
        if case["form"].startswith("int"):
            a = np.round(a * 50 / size) * 1.0
        if general(a):
            break
    sz = np.abs(a).max()
    c = np.array([1, 0, 0, 0, 1, 0, 0, 0], float)
    c[[0, 1, 3, 4]] += rng.normal(size=4) * 0.3
    while abs(c[0] * c[4] - c[1] * c[3]) < 0.3:
        c[[0, 4]] += 0.5
    c[[2, 5]] += rng.normal(size=2) * sz * rng.choice([0.0, 0.5])
    c[[6, 7]] += rng.uniform(-1, 1, 2) * 0.25 / sz
    xb, yb = hom(c, a[:, 1], a[:, 0])
    b = np.stack([yb, xb], 1)
    A = a.astype(int) if case["form"] == "int" else a
    lst = case["form"] == "list"
    f = proc.calc_perspective_coefficients
    if case["form"] == "int_target":
        # whole-number targets, fractional sources
        A = a.astype(int)
        out = f(b, A, mapping="forward") if case["kind"] == "forward" else (f(A, b, mapping="backward") if case["kind"] == "backward" else f(A, b))
        x, y = hom(np.asarray(out, float), b[:, 1], b[:, 0])
        close(np.stack([y, x], 1), a, "mapped points (%s, whole-number targets)" % case["kind"], 2e-5, scale=np.abs(b).max() + sz)
        return
    A0, B0 = (A.tolist(), b.tolist()) if lst else (A, b)
    if case["kind"] == "forward":
        out = f(A0, B0, mapping="forward")
    elif case["kind"] == "backward":
        out = f(B0, A0, mapping="backward")
    else:
        out = f(B0, A0)
    out = np.asarray(out, float)
    check(out.shape == (8,), "%s coefficients", out.shape)
    x, y = hom(out, a[:, 1], a[:, 0])
    s = np.abs(b).max() + sz
    close(np.stack([y, x], 1), b, "mapped points (%s)" % case["kind"], 2e-6, scale=s)
    g = f(A0, B0, mapping="forward")
    h = f(B0, A0, mapping="backward")
    check(np.array_equal(np.asarray(g), np.asarray(h)) or np.allclose(g, h, rtol=1e-6, atol=1e-9), "forward(source,target) differs from backward(target,source)")
