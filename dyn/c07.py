from common import *
import discorpy.proc.processing as proc


def cases(seed, tier, hints):
    k = 0
    for m in (1, 2, 3, 4, 5, 6):
        for mp in ("forward", "backward", "default"):
            for form in ("list", "arrays", "array"):
                k += 1
                yield dict(kind=mp, seed=seed * 1000 + k, m=m, n=m + [0, 1, 7, 40][k % 4], form=form)
    for n in lit_sizes(7, 300, ["proc"]):
        k += 1
        yield dict(kind=["forward", "backward", "default"][k % 3], seed=seed * 1000 + k, m=3, n=n, form="array")
    for i in range(80 if tier == "quick" else 2000):
        yield dict(kind=["forward", "backward", "default"][i % 3], seed=seed * 700 + i, m=1 + i % 5, n=5 + i % 37, form=["list", "arrays", "array", "int"][i % 4])
    for i in range(9):
        yield dict(kind="zero", seed=seed * 100 + i, m=2 + i % 3)
    for m in range(2, 9):
        for n in range(1, m):
            yield dict(kind="few", seed=seed, m=m, n=n)
    for i in range(6):
        yield dict(kind="none", seed=seed + i, m=1 + i % 5)


def poly(f, r):
    out = np.zeros_like(r, dtype=float)
    for c in reversed(list(f)):
        out = out * r + float(c)
    return out


def best(ru, b, m):
    """least squares with scaled columns"""
    s = ru.max() if ru.size and ru.max() > 0 else 1.0
    A = (ru[:, None] / s) ** np.arange(m)
    c = np.linalg.lstsq(A, b, rcond=None)[0]
    return c / s ** np.arange(m)


def run(case):
    rng = rng_of(case)
    f = proc.transform_coef_backward_and_forward
    m = case["m"]
    if case["kind"] == "few":
        pts = rng.uniform(-10, 10, (case["n"], 2))
        raises(ValueError, f, [1.0] + [0.001] * (m - 1), mapping="backward", ref_points=pts.tolist())
        raises(ValueError, f, [1.0] + [0.001] * (m - 1), mapping="forward", ref_points=pts)
        return
    if case["kind"] == "none":
        c = rand_fact(rng, 1400.0, n=m, strength=0.05)
        out = np.asarray(f(c, mapping=["backward", "forward"][case["seed"] % 2]))
        check(len(out) == m, "%d coefficients for %d", len(out), m)
        r = np.linspace(10, 900, 50)
        F = poly(c, r)
        check(np.max(np.abs(poly(out, F * r) * F - 1)) < 0.02, "the inverse model does not undo the model (default points)")
        return
    if case["kind"] == "zero":
        # a reference point whose factor is exactly zero has no equation
        c = [1.0, -1 / 64, 0.0, 0.0][:m] if case["seed"] % 2 else [1.0, 0.0, -1 / 4096, 0.0][:max(m, 3)]
        p = np.stack([rng.uniform(-20, 20, 12), rng.uniform(-20, 20, 12)], axis=1)
        q = np.array([[0.0, 64.0], [-64.0, 0.0]])
        mp = ["forward", "backward"][case["seed"] // 2 % 2]
        a, b = np.asarray(f(c, mapping=mp, ref_points=p), float), np.asarray(f(c, mapping=mp, ref_points=np.concatenate([p[:5], q, p[5:]])), float)
        close(b * 20.0 ** np.arange(len(b)), a * 20.0 ** np.arange(len(a)), "reference points of factor zero", 1e-6)
        return
    size = float(rng.choice([1.0, 10.0, 100.0, 1000.0] if m > 3 else [1.0, 30.0, 1000.0]))
    p = rng.uniform(-1, 1, (case["n"], 2)) * size
    if case["form"] == "int":
        p = np.round(p * 60 / size)
        size = 60.0
    if rng.random() < 0.3:
        p[int(rng.integers(0, len(p)))] = 0
    if rng.random() < 0.2:
        p[:, int(rng.integers(0, 2))] = 0
    c = rand_fact(rng, size, n=m, strength=float(rng.choice([0.0, 0.05, 0.3])))
    if rng.random() < 0.1:
        c[0] = -c[0]
    r = np.hypot(p[:, 0], p[:, 1])
    F = poly(c, r)
    if np.min(np.abs(F)) < 0.05:
        return
    if len(np.unique(np.round(r, 6))) < m + 0 or np.ptp(F * r) < 0.1 * size and m > 1:
        return
    pts = dict(list=p.tolist(), arrays=[q for q in p], array=p, int=p.astype(int))[case["form"]]
    kw = dict(ref_points=pts)
    if case["kind"] != "default":
        kw["mapping"] = case["kind"]
    cc = c if rng.random() < 0.5 else np.asarray(c)
    out = np.asarray(f(cc, **kw), float)
    check(out.shape == (m,), "%s coefficients for %d", out.shape, m)
    ru, b = F * r, 1 / F
    o = best(np.abs(ru), b, m) if c[0] > 0 else None
    if o is None:
        s = np.abs(ru).max() + 1e-9
        A = (ru[:, None] / s) ** np.arange(m)
        o = np.linalg.lstsq(A, b, rcond=None)[0] / s ** np.arange(m)
    rss = lambda g: float(np.sum((poly(g, ru) - b) ** 2))
    a, e = rss(out), rss(o)
    K = np.linalg.cond(ru[:, None] ** np.arange(m))
    if not K < 1e13:
        return
    check(a <= e * (1 + 1e-6) + len(b) * (1e-12 + (2e-15 * K) ** 2), "squared error %r of the returned inverse, %r is possible", a, e)
