from common import *
import math
import scipy.ndimage as ndi
import discorpy.prep.preprocessing as prep
import discorpy.prep.linepattern as lip


def cases(seed, tier, hints):
    n = 0
    q = tier == "quick"
    for hnt in hints:
        if "h" in hnt or "w" in hnt:
            n += 1
            h, w = int(min(max(hnt.get("h", 40), 2), 3000)), int(min(max(hnt.get("w", 40), 2), 3000))
            if h * w < 4e6:
                for k in range(4):
                    yield dict(kind="profile", seed=seed * 100000 + 90000 + n * 4 + k, h=h, w=w, a=hnt.get("a"), i0=hnt.get("i0"))
    for i in range(150 if q else 3000):
        for k in ("rotate", "profile"):
            n += 1
            yield dict(kind=k, seed=seed * 100000 + n)
    for v in lit_sizes(2, 40000, ["prep"]):
        n += 1
        yield dict(kind="rotate", seed=seed * 100000 + n, n=v)
    for h, w in lit_shapes(["prep"], 3000, 400):
        if h * w < 4e5:
            n += 1
            yield dict(kind="profile", seed=seed * 100000 + n, h=h, w=w)
    for h, w in ((3, 32768), (32768, 3), (2, 40001), (40001, 4), (2, 70000), (70000, 2)):
        n += 1
        yield dict(kind="profile", seed=seed * 100000 + n, h=h, w=w, a=0.0)
        yield dict(kind="profile", seed=seed * 100000 + n, h=h, w=w, a=1e-3)


def rotate(rng, case):
    n = case.get("n") or int(rng.integers(1, 60))
    p = rng.uniform(-2000, 2000, (n, 2))
    f = rng.integers(0, 4)
    if f == 1:
        p = np.int64(p)
    deg = [True, False, None][rng.integers(0, 3)]
    a = float(rng.choice([rng.uniform(-360, 360), 90.0, 180.0, 0.0, -45.0, 720.5, rng.uniform(-1, 1) * 1e-3]))
    if deg is False:
        a = math.radians(a)
    kw = {} if deg is None else dict(degree_unit=deg)
    keep = p.copy()
    out = np.asarray(prep.rotate_points(p.tolist() if f == 2 else p, a, **kw))
    t = a if deg is False else math.radians(a)
    pf = p.astype(float)
    x, y = pf[:, 1] * math.cos(t) - pf[:, 0] * math.sin(t), pf[:, 1] * math.sin(t) + pf[:, 0] * math.cos(t)
    close(out, np.stack([y, x], 1), "points rotated by %r (degree_unit=%s)" % (a, deg), scale=2000, tol=1e-9)
    close(prep.rotate_points(out, -a, **kw), pf, "rotation undone by the opposite angle", scale=2000, tol=1e-9)
    check(np.array_equal(p, keep), "input points were changed")


def profile(rng, case):
    h, w = case.get("h") or int(rng.integers(2, 70)), case.get("w") or int(rng.integers(2, 70))
    d = ["horizontal", "vertical"][rng.integers(0, 2)]
    if case.get("h"):
        d = "horizontal" if w >= h else "vertical"
        if rng.random() < 0.2:
            d = ["horizontal", "vertical"][rng.integers(0, 2)]
    a = case.get("a")
    n, m = (h, w) if d == "horizontal" else (w, h)
    big = math.degrees(math.atan(n / m))
    if a is None:
        a = float(rng.choice([0.0, rng.uniform(-3, 3), rng.uniform(-1, 1) * big, rng.uniform(-88, 88), 90.0, -90.0, 1.0, -2.0]))
    a = float(a)
    if abs(a) > 89.5 and abs(a) != 90.0:
        return
    mat = rng.uniform(0, 1, (h, w))
    keep = mat.copy()
    if abs(a) == 90.0:
        raises(ValueError, lip.get_tilted_profile, mat, 1, a, d)
        return
    t = math.radians(a)
    dd = m * math.tan(abs(t))
    if abs(dd - round(dd)) < 1e-9 and a != 0.0:
        return
    if d == "horizontal":
        lo, hi = (math.ceil(dd), n - 1) if a > 0 else (0, n - 1 - math.floor(dd))
    else:
        lo, hi = (0, n - 1 - math.ceil(dd)) if a > 0 else (math.floor(dd), n - 1)
    if not (0 <= lo < n and 0 <= hi < n):
        raises(ValueError, lip.get_tilted_profile, mat, 0, a, d)
        raises(ValueError, lip._calc_index_range, h, w, a, d) if hasattr(lip, "_calc_index_range") else None
        return
    for bad in (lo - 1, hi + 1):
        raises(ValueError, lip.get_tilted_profile, mat, bad, a, d)
    L = m / math.cos(t)
    if abs(L - round(L)) < 1e-9 and a != 0.0:
        return
    L = math.floor(L)
    for i0 in {lo, hi, int(rng.integers(lo, hi + 1)) if hi >= lo else lo, float(rng.uniform(lo, hi)) if hi >= lo else lo}:
        if not lo <= i0 <= hi:
            continue
        xs, ys, pr = lip.get_tilted_profile(mat, i0, a, d)
        r = np.arange(m) * (L / (m - 1))
        if d == "horizontal":
            x, y = np.clip(r * math.cos(t), 0, w - 1), np.clip(i0 - r * math.sin(t), 0, h - 1)
        else:
            y, x = np.clip(r * math.cos(t), 0, h - 1), np.clip(i0 + r * math.sin(t), 0, w - 1)
        nm = "%s line %r tilted by %r in a %dx%d image" % (d, i0, a, h, w)
        close(xs, x, nm + ": x positions", scale=1 + w, tol=1e-9)
        close(ys, y, nm + ": y positions", scale=1 + h, tol=1e-9)
        c = y if d == "horizontal" else x
        if (np.abs(c[[c.argmin(), c.argmax()]] - np.round(c[[c.argmin(), c.argmax()]])) < 1e-9).any() and a != 0.0 and not (c.max() - round(c.max()) == 0 and c.min() - round(c.min()) == 0):
            continue
        f, l = math.floor(c.min()), math.ceil(c.max()) + 1
        if d == "horizontal":
            want = ndi.map_coordinates(mat[f:l], (y - f, x), order=3, mode="nearest")
        else:
            want = ndi.map_coordinates(mat[:, f:l], (y, x - f), order=3, mode="nearest")
        close(pr, want, nm + ": profile", tol=1e-6)
    check(np.array_equal(mat, keep), "input image was changed")


def run(case):
    rng = rng_of(case)
    {"rotate": rotate, "profile": profile}[case["kind"]](rng, case)
