"""grouping of dots against the grid they come from, and the invariants of any grouping"""
from common import *
import discorpy.prep.preprocessing as prep
import scipy.ndimage as ndi


def cases(seed, tier, hints):
    n = 0
    for rep in range(1 if tier == "quick" else 6):
        for kind, cnt in (("scatter", 90), ("grid", 70), ("ragged", 40), ("image", 6), ("poly", 50), ("polyscatter", 24), ("check", 60), ("errors", 1)):
            for j in range(cnt):
                for ver in (False, True):
                    n += 1
                    yield dict(kind=kind, ver=ver, seed=seed * 100000 + n)
        for v in lit_sizes(3, 70, ["prep/preprocessing"]):
            for ver in (False, True):
                n += 1
                yield dict(kind="grid", ver=ver, size=int(v), seed=seed * 100000 + n)
                n += 1
                yield dict(kind="poly", ver=ver, size=int(v), seed=seed * 100000 + n)


def run(case):
    globals()["run_" + case["kind"]](case, rng_of(case))


def rows(a):
    return [tuple(float(x) for x in r) for r in np.asarray(a)]


def count(rs):
    d = {}
    for r in rs:
        d[r] = d.get(r, 0) + 1
    return d


def invariants(lines, pts, slope, dist, ratio, miss, acc, ver, links=True):
    """pts: input points; lines: sequential grouping"""
    have, used = count(rows(pts)), {}
    mx = max(len(l) for l in lines)
    ia, ib = (0, 1) if ver else (1, 0)          # along, across
    prev = -np.inf
    for n, l in enumerate(lines):
        check(l.ndim == 2 and l.shape[1] == 2 and len(l) > 1, "line %d of shape %s", n, l.shape)
        for r in rows(l):
            used[r] = used.get(r, 0) + 1
            check(r in have, "line %d holds %r, not an input point", n, r)
            check(used[r] <= have[r], "point %r used more than once", r)
        check((np.diff(l[:, ia]) >= 0).all(), "line %d is not in order along its direction", n)
        check(len(l) >= acc * mx, "line %d of %d points kept, longest %d, accepted ratio %g", n, len(l), mx, acc)
        m = np.mean(l[:, ib])
        check(m >= prev - 1e-9 * (1 + abs(m)), "lines out of order at %d", n)
        prev = m
        if links:
            for a, b in zip(l[:-1], l[1:]):
                gap = b[ia] - a[ia]
                off = abs((b[ib] - a[ib]) - slope * gap) / np.sqrt(1 + slope * slope)
                tol = 1e-9 * (1 + np.abs(a).max() + np.abs(b).max())
                check(abs(gap) < miss * dist + tol and off < ratio * dist + tol, "line %d links %r and %r (gap %g, offset %g)", n, a, b, gap, off)


def fn(ver, poly=False):
    return getattr(prep, "group_dots_%s_lines%s" % ("ver" if ver else "hor", "_based_polyfit" if poly else ""))


def run_scatter(case, rng):
    n = int(rng.integers(2, 60))
    dist = float(rng.uniform(2, 20))
    size = float(rng.uniform(2, 12)) * dist
    pts = rng.uniform(-0.2 * size, size, (n, 2))
    if rng.random() < 0.4:
        pts = np.round(pts / 3) * 3.0                      # ties and duplicates
    if rng.random() < 0.2:
        pts = pts.astype(np.float32)
    slope = float(rng.uniform(-0.5, 0.5)) if rng.random() < 0.8 else 0.0
    ratio, miss, acc = float(rng.uniform(0.1, 1.0)), int(rng.integers(1, 8)), float(rng.choice([0.0, 0.3, 0.65, 0.9, 1.0]))
    try:
        lines = fn(case["ver"])(pts if rng.random() < 0.8 else rows(pts), slope, dist, ratio=ratio, num_dot_miss=miss, accepted_ratio=acc)
    except ValueError:
        # allowed only when no two points can be linked at all
        x = np.asarray(pts, float)
        if case["ver"]:
            x = np.fliplr(x)
        x = x[x[:, 1].argsort()]
        d = x[None] - x[:, None]
        off = np.abs(d[..., 0] - slope * d[..., 1]) / np.sqrt(1 + slope ** 2)
        ok = np.triu((np.abs(d[..., 1]) < miss * dist * (1 - 1e-6)) & (off < ratio * dist * (1 - 1e-6)), 1)
        check(not ok.any(), "no line found although two points are within the tolerances")
        return
    invariants(lines, pts, slope, dist, ratio, miss, acc, case["ver"])


def grid(rng, ver, size=None, jitter=0.05, ragged=False, slope=None, holes=True):
    """lines of points (y, x) of a clean grid"""
    nr = int(rng.integers(2, 12)) if not size else int(rng.integers(2, 4))
    nc = size or int(rng.integers(3, 14))
    dist = float(rng.uniform(5, 60))
    slope = float(rng.uniform(-0.3, 0.3)) if slope is None else slope
    th = np.arctan(slope)
    out = []
    for r in range(nr):
        c = np.arange(nc)
        if ragged:
            m = int(rng.integers(2, nc + 1))
            s = int(rng.integers(0, nc - m + 1))
            c = c[s:s + m]
        elif holes and nc > 6 and rng.random() < 0.3:
            c = np.delete(c, rng.choice(np.arange(1, nc - 1), int(rng.integers(1, 3)), replace=False))
        u, v = c * dist, np.full(len(c), r * dist)
        x, y = u * np.cos(th) - v * np.sin(th), u * np.sin(th) + v * np.cos(th)
        p = np.stack([y, x], 1) + rng.uniform(-jitter, jitter, (len(c), 2)) * dist
        p = p[p[:, 1].argsort()]
        out.append(np.fliplr(p) if ver else p)
    off = rng.uniform(-50, 400, 2)
    return [p + off for p in out], slope, dist


def expect(lines, exp, what, tol=0.0):
    check(len(lines) == len(exp), "%s: %d lines instead of %d (lengths %s, %s)", what, len(lines), len(exp), [len(l) for l in lines], [len(l) for l in exp])
    for n, (a, b) in enumerate(zip(lines, exp)):
        check(a.shape == b.shape, "%s: line %d has %s points instead of %s", what, n, a.shape, b.shape)
        check(np.abs(a - b).max() <= tol, "%s: line %d differs", what, n)


def order(lines, ver):
    return sorted(lines, key=lambda l: np.mean(l[:, 1 if ver else 0]))


def run_grid(case, rng):
    ver = case["ver"]
    rs, slope, dist = grid(rng, ver, case.get("size"))
    pts = np.concatenate(rs)
    pts = pts[rng.permutation(len(pts))]
    ratio, miss, acc = float(rng.uniform(0.28, 0.45)), int(rng.integers(4, 8)), float(rng.choice([0.0, 0.3, 0.5]))
    lines = fn(ver)(pts, slope, dist, ratio=ratio, num_dot_miss=miss, accepted_ratio=acc)
    invariants(lines, pts, slope, dist, ratio, miss, acc, ver)
    expect(lines, order(rs, ver), "clean grid")


def run_ragged(case, rng):
    ver = case["ver"]
    rs, slope, dist = grid(rng, ver, ragged=True)
    pts = np.concatenate(rs)
    pts = pts[rng.permutation(len(pts))]
    acc = float(rng.choice([0.0, 0.25, 0.5, 0.65, 0.75, 1.0]))
    kw = dict(accepted_ratio=acc)
    lines = fn(ver)(pts, slope, dist, num_dot_miss=20, **kw)
    mx = max(len(r) for r in rs)
    expect(lines, order([r for r in rs if len(r) >= acc * mx], ver), "lines of different lengths, accepted ratio %g" % acc)


def run_image(case, rng):
    ver = case["ver"]
    rs, slope, dist = grid(rng, ver, int(rng.integers(3, 6)), slope=float(rng.uniform(-0.1, 0.1)))
    pts = np.concatenate(rs)
    pts = (pts - pts.min(0)) * (12.0 / dist) + 6
    dist = 12.0
    sh = tuple(int(v) + 8 for v in pts.max(0))
    mat = np.zeros(sh)
    yy, xx = np.mgrid[:sh[0], :sh[1]]
    for y, x in pts:
        mat[(yy - round(y)) ** 2 + (xx - round(x)) ** 2 <= 4.5] = 1.0
    lab, n = ndi.label(mat)
    cm = np.array(ndi.center_of_mass(mat, lab, np.arange(1, n + 1)))
    lines = fn(ver)(mat, slope, dist, ratio=0.35, accepted_ratio=0.3)
    invariants(lines, cm, slope, dist, 0.35, 6, 0.3, ver)
    check(sum(len(l) for l in lines) == n, "image: %d of %d dots grouped", sum(len(l) for l in lines), n)


def poly_inv(lines, pts, acc, ver):
    tol = 1e-8 * (1 + np.abs(pts).max())
    ia, ib = (0, 1) if ver else (1, 0)
    prev = -np.inf
    mx = max(len(l) for l in lines)
    for n, l in enumerate(lines):
        d = np.abs(l[:, None] - pts[None]).max(2)
        near = d.argmin(1)
        check((d.min(1) <= tol).all(), "line %d holds a point that is no input point", n)
        check(len(set(near.tolist())) == len(l), "line %d holds a point twice", n)
        check((np.diff(l[:, ia]) >= 0).all(), "line %d is not in order along its direction", n)
        check(len(l) >= acc * mx, "line %d of %d points kept, longest %d, accepted ratio %g", n, len(l), mx, acc)
        m = np.mean(l[:, ib])
        check(m >= prev - 1e-9 * (1 + abs(m)), "lines out of order at %d", n)
        prev = m


def run_poly(case, rng):
    ver = case["ver"]
    size = case.get("size")
    if size is not None and size < 4:
        return
    rs, slope, dist = grid(rng, ver, size or int(rng.integers(5, 16)), jitter=0.01, holes=case["seed"] % 3 == 0)
    rs = [r for r in rs]
    if rng.random() < 0.5:                              # gentle bow
        k = float(rng.uniform(-1, 1)) * 0.1 * dist / (1 + max(np.ptp(np.concatenate(rs), axis=0))) ** 2
        for r in rs:
            if ver:
                r[:, 1] += k * (r[:, 0] - r[:, 0].mean()) ** 2
            else:
                r[:, 0] += k * (r[:, 1] - r[:, 1].mean()) ** 2
    pts = np.concatenate(rs)
    pts = pts[rng.permutation(len(pts))]
    keep = pts.copy()
    acc = float(rng.choice([0.0, 0.3, 0.5]))
    kw = dict(ratio=0.25, num_dot_miss=int(rng.integers(3, 6)), accepted_ratio=acc)
    if rng.random() < 0.3:
        kw["overlap_ratio"] = float(rng.choice([0.0, 0.3, 1.0]))
    if rng.random() < 0.3:
        kw["order"] = int(rng.integers(1, 3)) if abs(slope) < 1 else 2
    lines = fn(ver, True)(pts, slope, dist, **kw)
    poly_inv(lines, keep, acc, ver)
    if kw.get("order", 2) == 2 and case["seed"] % 3 and len(rs[0]) > 4:
        expect(lines, order(rs, ver), "clean grid (polyfit)", tol=1e-8 * (1 + np.abs(pts).max()))


def run_polyscatter(case, rng):
    n = int(rng.integers(12, 80))
    dist = float(rng.uniform(5, 20))
    pts = rng.uniform(0, dist * 8, (n, 2))
    slope = float(rng.uniform(-0.3, 0.3))
    acc = float(rng.choice([0.0, 0.5, 0.65]))
    try:
        lines = fn(case["ver"], True)(pts.copy(), slope, dist, ratio=0.4, num_dot_miss=4, accepted_ratio=acc)
    except ValueError:
        return
    poly_inv(lines, pts, acc, case["ver"])


def run_check(case, rng):
    a, b = rng.uniform(-50, 50, 2), rng.uniform(-50, 50, 2)
    slope, dist, ratio, miss = float(rng.normal()), float(rng.uniform(1, 30)), float(rng.uniform(0.1, 2)), int(rng.integers(0, 7))
    if rng.random() < 0.5:
        b = a + np.array([slope, 1.0]) * rng.uniform(-1, 1) * dist * miss + rng.normal(size=2) * 0.3 * dist * ratio
    gap, off = abs(b[1] - a[1]), abs(slope * (b[1] - a[1]) - (b[0] - a[0])) / np.sqrt(1 + slope ** 2)
    if abs(gap - miss * dist) < 1e-6 or abs(off - ratio * dist) < 1e-6:
        return
    if case["ver"]:
        a, b = list(a), list(b)
    if a[1] > b[1]:
        a, b = b, a     # the dots are visited from left to right
    r = private(prep, "_check_dot_on_line")(a, b, slope, dist, ratio, miss)
    check(bool(r) == (gap < miss * dist and off < ratio * dist), "_check_dot_on_line(%r, %r, %g, %g, %g, %d) = %r", a, b, slope, dist, ratio, miss, r)
    raises(ValueError, private(prep, "_check_dot_on_line"), [1.0, 2.0, 3.0], [1.0, 2.0], slope, dist, ratio, miss)


def run_errors(case, rng):
    for f in (fn(case["ver"]), fn(case["ver"], True)):
        raises(ValueError, f, np.zeros((0, 2)), 0.0, 10.0)
