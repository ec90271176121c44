from common import *
import scipy.ndimage as ndi
import discorpy.prep.preprocessing as prep


def cases(seed, tier, hints):
    n = 0
    q = tier == "quick"
    for i in range(120 if q else 3000):
        for k in ("res", "mask", "pmask", "subset"):
            n += 1
            yield dict(kind=k, seed=seed * 100000 + n)
    for v in lit_sizes(3, 400, ["prep"]):
        for k in ("res", "subset", "pmask"):
            n += 1
            yield dict(kind=k, seed=seed * 100000 + n, size=v)
    for h, w in lit_shapes(["prep"], 700, 300):
        if h * w < 2e5:
            n += 1
            yield dict(kind="mask", seed=seed * 100000 + n, h=h, w=w)


def residual(rng, case):
    if rng.random() < 0.03:
        # all points exactly on their parabola: nothing is strictly within a residual of zero
        ll = [np.stack([np.zeros(7), np.arange(7.0)], 1) for _ in range(2)]
        raises(ValueError, prep.remove_residual_dots_hor, ll, 0.0, 0.0)
        raises(ValueError, prep.remove_residual_dots_ver, [l[:, ::-1].copy() for l in ll], 0.0, 0.0)
        return
    ver = bool(rng.integers(0, 2))
    nl = int(rng.integers(1, 6))
    size = case.get("size")
    if size and rng.random() < 0.3 and size < 60:
        nl, size = size, None
    slope = float(rng.choice([0.0, rng.normal() * 0.1, rng.normal() * 2]))
    dt = [np.float64, np.float64, np.float32, np.int64][rng.integers(0, 4)]
    noise = float(rng.choice([0.0, 0.3, 2.0, 10.0]))
    ll = []
    for i in range(nl):
        m = int(size or rng.integers(3, 40))
        x = np.sort(rng.uniform(0, 1000, m)) if rng.random() < 0.7 else rng.uniform(0, 1000, m)
        y = 1e-5 * rng.normal() * (x - 500) ** 2 + slope * x + 40 * i + rng.normal(size=m) * noise
        if rng.random() < 0.4:
            y[rng.integers(0, m)] += rng.choice([-1, 1]) * 30
        ll.append(np.stack([y, x] if not ver else [x, y], 1).astype(dt))
    res = float(rng.choice([2.5, 0.5, 5.0, rng.uniform(0.01, 20), 0.0, -1.0])) if rng.random() < 0.9 else 100.0
    keep = [a.copy() for a in ll]
    fn = prep.remove_residual_dots_ver if ver else prep.remove_residual_dots_hor
    want = []
    tol = 1e-7 * 1000 if dt != np.float32 else 0.05
    for a in ll:
        b = a.astype(float)
        u, v = (b[:, 0], b[:, 1]) if ver else (b[:, 1], b[:, 0])
        if len(np.unique(u)) < 3:
            return
        c = np.polyfit(u, v, 2)
        e = np.abs(np.polyval(c, u) - v) / np.sqrt(1 + slope ** 2)
        if (np.abs(e - res) < tol * (1 + abs(slope))).any():
            return
        if (e < res).any():
            want.append(a[e < res])
    if not want:
        raises(ValueError, fn, ll, slope, res)
    else:
        out = fn(ll, slope, residual=res)
        check(len(out) == len(want), "%d lines left instead of %d", len(out), len(want))
        for i, (o, w) in enumerate(zip(out, want)):
            check(np.array_equal(np.asarray(o), w), "line %d: the points kept are not those within the residual, in order: %s instead of %s", i, np.shape(o), w.shape)
    check(all(np.array_equal(a, b) for a, b in zip(ll, keep)), "input lines were changed")


def mask_args(rng, h, w):
    def margin(n):
        f = rng.integers(0, 3)
        a, b = int(rng.integers(0, n // 2 + 1)), int(rng.integers(0, n // 2 + 1))
        if rng.random() < 0.1:
            b = n
        return (a, a, a) if f == 0 else ((a, b), a, b) if f == 1 else ([a, b], a, b)
    hm, l, r = margin(w)
    vm, t, b = margin(h)
    hc, vc = [float(rng.choice([0.3, 0.0, rng.uniform(0, 2), rng.normal()])) for _ in range(2)]
    rot = float(rng.choice([0.0, 0.0, rng.uniform(-45, 45)]))
    if h < 3 or w < 3:
        rot = 0.0
    return (hc, vc, hm, vm, rot), (l, r, t, b)


def mask_ref(h, w, hc, vc, l, r, t, b):
    y, x = np.mgrid[:h, :w].astype(float)
    cy, cx = vc / w * (x - w / 2) ** 2, hc / h * (y - h / 2) ** 2
    d = [y - cy - t, h - b - cy - y, x - cx - l, w - r - cx - x]
    sure = np.all([np.abs(v) > 1e-9 * (h + w) for v in d], axis=0) | np.any([v < -1e-9 * (h + w) for v in d], axis=0)
    return np.all([v > 0 for v in d], axis=0), sure


def mask(rng, case):
    h, w = case.get("h") or int(rng.integers(1, 90)), case.get("w") or int(rng.integers(1, 90))
    a, (l, r, t, b) = mask_args(rng, h, w)
    hc, vc, hm, vm, rot = a
    kw = dict(hor_curviness=hc, ver_curviness=vc, hor_margin=hm, ver_margin=vm, rotate=rot)
    if l + r > w or t + b > h:
        raises(ValueError, prep.make_parabola_mask, h, w, **kw)
        return
    m = prep.make_parabola_mask(h, w, **kw)
    ref, sure = mask_ref(h, w, hc, vc, l, r, t, b)
    check(m.shape == (h, w), "mask shape %s", m.shape)
    if rot == 0.0:
        check(np.array_equal(m[sure], ref[sure].astype(float)), "mask of %dx%d is not the parabolic region", h, w)
    elif sure.all():
        f = ndi.rotate(np.float32(ref), rot, reshape=False)
        s2 = np.abs(np.abs(f - np.round(f)) - 0.5) > 1e-3
        check(np.array_equal(np.asarray(m)[s2], np.round(f)[s2]), "rotated mask differs from the rotated parabolic region")


def pmask(rng, case):
    h, w = int(rng.integers(2, 120)), int(rng.integers(2, 120))
    n = int(case.get("size") or rng.integers(1, 200))
    a, (l, r, t, b) = mask_args(rng, h, w)
    hc, vc, hm, vm, rot = a
    kw = dict(hor_curviness=hc, ver_curviness=vc, hor_margin=hm, ver_margin=vm, rotate=rot)
    if l + r > w or t + b > h:
        return
    f = rng.choice([1.0, 1.2, 3.0])
    p = np.stack([rng.uniform(h / 2 - f * h / 2 - 1.5, h / 2 + f * h / 2 + 1.5, n), rng.uniform(w / 2 - f * w / 2 - 1.5, w / 2 + f * w / 2 + 1.5, n)], 1)
    if rng.random() < 0.3:
        p = np.round(p)
    if rng.random() < 0.2:
        p = np.int64(p)
    if rng.random() < 0.1:
        p = p.astype(float) * 1e6
    keep = p.copy()
    m = prep.make_parabola_mask(h, w, **kw)
    out = np.asarray(prep.remove_points_using_parabola_mask(p, h, w, **kw))
    yi, xi = np.trunc(p[:, 0]).astype(int), np.trunc(p[:, 1]).astype(int)
    ok = (yi >= 0) & (yi < h) & (xi >= 0) & (xi < w)
    ok[ok] = m[yi[ok], xi[ok]] == 1
    check(np.array_equal(out.reshape(-1, 2), p[ok]), "points kept by the mask of %dx%d: %d instead of %d", h, w, len(out), int(ok.sum()))
    check(np.array_equal(p, keep), "input points were changed")


def subset(rng, case):
    n = int(case.get("size") or rng.integers(1, 120))
    p = rng.uniform(0, 50, (n, 2))
    if rng.random() < 0.5:
        p = np.round(p / 3) * 3
    m = int(rng.integers(0, n + 1))
    sel = p[rng.choice(n, m, replace=False)].copy()
    if rng.random() < 0.3 and m:
        sel = np.concatenate([sel, sel[::-1][:, ::-1], sel + 0.25])
    if rng.random() < 0.2:
        p, sel = np.float32(p), np.float32(sel)
    kp, ks = p.copy(), sel.copy()
    out = np.asarray(prep.remove_subset_points(sel, p))
    want = np.array([q for q in p if not (len(sel) and (q == sel).all(1).any())]).reshape(-1, 2)
    check(np.array_equal(out.reshape(-1, 2), want), "points left after removing the subset: %d instead of %d", out.reshape(-1, 2).shape[0], len(want))
    check(np.array_equal(p, kp) and np.array_equal(sel, ks), "input points were changed")


def run(case):
    rng = rng_of(case)
    {"res": residual, "mask": mask, "pmask": pmask, "subset": subset}[case["kind"]](rng, case)
