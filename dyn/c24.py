from common import *
import discorpy.util.utility as util


def cases(seed, tier, hints):
    n = 0
    for hnt in hints:
        for fn in ("dot", "line", "chess"):
            n += 1
            yield dict(kind=fn, seed=seed * 10 + n, h=int(min(max(hnt.get("h", 60), 16), 1500)), w=int(min(max(hnt.get("w", 60), 16), 1500)))
    for w in list(range(1, 42)) + lit_sizes(42, 700, ["util", "linepattern"]):
        yield dict(kind="circle", seed=seed + w, w=w)
    for i in range(90 if tier == "quick" else 2500):
        for fn in ("dot", "line", "chess"):
            n += 1
            yield dict(kind=fn, seed=seed * 1000 + n)
    for h, w in lit_shapes(["util"], 2600, 400):
        if min(h, w) >= 8 and h * w < 3e5:
            for fn in ("dot", "line", "chess"):
                n += 1
                yield dict(kind=fn, seed=seed * 1000 + n, h=h, w=w)
    for fn in ("dot", "line", "chess"):
        yield dict(kind=fn, seed=seed, default=True)


def disk(n, ratio):
    c = n // 2
    return np.array([[(y - c) ** 2 + (x - c) ** 2 <= (ratio * c) ** 2 for x in range(n)] for y in range(n)])


def run(case):
    rng = rng_of(case)
    kind = case["kind"]
    if kind == "circle":
        w = case["w"]
        import discorpy.prep.linepattern as lp
        makers = [util.make_circle_mask, getattr(lp, "_make_circle_mask", None)]
        for r, make in [(r, f) for r in (1.0, 0.5, 0.92, float(rng.uniform(0, 1.5))) for f in makers if f]:
            m = make(w, r)
            c = w // 2
            y, x = np.mgrid[:w, :w]
            d = (y - c) ** 2 + (x - c) ** 2 - (r * c) ** 2
            sure = np.abs(d) > 1e-9 * (1 + c * c) if r not in (1.0, 0.5) else np.ones((w, w), bool)
            check(m.shape == (w, w), "mask shape %s", m.shape)
            check(np.array_equal((m == 1)[sure], (d <= 0)[sure]) and np.isin(m, (0, 1)).all(), "mask of width %d, ratio %g is not the disk", w, r)
        return
    h, w = case.get("h") or int(rng.integers(16, 160)), case.get("w") or int(rng.integers(16, 160))
    size = int(rng.integers(1, 14))
    dist = int(rng.integers(max(2, size), 40))
    mv, mh = int(rng.integers(0, max(1, h // 4))), int(rng.integers(0, max(1, w // 4)))
    form = int(rng.integers(0, 3))
    margin = [mv, (mv, mh), [mv, mh]][form]
    if form == 0:
        mh = mv
    if case.get("default"):
        h, w = 1800, 2000
    if kind == "chess":
        size, mg, g = max(2, dist // 2), mv, float(np.float32(rng.uniform(0, 1)))
        kw = dict(height=h, width=w, size=size, margin=mg, margin_grayscale=g)
        if case.get("default"):
            kw, size, mg, g = {}, 100, 100, 0.95
        out = util.make_chessboard(**kw)
        e = np.full((h, w), g, np.float64)
        for a, i in enumerate(range(size + mg, h - mg - size, size)):
            for b, j in enumerate(range(size + mg, w - mg - size, size)):
                e[i:i + size, j:j + size] = 1 - (a + b) % 2
        close(out, e, "chessboard %dx%d size %d margin %d" % (h, w, size, mg), 1e-6)
        return
    if kind == "line":
        if rng.random() < 0.15:
            size = int(dist + rng.integers(0, 6))
        kw = dict(height=h, width=w, line_distance=dist, line_size=size, margin=margin)
        if case.get("default"):
            kw, dist, size, mv, mh = {}, 90, 7, 100, 100
        s = min(max(size, 1), min(h, w) // 8)
        ys, xs = list(range(mv, h - mv - s, dist)), list(range(mh, w - mh - s, dist))
        if not ys or not xs:
            return
        e = np.ones((h, w))
        for i in ys:
            e[i:i + s, xs[0]:xs[-1] + s] = 0
        for j in xs:
            e[ys[0]:ys[-1] + s, j:j + s] = 0
        out = util.make_line_pattern(**kw)
        close(out, e, "line pattern %s" % kw, 1e-9)
        return
    if rng.random() < 0.1 and not case.get("default"):
        dist = int(rng.integers(1, 12))
    kw = dict(height=h, width=w, dot_distance=dist, dot_size=size, margin=margin)
    if case.get("default"):
        kw, dist, size, mv, mh = {}, 90, 15, 150, 150
    s = min(max(size, 1), min(h, w) // 8)
    if dist < s:
        raises(ValueError, util.make_dot_pattern, **kw)
        return
    out = util.make_dot_pattern(**kw)
    hd, c, D = s // 2 + 1, s // 2, disk(s, 1.0)
    e = np.ones((h, w))
    if mv + hd < h - mv - hd and mh + hd < w - mh - hd:
        for i in range(mv + hd, h - mv - hd, dist):
            for j in range(mh + hd, w - mh - hd, dist):
                for u, v in np.argwhere(D):
                    e[i + u - c, j + v - c] = 0
    else:
        return
    close(out, e, "dot pattern %s" % kw, 1e-9)
