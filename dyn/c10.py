from common import *
import discorpy.proc.processing as proc


def cases(seed, tier, hints):
    k = 0
    sizes = [(1, 1), (1, 4), (5, 1), (2, 3), (7, 7), (4, 9), (12, 5)] + [(n, 3 + n % 5) for n in lit_sizes(4, 60, ["proc"])] + [(3 + n % 4, n) for n in lit_sizes(4, 60, ["proc"])]
    for nh, nv in sizes:
        for form in ("array", "list", "f4", "int"):
            k += 1
            yield dict(kind="coef", seed=seed * 1000 + k, nh=nh, nv=nv, form=form)
            yield dict(kind="fit", seed=seed * 1000 + k, nh=nh, nv=nv, form=form)
    for i in range(60 if tier == "quick" else 1500):
        yield dict(kind=["coef", "fit"][i % 2], seed=seed * 700 + i, nh=1 + i % 8, nv=1 + (i * 3) % 11, form=["array", "list", "f4", "int"][(i // 2) % 4])
    for i in range(16 if tier == "quick" else 300):
        yield dict(kind="para", seed=seed * 90 + i, nh=5 + i % 6, nv=6 + (i * 5) % 7, opt=["plain", "center", "plain", "perspective"][i % 4])


def on(P, Q, ch, cv, tol):
    nh, nv = len(ch), len(cv)
    P, Q = np.asarray(P, float), np.asarray(Q, float)
    check(P.shape == (nh, nv, 2), "horizontal lines of shape %s for %d x %d lines", P.shape, nh, nv)
    check(Q.shape == (nv, nh, 2), "vertical lines of shape %s for %d x %d lines", Q.shape, nh, nv)
    close(P, np.swapaxes(Q, 0, 1), "point j of horizontal line i against point i of vertical line j", 1e-6)
    y, x = P[..., 0], P[..., 1]
    e1 = y - (ch[:, None, 0] * x + ch[:, None, 1])
    e2 = x - (cv[None, :, 0] * y + cv[None, :, 1])
    s = 1 + np.abs(y) + np.abs(x) + np.abs(ch[:, None, 1]) + np.abs(cv[None, :, 1])
    close(e1 / s, np.zeros_like(e1), "points on their horizontal line", tol, 1.0)
    close(e2 / s, np.zeros_like(e2), "points on their vertical line", tol, 1.0)


def run(case):
    rng = rng_of(case)
    nh, nv = case["nh"], case["nv"]
    if case["kind"] == "coef":
        s = float(rng.choice([0.0, 0.05, 0.4]))
        ch = np.stack([rng.uniform(-s, s, nh), np.sort(rng.uniform(-500, 2000, nh))], axis=1)
        cv = np.stack([rng.uniform(-s, s, nv), np.sort(rng.uniform(-500, 2000, nv))], axis=1)
        if rng.random() < 0.2:
            ch[:, 0], cv[:, 0] = 0, 0
        if case["form"] == "int":
            ch, cv = np.round(ch).astype(int), np.round(cv).astype(int)
            ch[:, 0] = 0
        a = (ch.tolist(), cv.tolist()) if case["form"] == "list" else ((ch.astype(np.float32), cv.astype(np.float32)) if case["form"] == "f4" else (ch, cv))
        r = proc.regenerate_grid_points_linear(*a, is_coef=True)
        check(len(r) == 2, "%d results", len(r))
        on(r[0], r[1], np.asarray(ch, float), np.asarray(cv, float), 2e-6)
        return
    if case["kind"] == "fit":
        s1, s2 = rng.uniform(-0.3, 0.3, 2)
        H, V = [], []
        for ver, n in ((0, nh), (1, nv)):
            for i in range(n):
                m = int(rng.integers(2, 12))
                t = np.sort(rng.uniform(0, 800, m))
                t[-1] += 100
                u = (s1 if not ver else s2) * t + 60 * i + rng.normal(size=m) * float(rng.choice([0, 0.5]))
                p = np.stack([t, u] if ver else [u, t], axis=1)
                p = np.round(p).astype(int) if case["form"] == "int" else (p.astype(np.float32) if case["form"] == "f4" else p)
                (V if ver else H).append(p)
        r = proc.regenerate_grid_points_linear(H, V)
        f = lambda p, ver: np.polyfit(*((p[:, 0], p[:, 1]) if ver else (p[:, 1], p[:, 0])), 1)
        ch = np.array([f(p.astype(float), False) for p in H])
        cv = np.array([f(p.astype(float), True) for p in V])
        on(r[0], r[1], ch, cv, 1e-4 if case["form"] == "f4" else 2e-5)
        return
    from c08 import grid
    dist = 20.0
    size = dist * max(nh, nv)
    xc, yc = [float(v) for v in rng.uniform(100, 300, 2)]
    k = float(rng.choice([-1, 1]) * rng.uniform(0.05, 0.2)) / size ** 2
    H, V = grid(rng, nh, nv, dist, xc, yc, [1.0, 0.0, k], 0.0, False)
    a = rng.uniform(-0.02, 0.02) if case["opt"] != "perspective" else 0.01
    rot = lambda l: np.stack([(l[:, 0] - yc) * np.cos(a) + (l[:, 1] - xc) * np.sin(a) + yc, -(l[:, 0] - yc) * np.sin(a) + (l[:, 1] - xc) * np.cos(a) + xc], axis=1)
    H, V = [rot(l) for l in H], [rot(l) for l in V]
    kw = dict(plain={}, center=dict(find_center=True), perspective=dict(perspective=True))[case["opt"]]
    P, Q = proc.regenerate_grid_points_parabola(H, V, **kw)
    P, Q = np.asarray(P, float), np.asarray(Q, float)
    check(P.shape == (nh, nv, 2) and Q.shape == (nv, nh, 2), "shapes %s, %s for %d x %d lines", P.shape, Q.shape, nh, nv)
    close(P, np.swapaxes(Q, 0, 1), "point j of horizontal line i against point i of vertical line j", 1e-5)
    if case["opt"] == "perspective":
        # no perspective in the data: the regenerated points stay near the given ones
        check(np.max(np.abs(P - np.array(H))) < 0.25 * dist, "regenerated points are %r off", float(np.max(np.abs(P - np.array(H)))))
        return
    cx, cy = (0.0, 0.0) if case["opt"] == "plain" else proc.find_cod_bailey(H, V)
    for i in range(nh):
        for j in range(nv):
            ch = np.polyfit(H[i][:, 1] - cx, H[i][:, 0] - cy, 2)
            cv = np.polyfit(V[j][:, 0] - cy, V[j][:, 1] - cx, 2)
            y, x = P[i, j, 0] - cy, P[i, j, 1] - cx
            check(abs(y - np.polyval(ch, x)) < 0.05 and abs(x - np.polyval(cv, y)) < 0.05, "point (%d,%d) is not on both parabolas", i, j)
            check(abs(y - (H[i][j, 0] - cy)) < 0.5 * dist and abs(x - (H[i][j, 1] - cx)) < 0.5 * dist, "point (%d,%d) is another crossing", i, j)
