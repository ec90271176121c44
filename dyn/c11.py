from common import *
import itertools
import discorpy.proc.processing as proc

SC = ["mean", "max", "min", "median", 1.0, 0.8, 1.7]


def cases(seed, tier, hints):
    k = 0
    for sc in SC:
        for eqd in (True, False):
            for opt in (True, False):
                k += 1
                yield dict(kind="grid", seed=seed * 1000 + k, nh=2 + k % 9, nv=2 + (k * 5) % 8, scale=sc, equal=eqd, opt=opt)
            for order in ("yx", "xy"):
                for form in ("list", "array", "int"):
                    k += 1
                    yield dict(kind="four", seed=seed * 1000 + k, scale=sc, equal=eqd, order=order, form=form)
    for n in lit_sizes(2, 60, ["proc"]):
        for a, b in ((n, 2 + n % 7), (3 + n % 5, n)):
            k += 1
            yield dict(kind="grid", seed=seed * 1000 + k, nh=a, nv=b, scale=SC[k % 7], equal=bool(k % 2), opt=bool(k % 3))
    for n in (0, 1, 2, 3, 5, 6, 8):
        for form in ("list", "array"):
            yield dict(kind="count", seed=seed, n=n, form=form)
    for i in range(40 if tier == "quick" else 800):
        yield dict(kind="own4", seed=seed * 555 + i, scale=SC[i % 5], equal=bool(i % 3 == 1), order=["yx", "xy"][i % 2])
        yield dict(kind="own", seed=seed * 555 + i, nh=2 + i % 9, nv=2 + (i * 3) % 8, scale=SC[i % 5], equal=bool(i % 3 == 1), opt=bool(i % 2))
    for i in range(60 if tier == "quick" else 1500):
        yield dict(kind="four", seed=seed * 777 + i, scale=SC[i % 7], equal=bool(i % 3), order=["yx", "xy"][i % 2], form=["list", "array", "int"][(i // 2) % 3])
        yield dict(kind="grid", seed=seed * 777 + i, nh=2 + i % 11, nv=2 + (i * 3) % 10, scale=SC[i % 7], equal=bool(i % 2), opt=i % 5 == 0)


def regular(P, eqd, tol, sides=None):
    """P[i,j] is a rectangular grid with i downwards and j to the right"""
    nh, nv = P.shape[:2]
    dn, rt = P[1:] - P[:-1], P[:, 1:] - P[:, :-1]
    h, v = dn[0, 0], rt[0, 0]
    close(dn - h, np.zeros_like(dn), "steps from line to line differ", tol, 1.0)
    close(rt - v, np.zeros_like(rt), "steps along a line differ", tol, 1.0)
    check(abs(h @ v) <= tol * (np.hypot(*h) + np.hypot(*v)) * 2, "directions are not perpendicular: %s, %s", h, v)
    check(h[0] > 0 and v[1] > 0, "the grid is turned round: steps %s, %s", h, v)
    if eqd:
        check(abs(np.hypot(*h) - np.hypot(*v)) <= tol * 3, "distances %r and %r differ", float(np.hypot(*h)), float(np.hypot(*v)))


def run(case):
    rng = rng_of(case)
    sc, eqd = case.get("scale"), case.get("equal")
    if case["kind"] == "count":
        p = rng.uniform(0, 100, (case["n"], 2))
        raises(ValueError, proc.generate_4_source_target_perspective_points, p.tolist() if case["form"] == "list" else p)
        return
    if case["kind"] in ("own", "own4"):
        # a rectangle or grid that is regular already is its own target
        four = case["kind"] == "own4"
        nh, nv = (2, 2) if four else (case["nh"], case["nv"])
        d1, d2 = [float(v) for v in rng.uniform(15, 60, 2) * (10 if four else 1)]
        if eqd:
            d2 = d1
        a = float(rng.uniform(-0.2, 0.2)) * (float(min(d1 / d2, d2 / d1)) if four else 1.0) if rng.random() < 0.9 else 0.0
        Y, X = np.meshgrid((np.arange(nh) - nh // 2) * d1, (np.arange(nv) - nv // 2) * d2, indexing="ij")
        P = np.stack([Y * np.cos(a) + X * np.sin(a) + rng.uniform(-100, 500), X * np.cos(a) - Y * np.sin(a) + rng.uniform(-100, 500)], axis=-1)
        tol = 2e-5 * (300 + np.abs(P).max())
        if four:
            q = P.reshape(4, 2)[rng.permutation(4)]
            s, t = proc.generate_4_source_target_perspective_points(q[:, ::-1] if case["order"] == "xy" else q, input_order=case["order"], equal_dist=eqd, scale=sc)
            close(t, P.reshape(4, 2), "targets of a rectangle", tol, 1.0)
        else:
            s, t = proc.generate_source_target_perspective_points([l for l in P], [P[:, j] for j in range(nv)], equal_dist=eqd, scale=sc, optimizing=case["opt"])
            close(t, P.reshape(-1, 2), "targets of a regular grid", tol, 1.0)
        return
    if case["kind"] == "four":
        q = np.array([[0, 0], [0, 1], [1, 0], [1, 1]], float) * rng.uniform(20, 900, 2) + rng.uniform(-0.15, 0.15, (4, 2)) * 20 + rng.uniform(-50, 500, 2)
        m = rng.integers(0, 4)
        if m == 0:
            q = np.round(q)
        elif m == 1:
            t = rng.uniform(-0.2, 0.2)
            c = q.mean(axis=0)
            s = min(np.ptp(q[:, 0]) / np.ptp(q[:, 1]), 1) * t
            q = c + (q - c) @ np.array([[np.cos(s), -np.sin(s)], [np.sin(s), np.cos(s)]])
        elif m == 2:
            q[1, 0], q[3, 0] = q[0, 0], q[2, 0]
        if case["form"] == "int":
            q = np.round(q).astype(int)
        for perm in itertools.permutations(range(4)):
            p = q[list(perm)]
            if case["order"] == "xy":
                p = p[:, ::-1]
            keep = np.array(p, copy=True)
            arg = p.tolist() if case["form"] == "list" else p
            s, t = proc.generate_4_source_target_perspective_points(arg, input_order=case["order"], equal_dist=eqd, scale=sc)
            close(s, q, "source corners, input order %s" % (perm,), 1e-6)
            check(np.array_equal(keep, p), "the input was changed")
            t = np.asarray(t, float)
            check(t.shape == (4, 2), "targets of shape %s", t.shape)
            regular(t.reshape(2, 2, 2), eqd, 1e-6 * (1 + np.abs(t).max()))
            qf = q.astype(float)
            D = lambda a, b: float(np.hypot(*(qf[a] - qf[b])))
            f = dict(max=max, min=min).get(sc, lambda a, b: (a + b) / 2)
            dh, dv = f(D(0, 1), D(2, 3)), f(D(0, 2), D(1, 3))
            if isinstance(sc, float):
                dh, dv = dh * sc, dv * sc
            if eqd:
                dh = dv = f(dh, dv)
            close([np.hypot(*(t[1] - t[0])), np.hypot(*(t[2] - t[0]))], [dh, dv], "side lengths", 1e-6, 1 + np.abs(t).max())
        return
    nh, nv = case["nh"], case["nv"]
    d = float(rng.uniform(15, 60))
    Y, X = np.meshgrid(np.arange(nh) * d, np.arange(nv) * d, indexing="ij")
    a = float(rng.uniform(-0.1, 0.1)) if rng.random() < 0.8 else 0.0
    c = rng.uniform(-2e-4, 2e-4, 2) / max(1, max(nh, nv) / 8) if rng.random() < 0.7 else np.zeros(2)
    y0, x0 = Y.mean(), X.mean()
    y, x = Y - y0, X - x0
    y, x = y * np.cos(a) + x * np.sin(a), x * np.cos(a) - y * np.sin(a)
    w = 1 + c[0] * y + c[1] * x
    P = np.stack([y / w + 300, x / w + 400], axis=-1) + rng.normal(size=Y.shape + (2,)) * 0.01 * d * float(rng.choice([0, 1]))
    H, V = [P[i] for i in range(nh)], [P[:, j] for j in range(nv)]
    if nh > 3 and nv > 3 and rng.random() < 0.4:
        H = [l[np.sort(rng.permutation(nv)[:max(3, nv - 2)])] for l in H]
        V = [l[np.sort(rng.permutation(nh)[:max(3, nh - 2)])] for l in V]
    u = proc.generate_undistorted_perspective_lines(H, V, equal_dist=eqd, scale=sc, optimizing=case["opt"])
    A, B = np.asarray(u[0], float), np.asarray(u[1], float)
    check(A.shape == (nh, nv, 2) and B.shape == (nv, nh, 2), "shapes %s and %s for %d x %d lines", A.shape, B.shape, nh, nv)
    close(A, np.swapaxes(B, 0, 1), "the crossing seen along both lines", 1e-6)
    tol = 3e-6 * (500 + np.abs(A).max())
    regular(A, eqd, tol)
    s, t = proc.generate_source_target_perspective_points(H, V, equal_dist=eqd, scale=sc, optimizing=case["opt"])
    s, t = np.asarray(s, float), np.asarray(t, float)
    check(s.shape == (nh * nv, 2) and t.shape == s.shape, "shapes %s and %s for %d crossings", s.shape, t.shape, nh * nv)
    ch = [np.polyfit(l[:, 1], l[:, 0], 1) for l in H]
    cv = [np.polyfit(l[:, 0], l[:, 1], 1) for l in V]
    C = np.array([[[(h[0] * v[1] + h[1]) / (1 - h[0] * v[0]), (v[0] * h[1] + v[1]) / (1 - h[0] * v[0])] for v in cv] for h in ch])
    D = np.abs(C.reshape(-1, 1, 2) - s[None]).max(axis=-1)
    k = D.argmin(axis=1)
    check(len(set(k.tolist())) == nh * nv and D[np.arange(len(k)), k].max() < 0.05, "the sources are not the crossings of the lines")
    regular(t[k].reshape(nh, nv, 2), eqd, tol)
