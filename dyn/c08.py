from common import *
import discorpy.proc.processing as proc


def cases(seed, tier, hints):
    k = 0
    for fn in ("backward", "forward", "inverse"):
        for m in (1, 2, 3, 4, 5):
            for opt in (False, True):
                for noise in (0.0, 0.01):
                    k += 1
                    yield dict(kind=fn, seed=seed * 1000 + k, m=m, opt=opt, noise=noise, nh=4 + k % 9, nv=4 + (k * 5) % 11, ragged=bool(k % 3))
    for n in lit_sizes(4, 40, ["proc"]):
        k += 1
        yield dict(kind=["backward", "forward", "inverse"][k % 3], seed=seed * 1000 + k, m=2 + k % 3, opt=False, noise=0.01, nh=n, nv=4 + n % 7, ragged=True)
        yield dict(kind=["backward", "forward", "inverse"][k % 3], seed=seed * 1000 + k, m=2 + k % 3, opt=False, noise=0.01, nh=4 + n % 7, nv=n, ragged=True)
    for i in range(90 if tier == "quick" else 2500):
        yield dict(kind=["backward", "forward", "inverse"][i % 3], seed=seed * 700 + i, m=i % 6, opt=i % 7 == 0, noise=[0.0, 0.01, 0.05][(i // 3) % 3], nh=4 + i % 13, nv=4 + (i * 3) % 14, ragged=i % 2 == 0)
    for i, m in enumerate((7, 9, 10, 12)):
        yield dict(kind=["backward", "forward", "inverse"][i % 3], seed=seed * 37 + i, m=m, opt=False, noise=0.01, nh=5 + i, nv=6, ragged=False)
    for i in range(8):
        yield dict(kind="straight", seed=seed * 31 + i, centred=i % 2)


def poly(f, r):
    out = np.zeros_like(r, dtype=float)
    for c in reversed(list(f)):
        out = out * r + float(c)
    return out


def grid(rng, nh, nv, dist, xc, yc, fact, noise, ragged, centred=False):
    """lines of a regular grid distorted by ideal -> ideal*F(r) about (xc, yc)"""
    oy, ox = rng.uniform(-0.4, 0.4, 2) * dist
    if centred:
        oy = ox = 0.0
    iy, ix = (np.arange(nh) - nh // 2) * dist + oy, (np.arange(nv) - nv // 2) * dist + ox
    Y, X = np.meshgrid(iy, ix, indexing="ij")
    F = poly(fact, np.hypot(X, Y))
    P = np.stack([Y * F + yc, X * F + xc], axis=-1)
    P = P + rng.normal(size=P.shape) * noise * dist
    H, V = [P[i] for i in range(nh)], [P[:, j] for j in range(nv)]
    if ragged:
        H = [l[np.sort(rng.permutation(len(l))[:max(4, len(l) - int(rng.integers(0, 3)))])] for l in H]
        V = [l[np.sort(rng.permutation(len(l))[:max(4, len(l) - int(rng.integers(0, 3)))])] for l in V]
    return H, V


def para(L, xc, yc, ver):
    co, pts = [], []
    for l in L:
        l = np.asarray(l, float) - [yc, xc]
        a, b = (l[:, 0], l[:, 1]) if ver else (l[:, 1], l[:, 0])
        co.append(np.polyfit(a, b, 2))
        pts.append(l)
    return np.array(co), pts


def ideal(c, num, opt):
    n = len(c)
    pos = int(np.argmin(np.abs(c)))
    lo, hi = max(0, pos - num), min(n, pos + num + 1)
    d = np.mean(np.abs(np.diff(c[lo:hi])))
    s = np.sign(c) * np.abs(np.arange(n) - pos)
    if opt:
        d = np.sum(s * (c - c[pos])) / np.sum(s * s)
    srt = np.sort(np.abs(c))
    return s * d + c[pos], srt[1] - srt[0]


def run(case):
    rng = rng_of(case)
    m = case.get("m", 3)
    if case["kind"] == "straight":
        return straight(rng, case.get("centred", 0))
    dist = float(rng.choice([1.0, 3.0, 40.0])) if m > 3 else float(rng.choice([2.0, 10.0, 40.0]))
    nh, nv = case["nh"], case["nv"]
    size = dist * max(nh, nv) * 0.7
    xc, yc = [float(v) for v in rng.uniform(0, 20 * dist, 2)]
    fact = [1.0] + [float(rng.normal() * 0.03 / size ** i) for i in range(1, 4)]
    H, V = grid(rng, nh, nv, dist, xc, yc, fact, case["noise"], case["ragged"])
    if rng.random() < 0.3:
        H[int(rng.integers(0, nh))][int(rng.integers(0, 3)), 0] += 0.2 * dist
    a = [H, V, xc, yc, m]
    if rng.random() < 0.3:
        a = [[l.tolist() for l in H], [l.tolist() for l in V], xc, yc, m] if rng.random() < 0 else a
    ch, ph = para(H, xc, yc, False)
    cv, pv = para(V, xc, yc, True)
    num = min(3, nh // 2 - 1, nv // 2 - 1)
    uh, gap1 = ideal(ch[:, 2], num, case["opt"])
    uv, gap2 = ideal(cv[:, 2], num, case["opt"])
    if min(gap1, gap2) < 1e-3 * dist or np.abs(ch[:, 2]).min() < 1e-3 * dist or np.abs(cv[:, 2]).min() < 1e-3 * dist:
        return
    if np.abs(uh).min() < 0.02 * dist or np.abs(uv).min() < 0.02 * dist:
        return
    M = max(m, 1)
    R, B = [], []
    for ver, (co, pts, u) in enumerate(((ch, ph, uh), (cv, pv, uv))):
        for i, p in enumerate(pts):
            t = p[:, 0] if ver else p[:, 1]
            curve = co[i, 0] * t * t + co[i, 2]
            r = np.hypot(p[:, 0], p[:, 1])
            if case["kind"] == "backward":
                F = curve / u[i]
                R.append(r / F)
                B.append(F)
            elif case["kind"] == "forward":
                R.append(r)
                B.append(u[i] / curve)
            else:
                R.append(r)
    R = np.concatenate(R)
    tag = case["kind"]
    if tag == "inverse":
        out = proc.calc_coef_backward_from_forward(*a, optimizing=case["opt"])
        check(len(out) == 2, "%d results", len(out))
        ff = np.asarray(out[0], float)
        f2 = np.asarray(proc.calc_coef_forward(*a, optimizing=case["opt"]), float)
        close(ff, f2, "forward coefficients of the combined function", 1e-9)
        F = poly(ff, R)
        if np.min(np.abs(F)) < 0.05:
            return
        R, B, out = F * R, 1 / F, out[1]
    else:
        B = np.concatenate(B)
        if tag == "forward" and np.abs(B).max() > 20 or np.abs(B).min() < 0.05:
            return
        fn = proc.calc_coef_backward if tag == "backward" else proc.calc_coef_forward
        out = fn(*a, optimizing=True) if case["opt"] else fn(*a)
    out = np.asarray(out, float)
    check(out.shape == (M,), "%s coefficients for num_fact=%d", out.shape, m)
    s = np.abs(R).max()
    A = (R[:, None] / s) ** np.arange(M)
    o = np.linalg.lstsq(A, B, rcond=None)[0] / s ** np.arange(M)
    K = np.linalg.cond(R[:, None] ** np.arange(M))
    if not K < 1e13:
        return
    rss = lambda g: float(np.sum((poly(g, R) - B) ** 2))
    x, e = rss(out), rss(o)
    amp = float(np.max(np.abs(B))) ** 2
    # the library keeps the parabolas in single precision
    tol = 1e-6 if case["opt"] else 1e-9
    check(x <= e * (1 + 1e-4) + len(B) * amp * (tol + (2e-15 * K) ** 2), "squared error %r of the returned coefficients, %r is possible", x, e)


def line_res(L, ver):
    out = []
    for l in L:
        a, b = (l[:, 0], l[:, 1]) if ver else (l[:, 1], l[:, 0])
        out.append(b - np.polyval(np.polyfit(a, b, 1), a))
    return float(np.max(np.abs(np.concatenate(out))))


def straight(rng, centred):
    n = int(rng.integers(9, 16))
    dist, xc, yc = 30.0, 400.0, 300.0
    k = float(rng.choice([-1, 1]) * rng.uniform(0.02, 0.06)) / (dist * n / 2) ** 2
    H, V = grid(rng, n, n + 2, dist, xc, yc, [1.0, 0.0, k], 0.0, False, centred)
    f = proc.calc_coef_forward(H, V, xc, yc, 4)
    b = proc.calc_coef_backward(H, V, xc, yc, 4)
    g = proc.calc_coef_backward_from_forward(H, V, xc, yc, 4)[1]
    before = max(line_res(H, False), line_res(V, True))

    def fwd(L, F):
        return [(l - [yc, xc]) * F(np.hypot(l[:, 0] - yc, l[:, 1] - xc))[:, None] + [yc, xc] for l in L]

    def inverse(c):
        def F(r):
            u = r.copy()
            for _ in range(200):
                u = r / poly(c, u)
            return u / np.maximum(r, 1e-12)
        return F
    for nm, F in (("forward", lambda r: poly(f, r)), ("backward", inverse(b)), ("backward from forward", inverse(g))):
        after = max(line_res(fwd(H, F), False), line_res(fwd(V, F), True))
        check(after < 0.3 * before, "%s model leaves a line residual of %r, %r before", nm, after, before)
