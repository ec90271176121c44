from common import *
import discorpy.proc.processing as proc
from c12 import data

METH = ["mean", "median", "max", "min"]


def cases(seed, tier, hints):
    k = 0
    for i in range(16 if tier == "quick" else 120):
        for kd in ("coarse", "bailey", "effect", "vanish", "vanish2"):
            k += 1
            yield dict(kind=kd, seed=seed * 1000 + k, nh=4 + (k * 7) % 11, nv=4 + (k * 3) % 12)
    for i in range(12 if tier == "quick" else 60):
        yield dict(kind="effect", seed=seed * 100 + i, nh=6 + i % 5, nv=5 + i % 6, few=1 + i % 3)
        yield dict(kind="straight", seed=seed * 100 + i, nh=4 + i % 5, nv=5 + i % 4, drop=i % 4)
    for n in lit_sizes(4, 34, ["proc"]):
        k += 1
        for kd in ("coarse", "bailey", "effect"):
            yield dict(kind=kd, seed=seed * 1000 + k, nh=n, nv=5 + n % 6)
            yield dict(kind=kd, seed=seed * 1000 + k, nh=5 + n % 6, nv=n)
    for i in range(5 if tier == "quick" else 60):
        yield dict(kind="fine", seed=seed * 300 + i, nh=5 + i % 9, nv=5 + (i * 2) % 7, pd=[5.0, 6.5, 3, 1.0, 8.0][i % 5])
    yield dict(kind="fine", seed=seed * 310, nh=13, nv=14, pd=1.0)
    yield dict(kind="fine", seed=seed * 311, nh=4, nv=4, pd=22.0)
    yield dict(kind="fine", seed=seed * 312, nh=4, nv=5, pd=0.75)
    for i in range(6 if tier == "quick" else 60):
        yield dict(kind="iter", seed=seed * 500 + i, nh=6 + i % 7, nv=6 + (i * 2) % 7, it=i % 3)


def fits(L, ver, xc=0.0, yc=0.0, dt=np.float32):
    a, b = (0, 1) if ver else (1, 0)
    c = (yc, xc)
    return np.array([np.polyfit(l[:, a] - c[a], l[:, b] - c[b], 2) for l in L]).astype(dt)


def tilt(rng, L, xc, yc, a):
    """the lines turned about the centre"""
    f = lambda l: np.stack([(l[:, 0] - yc) * np.cos(a) + (l[:, 1] - xc) * np.sin(a) + yc, -(l[:, 0] - yc) * np.sin(a) + (l[:, 1] - xc) * np.cos(a) + xc], axis=1)
    return [np.round(f(l) * 64) / 64 for l in L]


def coarse_lines(L, ver):
    c = fits(L, ver)
    p = int(np.argmax(np.abs(np.diff(np.sign(c[:, 0])))))
    return float(c[p, 1] + c[p + 1, 1]) / 2, float(c[p, 2] + c[p + 1, 2]) / 2


def bailey(H, V, xc, yc, it):
    for _ in range(it + 1):
        ch, cv = fits(H, 0, xc, yc), fits(V, 1, xc, yc)
        ph, pv = np.polyfit(ch[:, 2], ch[:, 0], 1), np.polyfit(cv[:, 2], cv[:, 0], 1)
        xc, yc = xc - pv[1] / pv[0], yc - ph[1] / ph[0]
    return xc, yc


def nearest(c):
    """abscissa of the point of the parabola nearest the origin (local, from 0)"""
    a, b, d = [float(v) for v in c]
    r = np.roots([2 * a * a, 3 * a * b, 1 + b * b + 2 * a * d, b * d]) if a else np.array([-b * d / (1 + b * b)])
    r = r[np.abs(r.imag) < 1e-7].real
    return r[np.argmin(r ** 2 + (a * r * r + b * r + d) ** 2)]


def error(ch, cv):
    e = 0.0
    for c in (ch, cv):
        u = np.array([nearest(k) for k in c])
        w = c[:, 0] * u * u + c[:, 1] * u + c[:, 2]
        e += abs(np.polyfit(u, w, 1)[1])
    return e


def near(L, ver, xc, yc, other):
    c = fits(L, ver, xc, yc)
    p = int(np.argmin(np.abs(c[:, 2])))
    n = min(5, len(L) // 2 - 1, len(other) // 2 - 1)
    return L[max(0, p - n):min(len(L), p + n + 1)]


def search(H, V, xc, yc, sh):
    h, v = near(H, 0, xc, yc, V), near(V, 1, xc, yc, H)
    return np.array([[error(fits(h, 0, xc + x, yc + y), fits(v, 1, xc + x, yc + y)) for x in sh] for y in sh])


def cross(ph, pv):
    y = (ph[0] * pv[1] + ph[1]) / (1 - ph[0] * pv[0])
    return pv[0] * y + pv[1], y


def rep(c, method):
    if method == "mean":
        return c[:, 1:].mean(axis=0, dtype=np.float64)
    if method == "median":
        return np.median(c[:, 1:].astype(float), axis=0)
    a = np.abs(c[:, 0])
    return c[np.argmax(a) if method == "max" else np.argmin(a), 1:].astype(float)


def homography(src, dst):
    A, b = [], []
    for (y, x), (v, u) in zip(src, dst):
        A += [[x, y, 1, 0, 0, 0, -u * x, -u * y], [0, 0, 0, x, y, 1, -v * x, -v * y]]
        b += [u, v]
    return np.linalg.lstsq(np.array(A, float), np.array(b, float), rcond=None)[0]


def effect(H, V, xc, yc, method, scale):
    ch, cv = fits(H, 0, xc, yc), fits(V, 1, xc, yc)
    pts = [cross(rep(ch[ch[:, 0] * s > 0], method), rep(cv[cv[:, 0] * t > 0], method))[::-1] for s in (1, -1) for t in (1, -1)]
    src, dst = proc.generate_4_source_target_perspective_points(np.array(pts), scale=scale)
    c = homography(src, dst)
    out = []
    for L in (H, V):
        R = []
        for l in L:
            y, x = l[:, 0] - yc, l[:, 1] - xc
            D = c[6] * x + c[7] * y + 1
            R.append(np.stack([(c[3] * x + c[4] * y + c[5]) / D + yc, (c[0] * x + c[1] * y + c[2]) / D + xc], axis=1))
        out.append(R)
    return out


def opposite(ch, cv):
    return all((c[:, 0] * s > 0).any() for c in (ch, cv) for s in (1, -1))


def pairs(c, second):
    if second:
        m = int(np.argmin(np.abs(c[:, 0])))
        return [(c[i], c[m]) for i in range(len(c)) if i != m]
    P = []
    for s in (1, -1):
        d = c[c[:, 0] * s > 0]
        P.append(d[np.argsort(np.abs(d[:, 0]))])
    return list(zip(*P))


def vanish(H, V, second, dt=np.float32):
    """centre from the crossings of parabolas; None where the fallback (Bailey) applies"""
    ln = []
    for L, ver in ((H, 0), (V, 1)):
        pt = []
        for p, q in pairs(fits(L, ver, dt=dt), second):
            r = np.roots([p[0] - q[0], p[1] - q[1], p[2] - q[2]])
            if not np.iscomplexobj(r) and len(r) == 2:
                pt += [(r[0], p[0] * r[0] ** 2 + p[1] * r[0] + p[2]), (r[1], q[0] * r[1] ** 2 + q[1] * r[1] + q[2])]
        if len(pt) <= 2:
            return None
        pt = np.array(pt)
        ln.append(np.polyfit(pt[:, 0], pt[:, 1], 1))
    return cross(*ln)


def van(H, V, second):
    r = vanish(H, V, second)
    if r is None:
        r = bailey(H, V, *proc.find_cod_coarse(H, V), 2)
    return r


def run(case):
    rng = rng_of(case)
    kind, nh, nv = case["kind"], case["nh"], case["nv"]
    H, V, xc, yc, d, size = data(rng, nh, nv)
    keep = [[l.copy() for l in H], [l.copy() for l in V]]
    ok = lambda r: np.all(np.isfinite(np.array(r, float))) and np.abs(np.array(r, float)).max() < 5e3
    if kind == "coarse":
        x, y = proc.find_cod_coarse(H, V)
        (sh, c1), (sv, c2) = coarse_lines(H, 0), coarse_lines(V, 1)
        if abs(1 - sh * sv) > 0.1:
            close(y, sh * x + c1, "coarse centre on the middle horizontal line", 1e-5)
            close(x, sv * y + c2, "coarse centre on the middle vertical line", 1e-5)
    elif kind == "bailey":
        it = int(rng.integers(0, 4))
        if it == 2 and rng.random() < 0.5:
            r = proc.find_cod_bailey(H, V)
        else:
            r = proc.find_cod_bailey(H, V, iteration=it)
        x0, y0 = proc.find_cod_coarse(H, V)
        e = bailey(H, V, x0, y0, it)
        if ok(e):
            close(r, e, "centre after %d moves" % (it + 1), 1e-3)
    elif kind == "fine":
        x0, y0, pd = xc + float(rng.uniform(-3, 3)), yc + float(rng.uniform(-3, 3)), case["pd"]
        x, y = proc.find_cod_fine(H, V, x0, y0, pd)
        check(-pd - 2 <= x - x0 < pd + 4 and -pd - 2 <= y - y0 < pd + 4, "result (%g, %g) is outside the window around (%g, %g)", x, y, x0, y0)
        s1 = np.arange(-pd, pd + 2.0, 2.0)
        s2 = np.arange(-2.0, 2.5, 0.5)
        M = search(H, V, x0, y0, s1)
        tol = lambda m: m.min() + 2e-3 + 1e-3 * m.min()
        good = None
        for i, j in np.argwhere(M <= tol(M)):
            dx, dy = x - x0 - s1[j], y - y0 - s1[i]
            p, q = np.argmin(np.abs(s2 - dx)), np.argmin(np.abs(s2 - dy))
            if abs(s2[p] - dx) > 1e-6 or abs(s2[q] - dy) > 1e-6:
                continue
            N = search(H, V, x0 + s1[j], y0 + s1[i], s2)
            if N[q, p] <= tol(N):
                good = True
                break
            good = good or "candidate has error %g, the best one %g" % (N[q, p], N.min())
        check(good is True, "result (%g, %g): %s", x, y, good or "not reached from a best first-pass candidate")
    elif kind == "effect":
        m = METH[int(rng.integers(0, 4))]
        sc = ["mean", "max", "min", "median", 31.5][int(rng.integers(0, 5))]
        px, py = xc + float(rng.uniform(-9, 9)), yc + float(rng.uniform(-9, 9))
        if case.get("few"):
            # two lines of opposite curvature are enough
            ch, cv = fits(H, 0, px, py)[:, 0], fits(V, 1, px, py)[:, 0]
            if case["few"] & 1:
                H = [H[int(np.argmin(ch))], H[int(np.argmax(ch))]]
            if case["few"] & 2:
                V = [V[int(np.argmin(cv))], V[int(np.argmax(cv))]]
            keep = [[l.copy() for l in H], [l.copy() for l in V]]
        if opposite(fits(H, 0, px, py), fits(V, 1, px, py)):
            e = effect(H, V, px, py, m, sc)
            if all(ok(l) for L in e for l in L):
                g = proc.correct_perspective_effect(H, V, px, py, method=m, scale=sc)
                for q in (0, 1):
                    check(len(g[q]) == len(e[q]), "%d lines instead of %d", len(g[q]), len(e[q]))
                    for a, b in zip(g[q], e[q]):
                        close(a, b, "corrected points (%s, %s)" % (m, sc), 2e-5, 1000)
        else:
            raises(ValueError, proc.correct_perspective_effect, H, V, px, py, method=m, scale=sc)
    elif kind == "straight":
        # without opposite curves, or with fewer than two lines, the correction refuses
        L = [[l for l, c in zip(X, fits(X, ver, xc, yc)) if c[0] * s > 0] for X, ver in ((H, 0), (V, 1)) for s in (1, -1)]
        q = case["drop"]
        A = L[1 - q] if q < 2 else H
        B = L[5 - q] if q >= 2 else V
        if rng.random() < 0.3:
            A, B = (H[:1], V) if q < 2 else (H, V[:1])
        if len(A) and len(B):
            raises(ValueError, proc.correct_perspective_effect, A, B, xc, yc)
    elif kind in ("vanish", "vanish2"):
        f = proc.find_center_based_vanishing_points if kind == "vanish" else private(proc, "_find_center_based_vanishing_points_2nd_way")
        if rng.random() < 0.7:
            a = float(rng.choice([-1, 1]) * rng.uniform(0.05, 0.35))
            H, V = tilt(rng, H, xc, yc, a), tilt(rng, V, xc, yc, a)
            keep = [[l.copy() for l in H], [l.copy() for l in V]]
        e = van(H, V, kind == "vanish2")
        w = vanish(H, V, kind == "vanish2", np.float64)
        if ok(e) and (w is None) == (vanish(H, V, kind == "vanish2") is None):
            tol = 0.02 if w is None else 0.01 + 10 * float(np.abs(np.array(w) - np.array(e)).max())
            r = f(H, V)
            close(r, e, "centre from vanishing points", min(tol, 1.0), 1)
            if kind == "vanish2":
                o = rng.permutation(len(H)), rng.permutation(len(V))
                if vanish(H, V, True) is not None:
                    r2 = f([H[i] for i in o[0]], [V[i] for i in o[1]])
                    close(r2, r, "centre with the lines in another order", 1e-3, 1000)
    elif kind == "iter":
        it = case["it"]
        m = METH[int(rng.integers(0, 4))]
        x, y = van(H, V, True)
        for _ in range(it):
            if not ok((x, y)) or not opposite(fits(H, 0, x, y), fits(V, 1, x, y)):
                return
            A, B = effect(H, V, x, y, m, "mean")
            if not all(ok(l) for L in (A, B) for l in L):
                return
            dx, dy = van([l - [y, x] for l in A], [l - [y, x] for l in B], True)
            x, y = x + dx, y + dy
        if ok((x, y)):
            r = proc.find_center_based_vanishing_points_iteration(H, V, iteration=it, method=m)
            close(r, (x, y), "centre after %d iterations" % it, 1e-2, 200)
    for a, b in ((H, keep[0]), (V, keep[1])):
        check(len(a) == len(b) and all(np.array_equal(p, q) for p, q in zip(a, b)), "input lines changed")
