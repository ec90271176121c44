from common import *
import discorpy.proc.processing as proc
import discorpy.post.postprocessing as post
from c08 import grid, poly

FN = ["coef_backward", "coef_forward", "coef_from_forward", "residual", "coarse", "bailey", "fine", "regen_linear", "regen_coef", "regen_para", "line_forward", "line_backward", "update", "undistorted"]


def cases(seed, tier, hints):
    k = 0
    for fn in FN:
        for i in range(4 if fn != "fine" else 2):
            k += 1
            yield dict(kind=fn, seed=seed * 1000 + k, nh=5 + (k * 7) % 8, nv=5 + (k * 3) % 9)
    fast = [f for f in FN if f != "fine"]
    for n in lit_sizes(5, 34, ["proc"]):
        for f in ("coef_backward", "coef_forward", "coef_from_forward", "bailey"):
            k += 1
            yield dict(kind=f, seed=seed * 1000 + k, nh=n, nv=5 + n % 6)
            yield dict(kind=f, seed=seed * 1000 + k, nh=5 + n % 6, nv=n)
    for i in range(150 if tier == "quick" else 3000):
        yield dict(kind=fast[i % len(fast)], seed=seed * 700 + i, nh=4 + i % 13, nv=4 + (i * 5) % 11)
    for i in range(2 if tier == "quick" else 40):
        yield dict(kind="fine", seed=seed * 70 + i, nh=6 + i % 5, nv=5 + (i * 2) % 7)


def data(rng, nh, nv):
    d = float(rng.uniform(18, 40))
    size = d * max(nh, nv)
    xc, yc = [float(np.round(v * 8) / 8) for v in rng.uniform(200, 900, 2)]
    f = [1.0, float(rng.normal() * 0.01) / size, float(rng.choice([-1, 1]) * rng.uniform(0.05, 0.25)) / size ** 2]
    H, V = grid(rng, nh, nv, d, xc, yc, f, 0.004, bool(rng.integers(0, 2)))
    a = float(rng.uniform(-0.02, 0.02))
    rot = lambda l: np.stack([(l[:, 0] - yc) * np.cos(a) + (l[:, 1] - xc) * np.sin(a) + yc, -(l[:, 0] - yc) * np.sin(a) + (l[:, 1] - xc) * np.cos(a) + xc], axis=1)
    q = lambda l: np.round(rot(l) * 64) / 64
    return [q(l) for l in H], [q(l) for l in V], xc, yc, d, size


def run(case):
    rng = rng_of(case)
    kind, nh, nv = case["kind"], case["nh"], case["nv"]
    H, V, xc, yc, d, size = data(rng, nh, nv)
    tx, ty = [float(rng.integers(-6, 7) * 128) for _ in range(2)]
    T = lambda L: [l[:, ::-1].copy() for l in L]
    M = lambda L: [l + [ty, tx] for l in L]
    px, py = xc + float(rng.integers(-40, 40)) / 16, yc + float(rng.integers(-40, 40)) / 16
    num = int(rng.integers(1, 6))
    if kind.startswith("coef"):
        opt = bool(rng.random() < 0.25)
        f = dict(coef_backward=proc.calc_coef_backward, coef_forward=proc.calc_coef_forward, coef_from_forward=proc.calc_coef_backward_from_forward)[kind]
        a = f(H, V, px, py, num, optimizing=opt)
        r = np.linspace(0, 0.75 * size, 40)
        for nm, b in (("exchanging x and y", f(T(V), T(H), py, px, num, optimizing=opt)), ("moving everything", f(M(H), M(V), px + tx, py + ty, num, optimizing=opt))):
            P, Q = (a, b) if kind == "coef_from_forward" else ((a,), (b,))
            for p, q in zip(P, Q):
                check(len(p) == len(q), "%s: %d and %d coefficients", nm, len(p), len(q))
                fp, fq = poly(p, r), poly(q, r)
                close(fp, fq, "%s changes the factor" % nm, 2e-4 if opt else 1e-5, 1 + np.abs(fp).max())
    elif kind == "residual":
        for L, f, g in ((H, post.calc_residual_hor, post.calc_residual_ver), (V, post.calc_residual_ver, post.calc_residual_hor)):
            a = np.asarray(f(L, px, py), float)
            b = np.asarray(g(T(L), py, px), float)
            close(b, a, "residuals of the transposed lines", 1e-6)
            c = np.asarray(f(M(L), px + tx, py + ty), float)
            close(c, a, "residuals of the moved lines", 1e-6)
    elif kind in ("coarse", "bailey"):
        f = proc.find_cod_coarse if kind == "coarse" else proc.find_cod_bailey
        kw = {} if kind == "coarse" else dict(iteration=int(rng.integers(0, 4)))
        a = f(H, V, **kw)
        b = f(T(V), T(H), **kw)
        if np.all(np.isfinite(np.array(a, float))) and np.abs(np.array(a, float)).max() < 1e6:
            close([b[1], b[0]], [a[0], a[1]], "centre of the transposed grid", 1e-5)
    elif kind == "fine":
        a = proc.find_cod_fine(H, V, px, py, 6.0)
        b = proc.find_cod_fine(T(V), T(H), py, px, 6.0)
        close([b[1], b[0]], [a[0], a[1]], "refined centre of the transposed grid", 1e-9)
        b = proc.find_cod_fine(M(H), M(V), px + tx, py + ty, 6.0)
        close([b[0] - tx, b[1] - ty], [a[0], a[1]], "refined centre of the moved grid", 1e-9)
    elif kind in ("regen_linear", "regen_coef"):
        if kind == "regen_coef":
            A = np.stack([rng.uniform(-0.3, 0.3, nh), rng.uniform(-400, 900, nh)], axis=1)
            B = np.stack([rng.uniform(-0.3, 0.3, nv), rng.uniform(-400, 900, nv)], axis=1)
            a = proc.regenerate_grid_points_linear(A, B, is_coef=True)
            b = proc.regenerate_grid_points_linear(B, A, is_coef=True)
        else:
            a = proc.regenerate_grid_points_linear(H, V)
            b = proc.regenerate_grid_points_linear(T(V), T(H))
            m = proc.regenerate_grid_points_linear(M(H), M(V))
            for q in (0, 1):
                close(np.asarray(m[q], float) - [ty, tx], np.asarray(a[q], float), "points of the moved grid", 1e-6, 4000)
        for q in (0, 1):
            close(np.asarray(b[1 - q], float)[..., ::-1], np.asarray(a[q], float), "points of the transposed grid", 1e-6, 2000)
    elif kind == "regen_para":
        kw = [dict(), dict(find_center=True), dict(perspective=True)][case["seed"] % 3]
        if kw.get("perspective") and nh > 4 and nv > 4:
            # a perspective view of the grid, weak or strong
            s = float(rng.choice([1.0, 0.15]))
            kx, ky = [float(v) for v in rng.uniform(-0.5, 0.5, 2) / size / s]
            W = lambda L: [np.stack([(l[:, 0] - yc) * s, (l[:, 1] - xc) * s], axis=1) / (1 + kx * (l[:, 1:2] - xc) * s + ky * (l[:, 0:1] - yc) * s) + [yc, xc] for l in L]
            H, V = W(H), W(V)
            g = lambda L, q: np.array([np.polyfit(l[:, 1 - q] - [xc, yc][q], l[:, q] - [yc, xc][q], 2) for l in L])
            ch, cv = g(H, 0), g(V, 1)
            if abs(abs(np.polyfit(ch[:, 2], ch[:, 1], 1)[0] - np.polyfit(cv[:, 2], -cv[:, 1], 1)[0]) - 0.001) < 2e-4:
                return
        elif kw.get("perspective"):
            return
        a = proc.regenerate_grid_points_parabola(H, V, **kw)
        b = proc.regenerate_grid_points_parabola(T(V), T(H), **kw)
        for q in (0, 1):
            close(np.asarray(b[1 - q], float)[..., ::-1], np.asarray(a[q], float), "parabola crossings (%s) of the transposed grid" % (kw or "plain"), 1e-5, 2000)
    elif kind in ("line_forward", "line_backward"):
        f = post.unwarp_line_forward if kind == "line_forward" else post.unwarp_line_backward
        fact = rand_fact(rng, size, int(rng.integers(1, 6)), 0.02)
        a, b, c = f(H, px, py, fact), f(T(H), py, px, fact), f(M(H), px + tx, py + ty, fact)
        check(len(a) == len(b) == len(c) == nh, "numbers of lines %d, %d, %d", len(a), len(b), len(c))
        for u, v, w in zip(a, b, c):
            close(np.asarray(v)[:, ::-1], u, "corrected transposed line", 1e-6)
            close(np.asarray(w) - [ty, tx], u, "corrected moved line", 1e-5)
    elif kind == "update":
        a, b = proc.update_center(H, px, py), proc.update_center(T(H), py, px)
        for l, u, v in zip(H, a, b):
            close(u, l + [py, px], "updated points", 1e-9)
            close(v, np.asarray(u)[:, ::-1], "updated transposed points", 1e-9)
    elif kind == "undistorted":
        eqd = bool(rng.integers(0, 2))
        a = proc.generate_undistorted_perspective_lines(H, V, equal_dist=eqd, optimizing=False)
        b = proc.generate_undistorted_perspective_lines(T(V), T(H), equal_dist=eqd, optimizing=False)
        for q in (0, 1):
            close(np.asarray(b[1 - q], float)[..., ::-1], np.asarray(a[q], float), "undistorted points of the transposed grid", 1e-5, 2000)
