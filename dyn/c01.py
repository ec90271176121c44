from common import *
import discorpy.post.postprocessing as post
import discorpy.util.utility as util


def cases(seed, tier, hints):
    n = 60 if tier == "quick" else 600
    sizes = sorted({1, 2, 3, 5} | set(lit_sizes(1, 12)))
    for h in hints:
        for k in ("fwd", "bwd", "ptp"):
            for i in range(6):
                yield dict(kind=k, seed=seed * 7 + i, m=int(min(max(h.get("m", 3), 1), 40)), dt=["f8", "i8"][i % 2])
    for i in range(n):
        yield dict(kind="fwd", seed=seed * 1000 + i, m=sizes[i % len(sizes)], dt=["f8", "f4", "i8", "list"][i % 4])
        yield dict(kind="ptp", seed=seed * 1000 + i, m=sizes[i % len(sizes)], dt=["f8", "i8"][i % 2])
        if i % 3 == 0:
            yield dict(kind="bwd", seed=seed * 1000 + i, m=1 + i % 5, dt=["f8", "i8"][i % 2])
    for m in (20, 40, 60):
        yield dict(kind="fwd", seed=seed, m=m, dt="f8")


def mk(case):
    rng = rng_of(case)
    w = h = 100
    xc, yc = rand_centre(rng, h, w)
    m = case["m"]
    f = rand_fact(rng, 150.0, n=m)
    if case["kind"] == "bwd":
        f = rand_fact(rng, 400.0, n=m, strength=0.05)
        xc, yc = float(rng.uniform(20, 80)), float(rng.uniform(20, 80))
    nl = int(rng.integers(0, 5))
    L = []
    for _ in range(nl):
        k = int(rng.integers(0, 7))
        p = rng.uniform(0, 100, (k, 2))
        if case["dt"] == "i8":
            p = np.int64(p)
        elif case["dt"] == "f4":
            p = np.float32(p)
        L.append(p)
    if nl and len(L[0]):
        L[0][0] = [yc, xc]
    if rng.random() < 0.3:
        f = np.asarray(f)
    elif rng.random() < 0.2:
        f = tuple(f)
    return L, xc, yc, f


def F(f, r):
    f = [float(x) for x in f]
    return sum(c * r ** i for i, c in enumerate(f))


def run(case):
    L, xc, yc, f = mk(case)
    if case["kind"] == "ptp":
        for p in L:
            for q in p[:4]:
                for o in ("xy", "yx"):
                    r = util.find_point_to_point((q[0], q[1]), xc, yc, f, output_order=o)
                    check(len(r) == 2, "two values")
                    dx, dy = float(q[1]) - xc, float(q[0]) - yc
                    k = F(f, np.hypot(dx, dy))
                    e = (xc + k * dx, yc + k * dy)
                    close(r, e if o == "xy" else e[::-1], "find_point_to_point %s" % o, 1e-7, scale=200)
        return
    fn = post.unwarp_line_forward if case["kind"] == "fwd" else post.unwarp_line_backward
    arg = L
    out = fn(arg, xc, yc, f)
    check(len(out) == len(L), "number of lines %d for %d", len(out), len(L))
    for a, b in zip(L, out):
        b = np.asarray(b)
        check(b.shape == a.shape, "shape of a line")
        a = np.asarray(a, dtype=float)
        tol = 1e-4 if case["dt"] == "f4" else 1e-7
        if case["kind"] == "fwd":
            d = a - [yc, xc]
            r = np.hypot(d[:, 0], d[:, 1])
            e = np.asarray([F(f, x) for x in r]).reshape(-1, 1) * d + [yc, xc]
            close(b, e, "forward unwarped points", tol, scale=200)
        else:
            for p, q in zip(a, b):
                d, u = p - [yc, xc], np.asarray(q, float) - [yc, xc]
                r = np.hypot(*d)
                if r < 1e-6:
                    close(q, p, "point at the centre moves", 1e-6)
                    continue
                cross = d[0] * u[1] - d[1] * u[0]
                check(abs(cross) <= 1e-6 * r * (1 + np.hypot(*u)), "point leaves its ray: %r -> %r", p.tolist(), q.tolist())
                ru = (d @ u) / r
                # F(ru)*ru = r must be (nearly) solved for these mild models
                check(abs(F(f, ru) * ru - r) < 0.02 * (1 + r) * 0.1 + 2e-3, "radius %r maps to %r", r, ru)
    # same radius -> same factor
    if case["kind"] == "bwd" and len(L) and len(L[0]):
        r0 = 17.0
        pts = [np.array([[yc, xc + r0], [yc + r0, xc], [yc, xc - r0], [yc - r0, xc]], dtype=float)]
        o = np.asarray(post.unwarp_line_backward(pts, xc, yc, f)[0]) - [yc, xc]
        rr = np.hypot(o[:, 0], o[:, 1])
        check(np.ptp(rr) < 1e-4, "radius after unwarping differs with direction: %r", rr.tolist())
