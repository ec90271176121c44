from common import *
import discorpy.post.postprocessing as post


def cases(seed, tier, hints):
    k = 0
    for d in ("hor", "ver"):
        for n in [1, 2, 3, 5, 9, 20] + lit_sizes(4, 60, ["postproc"]):
            for form in ("f8", "i8", "list"):
                k += 1
                yield dict(kind=d, seed=seed * 1000 + k, n=n, form=form, lo=2 + k % 3)
    for i in range(60 if tier == "quick" else 1500):
        yield dict(kind=["hor", "ver"][i % 2], seed=seed * 700 + i, n=1 + i % 12, form=["f8", "i8", "f4"][i % 3], lo=2 + i % 5)
    for N in [1, 2, 3, 4, 6, 7, 13, 19, 20, 21, 40, 60, 99, 100, 101, 200] + lit_sizes(2, 2000, ["postproc"]):
        for d in (-2, -1, 0, 1, 2):
            c = int(0.15 * N + 1e-9) + d
            if 0 <= c <= N:
                yield dict(kind="check", seed=seed + N, N=N, c=c)
    for i in range(200):
        yield dict(kind="check", seed=seed * 50 + i, N=1 + i * 3, c=-1)


def run(case):
    rng = rng_of(case)
    if case["kind"] == "check":
        N, c = case["N"], case["c"]
        if c < 0:
            c = int(rng.integers(0, N + 1))
        v = np.concatenate([1 + rng.uniform(1e-9, [1e-6, 0.5, 100][case["seed"] % 3], c), rng.choice([0.0, 1.0, 0.999, 0.3], N - c)])
        rng.shuffle(v)
        data = np.stack([np.sort(rng.uniform(0, 1000, N)), v], axis=1)
        r = post.check_distortion(data)
        check(bool(r) == (100 * c > 15 * N), "%d of %d residuals above 1 pixel reported as %s", c, N, r)
        return
    ver = case["kind"] == "ver"
    L = []
    for i in range(case["n"]):
        m = int(rng.integers(case["lo"], case["lo"] + 12))
        t = np.sort(rng.uniform(0, 1000, m)) if rng.random() < 0.7 else rng.uniform(0, 1000, m)
        s = rng.uniform(-0.5, 0.5) * float(rng.choice([0, 1, 1, 4]))
        u = s * t + 50 * i + rng.normal(size=m) * float(rng.choice([0, 0.5, 5]))
        if case["form"] in ("f8", "list") and rng.random() < 0.15:
            t, u = t.mean() + (t - t.mean()) / 1000, u.mean() + (u - u.mean()) / 1000     # a short line
        p = np.stack([t, u] if ver else [u, t], axis=1)
        if case["form"] == "i8":
            p = np.round(p).astype(int)
        if case["form"] == "f4":
            p = p.astype(np.float32)
        t = p[:, 0 if ver else 1]
        if len(np.unique(t)) < 2 or np.ptp(t) < (20 if p.dtype.kind != "f" or p.dtype == np.float32 else 0.02):
            continue
        L.append(p[:1] if rng.random() < 0.08 else p)
    if not L:
        return
    xc, yc = [float(v) for v in rng.uniform(-200, 1200, 2)]
    if rng.random() < 0.3:
        xc, yc = int(xc), int(yc)
    fn = post.calc_residual_ver if ver else post.calc_residual_hor
    arg = [p.tolist() for p in L] if case["form"] == "list" else L
    out = np.asarray(fn(arg, xc, yc), float)
    want = []
    for p in L:
        p = p.astype(float)
        t, u = (p[:, 0], p[:, 1]) if ver else (p[:, 1], p[:, 0])
        tm, um = t.mean(), u.mean()
        s = np.sum((t - tm) * (u - um)) / np.sum((t - tm) ** 2) if len(t) > 1 else 0.0
        d = np.abs((u - um) - s * (t - tm)) / np.sqrt(1 + s * s)
        r = np.hypot(p[:, 0] - yc, p[:, 1] - xc)
        want.append(np.stack([r, d], axis=1))
    want = np.concatenate(want)
    check(out.shape == want.shape, "report of shape %s for %d points", out.shape, len(want))
    check(np.all(np.diff(out[:, 0]) >= 0), "radii are not increasing")
    tol = 1e-2 if case["form"] == "f4" else 1e-6
    close(np.sort(out[:, 0]), np.sort(want[:, 0]), "radii", tol)
    close(np.sort(out[:, 1]), np.sort(want[:, 1]), "residuals", tol)
    # the pairing: every reported pair is within tolerance of an unused expected pair
    used = np.zeros(len(want), bool)
    for r, d in out:
        c = np.where(~used & (np.abs(want[:, 0] - r) <= 3e-6 * (1 + r) + (1e-3 if case["form"] == "f4" else 0)) & (np.abs(want[:, 1] - d) <= tol * 10 * (1 + d)))[0]
        check(len(c) > 0, "pair (%r, %r) belongs to no point", r, d)
        used[c[np.argmin(np.abs(want[c, 1] - d) + 1e4 * np.abs(want[c, 0] - r))]] = True
    if case["seed"] % 3 == 0 and case["form"] == "f8":
        tx, ty = rng.uniform(-500, 500, 2)
        o2 = np.asarray(fn([p + [ty, tx] for p in L], xc + tx, yc + ty), float)
        close(o2[:, 0], out[:, 0], "radii after moving points and centre", 1e-6)
        close(np.sort(o2[:, 1]), np.sort(out[:, 1]), "residuals after moving points and centre", 1e-6)
