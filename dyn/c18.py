from common import *
import scipy.ndimage as ndi
import discorpy.prep.linepattern as lip


def cases(seed, tier, hints):
    n = 0
    q = tier == "quick"
    for i in range(100 if q else 2500):
        for k in ("extrema", "extrema", "locate", "slope", "peaks"):
            n += 1
            yield dict(kind=k, seed=seed * 100000 + n)
    for v in lit_sizes(4, 4100, ["prep"]):
        for k in ("extrema", "slope", "locate", "peaks"):
            n += 1
            if v < 600 or k in ("locate",):
                yield dict(kind=k, seed=seed * 100000 + n, n=v)


def signal(rng, n):
    x = np.arange(n)
    t = rng.integers(0, 6)
    p = rng.uniform(6, 40)
    if t == 0:
        d = 2 + np.cos(2 * np.pi * x / p + rng.uniform(0, 6)) * rng.uniform(0.05, 1)
    elif t == 1:
        d = 2 + np.cos(2 * np.pi * x / p) + rng.normal(size=n) * 0.05 + x * rng.normal() * 1e-3
    elif t == 2:
        d = rng.uniform(0, 1, n)
    elif t == 3:
        d = np.round(rng.uniform(0, 6, n))
    elif t == 4:
        d = np.ones(n) * 3.0 - 2.0 * (x % max(3, int(p)) == 2) + rng.normal(size=n) * 1e-3
    else:
        d = rng.normal(size=n)
    if rng.random() < 0.15:
        d = np.int64(np.round(d * 50))
    if rng.random() < 0.1:
        d = np.float32(d)
    return d


def normed(d):
    n = len(d)
    d = np.asarray(d, dtype=float)
    order = np.argsort(d)
    s = d[order]
    nd = int(0.25 * n)
    x = np.arange(n)
    a1, a0 = np.polyfit(x[nd:-nd - 1], s[nd:-nd - 1], 1)
    line = a1 * x + a0
    s2 = np.where((line >= a0) & (line <= a1 * x[-1] + a0), line, s)
    b = np.empty(n)
    b[order] = s2
    if (np.abs(b) < 1e-6 * np.abs(b).max()).any():
        return None
    u = np.unique(d)
    if len(u) < n and len(np.unique(np.asarray(d))) < n:
        return None                     # the order of equal samples is not specified
    return d / b


def extrema(rng, case):
    n = case.get("n") or int(rng.integers(12, 160))
    d = signal(rng, n)
    opt = ["min", "max"][rng.integers(0, 2)]
    rad0 = int(rng.choice([7, 1, 2, 3, 11, int(rng.integers(-2, 60))]))
    sens = float(rng.choice([0.1, 0.0, 0.01, 0.3]))
    den, nrm, sub = [bool(rng.integers(0, 2)) for _ in range(3)]
    sel = rng.random() < 0.1
    keep = d.copy()
    x = np.array(d, dtype=float)
    if den:
        x = ndi.gaussian_filter(x, 3)
    if opt == "max":
        x = np.max(x) - x
    y = x
    if nrm:
        y = normed(x)
        if y is None or n < 9:
            return
    rad = min(max(rad0, 1), n // 4)
    if rad > 0 and rng.random() < 0.5:
        # a sensitivity just below or above the contrast of one of the extrema
        gs = []
        for i in range(rad, n - rad - 1):
            w = np.sort(np.asarray(y, dtype=float)[i - rad:i + rad + 1])
            m = w[-rad:].mean()
            if y[i] == w[0] and m != 0 and w[-1] > w[0]:
                gs.append(abs((y[i] - m) / m))
        if gs:
            sens = float(gs[int(rng.integers(0, len(gs)))] * rng.choice([0.998, 1.002]))
    kw = dict(option=opt, radius=rad0, sensitive=sens, denoise=den, norm=nrm, subpixel=sub)
    if sel:
        kw.update(select_peaks=True)
    out = np.asarray(lip.get_local_extrema_points(d, **kw))
    check(np.array_equal(d, keep), "input profile was changed")
    y = np.asarray(y, dtype=float)
    eps = 1e-9 if nrm else 0.0
    f32 = d.dtype == np.float32
    if f32:
        eps = 1e-4 if nrm or den or opt == "max" else 0.0
    must, may = [], []
    for i in range(rad, n - rad - 1):
        w = np.sort(y[i - rad:i + rad + 1])
        m = w[-rad:].mean()
        g = abs((y[i] - m) / m) if m != 0 else 0.0
        sc = eps * (1 + abs(w).max())
        t2 = (1e-4 if f32 else 1e-9) * (1 + abs(w).max() / (abs(m) + 1e-300) if m != 0 else 1e9)
        t2 = min(t2, 1e9)
        if y[i] <= w[0] + sc and g > sens - t2:
            may.append(i)
            others = np.delete(y[i - rad:i + rad + 1], rad)
            if (y[i] == w[0] if eps == 0 else others.min() > y[i] + sc) and g > sens + t2:
                must.append(i)
    tag = "%s of %d samples, radius %d, sensitive %g, denoise %s, norm %s, subpixel %s" % (opt, n, rad0, sens, den, nrm, sub)
    if sub:
        ok = []
        for v in out:
            near = [i for i in may if i - 1 - 1e-6 <= v < i + 2 + 1e-6]
            check(near, "%s: position %r is not near an extremum", tag, float(v))
        got = list(out)
        if not sel:
            check(len(got) >= len(must) and len(got) <= len(may), "%s: %d points instead of %d", tag, len(got), len(must))
            if len(got) == len(may) == len(must):
                for v, i in zip(got, must):
                    l, c, r = y[i - 1:i + 2]
                    a, b = (l - 2 * c + r) / 2, (r - l) / 2
                    if a > (1e-3 if f32 else 1e-6) * (abs(y).max() + 1e-12):
                        check(abs(v - (i - b / (2 * a))) < (0.2 if f32 else 1e-4), "%s: sub-pixel position %r instead of %r", tag, float(v), i - b / (2 * a))
    else:
        got = [int(v) for v in out]
        check(got == sorted(set(got)), "%s: positions are not increasing", tag)
        check(set(got) <= set(may), "%s: %s are not extrema", tag, sorted(set(got) - set(may)))
        if not sel:
            check(set(must) <= set(got), "%s: extrema %s are missing", tag, sorted(set(must) - set(got)))


def locate(rng, case):
    n = case.get("n") or int(rng.integers(3, 40))
    d = signal(rng, n)
    if rng.random() < 0.5:
        d = (np.arange(n) - rng.uniform(-0.3 * n, 1.3 * n)) ** 2 * rng.normal()
    opt = ["min", "max"][rng.integers(0, 2)]
    p = float(lip.locate_subpixel_point(d, option=opt))
    x = np.arange(n) - (n - 1) / 2
    a, b, c = np.polyfit(x, np.asarray(d, dtype=float), 2)
    ext = int(np.argmin(d) if opt == "min" else np.argmax(d))
    check(0 <= p < n, "sub-pixel position %r outside the list of %d", p, n)
    if abs(a) < 1e-7 * np.abs(d).max() or abs(a) * n * n < 1e-7 * np.abs(d).max():
        return
    v = -b / (2 * a) + (n - 1) / 2
    if min(abs(v), abs(v - n)) < 1e-3 * n:
        return
    want = v if 0 <= v < n else ext
    check(abs(p - want) < 1e-4 * n * (10 if d.dtype == np.float32 else 1), "sub-pixel %s of %d samples at %r instead of %r", opt, n, p, want)


def slope(rng, case):
    n = case.get("n") or int(rng.integers(3, 60))
    if n > 300:
        n = 300
    d = signal(rng, n)
    size = int(rng.choice([3, 4, 5, 2, 0, 9, n, n + 5, int(rng.integers(1, 30))]))
    nrm = bool(rng.integers(0, 2))
    keep = d.copy()
    out = np.asarray(lip.sliding_window_slope(d, size=size, norm=nrm))
    check(np.array_equal(d, keep), "input profile was changed")
    s = min(max(size, 3), n)
    s += 1 - s % 2
    r = s // 2
    x = np.arange(s) - r
    ix = np.clip(np.arange(n)[:, None] + x[None], 0, n - 1)
    w = np.asarray(d, dtype=float)[ix]
    want = np.abs((w * x).sum(1) / (x * x).sum())
    if nrm and want.mean() > 1e-9 * np.abs(d).max():
        want = want / want.mean()
    elif nrm:
        return
    close(out, want, "slopes of %d samples, window %d" % (n, size), tol=1e-4 if d.dtype == np.float32 else 1e-7, scale=1 + np.abs(want).max())
    raises(ValueError, lip.sliding_window_slope, d[:2])


def peaks(rng, case):
    n = case.get("n") or int(rng.integers(20, 120))
    if n > 300:
        n = 300
    x = np.arange(n)
    d = np.zeros(n)
    cs = rng.integers(0, n, rng.integers(1, 6))
    for c in cs:
        d += rng.uniform(0.5, 2) * np.exp(-((x - c) / rng.uniform(1, 4)) ** 2)
    d += rng.normal(size=n) * rng.choice([0, 0.01, 0.2])
    d = np.float64(d)
    pk = sorted(set(cs.tolist()) | set(rng.integers(0, n, 2).tolist()))
    if rng.random() < 0.3:
        pk = pk[::-1]
    tol, rad, sig, use = float(rng.choice([0.2, 0.5, 2.0])), int(rng.choice([11, 3, 5, 20])), int(rng.choice([0, 0, 1])), bool(rng.integers(0, 2))
    kd = d.copy()
    out = [int(v) for v in lip.select_good_peaks(d, pk, tol=tol, radius=rad, sigma=sig, use_offset=use)]
    check(np.array_equal(d, kd), "input data was changed")
    it = iter(pk)
    check(all(any(v == p for p in it) for v in out), "selected peaks %s are not a subset of %s in order", out, pk)
    if not hasattr(lip, "_get_gauss_peak_fit"):
        return
    y = ndi.gaussian_filter1d(d, sig) if sig > 0 else d
    want = []
    for p in pk:
        w = y[max(0, p - rad):min(n, p + rad + 1)]
        if len(w) > 3 and np.std(w) != 0:
            w = (w - w.min()) / np.std(w)
            fit, dx, off, ok = lip._get_gauss_peak_fit(w)
            e = np.percentile(np.abs(fit - w), 80)
            if min(abs(e - tol), abs(abs(dx) - rad // 2), abs(abs(off) - tol)) < 1e-6:
                return
            if ok and abs(dx) < rad // 2 and e < tol and (not use or abs(off) < tol):
                want.append(p)
    check(out == want, "selected peaks %s instead of %s (tol %g, radius %d, sigma %d, use_offset %s)", out, want, tol, rad, sig, use)


def run(case):
    rng = rng_of(case)
    dict(extrema=extrema, locate=locate, slope=slope, peaks=peaks)[case["kind"]](rng, case)
