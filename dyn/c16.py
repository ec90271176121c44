from common import *
import scipy.ndimage as ndi
import skimage.measure as meas
import skimage.morphology as morph
from skimage.segmentation import clear_border
from skimage.filters import threshold_otsu
import discorpy.prep.preprocessing as prep


def cases(seed, tier, hints):
    k = 0
    for i in range(40 if tier == "quick" else 800):
        for kd in ("size", "ratio", "distance", "norm", "fft", "bin", "roi"):
            k += 1
            yield dict(kind=kd, seed=seed * 1000 + k)
    for h, w in lit_shapes(["prep"], 1200, 260):
        if min(h, w) < 6:
            continue
        for kd in ("size", "ratio", "norm", "fft", "bin", "roi"):
            k += 1
            yield dict(kind=kd, seed=seed * 1000 + k, h=h, w=w)
    for n in lit_sizes(1, 200, ["prep"]):
        k += 1
        yield dict(kind="size", seed=seed * 1000 + k, dots=n)
        yield dict(kind="distance", seed=seed * 1000 + k, dots=n)


def blob(rng):
    """a connected 0/1 patch"""
    t = int(rng.integers(0, 5))
    if t == 0:
        return np.ones((int(rng.integers(1, 8)), int(rng.integers(1, 8))), int)
    if t == 1:
        a, b = rng.uniform(1, 5, 2)
        y, x = np.mgrid[-6:7, -6:7]
        return crop(((y / a) ** 2 + (x / b) ** 2 <= 1).astype(int))
    if t == 2:
        r = rng.uniform(2, 5)
        y, x = np.mgrid[-6:7, -6:7]
        return crop(((y * y + x * x <= r * r) & (y * y + x * x >= (r - 1.6) ** 2)).astype(int))
    if t == 3:
        n = int(rng.integers(2, 7))
        m = np.zeros((n, n), int)
        m[0, :] = 1
        m[:, 0] = 1
        return m
    m = (rng.random((7, 7)) < 0.6).astype(int)
    L, n = ndi.label(m)
    if n == 0:
        return np.ones((2, 2), int)
    return crop((L == 1 + np.argmax(np.bincount(L.ravel())[1:])).astype(int))


def crop(m):
    ys, xs = np.nonzero(m)
    return m[ys.min():ys.max() + 1, xs.min():xs.max() + 1]


def dots(rng, case):
    """an image of blobs whose bounding boxes (grown by one pixel) are disjoint"""
    want = case.get("dots") or int(rng.integers(1, 40))
    h = case.get("h") or int(rng.integers(20, 110)) + (want // 4)
    w = case.get("w") or int(rng.integers(20, 110)) + (want // 4)
    m, used = np.zeros((h, w), int), np.zeros((h + 2, w + 2), bool)
    for _ in range(want * 4):
        b = blob(rng)
        a, c = b.shape
        if a > h or c > w:
            continue
        y, x = int(rng.integers(0, h - a + 1)), int(rng.integers(0, w - c + 1))
        if used[y:y + a + 2, x:x + c + 2].any():
            continue
        used[y + 1:y + a + 1, x + 1:x + c + 1] = True
        m[y:y + a, x:x + c] = b
        want -= 1
        if want == 0:
            break
    return m


def select_oracle(m, keep, out, name):
    """keep: list of True/False/None (undecided by rounding) per dot"""
    L, n = ndi.label(m)
    check(out.shape == m.shape, "%s: shape %s", name, out.shape)
    check(np.isin(np.asarray(out), (0, 1)).all(), "%s: values other than 0 and 1", name)
    check(not np.any((out != 0) & (m == 0)), "%s: sets a pixel that is not set in the input", name)
    for k in range(n):
        part = np.asarray(out)[L == k + 1]
        check(part.all() or not part.any(), "%s: dot %d is kept in part", name, k)
        if keep[k] is not None:
            check(bool(part.all()) == keep[k], "%s: dot %d of %d %s", name, k, n, "dropped" if keep[k] else "kept")


def margin(v, lim):
    """v < lim, or None when too close to call"""
    if not np.isfinite(v):
        return False
    return None if abs(v - lim) < 1e-9 * (1 + abs(lim)) else bool(v < lim)


def run(case):
    rng = rng_of(case)
    kind = case["kind"]
    R = lambda *a: a[int(rng.integers(0, len(a)))]
    if kind in ("size", "ratio", "distance"):
        m = dots(rng, case)
        dt = R(np.int64, np.int16, np.uint8, np.float32, np.float64, bool)
        L, n = ndi.label(m)
        if kind == "size":
            sizes = np.bincount(L.ravel(), minlength=n + 1)[1:]
            ref = R(float(np.median(sizes)) if n else 5.0, float(rng.uniform(1, 40)), int(rng.integers(1, 30)))
            ratio = R(0.3, 0.0, 0.1, 0.5, 1.0, 1.5, float(rng.uniform(0, 1)))
            lo, hi = max(ref - ratio * ref, 0), ref + ratio * ref
            keep = [None if min(abs(s - lo), abs(s - hi)) < 1e-9 and (s != lo and s != hi) else bool(lo <= s <= hi) for s in sizes]
            out = prep.select_dots_based_size(m.astype(dt), ref, ratio)
            select_oracle(m, keep, out, "select_dots_based_size(%g, %g)" % (ref, ratio))
        elif kind == "ratio":
            ratio = R(0.3, 0.05, 0.1, 0.6, 1.2, 3.0)
            keep = []
            for sl, k in zip(ndi.find_objects(L), range(n)):
                b = (L[sl] == k + 1).astype(int)
                if min(b.shape) < 2:
                    keep.append(False)
                    continue
                p = meas.regionprops(b)[0]
                keep.append(margin(abs(p.major_axis_length / p.minor_axis_length - 1), ratio) if p.minor_axis_length > 1e-6 else None)
            out = prep.select_dots_based_ratio(m.astype(dt), ratio)
            select_oracle(m, keep, out, "select_dots_based_ratio(%g)" % ratio)
        else:
            c = np.array([np.argwhere(L == k + 1).mean(axis=0) for k in range(n)]).reshape(-1, 2)
            dd = float(rng.uniform(4, 15))
            ratio = R(0.3, 0.05, 0.1, 0.6)
            keep = []
            for k in range(n):
                d = np.sort(np.hypot(*(c - c[k]).T))[1:4]
                e = [margin(x / dd - np.floor(x / dd + 1e-12), ratio) if abs(x / dd - round(x / dd)) > 1e-9 else None for x in d]
                keep.append(True if True in e else (None if None in e else False))
            if n == 0:
                return
            out = prep.select_dots_based_distance(m.astype(dt), dd, ratio)
            select_oracle(m, keep, out, "select_dots_based_distance(%g, %g)" % (dd, ratio))
        return
    h, w = case.get("h") or int(rng.integers(6, 90)), case.get("w") or int(rng.integers(6, 90))
    if kind == "roi":
        f = getattr(prep, "_select_roi", None)
        if f is None:
            return
        m = np.arange(h * w).reshape(h, w)
        r = R(0.3, 0.0, 1.0, 2.0, 0.05, float(rng.uniform(0, 1)))
        sq = R(True, False)
        o = f(m, r, square=sq)
        rc = min(max(r, 0.05), 1.0)
        if o.size == 0:
            check(sq and int(rc * min(h, w)) < 2, "roi of a %dx%d image is empty", h, w)
            return
        y0, x0 = divmod(int(o[0, 0]), w)
        check(y0 + o.shape[0] <= h and x0 + o.shape[1] <= w and np.array_equal(o, m[y0:y0 + o.shape[0], x0:x0 + o.shape[1]]), "roi is not a part of the image")
        for a, s, n in ((y0, o.shape[0], h), (x0, o.shape[1], w)):
            check(abs(a - (n - a - s)) <= 1, "roi is not centred: starts at %d, ends %d before the end", a, n - a - s)
            want = rc * (min(h, w) if sq else n)
            check(abs(s - want) <= 2, "roi of size %d instead of about %g", s, want)
        if sq:
            check(o.shape[0] == o.shape[1], "roi not square")
        return
    t = int(rng.integers(0, 5))
    img = rng.random((h, w)) * R(1, 50, 250)
    if t == 1:
        img[rng.random((h, w)) < 0.7] = 0
    elif t == 2:
        img[:] = R(0, 3)
    elif t == 3:
        img[: h // 2] = 0
    elif t == 4:
        img = np.rint(img)
    dt = R(np.float64, np.float32, np.uint8, np.uint16, np.int64)
    img = img.astype(dt)
    fimg = img.astype(np.float64)
    if kind in ("norm", "fft"):
        if kind == "norm":
            size = R(3, 5, 4, 11, 51)
            out = prep.normalization(img, size)
            bck = ndi.median_filter(img, size, mode="reflect").astype(np.float64)
            tol = 1e-5
        else:
            sigma, pad, mode = R(5, 10, 3, 20.5), R(0, 5, 12, 40), R("reflect", "edge", "constant")
            out = prep.normalization_fft(img, sigma, pad, mode)
            p = np.pad(fimg, pad, mode=mode)
            y, x = np.arange(p.shape[0])[:, None], np.arange(p.shape[1])[None]
            s = np.where((y + x) % 2, -1.0, 1.0)
            win = np.exp(-((y - (p.shape[0] - 1) / 2) ** 2 + (x - (p.shape[1] - 1) / 2) ** 2) / (2 * sigma ** 2))
            b = np.real(np.fft.ifft2(np.fft.fft2(p * s) * win) * s)
            bck = b[pad:pad + h, pad:pad + w]
            tol = 1e-4
        check(out.shape == (h, w), "shape %s", out.shape)
        check(np.isfinite(out).all(), "%s gives NaN or infinity (%s image %dx%d, case %d)", kind, dt.__name__, h, w, t)
        mean = bck.mean()
        div = np.where(bck == 0, mean if mean != 0 else 1.0, bck)
        e = mean * fimg / div
        sure = (np.abs(bck) > 1e-6 * (1 + np.abs(bck).max())) | (bck == 0) & (kind == "norm")
        o = np.asarray(out, float)
        bad = sure & ~(np.abs(o - e) <= tol * (1 + np.abs(e)) * (1 if kind == "norm" else np.maximum(1, np.abs(bck).max() / np.maximum(np.abs(bck), 1e-30))))
        check(not bad.any(), "normalised image differs from mean(background) * image / background at %s", np.argwhere(bad)[:1].tolist())
        return
    # binarization
    if t < 4 or rng.random() < 0.5:
        img = (0.9 - 0.8 * dots(rng, dict(h=h, w=w))) * R(1, 100) + 0.05 * rng.random((h, w))
        if R(0, 1):
            img = img.max() - img
        img = img.astype(R(np.float64, np.float32)) if img.max() < 2 else img.astype(R(np.float64, np.float32, np.uint8))
    ratio, thres, dn = R(0.3, 0.6, 1.0), R(None, float(np.mean(img)), float(img.flat[int(rng.integers(0, img.size))])), R(True, False)
    if rng.random() < 0.1:
        # a block of exactly half the image: not more than half of it is set
        h, w, bh, bw = R((12, 12, 8, 9), (12, 12, 9, 8), (20, 16, 16, 10), (24, 24, 18, 16))
        img = np.zeros((h, w), R(np.float64, np.uint8, np.float32))
        y, x = int(rng.integers(1, h - bh)), int(rng.integers(1, w - bw))
        img[y:y + bh, x:x + bw] = R(1, 5)
        thres, dn = 0.5, False
    try:
        out = prep.binarization(img, ratio=ratio, thres=thres, denoise=dn)
    except ValueError:
        return                                   # a flat region of interest has no Otsu threshold
    check(out.shape == img.shape and np.isin(out, (0, 1)).all(), "binarised image is not a 0/1 image of the same shape")
    check(not (out[0].any() or out[-1].any() or out[:, 0].any() or out[:, -1].any()), "binarised image has a set pixel on its border")
    check(np.array_equal(ndi.binary_fill_holes(out), out == 1), "binarised image has holes")
    m = ndi.median_filter(np.abs(img), (2, 2)) if dn else img
    if thres is None:
        a, b = int((h - ratio * h) / 2), int((w - ratio * w) / 2)
        thres = threshold_otsu(m[a:h - a, b:w - b], nbins=512)
    b = (m > thres)
    if b.sum() / (h * w) > 0.5:
        b = b.max() ^ b if b.max() else b
    b = morph.opening(clear_border(b.astype(np.float32)), morph.disk(1))
    e = ndi.binary_fill_holes(b)
    check(np.array_equal(e, out == 1), "binarised image differs from threshold, inversion, border clearing, opening and hole filling in %d pixels", int((e != (out == 1)).sum()))
