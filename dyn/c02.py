from common import *
import discorpy.post.postprocessing as post
import discorpy.util.utility as util
from scipy.ndimage import map_coordinates

MODES = ["reflect", "nearest", "constant", "mirror", "wrap", "grid-wrap", "grid-mirror", "grid-constant"]


def sizes():
    s = [(1, 1), (1, 7), (7, 1), (2, 3), (16, 16), (21, 33), (40, 25), (64, 64), (1, 33000), (33000, 2)]
    return s + lit_shapes(["post", "util"])


def cases(seed, tier, hints):
    for hnt in hints:
        h, w = int(min(max(hnt.get("h", 20), 1), 3000)), int(min(max(hnt.get("w", 20), 1), 3000))
        if h * w > 4e6:
            h = w = 40
        for fn in ("gray", "color2", "color3", "cv2", "cv3"):
            for i in range(4):
                yield dict(kind=fn, seed=seed + i, h=h, w=w, m=int(min(max(hnt.get("m", 3), 1), 8)), order=1, mode="reflect", dt="f8")
    n = 0
    for method in (0, 1, 2, 4):
        for border in (None, 0, 1, 2, 4):
            for k in ("cv2", "cv3"):
                n += 1
                yield dict(kind=k, seed=seed * 1000 + 700 + n, h=30 + n, w=25 + 2 * (n % 7), m=1 + n % 4, order=1, mode="reflect", dt=["f4", "u1"][n % 2], method=method, border=border)
    for h, w in sizes():
        for fn in ("gray", "color2", "color3", "cv2", "cv3") if h * w < 5000 or max(h, w) == 33000 else (("gray",), ("color2", "cv3"), ("color3", "cv2"))[n % 3]:
            n += 1
            if fn.startswith("cv") and max(h, w) > 30000:
                continue                      # more than OpenCV handles
            yield dict(kind=fn, seed=seed * 1000 + n, h=h, w=w, m=1 + n % 6, order=1, mode="reflect", dt=["f8", "f4", "u1"][n % 3])
    for i in range(40 if tier == "quick" else 1500):
        for fn in ("gray", "color2", "color3", "cv2", "cv3"):
            n += 1
            r = np.random.default_rng([seed, n])
            yield dict(kind=fn, seed=seed * 1000 + n, h=int(r.integers(1, 60)), w=int(r.integers(1, 60)), m=int(r.integers(1, 8)),
                       order=int(r.integers(0, 6)), mode=MODES[int(r.integers(0, len(MODES)))], dt=["f8", "f4", "u1", "u2"][n % 4])


def positions(h, w, xc, yc, f):
    x, y = np.meshgrid(np.arange(w, dtype=float) - xc, np.arange(h, dtype=float) - yc)
    r = np.sqrt(x * x + y * y)
    F = np.zeros_like(r)
    for c in reversed([float(v) for v in f]):
        F = F * r + c
    return np.clip(xc + F * x, 0, w - 1), np.clip(yc + F * y, 0, h - 1)


def near(img, py, px, out, order, mode, what, tol):
    """out must be the sample of img at (py, px), positions being known to about single precision"""
    big = max(img.shape) + 1.0
    eps = 4e-7 * big + 1e-6
    if order == 0:
        ok = np.zeros(out.shape, bool)
        for dy in (-eps, 0, eps):
            for dx in (-eps, 0, eps):
                e = map_coordinates(img, [py + dy, px + dx], order=0, mode=mode)
                ok |= np.abs(np.asarray(out, float) - e) <= 1e-6
        if not ok.all():
            i = tuple(int(v[0]) for v in np.nonzero(~ok))
            raise Fail("%s: pixel %s is %r, not the nearest source pixel at (%r, %r)" % (what, i, out[i], py[i], px[i]))
        return
    e = map_coordinates(np.asarray(img, float), [py, px], order=order, mode=mode)
    d = np.abs(np.asarray(out, float) - e)
    scale = float(np.max(np.abs(img))) if img.size else 1.0
    t = tol * max(scale, 1e-3) * (3 if order > 1 else 1) + 30 * eps * scale
    bad = ~(d <= t)
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad))
        raise Fail("%s: pixel %s is %r, sample at (y=%r, x=%r) is %r" % (what, i, float(out[i]), float(py[i]), float(px[i]), float(e[i])))


def mk(case):
    rng = rng_of(case)
    h, w = case["h"], case["w"]
    xc, yc = rand_centre(rng, h, w)
    f = rand_fact(rng, 0.7 * max(h, w), n=case["m"])
    if rng.random() < 0.25:
        f = np.asarray(f)
    dt = {"f8": np.float64, "f4": np.float32, "u1": np.uint8, "u2": np.uint16}[case["dt"]]
    k = case["kind"]
    shp = (h, w) if k in ("gray", "color2", "cv2") else (h, w, int(rng.integers(1, 5)) if rng.random() < 0.75 else int(rng.choice([5, 6, 7, 9, 17])))
    if k == "cv3":
        shp = (h, w, 3)
    img = rng.uniform(0, 1, shp)
    img = (img * (200 if dt in (np.uint8, np.uint16) else 1)).astype(dt)
    return img, xc, yc, f, rng


def flags(case, img, xc, yc, f, px, py):
    """the requested interpolation and border flags are the ones used: between OpenCV's own samples around the position"""
    import cv2
    kw = dict(method=case["method"])
    if case["border"] is not None:
        kw["border"] = case["border"]
    out = util.unwarp_image_backward_cv2(img, xc, yc, f, **kw)
    check(out.shape == img.shape, "shape %s for %s", out.shape, img.shape)
    lo = hi = None
    for dy in (-0.05, 0, 0.05):
        for dx in (-0.05, 0, 0.05):
            e = cv2.remap(img, np.float32(px + dx), np.float32(py + dy), interpolation=case["method"], borderMode=cv2.BORDER_REPLICATE)
            lo = e if lo is None else np.minimum(lo, e)
            hi = e if hi is None else np.maximum(hi, e)
    if case["method"] == 0:
        bad = np.ones(out.shape, bool)
        for dy in (-0.05, 0, 0.05):
            for dx in (-0.05, 0, 0.05):
                e = cv2.remap(img, np.float32(np.clip(px + dx, 0, case["w"] - 1)), np.float32(np.clip(py + dy, 0, case["h"] - 1)), interpolation=0, borderMode=cv2.BORDER_REPLICATE)
                bad &= out != e
    else:
        sl = 2 if img.dtype.kind == "u" else 0.02
        bad = ~((out >= lo.astype(float) - sl) & (out <= hi.astype(float) + sl))
    # away from the edge, where the border flag plays no role
    b2 = bad.any(axis=2) if bad.ndim == 3 else bad
    b2 = b2 & (px >= 4) & (py >= 4) & (px <= case["w"] - 6) & (py <= case["h"] - 6)
    if b2.any():
        i = tuple(int(v[0]) for v in np.nonzero(b2))
        raise Fail("opencv variant, method=%s border=%s: pixel %s is %r, expected between %r and %r" % (case["method"], case["border"], i, out[i], lo[i], hi[i]))


def run(case):
    img, xc, yc, f, rng = mk(case)
    k = case["kind"]
    px, py = positions(case["h"], case["w"], xc, yc, f)
    integer = img.dtype.kind in "u"
    if k in ("cv2", "cv3"):
        try:
            import cv2
        except ImportError:
            return
        if img.dtype == np.float64:
            img = img.astype(np.float32)
        if "method" in case:
            return flags(case, img, xc, yc, f, px, py)
        out = util.unwarp_image_backward_cv2(img, xc, yc, f)
        shp = img.shape
        check(out.shape == shp, "shape %s for %s", out.shape, shp)
        # opencv interpolates with 1/32 pixel accuracy
        chans = [(img, out)] if img.ndim == 2 else [(img[..., c], out[..., c]) for c in range(img.shape[2])]
        for a, b in chans:
            lo = hi = None
            for dy in (-0.04, 0, 0.04):
                for dx in (-0.04, 0, 0.04):
                    e = map_coordinates(np.asarray(a, float), [np.clip(py + dy, 0, case["h"] - 1), np.clip(px + dx, 0, case["w"] - 1)], order=1, mode="nearest")
                    lo = e if lo is None else np.minimum(lo, e)
                    hi = e if hi is None else np.maximum(hi, e)
            sl = (1.5 if integer else 0.02 * max(1e-3, float(np.max(np.abs(a)))))
            bad = ~((b >= lo - sl) & (b <= hi + sl))
            if bad.any():
                i = tuple(int(v[0]) for v in np.nonzero(bad))
                raise Fail("opencv variant: pixel %s is %r, expected within [%r, %r] (position y=%r x=%r)" % (i, float(b[i]), float(lo[i]), float(hi[i]), float(py[i]), float(px[i])))
        return
    default = case["order"] == 1 and case["mode"] == "reflect"
    kw = {} if default else dict(order=case["order"], mode=case["mode"])
    fn = post.unwarp_image_backward if k == "gray" else util.unwarp_color_image_backward
    out = fn(img, xc, yc, f, **kw)
    check(out.shape == img.shape, "%s: shape %s for %s", k, out.shape, img.shape)
    tol = 2e-5
    if integer:
        img = img.astype(np.float64)
        sl = 1.01 if case["order"] else 0
        if case["order"] == 0:
            pass
        chans = [(img, out)] if img.ndim == 2 else [(img[..., c], out[..., c]) for c in range(img.shape[2])]
        for a, b in chans:
            e = map_coordinates(a, [py, px], order=case["order"], mode=case["mode"])
            if case["order"] == 0:
                near(a, py, px, b, 0, case["mode"], k, tol)
            elif case["order"] == 1:
                d = np.abs(np.asarray(b, float) - e)
                check((d <= sl + 0.3).all(), "%s: integer image sample off by %r", k, float(d.max()))
        return
    chans = [(img, out)] if img.ndim == 2 else [(img[..., c], out[..., c]) for c in range(img.shape[2])]
    for a, b in chans:
        near(np.asarray(a, float), py, px, b, case["order"], case["mode"], k, tol)
