from common import *
import discorpy.proc.processing as proc
import discorpy.util.utility as util
from c02 import near, positions, MODES

PMODES = ["constant", "reflect", "edge", "mean", "symmetric", "linear_ramp", "wrap"]
BAD = [(1, 2, 3), [1, 2], (), (1, 2, 3, 4, 5), "auto", None, 2.5, {"top": 1}]


def cases(seed, tier, hints):
    n = 0
    for i in range(len(BAD)):
        yield dict(kind="bad", seed=seed, i=i)
    for i in range(60 if tier == "quick" else 1500):
        for kd in ("tuple", "list", "int", "auto", "false"):
            n += 1
            yield dict(kind=kd, seed=seed * 1000 + n, fn=["color2", "color3", "cv2", "cv3"][(i + n) % 4] if kd != "auto" else ["color2", "color3", "cv2"][i % 3], big=0)
    for v in lit_shapes(["util"], 2600, 300)[:40]:
        n += 1
        yield dict(kind=["tuple", "auto"][n % 2], seed=seed * 1000 + n, fn=["color2", "color3"][n % 2], big=list(v))
    for i in range(40 if tier == "quick" else 600):
        n += 1
        yield dict(kind="corner", seed=seed * 1000 + n)


def model(rng, h, w):
    s = 0.6 * max(h, w)
    return [1.0, float(rng.normal() * 0.01) / s, float(rng.choice([-1, 1]) * rng.uniform(0.02, 0.25)) / s ** 2, float(rng.normal() * 0.003) / s ** 3]


def auto(h, w, xc, yc, f):
    """how far the undistorted corners stick out: top, bottom, left, right"""
    ref = [[i - yc, j - xc] for i in np.linspace(0, h, 40) for j in np.linspace(0, w, 40)]
    t = proc.transform_coef_backward_and_forward(f, ref_points=ref)

    def go(y, x):
        r = np.hypot(y - yc, x - xc)
        F = sum(c * r ** i for i, c in enumerate(t))
        return yc + F * (y - yc), xc + F * (x - xc)
    tl, tr, br, bl = go(0, 0), go(0, w - 1), go(h - 1, w - 1), go(h - 1, 0)
    return [-min(tl[0], tr[0]), max(bl[0], br[0]) - h, -min(tl[1], bl[1]), max(tr[1], br[1]) - w]


def agree(got, want, what):
    got = [int(v) for v in got]
    for g, s, d in zip(got, want, ("top", "bottom", "left", "right")):
        eps = 1e-3 + 1e-5 * abs(s)
        check(max(0, int(max(0.0, s - eps))) <= g <= max(0, int(max(0.0, s + eps))), "%s: %s pad %d, the corners stick out by %g", what, d, g, s)


def run(case):
    rng = rng_of(case)
    kind = case["kind"]
    h, w = [int(v) for v in rng.integers(4, 60, 2)]
    if case.get("big"):
        h, w = case["big"]
    xc, yc = float(rng.uniform(0.2, 0.8) * w), float(rng.uniform(0.2, 0.8) * h)
    if rng.random() < 0.15:
        xc, yc = rand_centre(rng, h, w)
    f = model(rng, h, w)
    if kind == "bad":
        img = rng.uniform(0, 1, (h, w))
        raises(ValueError, util.unwarp_color_image_backward, img, xc, yc, f, pad=BAD[case["i"]])
        raises(ValueError, private(util, "_calc_pad"), BAD[case["i"]], h, w, xc, yc, f)
        return
    if kind == "corner":
        h, w = [int(v) for v in rng.integers(30, 3000, 2)]
        xc, yc = float(rng.uniform(0.05, 0.95) * w), float(rng.uniform(0.05, 0.95) * h)
        f = model(rng, h, w)
        agree(private(util, "_calc_pad")(True, h, w, xc, yc, f), auto(h, w, xc, yc, f), "automatic pad of a %dx%d image" % (h, w))
        return
    fn = case["fn"]
    img = rng.uniform(0.1, 1, (h, w) if fn.endswith("2") else (h, w, 3))
    pads = [int(v) for v in rng.integers(0, 9, 4)]
    pad = tuple(pads)
    if kind == "list":
        pad = pads[:]
    elif kind == "int":
        pad = int(pads[0])
        pads = [pad] * 4
    elif kind == "false":
        pad, pads = False, [0] * 4
    elif kind == "auto":
        pad = True
        st = auto(h, w, xc, yc, f)
        if max(st) > 300:
            return
    pm = PMODES[int(rng.integers(0, len(PMODES)))]
    order, mode = int(rng.integers(0, 4)), MODES[int(rng.integers(0, len(MODES)))]
    if pm in ("reflect", "symmetric", "wrap") and min(h, w) < 10:
        pm = "constant"
    kw = dict(pad=pad)
    if rng.random() < 0.75:
        kw["pad_mode"] = pm
    else:
        pm = "constant"
    keep = img.copy()
    if fn.startswith("cv"):
        try:
            import cv2            # noqa: F401
        except ImportError:
            return
        img = img.astype(np.float32)
        keep = img.copy()
        out = util.unwarp_image_backward_cv2(img, xc, yc, f, **kw)
    else:
        kw.update(order=order, mode=mode)
        out = util.unwarp_color_image_backward(img, xc, yc, f, **kw)
    check(np.array_equal(img, keep), "input image changed")
    if kind == "auto":
        pads = list(private(util, "_calc_pad")(True, h, w, xc, yc, f))
        agree(pads, st, "automatic pad")
    t, b, l, r = [int(v) for v in pads]
    P = np.pad(img, [(t, b), (l, r)] + ([(0, 0)] if img.ndim == 3 else []), mode=pm)
    check(out.shape == P.shape, "%s pad %s: shape %s instead of %s", fn, pad, out.shape, P.shape)
    px, py = positions(P.shape[0], P.shape[1], xc + l, yc + t, f)
    if fn.startswith("cv"):
        ref = util.unwarp_image_backward_cv2(P, xc + l, yc + t, f)
        close(out, ref, "padded view (opencv)", 5e-2, 1)
        return
    for c in range(1 if img.ndim == 2 else 3):
        a, o = (P, out) if img.ndim == 2 else (P[..., c], out[..., c])
        near(np.asarray(a, float), py, px, o, order, mode, "%s pad %s %s" % (fn, pad, pm), 2e-5)
