"""C16: dot selections are masks of the input; binarised images are 0/1; normalised images are finite; regions of interest are centred."""
from .base import *

LEVEL = "proof"
ASSUME = ["scipy.ndimage.label numbers the connected components of the non-zero pixels 1..n, find_objects gives their bounding boxes in that order",
          "skimage.measure.regionprops: the axis lengths are a function of the (0/1) image of the dot",
          "median_filter, threshold_otsu, clear_border, opening, binary_fill_holes, fft2 and ifft2 are functions of their arguments which keep the shape; binary_fill_holes gives booleans"]


def image(dt="i8"):
    h, w = var("h", "I", nn=True), var("w", "I", nn=True)
    return farr("img", (h, w), dt, org="mat"), h, w


def binary(dt="i8"):
    """an arbitrary 0/1 image"""
    h, w = var("h", "I", nn=True), var("w", "I", nn=True)
    evalt.INPUT.add("on")
    on = lambda y, x: T("app", ("on", num(y), num(x)), "B")
    return SArr((h, w), lambda ix: ite(on(*ix), ONE, ZERO), dt, org="mat"), h, w, on


def labelling(h, w, on):
    t = SArr((h, w), lambda ix: ite(on(*ix), ONE, ZERO), "i8").to_term()
    lab = lambda y, x: T("app", ("label", t, y, x), "I")
    box = lambda k, q: T("app", ("objbox", t, num(k), q), "I")
    return t, lab, box, T("app", ("nlabel", t), "I")


def alone(k, y, x, lab, box, on):
    """precondition: the bounding box of a dot contains no pixel of another dot (instance)"""
    return implies(and_(le(box(k, 0), y), lt(y, box(k, 1)), le(box(k, 2), x), lt(x, box(k, 3)), on(y, x)), eq(lab(y, x), k + 1))


def subterms(t):
    seen = set()

    def go(u):
        if u in seen:
            return
        seen.add(u)
        if u.op == "poly":
            for m, c in u.args:
                for a, e in m:
                    go(a)
        else:
            for a in u.args:
                if isinstance(a, T):
                    go(a)
                elif isinstance(a, (tuple, frozenset, list)):
                    for z in a:
                        if isinstance(z, T):
                            go(z)
    go(t)
    return seen


def selection(fn, criterion, dts):
    def run(S):
        for dt in dts:
            m, h, w, on = binary(dt)
            t, lab, box, n = labelling(h, w, on)
            y, x = idx("y", "x")
            args, crit = criterion(m, box, t, n)
            nm = "%s[%s]" % (fn, dt)
            for I, hyps, v in each(S, nm, PREP + "." + fn, [m] + args, facts=[ge(h, ONE), ge(w, ONE)]):
                S.frame(nm, I)
                S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], h), eq(v.shape[1], w)))
                hy = hyps + [inr(y, h), inr(x, w)]
                S.cover(nm, hy)
                val = v.get((y, x))
                S.oblige(nm + ".never_sets_a_pixel", hy + [not_(on(y, x))], eq(val, ZERO))
                # a pixel is copied exactly when some selected box covers it; a box that contains one dot only is that dot's own
                k0 = lab(y, x) - 1
                keep = crit(I, k0)
                hk = hy + [on(y, x)]
                ex = [u for u in subterms(val) if u.op == "exists"]
                top = [u for u in ex if not any(u is not z and u in subterms(z) for z in ex)]
                if len(top) == 1 and top[0].args[0] is n:
                    B = lambda q: tm.lam_apply(top[0].args[1], (q,))
                    k = var("k", "I")
                    m2 = tm.subst(val, {top[0]: TRUE})
                    S.oblige(nm + ".value_of_a_copied_pixel", hk, eq(m2, ONE))
                    S.oblige(nm + ".value_of_another_pixel", hk, eq(tm.subst(val, {top[0]: FALSE}), ZERO))
                    S.oblige(nm + ".keeps_whole", hk + [keep], and_(inr(k0, n), B(k0)))
                    S.oblige(nm + ".copied_by_its_own_box_only", hk + [inr(k, n), B(k), alone(k, y, x, lab, box, on)], eq(k, k0))
                    S.oblige(nm + ".drops_whole", hk + [B(k0)], keep)
                else:
                    S.oblige(nm + ".keeps_whole", hk + [keep], eq(val, ONE))
                    S.oblige(nm + ".drops_whole", hk + [not_(keep), forall(n, lambda k: alone(k, y, x, lab, box, on))], eq(val, ZERO))
    return run


def crit_size(m, box, t, n):
    size, ratio = var("size"), var("ratio")

    def crit(I, k):
        s = sum_(box(k, 1) - box(k, 0), lambda a: sum_(box(k, 3) - box(k, 2), lambda b: m.get((box(k, 0) + a, box(k, 2) + b))))
        return and_(ge(s, maxv(size - ratio * size, ZERO)), le(s, size + ratio * size))
    return [size, ratio], crit


def crit_ratio(m, box, t, n):
    ratio = var("ratio")

    def crit(I, k):
        hh, ww = box(k, 1) - box(k, 0), box(k, 3) - box(k, 2)
        sub = SArr((hh, ww), lambda ix: m.get((box(k, 0) + ix[0], box(k, 2) + ix[1])), "i2").to_term()
        ax = lambda s: T("app", (s + "_axis", sub), "R")
        return and_(ge(hh, const(2)), ge(ww, const(2)), lt(absv(ax("major") / ax("minor") - 1), ratio))
    return [ratio], crit


def crit_dist(m, box, t, n):
    dist, ratio = var("dist"), var("ratio")
    xt = m.to_term()

    def crit(I, k):
        c = lambda j, a: T("app", ("centroid", xt, t, num(j) + 1, a), "R")
        ds = SArr((n,), lambda ix: sqrt((c(k, 0) - c(ix[0], 0)) * (c(k, 0) - c(ix[0], 0)) + (c(k, 1) - c(ix[0], 1)) * (c(k, 1) - c(ix[0], 1))), "f8")
        o = lambda i: ds.get((T("app", ("argsort", ds.to_term(), num(i)), "I"),))
        near = lambda i: lt((o(i) - floor(o(i) / dist) * dist) / dist, ratio)
        return exists(minv(n - 1, const(3)), lambda i: near(i + 1))
    return [dist, ratio], crit


def sec_roi(square):
    def run(S):
        m, h, w = image("f8")
        r = var("ratio")
        i, j = idx("i", "j")
        nm = "_select_roi[%s]" % ("square" if square else "rect")
        rc = minv(maxv(r, num(0.05)), ONE)
        for I, hyps, v in each(S, nm, PREP + "._select_roi", [m, r], dict(square=square), facts=[ge(h, ONE), ge(w, ONE)]):
            S.cover(nm, hyps)
            if square:
                k = tm.idiv(floor(rc * minv(h, w)), const(2))
                a, b, hh, ww = tm.idiv(h, const(2)) - k, tm.idiv(w, const(2)) - k, 2 * k, 2 * k
            else:
                a, b = floor((h - rc * h) / 2), floor((w - rc * w) / 2)
                hh, ww = h - 2 * a, w - 2 * b
            S.oblige(nm + ".inside", hyps, and_(ge(a, ZERO), ge(b, ZERO), le(a + hh, h), le(b + ww, w)))
            S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], hh), eq(v.shape[1], ww)))
            S.oblige(nm + ".pixels", hyps + [inr(i, hh), inr(j, ww)], eq(v.get((i, j)), m.get((a + i, b + j))))
    return run


def sec_norm(dt):
    def run(S):
        m, h, w = image(dt)
        sz = var("size", "I", nn=True)
        y, x = idx("y", "x")
        nm = "normalization[%s]" % dt
        for I, hyps, v in each(S, nm, PREP + ".normalization", [m, sz], facts=[ge(h, ONE), ge(w, ONE), ge(sz, ONE)]):
            bck = LIB["scipy.ndimage.median_filter"](I, m, sz, mode="reflect")
            norm_post(S, nm, I, hyps, v, m, bck, h, w, y, x)
    return run


def norm_post(S, nm, I, hyps, v, m, bck, h, w, y, x):
    mean = sum_(h, lambda a: sum_(w, lambda b: bck.get((a, b)))) / (h * w)
    S.frame(nm, I)
    S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], h), eq(v.shape[1], w)))
    hy = hyps + [inr(y, h), inr(x, w)]
    S.cover(nm, hy)
    d = ite(ne(bck.get((y, x)), ZERO), bck.get((y, x)), ite(ne(mean, ZERO), mean, ONE))
    S.oblige(nm + ".divisor_nonzero", hy, ne(d, ZERO))
    S.oblige(nm + ".pixel", hy, eq(v.get((y, x)), mean * m.get((y, x)) / d))


def sec_norm_fft(dt):
    def run(S):
        m, h, w = image(dt)
        sg, pad = var("sigma"), var("pad", "I", nn=True)
        y, x = idx("y", "x")
        nm = "_apply_fft_filter[%s]" % dt
        for mode in ("reflect", "edge", "constant"):
            for I, hyps, v in each(S, nm, PREP + "._apply_fft_filter", [m, sg, pad], dict(mode=mode), facts=[ge(h, ONE), ge(w, ONE), gt(sg, ZERO)]):
                S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], h), eq(v.shape[1], w)))
                # complex spectra are opaque: real parts and products are compared as expressions only
                H, W = h + 2 * pad, w + 2 * pad
                pm = LIB["numpy.pad"](I, m, ((pad, pad), (pad, pad)), mode=mode)
                sign = lambda a, b: tm.power(const(-1), a + b)
                sp = LIB["scipy.fftpack.fft2"](I, SArr((H, W), lambda ix: pm.get(ix) * sign(*ix), "f8"))
                win = lambda a, b: T("app", ("exp", -((b - (W - 1) / 2) * (b - (W - 1) / 2) + (a - (H - 1) / 2) * (a - (H - 1) / 2)) / (2 * sg * sg)), "R")
                back = LIB["scipy.fftpack.ifft2"](I, SArr((H, W), lambda ix: sp.get(ix) * win(*ix), "f8"))
                S.oblige(nm + ".pixel", hyps + [inr(y, h), inr(x, w)], eq(v.get((y, x)), back.get((y + pad, x + pad)) * sign(y + pad, x + pad)))
        bck = farr("bck", (h, w), "f8")

        def filt(I, ba):
            """contract: an image of the same shape, whatever its values"""
            a = ba["mat"]
            if a.ndim != 2 or a.shape[0] is not h or a.shape[1] is not w:
                raise Unsupported("filter of another image")
            return SArr((h, w), lambda ix: bck.get(ix), "f8")
        nm = "normalization_fft[%s]" % dt
        for I, hyps, v in each(S, nm, PREP + ".normalization_fft", [m, sg, pad], facts=[ge(h, ONE), ge(w, ONE), gt(sg, ZERO)],
                               summaries={PREP + "._apply_fft_filter": filt}):
            norm_post(S, nm, I, hyps, v, m, bck, h, w, y, x)
    return run


def binarized(I, m, h, w, th, denoise):
    """the documented sequence: (denoise,) threshold, invert when more than half is set, clear the border, open, fill holes"""
    if denoise:
        mm = m
        m = LIB["scipy.ndimage.median_filter"](I, SArr((h, w), lambda ix: absv(mm.get(ix)), m.dt), (2, 2))
    if th is None:
        r = num(0.3)
        a, b = floor((h - r * h) / 2), floor((w - r * w) / 2)
        th = LIB["skimage.filters.threshold_otsu"](I, SArr((h - 2 * a, w - 2 * b), lambda ix: m.get((ix[0] + a, ix[1] + b)), m.dt), nbins=512)
    on = SArr((h, w), lambda ix: ite(gt(m.get(ix), th), ONE, ZERO), "f4")
    frac = sum_(h, lambda a: sum_(w, lambda b: on.get((a, b)))) / (h * w)
    top = LIB["numpy.max"](I, on)
    inv = SArr((h, w), lambda ix: ite(gt(frac, HALF), top - on.get(ix), on.get(ix)), "f4")
    r = LIB["skimage.segmentation.clear_border"](I, inv)
    r = LIB["skimage.morphology.opening"](I, r, LIB["skimage.morphology.disk"](I, ONE))
    return LIB["scipy.ndimage.binary_fill_holes"](I, r)


def sec_bin(denoise, thres):
    def run(S):
        for dt in ("f8", "u1"):
            m, h, w = image(dt)
            th = var("thres") if thres else None
            y, x = idx("y", "x")
            nm = "binarization[%s,%s,%s]" % (dt, denoise, "thres" if thres else "auto")
            for I, hyps, v in each(S, nm, PREP + ".binarization", [m], dict(thres=th, denoise=denoise), facts=[ge(h, ONE), ge(w, ONE)]):
                S.frame(nm, I)
                S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], h), eq(v.shape[1], w)))
                hy = hyps + [inr(y, h), inr(x, w)]
                S.cover(nm, hy)
                S.oblige(nm + ".zero_or_one", hy, or_(eq(v.get((y, x)), ZERO), eq(v.get((y, x)), ONE)))
                S.oblige(nm + ".pixel", hy, eq(v.get((y, x)), ite(binarized(I, m, h, w, th, denoise).get((y, x)), ONE, ZERO)))
    return run


SECTIONS = [("size", selection("select_dots_based_size", crit_size, ("i8", "f8"))), ("ratio", selection("select_dots_based_ratio", crit_ratio, ("i8", "f8"))),
            ("distance", selection("select_dots_based_distance", crit_dist, ("i8", "f8"))),
            ("roi", sec_roi(False)), ("roi_square", sec_roi(True)), ("norm_f8", sec_norm("f8")), ("norm_u1", sec_norm("u1")), ("fft_f8", sec_norm_fft("f8")), ("fft_u1", sec_norm_fft("u1")),
            ("bin_dn", sec_bin(True, False)), ("bin_dn_t", sec_bin(True, True)), ("bin", sec_bin(False, False)), ("bin_t", sec_bin(False, True))]
