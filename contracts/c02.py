"""C02: backward image unwarping samples the source at the radial-model position."""
from .base import *

LEVEL = "proof"
ASSUME = ["scipy.ndimage.map_coordinates is a function of the image, the position, the order and the mode; at order 1 inside the image it is the bilinear interpolation",
          "cv2.remap is a function of the image, the position, the interpolation flag and the border flag",
          "numpy.pad with zero widths is the identity",
          "the result is compared before its conversion to the image's own data type"]


def setup():
    h, w, m = var("h", "I", nn=True), var("w", "I", nn=True), var("m", "I", nn=True)
    return h, w, m, var("xc"), var("yc")


def grid_case(S, nm, dotted, nd, order, mode, arr, samp=None, kw=None, extra=None):
    h, w, m, xc, yc = setup()
    fl, fa, fact = factor(m)
    nch = var("nch", "I", nn=True)
    mat = farr("img", (h, w) if nd == 2 else (h, w, nch), org="mat")
    y, x, c = idx("y", "x", "c")
    args = [mat, xc, yc, fa if arr else fl]
    kw = dict(kw or {})
    if order is not None:
        kw["order"], kw["mode"] = order, mode
    for I, hyps, v in each(S, nm, dotted, args, kw, facts=[ge(h, ONE), ge(w, ONE), ge(m, ONE), ge(nch, ONE)]):
        if not isinstance(v, SArr) or v.ndim != nd:
            S.record(nm + ".dims", False, "result has %s dimensions" % getattr(v, "ndim", "?"))
            continue
        S.oblige(nm + ".shape", hyps, and_(*[eq(a, b) for a, b in zip(v.shape, mat.shape)]))
        hy = hyps + [inr(y, h), inr(x, w)] + ([inr(c, nch)] if nd == 3 else [])
        S.cover(nm, hy)
        px, py = radial(x, y, xc, yc, fact, m)
        px, py = clipt(px, w - 1), clipt(py, h - 1)
        src = mat if nd == 2 else SArr((h, w), lambda ix: mat.get(tuple(ix) + (c,)), "f8")
        want = (samp or sample)(src, py, px, ONE if order is None else order, "reflect" if mode is None else (mode.term if isinstance(mode, Opaque) else mode))
        S.oblige(nm + ".pixel", hy, eq(v.get((y, x) + ((c,) if nd == 3 else ())), want), show=dict(h=h, w=w, m=m, xc=xc, yc=yc))
        S.frame(nm, I)


def sec_gray(S):
    for arr in (0, 1):
        grid_case(S, "unwarp_image_backward[default,%s]" % ("array" if arr else "list"), POST + ".unwarp_image_backward", 2, None, None, arr)
        grid_case(S, "unwarp_image_backward[order,mode,%s]" % ("array" if arr else "list"), POST + ".unwarp_image_backward", 2, var("order", "I"), MODE, arr)


def sec_colour(S):
    for nd in (2, 3):
        grid_case(S, "unwarp_color_image_backward[%dD,default]" % nd, UTIL + ".unwarp_color_image_backward", nd, None, None, 0)
        grid_case(S, "unwarp_color_image_backward[%dD,order,mode]" % nd, UTIL + ".unwarp_color_image_backward", nd, var("order", "I"), MODE, 1)


def sec_cv2(S):
    # OpenCV's flags are integers, 0 among them
    flag, border = var("cvflag", "I"), var("cvborder", "I")

    def remap(i, b):
        def f(src, y, x, order, mode):
            return T("app", ("remap", src.to_term(), x, y, i, b), "R")
        return f
    for nd in (2, 3):
        grid_case(S, "unwarp_image_backward_cv2[%dD,default]" % nd, UTIL + ".unwarp_image_backward_cv2", nd, None, None, 0, samp=remap(ONE, ZERO))
        grid_case(S, "unwarp_image_backward_cv2[%dD,flags]" % nd, UTIL + ".unwarp_image_backward_cv2", nd, None, None, 1,
                  samp=remap(flag, border), kw=dict(method=flag, border=border))


SECTIONS = [("gray", sec_gray), ("colour", sec_colour), ("cv2", sec_cv2)]
