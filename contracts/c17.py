"""C17: rotations and tilted profiles follow the stated angle and stay in the image."""
from .base import *
from pyvc.lib import PI

LEVEL = "proof"
ASSUME = ["cos^2 + sin^2 = 1, cos even and sin odd; trigonometric functions are otherwise uninterpreted",
          "scipy.ndimage.map_coordinates with cubic order is a function of the image, the position and the mode",
          "images with at least two rows and two columns; |angle| < 90 degrees (the rejection of +-90 is proved separately)"]


def rad(a, deg):
    return a * PI / const(180) if deg else a


def sec_rotate(form):
    def run(S):
        n, a = var("n", "I", nn=True), var("a")
        k, l = idx("k", "l")
        dt = "i8" if form == "int" else "f8"
        P = farr("P", (n, const(2)), dt, org="points")
        for deg in (True, False, None):
            nm = "rotate_points[%s,degree_unit=%s]" % (form, deg)
            kw = {} if deg is None else dict(degree_unit=deg)
            t = rad(a, deg is not False)
            c, s = tm.cos(t), tm.sin(t)
            unit = [eq(c * c + s * s, ONE)]
            arg = P if form != "list" else SList([(lambda q: Seg([q], [n], TRUE, SList.of([P.get((q, ZERO)), P.get((q, ONE))])))(fresh("q"))])
            for I, hyps, v in each(S, nm, PREP + ".rotate_points", [arg, a], kw):
                S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], n), eq(v.shape[1], const(2))))
                h = hyps + [inr(k, n), inr(l, n)]
                S.cover(nm, h)
                y, x = P.get((k, ZERO)), P.get((k, ONE))
                S.oblige(nm + ".x", h, eq(v.get((k, ONE)), x * c - y * s))
                S.oblige(nm + ".y", h, eq(v.get((k, ZERO)), x * s + y * c))
                d2 = lambda A: (A.get((k, ZERO)) - A.get((l, ZERO))) * (A.get((k, ZERO)) - A.get((l, ZERO))) + (A.get((k, ONE)) - A.get((l, ONE))) * (A.get((k, ONE)) - A.get((l, ONE)))
                S.oblige(nm + ".distance_preserved", h + unit, eq(d2(v), d2(P)))
                S.frame(nm, I)
                w0 = v
                for I2, h2, w in each(S, nm + ".undo", PREP + ".rotate_points", [w0, -a], kw, facts=hyps):
                    for q in (0, 1):
                        S.oblige(nm + ".undone_by_opposite_angle[%d]" % q, h2 + [inr(k, n)] + unit, eq(w.get((k, const(q))), P.get((k, const(q)))))
    return run


def limits(h, w, a, hor):
    """first and last usable index"""
    t = rad(a, True)
    n, m = (h, w) if hor else (w, h)       # lines are counted along n, run along m
    if hor:
        lo = ite(gt(a, ZERO), tm.ceil(m * tm.tan(t)), ZERO)
        hi = n - 1 - ite(gt(a, ZERO), ZERO, floor(m * tm.tan(absv(t))))
    else:
        lo = ite(gt(a, ZERO), ZERO, floor(m * tm.tan(absv(t))))
        hi = n - 1 - ite(gt(a, ZERO), tm.ceil(m * tm.tan(t)), ZERO)
    ok = and_(inr(lo, n), inr(hi, n))
    return lo, hi, ok


def sec_range(d):
    def run(S):
        h, w, a = var("h", "I", nn=True), var("w", "I", nn=True), var("a")
        hor = d == "horizontal"
        nm = "_calc_index_range[%s]" % d
        lo, hi, ok = limits(h, w, a, hor)
        for I, hyps, oc, v in S.paths(LINE + "._calc_index_range", [h, w, a, d], None, [ge(h, const(2)), ge(w, const(2))]):
            right = eq(absv(a), const(90))
            if oc == "raise":
                S.record(nm + ".raises", v.name == "ValueError", v.name)
                S.oblige(nm + ".raises_only_when_no_line_fits", hyps, or_(right, not_(ok)))
                continue
            S.oblige(nm + ".rejects_right_angle", hyps, not_(right))
            S.oblige(nm + ".range_inside_image", hyps, ok)
            S.oblige(nm + ".first", hyps, eq(asT(v[0]), lo))
            S.oblige(nm + ".last", hyps, eq(asT(v[1]), hi))
    return run


def s_range(I, ba):
    """contract of _calc_index_range, discharged by sec_range"""
    v = list(ba.values())
    h, w, a = asT(v[0]), asT(v[1]), asT(v[2])
    if not isinstance(v[3], str):
        raise Unsupported("direction")
    lo, hi, ok = limits(h, w, a, v[3] == "horizontal")
    bad = or_(eq(absv(a), const(90)), not_(ok))
    if I.branch(bad):
        raise PyRaise("ValueError", "index range")
    return (lo, hi)


def sec_profile(d):
    def run(S):
        S.fn(LINE + "._calc_index_range")
        h, w, a, i0 = var("h", "I", nn=True), var("w", "I", nn=True), var("a"), var("i0")
        k = var("k", "I")
        hor = d == "horizontal"
        nm = "get_tilted_profile[%s]" % d
        M = farr("mat", (h, w), org="mat")
        t = rad(a, True)
        c, s = tm.cos(t), tm.sin(t)
        n = w if hor else h
        lo, hi, ok = limits(h, w, a, hor)
        facts = [ge(h, const(2)), ge(w, const(2)), lt(absv(a), const(90)), gt(c, ZERO)]
        for I, hyps, oc, v in S.paths(LINE + ".get_tilted_profile", [M, i0, a, d], None, facts, summaries={LINE + "._calc_index_range": s_range}):
            fits = and_(ok, ge(i0, lo), le(i0, hi))
            if oc == "raise":
                S.record(nm + ".raises", v.name == "ValueError", v.name)
                S.oblige(nm + ".raises_only_when_the_line_does_not_fit", hyps, not_(fits))
                continue
            S.oblige(nm + ".accepts_only_lines_that_fit", hyps, fits)
            S.cover(nm, hyps)
            xs, ys, pr = [to_arr(z, I) for z in v]
            for z, q in ((xs, "x"), (ys, "y"), (pr, "profile")):
                S.oblige(nm + ".count_" + q, hyps, eq(z.shape[0], n))
            r = lambda k: k * floor(n / c) / (n - 1)
            if hor:
                x = lambda k: clipt(r(k) * c, w - 1)
                y = lambda k: clipt(i0 - r(k) * s, h - 1)
            else:
                y = lambda k: clipt(r(k) * c, h - 1)
                x = lambda k: clipt(i0 + r(k) * s, w - 1)
            hk = hyps + [inr(k, n)]
            S.oblige(nm + ".x", hk, eq(xs.get((k,)), x(k)))
            S.oblige(nm + ".y", hk, eq(ys.get((k,)), y(k)))
            S.oblige(nm + ".inside", hk, and_(ge(xs.get((k,)), ZERO), le(xs.get((k,)), w - 1), ge(ys.get((k,)), ZERO), le(ys.get((k,)), h - 1)))
            cross = SArr((n,), (lambda ix: y(ix[0])) if hor else (lambda ix: x(ix[0])), "f8")
            first = floor(LIB["numpy.amin"](I, cross))
            last = tm.ceil(LIB["numpy.amax"](I, cross))
            fact = [ge(first, ZERO), le(last, (h if hor else w) - 1), le(first, last)]
            if hor:
                crop = SArr((last + 1 - first, w), lambda ix: M.get((ix[0] + first, ix[1])), "f8")
                want = LIB["scipy.ndimage.map_coordinates"](I, crop, (SArr((n,), lambda ix: y(ix[0]) - first, "f8"), SArr((n,), lambda ix: x(ix[0]), "f8")), order=3, mode="nearest")
            else:
                crop = SArr((h, last + 1 - first), lambda ix: M.get((ix[0], ix[1] + first)), "f8")
                want = LIB["scipy.ndimage.map_coordinates"](I, crop, (SArr((n,), lambda ix: y(ix[0]), "f8"), SArr((n,), lambda ix: x(ix[0]) - first, "f8")), order=3, mode="nearest")
            S.oblige(nm + ".profile", hk + fact, eq(pr.get((k,)), want.get((k,))))
            S.frame(nm, I)
    return run


def sec_ndim(S):
    for nd in (1, 3):
        M = farr("mat", tuple(var("n%d" % i, "I", nn=True) for i in range(nd)))
        S.raises("get_tilted_profile.rejects_%dD" % nd, LINE + ".get_tilted_profile", [M, var("i0"), var("a"), "horizontal"], "ValueError")


SECTIONS = [("rotate_" + f, sec_rotate(f)) for f in ("float", "int", "list")] + [("range_" + d, sec_range(d)) for d in ("horizontal", "vertical")] \
    + [("profile_" + d, sec_profile(d)) for d in ("horizontal", "vertical")] + [("ndim", sec_ndim)]
