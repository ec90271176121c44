"""C18: detected extrema are genuine sub-pixel extrema of the profile."""
from .base import *
from .c15 import same_dim
from .helpers import lib_with

LEVEL = "proof"
ASSUME = ["numpy.polyfit returns the least-squares polynomial (exact for three points), numpy.sort/argsort a sorting permutation",
          "scipy.ndimage.gaussian_filter, numpy.percentile and the Gaussian fit are functions of their arguments",
          "profiles have at least four samples (extrema), three (slopes)"]


def vertex(d, i):
    """sub-pixel position of the minimum at sample i from the parabola through samples i-1, i, i+1"""
    a = (d(i - 1) - 2 * d(i) + d(i + 1)) / const(2)
    b = (d(i + 1) - d(i - 1)) / const(2)
    return a, b


def sec_locate(S):
    n = var("n", "I", nn=True)
    for dt in ("f8", "i8"):
        D = farr("D", (n,), dt, org="list_point")
        for opt in ("min", "max"):
            nm = "locate_subpixel_point[%s,%s]" % (dt, opt)
            for I, hyps, v in each(S, nm, LINE + ".locate_subpixel_point", [D, opt], facts=[ge(n, const(3))]):
                r = fresh("r")
                pf = LIB["numpy.polyfit"](I, SArr((n,), lambda ix: ix[0], "i8"), D, const(2))
                a, b = pf.get((ZERO,)), pf.get((ONE,))
                p = -b / (const(2) * a)
                ext = LIB["numpy.arg" + opt](I, D)
                S.oblige(nm + ".position", hyps, eq(asT(v), ite(and_(ne(a, ZERO), ge(p, ZERO), lt(p, n)), p, ext)))
                S.oblige(nm + ".inside", hyps + [inr(ext, n)], and_(ge(asT(v), ZERO), lt(asT(v), n)))
                S.cover(nm, hyps)
                S.frame(nm, I)


def sec_slope(dt):
    def run(S):
        n, size = var("n", "I", nn=True), var("size", "I")
        k = var("k", "I")
        D = farr("D", (n,), dt, org="list_data")
        nm = "sliding_window_slope[%s]" % dt
        for I, hyps, oc, v in S.paths(LINE + ".sliding_window_slope", [D, size]):
            if oc == "raise":
                S.record(nm + ".raises", v.name == "ValueError", v.name)
                S.oblige(nm + ".raises_only_for_short_data", hyps, lt(n, const(3)))
                break
        for norm in (True, False):
            nm = "sliding_window_slope[%s,norm=%s]" % (dt, norm)
            for I, hyps, v in each(S, nm, LINE + ".sliding_window_slope", [D, size, norm], facts=[ge(n, const(3))]):
                s0 = minv(maxv(size, const(3)), n)
                w = s0 + ite(eq(tm.modv(s0, const(2)), ZERO), ONE, ZERO)
                rad = tm.idiv(w, const(2))

                def slope(i):
                    win = SArr((w,), lambda ix: D.get((clipt(i + ix[0] - rad, n - 1),)), "f8")
                    return absv(LIB["numpy.polyfit"](I, SArr((w,), lambda ix: ix[0], "i8"), win, const(1)).get((ZERO,)))
                S.oblige(nm + ".count", hyps, eq(v.shape[0], n))
                h = hyps + [inr(k, n)]
                S.cover(nm, h)
                want = slope(k)
                if norm:
                    mean = sum_(n, slope) / n
                    want = ite(ne(mean, ZERO), want / mean, want)
                S.oblige(nm + ".slope", h, eq(v.get((k,)), want))
                S.frame(nm, I)
    return run


def background(I, d, n):
    """normalised profile: divided by the value of the straight line fitted to the middle half of the sorted profile, at the rank of the sample"""
    A = SArr((n,), lambda ix: d(ix[0]), "f8")
    perm = LIB["numpy.argsort"](I, A)
    drop = floor(n / const(4))
    m = n - 2 * drop - 1
    fit = LIB["numpy.polyfit"](I, SArr((m,), lambda ix: ix[0] + drop, "i8"), SArr((m,), lambda ix: d(perm.get((ix[0] + drop,))), "f8"), const(1))
    a1, a0 = fit.get((ZERO,)), fit.get((ONE,))
    line = lambda k: a1 * k + a0
    rank = LIB["numpy.argsort"](I, SArr((n,), lambda ix: perm.get((ix[0],)), "f8"))
    mean = sum_(n, lambda k: absv(line(k))) / n

    def norm(k):
        r = rank.get((k,))
        l = line(r)
        b = ite(and_(ge(l, a0), le(l, a1 * (n - 1) + a0)), l, d(perm.get((r,))))
        return ite(ne(b, ZERO), d(k) / b, mean)
    return norm


def profile_after(I, D, n, opt, den, norm):
    d = lambda k: D.get((num(k),))
    if den:
        g = LIB["scipy.ndimage.gaussian_filter"](I, D, const(3))
        d = lambda k: g.get((num(k),))
    if opt == "max":
        d0 = d
        top = LIB["numpy.amax"](I, SArr((n,), lambda ix: d0(ix[0]), "f8"))
        d = lambda k: top - d0(k)
    return background(I, d, n) if norm else d


class Cuts:
    """values of the function that are given a name when they are computed (definitional extension):
    the radius used, and the normalised profile"""

    def __init__(self):
        self.radius = self.norm = None

    def lib(self):
        def clip(I, x, a, b, **k):
            r = LIB["numpy.clip"](I, x, a, b, **k)
            if isinstance(r, T) and r.sort == "I" and self.radius is None:
                nm = var("radius", "I", nn=True)
                self.radius = (nm, r)
                self.facts = [ge(nm, ONE), le(nm * 4, var("n", "I", nn=True))]
                if not all(smt.prove(list(I.pc), tm.subst(f, {nm: r}))[0] == "proved" for f in self.facts):
                    raise Unsupported("radius outside 1 .. n / 4")
                I.pc.extend(self.facts)
                return nm
            return r

        def divide(I, x, y, **k):
            r = LIB["numpy.divide"](I, x, y, **k)
            if "where" in k and isinstance(r, SArr) and r.ndim == 1 and self.norm is None:
                self.norm = r.frozen()
                return farr("normed", r.shape)
            return r
        return lib_with(numpy__clip=clip, numpy__divide=divide)


def sec_extrema(opt, den, norm):
    def run(S):
        S.fn(LINE + ".locate_subpixel_point")
        n, rad0, sens = var("n", "I", nn=True), var("rad", "I"), var("sens")
        j, k = idx("j", "k")
        D = farr("D", (n,), org="list_data")
        for sub in (False, True):
            nm = "get_local_extrema_points[%s,denoise=%s,norm=%s,subpixel=%s]" % (opt, den, norm, sub)
            cuts = Cuts()
            for I, hyps, v in each(S, nm, LINE + ".get_local_extrema_points", [D], dict(option=opt, radius=rad0, sensitive=sens, denoise=den, norm=norm, subpixel=sub), facts=[ge(n, const(4))], lib=cuts.lib()):
                d = profile_after(I, D, n, opt, den, norm)
                if cuts.radius is None or bool(norm) != (cuts.norm is not None):
                    raise Unsupported("another structure of the function")
                rad, used = cuts.radius
                S.oblige(nm + ".radius", [ge(n, const(4))], eq(used, minv(maxv(rad0, ONE), tm.idiv(n, const(4)))))
                if norm:
                    S.oblige(nm + ".normalised", [ge(n, const(4)), inr(k, n)], eq(cuts.norm.get((k,)), d(k)))
                    S.oblige(nm + ".normalised_count", [ge(n, const(4))], eq(cuts.norm.shape[0], n))
                    d = lambda k: T("app", ("normed", num(k)), "R")
                cuts.radius = cuts.norm = None
                m = n - 2 * rad - 1

                def keep(q):
                    i = q + rad
                    win = SArr((2 * rad + 1,), lambda ix: d(i - rad + ix[0]), "f8")
                    srt = LIB["numpy.sort"](I, win)
                    top = sum_(rad, lambda k: srt.get((k + rad + 1,))) / rad
                    big = ite(ne(top, ZERO), absv((d(i) - top) / top), ZERO)
                    return and_(eq(d(i), LIB["numpy.amin"](I, win)), gt(big, sens))
                base = [ge(n, const(4)), ge(rad, ONE), le(rad * 4, n)]
                S.cover(nm, base)
                src = same_dim(S, nm, base, v.shape[0], m, keep)
                i = src(j) + rad
                h = base + [inr(j, v.shape[0]), inr(src(j), m)]
                if not sub:
                    S.oblige(nm + ".position", h, eq(v.get((j,)), i))
                elif smt.sat(hyps + [inr(j, v.shape[0])]) is not False:
                    L, C, R, top, q = var("left"), var("centre"), var("right"), var("top"), var("i", "I")
                    flip = opt == "max" and not norm
                    l, c, r = (top - L, top - C, top - R) if flip else (L, C, R)
                    low = and_(le(c, l), le(c, r), or_(lt(c, l), lt(c, r)))
                    a, b = (l - 2 * c + r) / const(2), (r - l) / const(2)
                    got = v.get((j,))
                    raw = d if not flip else profile_after(I, D, n, "min", den, False)
                    for x, y in ((raw(i - 1), L), (raw(i), C), (raw(i + 1), R), (src(j), q - rad)):
                        got = tm.subst(got, {x: y})
                    bound = []
                    if flip:                     # the three samples do not exceed the largest one
                        got = tm.subst(got, {LIB["numpy.amax"](I, SArr((n,), lambda ix: raw(ix[0]), "f8")): top})
                        bound = [le(L, top), le(C, top), le(R, top)]
                    S.oblige(nm + ".position_on_strict_minima", bound + [low, ge(q, ONE)], eq(got, q - b / (2 * a)))
                    S.oblige(nm + ".within_half_a_sample", [low], and_(le(-b / (2 * a), HALF), ge(-b / (2 * a), -HALF)))
                S.frame(nm, I)
    return run


def s_gauss(I, ba):
    """contract of the Gaussian fit: a function of the window"""
    x = to_arr(list(ba.values())[0], I)
    t = x.to_term()
    f = lambda nm, s="R": T("app", (nm, t), s)
    return (SArr(x.shape, lambda ix: T("app", ("gfit", t) + tuple(ix), "R"), "f8"), f("gpeak"), f("goff"), f("gok", "B"))


def sec_peaks(use, smooth):
    def run(S):
        S.fn(LINE + "._get_gauss_peak_fit")
        n, m, rad, tol = var("n", "I", nn=True), var("m", "I", nn=True), var("rad", "I", nn=True), var("tol")
        j = var("j", "I")
        D = farr("D", (n,), org="list_data")
        P = farr("P", (m,), "i8", org="peaks", sort="I")
        sig = var("sig") if smooth else 0
        nm = "select_good_peaks[use_offset=%s,%s]" % (use, "smoothed" if smooth else "plain")
        facts = [ge(rad, ONE), forall(m, lambda q: inr(P.get((q,)), n))] + ([gt(sig, ZERO)] if smooth else [])
        for I, hyps, v in each(S, nm, LINE + ".select_good_peaks", [D, P, tol, rad, sig, use], facts=facts, summaries={LINE + "._get_gauss_peak_fit": s_gauss}):
            X = LIB["scipy.ndimage.gaussian_filter1d"](I, D, sig) if smooth else D

            def keep(q):
                p = P.get((q,))
                st, sp = maxv(ZERO, p - rad), minv(n, p + rad + 1)
                w = SArr((sp - st,), lambda ix: X.get((ix[0] + st,)), "f8")
                std = LIB["numpy.std"](I, w)
                nw = SArr(w.shape, lambda ix: (w.get(ix) - LIB["numpy.amin"](I, w)) / std, "f8")
                fit, dx, off, ok = s_gauss(I, dict(list_data=nw))
                err = LIB["numpy.percentile"](I, SArr(w.shape, lambda ix: absv(fit.get(ix) - nw.get(ix)), "f8"), 80)
                c = [gt(sp - st, const(3)), ne(std, ZERO), ok, lt(absv(dx), tm.idiv(rad, const(2))), lt(err, tol)]
                if use:
                    c.append(lt(absv(off), tol))
                return and_(*c)
            qv = var("q", "I")
            src = same_dim(S, nm, hyps + [implies(inr(qv, m), inr(P.get((qv,)), n))], v.shape[0], m, keep)
            S.oblige(nm + ".subset_in_order", hyps + [inr(j, v.shape[0])], eq(v.get((j,)), P.get((src(j),))))
            S.cover(nm, hyps)
            S.frame(nm, I)
    return run


def s_select(I, ba):
    """contract of select_good_peaks: the peaks accepted by a predicate of (data, options, peak), in order"""
    d = to_arr(ba["list_data"], I)
    n, item = as_list(ba["peaks"])
    rest = tuple(asT(ba[k]) if is_scalar(ba[k]) else str(ba[k]) for k in ("tol", "radius", "sigma", "use_offset"))
    t = d.to_term()
    k = fresh("k")
    p = asT(item(k))
    seg = Seg([k], [n], T("app", ("good", t) + rest + (p,), "B"), p).expand()
    return list_to_array(SList([seg]), I)


def sec_selected(opt):
    def run(S):
        S.fn(LINE + ".select_good_peaks")
        n, rad0, sens, tol = var("n", "I", nn=True), var("rad", "I"), var("sens"), var("tol")
        j = var("j", "I")
        D = farr("D", (n,), org="list_data")
        nm = "get_local_extrema_points[%s,select_peaks]" % opt
        cuts = Cuts()
        for I, hyps, v in each(S, nm, LINE + ".get_local_extrema_points", [D], dict(option=opt, radius=rad0, sensitive=sens, denoise=False, norm=False, subpixel=False, select_peaks=True, tol=tol), facts=[ge(n, const(4))], lib=cuts.lib(), summaries={LINE + ".select_good_peaks": s_select}):
            if cuts.radius is None:
                raise Unsupported("another structure of the function")
            rad, used = cuts.radius
            cuts.radius = None
            d = profile_after(I, D, n, opt, False, False)
            top = LIB["numpy.amax"](I, SArr((n,), lambda ix: d(ix[0]), "f8"))
            inv = SArr((n,), lambda ix: top - d(ix[0]), "f8").to_term()

            def keep(q):
                i = q + rad
                win = SArr((2 * rad + 1,), lambda ix: d(i - rad + ix[0]), "f8")
                srt = LIB["numpy.sort"](I, win)
                mean = sum_(rad, lambda k: srt.get((k + rad + 1,))) / rad
                big = ite(ne(mean, ZERO), absv((d(i) - mean) / mean), ZERO)
                return and_(eq(d(i), LIB["numpy.amin"](I, win)), gt(big, sens), T("app", ("good", inv, tol, rad, ZERO, TRUE, i), "B"))
            base = [ge(n, const(4)), ge(rad, ONE), le(rad * 4, n)]
            src = same_dim(S, nm, base, v.shape[0], n - 2 * rad - 1, keep)
            S.oblige(nm + ".position", base + [inr(j, v.shape[0])], eq(v.get((j,)), src(j) + rad))
            S.frame(nm, I)
    return run


SECTIONS = [("selected_" + o, sec_selected(o)) for o in ("min", "max")] + [("locate", sec_locate)] + [("slope_" + t, sec_slope(t)) for t in ("f8", "i8")] \
    + [("extrema_%s_%d%d" % (o, d, n), sec_extrema(o, bool(d), bool(n))) for o in ("min", "max") for d in (0, 1) for n in (0, 1)] \
    + [("peaks_%d%d" % (u, s), sec_peaks(bool(u), bool(s))) for u in (0, 1) for s in (0, 1)]
