"""C15: point filters keep exactly the points meeting their criterion, in order."""
from .base import *

LEVEL = "proof"
ASSUME = ["numpy.polyfit is a function of its arguments (the fitted parabola is whatever it returns)",
          "scipy.ndimage.rotate is a function of its arguments"]


def dim_of(n):
    return n.args[1] if n.op == "app" and n.args[0] == "clen" else None


def same_dim(S, nm, hyps, got, n, cond):
    """the positions kept by a one-level filter are {k < n : cond(k)}: returns the map position -> k"""
    k = fresh("k")
    want = Seg([k], [n], cond(k), ZERO)
    d = dim_of(got)
    if d is not None and len(d.args) == 3:
        q = var("q", "I")
        S.oblige(nm + ".range", hyps, eq(d.args[1], n))
        S.oblige(nm + ".kept_exactly", hyps + [inr(q, n)], iff(tm.lam_apply(d.args[2], (q,)), cond(q)))
        return lambda p: tm.cix(d, 0, p)
    S.oblige(nm + ".kept_exactly", hyps, eq(got, want.length()))
    dd = want.dim()
    if cond(k) is TRUE:
        return lambda p: p
    return lambda p: tm.cix(dd, 0, p)


def sec_residual(ver, dt):
    def run(S):
        n = var("nl", "I", nn=True)
        L, pt, ln = lines("pt", n, org="list_lines", dt=dt, minlen=0)
        slope, res = var("slope"), var("res")
        fn = "remove_residual_dots_" + ("ver" if ver else "hor")
        nm = "%s[%s]" % (fn, dt)
        a, b = (0, 1) if ver else (1, 0)
        p, j, c = idx("p", "j", "c")
        for I, hyps, oc, v in S.paths(PREP + "." + fn, [L, slope, res]):
            def keep(i):
                u = SArr((ln(i),), lambda ix: pt(i, ix[0], a), "f8")
                w = SArr((ln(i),), lambda ix: pt(i, ix[0], b), "f8")
                co = [LIB["numpy.polyfit"](I, u, w, const(2)).get((const(q),)) for q in range(3)]
                return lambda j: lt(absv(co[0] * pt(i, j, a) * pt(i, j, a) + co[1] * pt(i, j, a) + co[2] - pt(i, j, b)) / sqrt(ONE + slope * slope), res)

            def left(i):
                j = fresh("j")
                return Seg([j], [ln(i)], keep(i)(j), ZERO).length()
            k = fresh("k")
            want = Seg([k], [n], gt(left(k), ZERO), ZERO)
            S.frame(nm, I)
            if oc == "raise":
                S.record(nm + ".raises", v.name == "ValueError", v.name)
                S.oblige(nm + ".raises_only_when_nothing_is_left", hyps, le(want.length(), ZERO))
                continue
            m, item = as_list(v)
            S.oblige(nm + ".not_empty", hyps, gt(m, ZERO))
            S.cover(nm, hyps)
            h = hyps + [inr(p, m)]
            src = same_dim(S, nm + ".lines", hyps, m, n, lambda i: gt(left(i), ZERO))
            i = src(p)
            line = to_arr(item(p), I)
            q = same_dim(S, nm + ".points", h + [inr(i, n)], line.shape[0], ln(i), keep(i))
            r = q(j)
            hj = h + [inr(j, line.shape[0]), inr(i, n), inr(r, ln(i))]
            for c in (0, 1):
                S.oblige(nm + ".unchanged[%d]" % c, hj, eq(line.get((j, const(c))), pt(i, r, c)))
    return run


def sec_mask(form):
    def run(S):
        h, w = var("h", "I", nn=True), var("w", "I", nn=True)
        hc, vc = var("hc"), var("vc")
        t, b, l, r = [var(x, "I") for x in ("mt", "mb", "ml", "mr")]
        if form == "int":
            b, r = t, l
            hm, vm = l, t
        elif form == "tuple":
            hm, vm = (l, r), (t, b)
        else:
            hm, vm = SList.of([l, r]), SList.of([t, b])
        y, x = idx("y", "x")
        nm = "make_parabola_mask[%s]" % form
        for rot in (False, True):
            nm = "make_parabola_mask[%s%s]" % (form, ",rotated" if rot else "")
            ang = var("ang") if rot else 0.0
            facts = [ge(h, ONE), ge(w, ONE)] + ([ne(ang, ZERO)] if rot else [])
            for I, hyps, oc, v in S.paths(PREP + ".make_parabola_mask", [h, w, hc, vc, hm, vm, ang], None, facts):
                bad = or_(gt(l + r, w), gt(t + b, h))
                if oc == "raise":
                    S.record(nm + ".raises", v.name == "ValueError", v.name)
                    S.oblige(nm + ".raises_only_for_large_margins", hyps, bad)
                    continue
                S.oblige(nm + ".rejects_large_margins", hyps, not_(bad))
                S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], h), eq(v.shape[1], w)))
                hy = hyps + [inr(y, h), inr(x, w)]
                S.cover(nm, hy)

                def inside(y, x):
                    u, s = (x - w / const(2)), (y - h / const(2))
                    cy, cx = vc / w * u * u, hc / h * s * s
                    return and_(gt(y, cy + t), lt(y, h - b - cy), gt(x, cx + l), lt(x, w - r - cx))
                if rot:
                    straight = SArr((h, w), lambda ix: ite(inside(*ix), ONE, ZERO), "f4")
                    turned = LIB["scipy.ndimage.rotate"](I, straight, ang, reshape=False)
                    S.oblige(nm + ".pixel", hy, eq(v.get((y, x)), tm.rint(turned.get((y, x)))))
                else:
                    S.oblige(nm + ".pixel", hy, eq(v.get((y, x)), ite(inside(y, x), ONE, ZERO)))
    return run


def s_mask(I, ba):
    """contract of make_parabola_mask: an array of the given shape, a function of the arguments; rejects margins that do not fit"""
    v = list(ba.values())
    h, w = asT(v[0]), asT(v[1])
    ts = []
    for x in v[:2] + [ba[k] for k in ("hor_curviness", "ver_curviness", "hor_margin", "ver_margin", "rotate")]:
        ts += [asT(y) for y in (x if isinstance(x, tuple) else (x,))]
    return SArr((h, w), lambda ix: T("app", ("pmask",) + tuple(ts) + tuple(ix), "R"), "f4")


def sec_remove_mask(dt):
    def run(S):
        S.fn(PREP + ".make_parabola_mask")
        n, h, w = [var(x, "I", nn=True) for x in ("n", "h", "w")]
        par = [var("hc"), var("vc"), (var("ml", "I"), var("mr", "I")), (var("mt", "I"), var("mb", "I")), var("ang")]
        P = farr("P", (n, const(2)), dt, org="points")
        nm = "remove_points_using_parabola_mask[%s]" % dt
        j = var("j", "I")
        big = const(2 ** 31)
        q = fresh("q")
        lim = [forall(n, lambda q: and_(lt(absv(P.get((q, ZERO))), big), lt(absv(P.get((q, ONE))), big)))]
        names = ("hor_curviness", "ver_curviness", "hor_margin", "ver_margin", "rotate")
        for I, hyps, v in each(S, nm, PREP + ".remove_points_using_parabola_mask", [P, h, w], dict(zip(names, par)), facts=[ge(h, ONE), ge(w, ONE)], summaries={PREP + ".make_parabola_mask": s_mask}):
            M = s_mask(I, dict([("height", h), ("width", w)] + list(zip(names, par))))
            tr = lambda z: tm.trunc(z)

            def keep(k):
                y, x = tr(P.get((k, ZERO))), tr(P.get((k, ONE)))
                return and_(inr(y, h), inr(x, w), eq(M.get((y, x)), ONE))
            g = lambda k: [lt(absv(P.get((k, ZERO))), big), lt(absv(P.get((k, ONE))), big)]
            qv = var("q", "I")
            src = same_dim(S, nm, hyps + g(qv), v.shape[0], n, keep)
            r = src(j)
            for c in (0, 1):
                S.oblige(nm + ".unchanged[%d]" % c, hyps + [inr(j, v.shape[0])], eq(v.get((j, const(c))), P.get((r, const(c)))))
            S.frame(nm, I)
    return run


def sec_subset(S):
    n, m = var("n", "I", nn=True), var("m", "I", nn=True)
    P, Q = farr("P", (n, const(2)), org="points"), farr("Q", (m, const(2)), org="selected_points")
    nm = "remove_subset_points"
    j = var("j", "I")
    for I, hyps, v in each(S, nm, PREP + ".remove_subset_points", [Q, P], facts=[]):
        keep = lambda k: not_(exists(m, lambda i: and_(eq(P.get((k, ZERO)), Q.get((i, ZERO))), eq(P.get((k, ONE)), Q.get((i, ONE))))))
        src = same_dim(S, nm, hyps, v.shape[0], n, keep)
        r = src(j)
        for c in (0, 1):
            S.oblige(nm + ".unchanged[%d]" % c, hyps + [inr(j, v.shape[0])], eq(v.get((j, const(c))), P.get((r, const(c)))))
        S.frame(nm, I)


SECTIONS = [("residual_%s_%s" % (d, t), sec_residual(d == "ver", t)) for d in ("hor", "ver") for t in ("f8", "i8")] \
    + [("mask_" + f, sec_mask(f)) for f in ("int", "tuple", "list")] + [("remove_mask_" + t, sec_remove_mask(t)) for t in ("f8", "i8")] + [("subset", sec_subset)]
