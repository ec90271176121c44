"""C01: radial point mapping."""
from .base import *

LEVEL = "proof"
ASSUME = ["inverse radii of the backward point inversion come from scipy.optimize.minimize, which is only assumed to be a function of the objective and the start value"]


def sec_forward(S):
    for dt in ("f8", "i8"):
        n, m = var("nl", "I", nn=True), var("m", "I", nn=True)
        xc, yc = var("xc"), var("yc")
        L, pt, ln = lines("pt", n, org="list_lines", dt=dt)
        fact = lambda i: T("app", ("fact", num(i)), "R")
        facts = [le(m, 32767)]
        i, j = idx("i", "j")
        for fl, fa in (("list", flist("fact", m, org="list_fact")), ("array", farr("fact", (m,), org="list_fact"))):
            nm = "unwarp_line_forward[%s,%s]" % (dt, fl)
            for I, hyps, oc, v in S.paths(POST + ".unwarp_line_forward", [L, xc, yc, fa], facts=facts):
                if oc == "raise":
                    S.oblige(nm + ".no_exception", hyps, FALSE)
                    continue
                ln_o, item = as_list(v)
                S.oblige(nm + ".line_count", hyps, eq(ln_o, n))
                h = hyps + [inr(i, n), inr(j, ln(i))]
                S.cover(nm, h)
                o = item(i)
                S.oblige(nm + ".shape", h, and_(eq(dims(o)[0], ln(i)), eq(dims(o)[1], const(2))))
                x, y = pt(i, j, 1) - xc, pt(i, j, 0) - yc
                r = sqrt(x * x + y * y)
                F = polyF(fact, m, r)
                S.oblige(nm + ".y", h, eq(elem(o, j, 0), yc + F * y), show=dict(m=m))
                S.oblige(nm + ".x", h, eq(elem(o, j, 1), xc + F * x), show=dict(m=m))
                S.frame(nm, I)


def sec_backward(S):
    for dt in ("f8", "i8"):
        n, m = var("nl", "I", nn=True), var("m", "I", nn=True)
        xc, yc = var("xc"), var("yc")
        L, pt, ln = lines("pt", n, org="list_lines", dt=dt)
        fact = lambda i: T("app", ("fact", num(i)), "R")
        i, j = idx("i", "j")
        fa = flist("fact", m, org="list_fact")
        nm = "unwarp_line_backward[%s]" % dt
        for I, hyps, oc, v in S.paths(POST + ".unwarp_line_backward", [L, xc, yc, fa]):
            if oc == "raise":
                S.oblige(nm + ".no_exception", hyps, FALSE)
                continue
            ln_o, item = as_list(v)
            S.oblige(nm + ".line_count", hyps, eq(ln_o, n))
            h = hyps + [inr(i, n), inr(j, ln(i))]
            S.cover(nm, h)
            o = item(i)
            S.oblige(nm + ".shape", h, and_(eq(dims(o)[0], ln(i)), eq(dims(o)[1], const(2))))
            x, y = pt(i, j, 1) - xc, pt(i, j, 0) - yc
            u, w = elem(o, j, 1) - xc, elem(o, j, 0) - yc
            S.oblige(nm + ".on_ray", h, eq(u * y, w * x))
            r2 = x * x + y * y
            S.oblige(nm + ".centre_fixed", h + [eq(x, ZERO), eq(y, ZERO)], and_(eq(u, ZERO), eq(w, ZERO)))
            # the new radius is a function of the old radius and the model only:
            # (u, w) = rho * (x, y)/r, rho = solver(objective_r, r), objective_r(t) = (r - t*F(t))^2
            t = fresh("t", "R")
            r = sqrt(r2)
            obj = tm.lam([t], (r - t * polyF(fact, m, t)) * (r - t * polyF(fact, m, t)))
            rho = T("app", ("minimize", obj, r), "R")
            S.oblige(nm + ".radius_x", h + [gt(r, ZERO)], eq(u * r, rho * x))
            S.oblige(nm + ".radius_y", h + [gt(r, ZERO)], eq(w * r, rho * y))
            S.frame(nm, I)


def sec_point(S):
    m = var("m", "I", nn=True)
    xc, yc, px, py = var("xc"), var("yc"), var("px"), var("py")
    fact = lambda i: T("app", ("fact", num(i)), "R")
    for order in ("xy", "yx"):
        for ty, p in (("tuple", (py, px)), ("array", None)):
            if p is None:
                p = SArr((const(2),), lambda ix: tm.ite(eq(ix[0], ZERO), py, px), "f8", org="points")
            for fl, fa in (("list", flist("fact", m)), ("array", farr("fact", (m,)))):
                nm = "find_point_to_point[%s,%s,%s]" % (order, ty, fl)
                for I, hyps, oc, v in S.paths(UTIL + ".find_point_to_point", [p, xc, yc, fa], dict(output_order=order)):
                    if oc == "raise":
                        S.oblige(nm + ".no_exception", hyps, FALSE)
                        continue
                    x, y = px - xc, py - yc
                    F = polyF(fact, m, sqrt(x * x + y * y))
                    a, b = elem(v, 0), elem(v, 1)
                    if order == "yx":
                        a, b = b, a
                    S.cover(nm, hyps)
                    S.oblige(nm + ".x", hyps, eq(asT(a), xc + F * x))
                    S.oblige(nm + ".y", hyps, eq(asT(b), yc + F * y))


SECTIONS = [("forward", sec_forward), ("backward", sec_backward), ("point", sec_point)]
