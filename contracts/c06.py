"""C06: perspective coefficients reproduce the source-target correspondence."""
from .base import *
from pyvc.nplib import lsq

LEVEL = "proof"
ASSUME = ["numpy.linalg.lstsq returns a minimiser of the squared residual of the system it is given; so it solves the system whenever the system has a solution",
          "a zero denominator c7*x+c8*y+1 at a point is outside the property"]


def apply(c, x, y):
    d = c[6] * x + c[7] * y + 1
    return c[0] * x + c[1] * y + c[2], c[3] * x + c[4] * y + c[5], d


def system(S, nm, I):
    g = I.ghost.get("lstsq")
    it = list(g.segs) if g is not None else []
    prs = [g.item(const(i)) for i in range(int(cval(g.length())))] if g is not None and cval(g.length()) is not None else []
    if len(prs) != 1:
        raise Unsupported("%s: expected one least-squares system" % nm)
    return prs[0]


def points(name, kind, n):
    p = lambda k, c: T("app", (name, num(k), num(c)), "R")
    if kind == "array":
        return farr(name, (n, const(2)), org=name), p
    k = fresh("k")
    L = SList([Seg([k], [n], TRUE, SList.of([p(k, ZERO), p(k, ONE)]) if kind == "list" else (p(k, ZERO), p(k, ONE)))])
    L.org = name
    return L, p


def sec(mapping):
    def run(S):
        for kind in ("array", "list"):
            n = var("n", "I", nn=True)
            facts = [ge(n, const(4))]
            src, sp = points("src", kind, n)
            tgt, tp = points("tgt", kind, n)
            nm = "calc_perspective_coefficients[%s,%s]" % (mapping, kind)
            kw = {} if mapping == "default" else dict(mapping=mapping)
            frm, to = (sp, tp) if mapping == "forward" else (tp, sp)
            k, r = idx("k", "r")
            c = [var("c%d" % i) for i in range(8)]
            for I, hyps, v in each(S, nm, PROC + ".calc_perspective_coefficients", [src, tgt], kw, facts=facts):
                S.oblige(nm + ".eight", hyps, eq(dims(v)[0], const(8)))
                A, b = system(S, nm, I)
                ls = lsq(I, A, b, const(8))
                for i in range(8):
                    S.oblige(nm + ".is_least_squares_solution[%d]" % i, hyps, eq(elem(v, i), ls.get((const(i),))))
                row = lambda q: eq(sum((A.get((q, const(i))) * c[i] for i in range(8)), ZERO), b.get((q,)))
                # a solution of the system maps every point k as required
                inst = [[implies(inr(q, A.shape[0]), row(q)) for q in qs] for qs in ((2 * k, 2 * k + 1), (k, n + k))]
                xn, yn, d = apply(c, frm(k, 1), frm(k, 0))
                h = hyps + [inr(k, n)]
                S.cover(nm, h)
                S.oblige_alts(nm + ".solution_maps_x", h, inst, eq(xn, to(k, 1) * d))
                S.oblige_alts(nm + ".solution_maps_y", h, inst, eq(yn, to(k, 0) * d))
                if kind == "array":
                    S.oblige(nm + ".point_is_mapped", [ne(d, ZERO), eq(xn, to(k, 1) * d), eq(yn, to(k, 0) * d)], and_(eq(xn / d, to(k, 1)), eq(yn / d, to(k, 0))))

                # and every homography relating the points solves the system
                def rel(q):
                    xq, yq, dq = apply(c, frm(q, 1), frm(q, 0))
                    return implies(inr(q, n), and_(eq(xq, to(q, 1) * dq), eq(yq, to(q, 0) * dq)))
                for par in (0, 1):
                    q = 2 * r + par
                    S.oblige_alts(nm + ".homography_solves_system[rows 2r+%d]" % par, hyps + [inr(q, A.shape[0])], [[rel(r)], [rel(q), rel(q - n)]], row(q))
                S.frame(nm, I)
    return run


SECTIONS = [(m, sec(m)) for m in ("forward", "backward", "default")]
