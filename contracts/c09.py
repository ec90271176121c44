"""C09: residuals are the distances of the points to their own fitted line, sorted by radius."""
from .base import *

LEVEL = "proof"
ASSUME = ["numpy.argsort returns a permutation of the indices that sorts its argument (the order of equal radii is not specified)",
          "numpy.polyfit of degree 1 is the least-squares line, a function of the two coordinate arrays",
          "the report is made of at least one point"]


def table(I, L, xc, yc, ver):
    """one (radius, residual) pair per point, in input order"""
    n, item = as_list(L)
    i, j = fresh("i"), fresh("j")
    a = to_arr(item(i), I)
    m = a.shape[0]
    y = lambda q: a.get((q, ZERO)) - yc
    x = lambda q: a.get((q, ONE)) - xc
    u, v = (y, x) if ver else (x, y)
    pf = LIB["numpy.polyfit"](I, SArr((m,), lambda ix: u(ix[0]), "f8"), SArr((m,), lambda ix: v(ix[0]), "f8"), ONE)
    s, c = pf.get((ZERO,)), pf.get((ONE,))
    r = sqrt(x(j) * x(j) + y(j) * y(j))
    d = absv(s * u(j) - v(j) + c) / sqrt(s * s + 1)
    row = SArr((const(2),), lambda ix: ite(eq(ix[0], ZERO), r, d), "f8")
    return list_to_array(SList([Seg([i, j], [n, m], TRUE, row)]), I)


def sec_res(ver):
    fn = "calc_residual_" + ("ver" if ver else "hor")

    def run(S):
        n = var("nl", "I", nn=True)
        xc, yc = var("xc"), var("yc")
        k, q = idx("k", "q")
        for dt in ("f8", "i8"):
            L, pt, ln = lines("pt", n, org="list_ulines", dt=dt)
            nm = "%s[%s]" % (fn, dt)
            facts = [ge(n, ONE), ge(ln(ZERO), ONE)]
            for I, hyps, v in each(S, nm, POST + "." + fn, [L, xc, yc], facts=facts):
                D = table(I, L, xc, yc, ver)
                N = D.shape[0]
                S.oblige(nm + ".one_pair_per_point", hyps, eq(dims(v)[0], N))
                S.record(nm + ".pairs", len(dims(v)) == 2 and cval(dims(v)[1]) == 2, "rows of the report are not pairs")
                h = hyps + [inr(k, N)]
                S.cover(nm, h)
                rad = SArr((N,), lambda ix: D.get((ix[0], ZERO)), "f8")
                order = LIB["numpy.argsort"](I, rad)
                p = order.get((k,))
                S.oblige(nm + ".radius", h, eq(elem(v, k, 0), D.get((p, ZERO))))
                S.oblige(nm + ".residual", h, eq(elem(v, k, 1), D.get((p, ONE))))
                S.oblige(nm + ".sorted", h + [inr(q, N), le(k, q)], le(elem(v, k, 0), elem(v, q, 0)))
                S.frame(nm, I)
    return run


def sec_shift(ver):
    """moving the points and the centre together changes nothing"""
    fn = "calc_residual_" + ("ver" if ver else "hor")

    def run(S):
        n = var("nl", "I", nn=True)
        xc, yc, tx, ty = var("xc"), var("yc"), var("tx"), var("ty")
        L, pt, ln = lines("pt", n)
        i = fresh("i")
        M = SList([Seg([i], [n], TRUE, SArr((ln(i), const(2)), lambda ix: pt(i, ix[0], ix[1]) + ite(eq(ix[1], ZERO), ty, tx), "f8"))])
        k = var("k", "I")
        nm = fn + ".translation"
        for I, hyps, v in each(S, nm, POST + "." + fn, [L, xc, yc], facts=[ge(n, ONE), ge(ln(ZERO), ONE)]):
            for I2, hyps2, w in each(S, nm, POST + "." + fn, [M, xc + tx, yc + ty], facts=hyps):
                S.oblige(nm + ".count", hyps2, eq(dims(v)[0], dims(w)[0]))
                for c in (0, 1):
                    S.oblige(nm + ".%d" % c, hyps2 + [inr(k, dims(v)[0])], eq(elem(v, k, c), elem(w, k, c)))
    return run


def sec_check(S):
    n = var("n", "I", nn=True)
    a = farr("data", (n, const(2)), org="list_data")
    nm = "check_distortion"
    cnt = sum_(n, lambda k: ite(gt(a.get((k, ONE)), ONE), ONE, ZERO))
    got = []
    for I, hyps, v in each(S, nm, POST + ".check_distortion", [a], facts=[ge(n, ONE)]):
        if isinstance(v, bool):
            v = TRUE if v else FALSE
        v = tm.tobool(asT(v))
        S.oblige(nm + ".verdict", hyps, iff(v, gt(const(100) * cnt, const(15) * n)))
        S.frame(nm, I)


SECTIONS = [("hor", sec_res(False)), ("ver", sec_res(True)), ("shift_hor", sec_shift(False)), ("shift_ver", sec_shift(True)), ("check", sec_check)]
