"""C08: radial coefficients are the least-squares solution over all grid points."""
from .base import *
from .helpers import *

LEVEL = "proof"
ASSUME = ["numpy.linalg.lstsq and numpy.polyfit return the minimiser of the squared residual; equal systems (up to the order of the rows) have equal solutions",
          "scipy.optimize.minimize is a function of the objective and the starting value",
          "points whose factor is exactly zero, and lines whose ideal intercept is exactly zero, give no equation",
          "at least four lines in each direction; at most 32767 coefficients"]


def setup():
    nh, nv, m = var("nh", "I", nn=True), var("nv", "I", nn=True), var("m", "I")
    xc, yc = var("xc"), var("yc")
    H, hp, hl = lines("H", nh, org="list_hor_lines")
    V, vp, vl = lines("V", nv, org="list_ver_lines")
    facts = [ge(nh, const(4)), ge(nv, const(4)), le(m, const(32767))]
    return H, V, hp, vp, hl, vl, nh, nv, m, xc, yc, facts


def rows(I, kind, H, V, xc, yc, opt, m, ff=None):
    """the equations of the model, one per point"""
    out = []
    LH, nh, hi = lines_term(I, H)
    LV, nv, vi = lines_term(I, V)
    for ver, (L, n, item) in enumerate(((LH, nh, hi), (LV, nv, vi))):
        i, j = fresh("i"), fresh("j")
        a = to_arr(item(i), I)
        x, y = a.get((j, ONE)) - xc, a.get((j, ZERO)) - yc
        r = sqrt(x * x + y * y)
        A, C = para_coef(L, xc, yc, i, 0, ver), para_coef(L, xc, yc, i, 2, ver)
        uc = uc_of(LH, LV, xc, yc, opt, i, ver)
        t = y if ver else x
        if kind == "backward":
            F = (A * t * t + C) / uc
            out.append(([i, j], [n, a.shape[0]], and_(ne(uc, ZERO), ne(F, ZERO)), (lambda F, r: lambda q: tm.power(r / F, q))(F, r), F))
        elif kind == "forward":
            F = uc / (A * t * t + C)
            out.append(([i, j], [n, a.shape[0]], and_(ne(uc, ZERO), ne(F, ZERO)), (lambda r: lambda q: tm.power(r, q))(r), F))
        else:
            F = polyF(ff, m, r)
            out.append(([i, j], [n, a.shape[0]], ne(F, ZERO), (lambda F, r: lambda q: tm.power(F * r, q))(F, r), 1 / F))
    return out


def sec_fit(kind):
    fn = "calc_coef_" + kind

    def run(S):
        need(S, "_para_fit_hor", "_para_fit_ver", "_calc_undistor_intercept")
        H, V, hp, vp, hl, vl, nh, nv, m, xc, yc, facts = setup()
        j = var("j", "I")
        for opt in (False, True):
            nm = "%s[optimizing=%s]" % (fn, opt)
            mm = maxv(m, ONE)
            for I, hyps, v in each(S, nm, PROC + "." + fn, [H, V, xc, yc, m], dict(optimizing=opt), facts=facts, summaries=dict(PARA, _calc_undistor_intercept=s_intercept)):
                S.oblige(nm + ".count", hyps, eq(dims(v)[0], mm))
                h = hyps + [inr(j, mm)]
                S.cover(nm, h)
                md = dims(v)[0]
                ls = lsq_spec(I, rows(I, kind, H, V, xc, yc, opt, md), md)
                S.oblige(nm + ".least_squares", h, eq(elem(v, j), ls.get((j,))))
                S.frame(nm, I)
    return run


def s_forward(I, ba):
    v = list(ba.values())
    LH, nh, _ = lines_term(I, v[0])
    LV, nv, _ = lines_term(I, v[1])
    m = maxv(asT(v[4]), ONE)
    opt = ba.get("optimizing", False)
    return SArr((m,), lambda ix: T("app", ("forward_fit", LH, LV, asT(v[2]), asT(v[3]), asT(v[4]), str(opt), ix[0]), "R"), "f8")


def sec_from_forward(S):
    need(S, "_para_fit_hor", "_para_fit_ver", "calc_coef_forward")
    H, V, hp, vp, hl, vl, nh, nv, m, xc, yc, facts = setup()
    j = var("j", "I")
    for opt in (False, True):
        nm = "calc_coef_backward_from_forward[optimizing=%s]" % opt
        mm = maxv(m, ONE)
        for I, hyps, v in each(S, nm, PROC + ".calc_coef_backward_from_forward", [H, V, xc, yc, m], dict(optimizing=opt), facts=facts, summaries=dict(PARA, calc_coef_forward=s_forward)):
            if not isinstance(v, tuple) or len(v) != 2:
                S.record(nm + ".pair", False, "result is not a pair")
                continue
            f, b = v
            md = dims(b)[0]
            ff = s_forward(I, dict(a=H, b=V, c=xc, d=yc, m=mm, optimizing=opt))
            S.oblige(nm + ".counts", hyps, and_(eq(dims(f)[0], mm), eq(dims(b)[0], mm)))
            h = hyps + [inr(j, mm)]
            S.cover(nm, h)
            S.oblige(nm + ".forward", h, eq(elem(f, j), ff.get((j,))))
            ls = lsq_spec(I, rows(I, "inverse", H, V, xc, yc, opt, md, lambda q: elem(f, q)), md)
            S.oblige(nm + ".least_squares_inverse", h, eq(elem(b, j), ls.get((j,))))
            S.frame(nm, I)


def sec_lemma(S):
    """what a solved equation says: the moved point lies at the ideal intercept (exact fit)"""
    x, y, r, A, C, uc, F, P = [var(n) for n in ("x", "y", "r", "A", "C", "uc", "F", "P")]
    # forward: P(r) = uc/(A x^2 + C) moves the fitted curve point to the straight line y = uc
    S.oblige("lemma.forward_straightens", [ne(A * x * x + C, ZERO), eq(P, uc / (A * x * x + C)), eq(y, A * x * x + C)], eq(P * y, uc))
    # backward: with ru = r/F the ideal point (x/F, y/F) is moved by F onto the distorted one, and lies on y = uc
    S.oblige("lemma.backward_straightens", [ne(uc, ZERO), eq(F, (A * x * x + C) / uc), ne(F, ZERO), eq(y, A * x * x + C)], eq(y / F, uc))


SECTIONS = [("para_fit_hor", lambda S: para_obligations(S, False)), ("para_fit_ver", lambda S: para_obligations(S, True)),
            ("intercept", intercept_obligations), ("backward", sec_fit("backward")), ("forward", sec_fit("forward")), ("from_forward", sec_from_forward), ("lemma", sec_lemma)]
LIMIT = 120
