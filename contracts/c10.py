"""C10: regenerated grid points are the crossings of the fitted lines."""
from .base import *
from .helpers import *

LEVEL = "proof"
ASSUME = ["scipy.optimize.fsolve returns a root of the system it is given (it converged)",
          "no horizontal line is parallel to a vertical one (1 - a1*a2 is not zero)",
          "numpy.polyfit is the least-squares fit, a function of the two coordinate arrays"]


def setup(dt="f8"):
    nh, nv = var("nh", "I", nn=True), var("nv", "I", nn=True)
    H, hp, hl = lines("H", nh, org="list_hor_lines", dt=dt)
    V, vp, vl = lines("V", nv, org="list_ver_lines", dt=dt)
    return H, V, hp, vp, hl, vl, nh, nv


def structure(S, nm, hyps, v, nh, nv):
    if not isinstance(v, tuple) or len(v) != 2:
        S.record(nm + ".two_lists", False, "result is not a pair")
        return False
    h, w = v
    i, j = idx("i", "j")
    hh = hyps + [inr(i, nh), inr(j, nv)]
    S.oblige(nm + ".hor_count", hyps, eq(as_list(h)[0], nh))
    S.oblige(nm + ".ver_count", hyps, eq(as_list(w)[0], nv))
    S.oblige(nm + ".hor_points", hh, eq(as_list(as_list(h)[1](i))[0], nv))
    S.oblige(nm + ".ver_points", hh, eq(as_list(as_list(w)[1](j))[0], nh))
    for c in (0, 1):
        S.oblige(nm + ".agree[%d]" % c, hh, eq(elem(h, i, j, c), elem(w, j, i, c)))
    S.cover(nm, hh)
    return True


def on_lines(S, nm, hyps, v, a1, b1, a2, b2, nh, nv):
    i, j = idx("i", "j")
    hh = hyps + [inr(i, nh), inr(j, nv), ne(ONE - a1(i) * a2(j), ZERO)]
    y, x = elem(v[0], i, j, 0), elem(v[0], i, j, 1)
    S.oblige(nm + ".on_horizontal_line", hh, eq(y, a1(i) * x + b1(i)))
    S.oblige(nm + ".on_vertical_line", hh, eq(x, a2(j) * y + b2(j)))


def sec_coef(S):
    nh, nv = var("nh", "I", nn=True), var("nv", "I", nn=True)
    A = farr("hc", (nh, const(2)), org="list_hor_lines")
    B = farr("vc", (nv, const(2)), org="list_ver_lines")
    g = lambda nm, c: lambda i: T("app", (nm, num(i), num(c)), "R")
    for kind in ("array", "list"):
        nm = "regenerate_grid_points_linear[is_coef,%s]" % kind
        if kind == "list":
            k = fresh("k")
            A = SList([Seg([k], [nh], TRUE, SList.of([g("hc", 0)(k), g("hc", 1)(k)]))])
            B = SList([Seg([k], [nv], TRUE, SList.of([g("vc", 0)(k), g("vc", 1)(k)]))])
        for I, hyps, v in each(S, nm, PROC + ".regenerate_grid_points_linear", [A, B], dict(is_coef=True)):
            if structure(S, nm, hyps, v, nh, nv):
                on_lines(S, nm, hyps, v, g("hc", 0), g("hc", 1), g("vc", 0), g("vc", 1), nh, nv)
            S.frame(nm, I)


def linfit(I, pt, ln, i, ver):
    x = SArr((ln(i),), lambda ix: pt(i, ix[0], 1), "f8")
    y = SArr((ln(i),), lambda ix: pt(i, ix[0], 0), "f8")
    return LIB["numpy.polyfit"](I, *((y, x) if ver else (x, y)), ONE)


def sec_fit(S):
    for dt in ("f8", "i8"):
        H, V, hp, vp, hl, vl, nh, nv = setup(dt)
        nm = "regenerate_grid_points_linear[%s]" % dt
        for I, hyps, v in each(S, nm, PROC + ".regenerate_grid_points_linear", [H, V]):
            if structure(S, nm, hyps, v, nh, nv):
                c = lambda pt, ln, ver, q: lambda i: linfit(I, pt, ln, i, ver).get((const(q),))
                on_lines(S, nm, hyps, v, c(hp, hl, False, 0), c(hp, hl, False, 1), c(vp, vl, True, 0), c(vp, vl, True, 1), nh, nv)
            S.frame(nm, I)


def s_bailey(I, ba):
    v = list(ba.values())
    LH, nh, _ = lines_term(I, v[0])
    LV, nv, _ = lines_term(I, v[1])
    return tuple(T("app", ("bailey", LH, LV, const(q)), "R") for q in (0, 1))


def s_nonpers(I, ba):
    v = list(ba.values())
    LH, nh, _ = lines_term(I, v[0])
    LV, nv, _ = lines_term(I, v[1])
    return (SArr((nh, const(3)), lambda ix: T("app", ("npar_h", LH, LV) + tuple(ix), "R"), "f4"),
            SArr((nv, const(3)), lambda ix: T("app", ("npar_v", LH, LV) + tuple(ix), "R"), "f4"),
            T("app", ("npar_x", LH, LV), "R"), T("app", ("npar_y", LH, LV), "R"))


def sec_para(opt):
    def run(S):
        need(S, "_para_fit_hor", "_para_fit_ver")
        H, V, hp, vp, hl, vl, nh, nv = setup()
        i, j = idx("i", "j")
        nm = "regenerate_grid_points_parabola[%s]" % opt
        kw = dict(plain={}, center=dict(find_center=True), perspective=dict(perspective=True))[opt]
        summ = dict(PARA)
        if opt == "center":
            need(S, "find_cod_bailey")
            summ["find_cod_bailey"] = s_bailey
        if opt == "perspective":
            need(S, "_generate_non_perspective_parabola_coef")
            summ["_generate_non_perspective_parabola_coef"] = s_nonpers
        for I, hyps, v in each(S, nm, PROC + ".regenerate_grid_points_parabola", [H, V], kw, summaries=summ):
            if not structure(S, nm, hyps, v, nh, nv):
                continue
            LH, LV = lines_term(I, H)[0], lines_term(I, V)[0]
            if opt == "perspective":
                A, B, xc, yc = s_nonpers(I, dict(a=H, b=V))
                hc, vc = lambda i, q: A.get((i, const(q))), lambda i, q: B.get((i, const(q)))
            else:
                xc, yc = (ZERO, ZERO) if opt == "plain" else s_bailey(I, dict(a=H, b=V))
                hc, vc = lambda i, q: para_coef(LH, xc, yc, i, q, 0), lambda i, q: para_coef(LV, xc, yc, i, q, 1)
            hh = hyps + [inr(i, nh), inr(j, nv)]
            y, x = elem(v[0], i, j, 0) - yc, elem(v[0], i, j, 1) - xc
            S.oblige(nm + ".on_horizontal_parabola", hh, eq(y, hc(i, 0) * x * x + hc(i, 1) * x + hc(i, 2)))
            S.oblige(nm + ".on_vertical_parabola", hh, eq(x, vc(j, 0) * y * y + vc(j, 1) * y + vc(j, 2)))
            S.frame(nm, I)
    return run


def sec_nonpers(S):
    """the perspective-free parabolas share one slope, of opposite sign in the two directions"""
    need(S, "_para_fit_hor", "_para_fit_ver", "find_cod_bailey")
    H, V, hp, vp, hl, vl, nh, nv = setup()
    facts = [ge(nh, const(4)), ge(nv, const(4))]
    i, j = idx("i", "j")
    nm = "_generate_non_perspective_parabola_coef"
    for I, hyps, v in each(S, nm, PROC + "." + nm, [H, V], facts=facts, summaries=dict(PARA, find_cod_bailey=s_bailey)):
        A, B, xc, yc = v
        hh = hyps + [inr(i, nh), inr(j, nv)]
        S.oblige(nm + ".counts", hyps, and_(eq(dims(A)[0], nh), eq(dims(B)[0], nv)))
        S.oblige(nm + ".common_slope", hh, eq(elem(A, i, 1), -elem(B, j, 1)))
        S.frame(nm, I)


SECTIONS = [("para_fit_hor", lambda S: para_obligations(S, False)), ("para_fit_ver", lambda S: para_obligations(S, True)),
            ("coef", sec_coef), ("fit", sec_fit), ("parabola", sec_para("plain")), ("parabola_center", sec_para("center")),
            ("parabola_perspective", sec_para("perspective")), ("nonperspective", sec_nonpers)]
LIMIT = 120
