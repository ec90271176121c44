"""C12: calibration does not depend on axis naming or coordinate origin.

Relational obligations: each function is executed on the input and on the transformed input, and
the two results are compared.  The parabola fits are used through their contract (discharged in
the para_fit sections): coefficient q of line i is the degree-2 fit of one coordinate against the
other, both relative to the centre."""
from .base import *
from .helpers import *

LEVEL = "proof"
ASSUME = ["numpy.polyfit and numpy.linalg.lstsq return the least-squares solution: a function of the equations, whatever their order; a fitted straight line moves with its points",
          "scipy.optimize.minimize is a function of the objective and the starting value",
          "the smallest value of the centre metric is attained at one candidate only (the same candidate is found in the transposed table)",
          "scipy.optimize.fsolve finds the same crossing of two parabolas when their roles are exchanged; the mean line distances near the centre are not zero",
          "at least four lines in each direction where lines nearest the centre are used"]


def fit2(u, v, m, q):
    """coefficient q of the degree-2 fit of v(j) against u(j), j < m"""
    j = fresh("j")
    return T("app", ("fit2", asT(m), tm.lam([j], u(j)), tm.lam([j], v(j)), num(q)), "R")


def s_para_rel(ver):
    def summ(I, ba):
        v = list(ba.values())
        n, item = as_list(v[0])
        xc, yc = asT(v[1]), asT(v[2])

        def get(ix):
            a = to_arr(item(ix[0]), I)
            y = lambda j: a.get((j, ZERO)) - yc
            x = lambda j: a.get((j, ONE)) - xc
            return fit2(*((y, x) if ver else (x, y)), a.shape[0], ix[1])
        return (SArr((n, const(3)), get, "f4"), shifted(I, n, item, xc, yc))
    return summ


PARA_REL = {"_para_fit_hor": s_para_rel(False), "_para_fit_ver": s_para_rel(True)}


def base_input():
    nh, nv = var("nh", "I", nn=True), var("nv", "I", nn=True)
    H, hp, hl = lines("H", nh)
    V, vp, vl = lines("V", nv)
    return H, V, nh, nv, [ge(nh, const(4)), ge(nv, const(4))]


def conv(I, L, f):
    n, item = as_list(L)
    k = fresh("k")
    a = to_arr(item(k), I).frozen()
    return SList([Seg([k], [n], TRUE, SArr((a.shape[0], const(2)), lambda ix: f(lambda c: a.get((ix[0], const(c))), ix[1]), "f8"))])


TX, TY = var("tx"), var("ty")
transposed = lambda L: conv(None, L, lambda p, c: ite(eq(c, ZERO), p(1), p(0)))
moved = lambda L: conv(None, L, lambda p, c: ite(eq(c, ZERO), p(0) + TY, p(1) + TX))


def two(S, nm, dotted, a1, a2, kw=None, facts=(), **k):
    for I, h1, v in each(S, nm, dotted, a1, kw, facts=facts, **k):
        for I2, h2, w in each(S, nm, dotted, a2, kw, facts=h1, **k):
            yield h2, v, w


def s_ideal(I, ba):
    """ideal intercepts as a function of the lines relative to the centre, one symbol for the two
    directions: discharged by sec_ideal (transposed and moved input give the same values)"""
    v = list(ba.values())
    nh, nv = as_list(v[0])[0], as_list(v[1])[0]
    opt = str(ba.get("optimizing", False))
    A, B = rel(I, v[0], v[2], v[3], False), rel(I, v[1], v[2], v[3], False)
    C, D = rel(I, v[1], v[2], v[3], True), rel(I, v[0], v[2], v[3], True)
    return (SArr((nh,), lambda ix: T("app", ("ideal", A, B, opt, ix[0]), "R"), "f4"), SArr((nv,), lambda ix: T("app", ("ideal", C, D, opt, ix[0]), "R"), "f4"))


def sec_ideal(S):
    need(S, "_para_fit_hor", "_para_fit_ver", "_check_missing_lines")
    H, V, nh, nv, facts = base_input()
    xc, yc = var("xc"), var("yc")
    i = var("i", "I")
    for opt in (False, True):
        for what, a2 in (("transposed", [transposed(V), transposed(H), yc, xc]), ("moved", [moved(H), moved(V), xc + TX, yc + TY])):
            nm = "_calc_undistor_intercept[optimizing=%s].%s" % (opt, what)
            for hy, v, w in two(S, nm, PROC + "._calc_undistor_intercept", [H, V, xc, yc], a2, dict(optimizing=opt), facts=facts, summaries=dict(PARA_REL, **BOOL)):
                if what == "transposed":
                    w = (w[1], w[0])
                for d, n, a, b in (("hor", nh, v[0], w[0]), ("ver", nv, v[1], w[1])):
                    S.oblige(nm + ".%s.count" % d, hy, and_(eq(dims(a)[0], n), eq(dims(b)[0], n)))
                    S.oblige(nm + ".%s.same" % d, hy + [inr(i, n)], eq(elem(a, i), elem(b, i)))


def sec_coef(fn, opt):
    def run(S):
        need(S, "_para_fit_hor", "_para_fit_ver", "_calc_undistor_intercept")
        H, V, nh, nv, facts = base_input()
        m, xc, yc = var("m", "I"), var("xc"), var("yc")
        j = var("j", "I")
        summ = dict(PARA_REL, _calc_undistor_intercept=s_ideal)
        if fn == "calc_coef_backward_from_forward":
            need(S, "calc_coef_forward")
            summ["calc_coef_forward"] = s_forward_rel
        for what, a2 in (("transposed", [transposed(V), transposed(H), yc, xc, m]), ("moved", [moved(H), moved(V), xc + TX, yc + TY, m])):
            nm = "%s[optimizing=%s].%s" % (fn, opt, what)
            for hy, v, w in two(S, nm, PROC + "." + fn, [H, V, xc, yc, m], a2, dict(optimizing=opt), facts=facts + [le(m, const(32767))], summaries=summ):
                rs = [("", v, w)] if not isinstance(v, tuple) else [(".forward", v[0], w[0]), (".backward", v[1], w[1])]
                for t, a, b in rs:
                    S.oblige(nm + t + ".count", hy, eq(dims(a)[0], dims(b)[0]))
                    S.oblige(nm + t + ".same", hy + [inr(j, dims(a)[0])], eq(elem(a, j), elem(b, j)))
    return run


def s_forward_rel(I, ba):
    """forward coefficients as a symmetric function of the relative lines: discharged by the calc_coef_forward sections"""
    v = list(ba.values())
    opt = str(ba.get("optimizing", False))
    S1 = frozenset([T("app", ("pairl", rel(I, v[0], v[2], v[3], False), rel(I, v[1], v[2], v[3], False)), "L"), T("app", ("pairl", rel(I, v[1], v[2], v[3], True), rel(I, v[0], v[2], v[3], True)), "L")])
    m = maxv(asT(v[4]), ONE)
    nm = "forward_fit_%s" % "_".join(str(u) for u in sorted(x.uid for x in S1))
    return SArr((m,), lambda ix: T("app", (nm, opt, asT(v[4]), ix[0]), "R"), "f8")


def sec_res(S):
    n = var("nl", "I", nn=True)
    L, pt, ln = lines("pt", n)
    xc, yc, k = var("xc"), var("yc"), var("k", "I")
    facts = [ge(n, ONE), ge(ln(ZERO), ONE)]
    nm = "calc_residual.transposed"
    for I, h1, v in each(S, nm, POST + ".calc_residual_hor", [L, xc, yc], facts=facts):
        for I2, h2, w in each(S, nm, POST + ".calc_residual_ver", [transposed(L), yc, xc], facts=h1):
            S.oblige(nm + ".count", h2, eq(dims(v)[0], dims(w)[0]))
            for c in (0, 1):
                S.oblige(nm + ".%d" % c, h2 + [inr(k, dims(v)[0])], eq(elem(v, k, c), elem(w, k, c)))
    for d in ("hor", "ver"):
        nm = "calc_residual_%s.moved" % d
        for h2, v, w in two(S, nm, POST + ".calc_residual_" + d, [L, xc, yc], [moved(L), xc + TX, yc + TY], facts=facts):
            S.oblige(nm + ".count", h2, eq(dims(v)[0], dims(w)[0]))
            for c in (0, 1):
                S.oblige(nm + ".%d" % c, h2 + [inr(k, dims(v)[0])], eq(elem(v, k, c), elem(w, k, c)))


def swap_pair(S, nm, hy, v, w):
    S.oblige(nm + ".x", hy, eq(asT(v[0]), asT(w[1])))
    S.oblige(nm + ".y", hy, eq(asT(v[1]), asT(w[0])))


def sec_coarse(S):
    need(S, "_para_fit_hor", "_para_fit_ver")
    H, V, nh, nv, facts = base_input()
    nm = "find_cod_coarse.transposed"
    for hy, v, w in two(S, nm, PROC + ".find_cod_coarse", [H, V], [transposed(V), transposed(H)], facts=facts, summaries=PARA_REL):
        swap_pair(S, nm, hy, v, w)


def s_coarse(I, ba):
    """symmetric by sec_coarse: one symbol for the two directions"""
    v = list(ba.values())
    f = lambda A, B, sw: T("app", ("coarse", canon(I, A, sw), canon(I, B, sw)), "R")
    return (f(v[0], v[1], False), f(v[1], v[0], True))


def canon(I, L, sw):
    n, item = as_list(L)
    k, j, c = fresh("k"), fresh("j"), fresh("c")
    a = to_arr(item(k), I)
    return T("app", ("lines", n, tm.lam([k], a.shape[0]), tm.lam([k, j], a.get((j, const(1 if sw else 0)))), tm.lam([k, j], a.get((j, const(0 if sw else 1))))), "L")


def sec_bailey(S):
    need(S, "_para_fit_hor", "_para_fit_ver", "find_cod_coarse")
    H, V, nh, nv, facts = base_input()
    for it in (0, 1, 2):
        nm = "find_cod_bailey[iteration=%d].transposed" % it
        for hy, v, w in two(S, nm, PROC + ".find_cod_bailey", [H, V, it], [transposed(V), transposed(H), it], facts=facts, summaries=dict(PARA_REL, find_cod_coarse=s_coarse)):
            swap_pair(S, nm, hy, v, w)


class Table:
    """numpy.argmin of the metric table: records the table; the k-th run returns index (i0, j0), or (j0, i0) when transposed"""

    def __init__(self, swap):
        self.tables, self.swap = [], swap
        self.i0, self.j0 = var("i0", "I"), var("j0", "I")


def metric_lib(tab):
    def argmin(I, x, axis=None, **k):
        a = to_arr(x, I)
        if a.ndim != 2:
            return LIB["numpy.argmin"](I, x)
        tab.tables.append(a.frozen())
        return T("app", ("flatpos",), "I")

    def unravel(I, p, shape, **k):
        return (tab.j0, tab.i0) if tab.swap else (tab.i0, tab.j0)
    return lib_with(numpy__argmin=argmin, ndarray__argmin=argmin, numpy__unravel_index=unravel)


def sec_metric(what):
    def run(S):
        need(S, "_para_fit_hor", "_para_fit_ver")
        H, V, nh, nv, facts = base_input()
        xc, yc = var("xc"), var("yc")
        ns = var("ns", "I", nn=True)
        sh = farr("sh", (ns,))
        i, j = idx("i", "j")
        nm = "_calc_metric.%s" % what
        t1, t2 = Table(False), Table(what == "transposed")
        a2 = [transposed(V), transposed(H), yc, xc, sh, sh] if what == "transposed" else [moved(H), moved(V), xc + TX, yc + TY, sh, sh]
        fa = facts + [ge(ns, ONE), inr(t1.i0, ns), inr(t1.j0, ns)]
        for I, h1, v in each(S, nm, PROC + "._calc_metric", [H, V, xc, yc, sh, sh], facts=fa, summaries=PARA_REL, lib=metric_lib(t1)):
            for I2, h2, w in each(S, nm, PROC + "._calc_metric", a2, facts=h1, summaries=PARA_REL, lib=metric_lib(t2)):
                if not t1.tables or not t2.tables:
                    raise Unsupported("no table of candidates")
                A, B = t1.tables[-1], t2.tables[-1]
                hh = h2 + [inr(i, ns), inr(j, ns)]
                S.oblige(nm + ".table", hh, eq(A.get((i, j)), B.get((j, i) if t2.swap else (i, j))))
                if t2.swap:
                    swap_pair(S, nm, h2, v, w)
                else:
                    S.oblige(nm + ".shift", h2, and_(eq(asT(v[0]), asT(w[0])), eq(asT(v[1]), asT(w[1]))))
    return run


def s_metric(kind):
    def summ(I, ba):
        v = list(ba.values())
        f = lambda A, B, a, b, s1, s2, sw: T("app", ("metric", rel(I, A, a, b, sw), rel(I, B, a, b, sw), to_arr(s1, I).to_term(), to_arr(s2, I).to_term()), "R")
        return (f(v[0], v[1], v[2], v[3], v[4], v[5], False), f(v[1], v[0], v[2], v[3], v[5], v[4], True))
    return summ


def rel(I, L, xc, yc, sw):
    """the lines relative to the centre, in canonical axis order"""
    n, item = as_list(L)
    k, j = fresh("k"), fresh("j")
    a = to_arr(item(k), I)
    y, x = a.get((j, ZERO)) - asT(yc), a.get((j, ONE)) - asT(xc)
    if sw:
        y, x = x, y
    return T("app", ("lines", n, tm.lam([k], a.shape[0]), tm.lam([k, j], y), tm.lam([k, j], x)), "L")


def sec_fine(S):
    need(S, "_calc_metric")
    H, V, nh, nv, facts = base_input()
    xc, yc, pd = var("xc"), var("yc"), var("pd")
    fa = facts + [gt(pd, ZERO)]
    nm = "find_cod_fine.transposed"
    for hy, v, w in two(S, nm, PROC + ".find_cod_fine", [H, V, xc, yc, pd], [transposed(V), transposed(H), yc, xc, pd], facts=fa, summaries=dict(_calc_metric=s_metric(0))):
        swap_pair(S, nm, hy, v, w)
    nm = "find_cod_fine.moved"
    for hy, v, w in two(S, nm, PROC + ".find_cod_fine", [H, V, xc, yc, pd], [moved(H), moved(V), xc + TX, yc + TY, pd], facts=fa, summaries=dict(_calc_metric=s_metric(0))):
        S.oblige(nm + ".x", hy, eq(asT(v[0]) + TX, asT(w[0])))
        S.oblige(nm + ".y", hy, eq(asT(v[1]) + TY, asT(w[1])))


def s_polyfit1(I, x, y, deg, **k):
    """least-squares line in a form that shows how it moves with the points: slope and offset are
    functions of the coordinates relative to the first point"""
    if cval(asT(deg)) != 1:
        return LIB["numpy.polyfit"](I, x, y, deg, **k)
    x, y = to_arr(x, I).frozen(), to_arr(y, I).frozen()
    n = asT(x.shape[0])
    j = fresh("j")
    X, Y = x.get((ZERO,)), y.get((ZERO,))
    f = lambda nm: T("app", (nm, n, tm.lam([j], x.get((j,)) - X), tm.lam([j], y.get((j,)) - Y)), "R")
    s, e = f("slope"), f("offset")
    return SArr((const(2),), lambda ix: ite(eq(ix[0], ZERO), s, Y + e - s * X), "f8")


def sec_regen(S):
    H, V, nh, nv, facts = base_input()
    i, j = idx("i", "j")
    kk = fresh("k")
    facts = [ge(nh, ONE), ge(nv, ONE)]
    hl, vl = lambda q: T("app", ("len", "H", q), "I"), lambda q: T("app", ("len", "V", q), "I")
    nm = "regenerate_grid_points_linear.transposed"
    lib = lib_with(numpy__polyfit=s_polyfit1)
    ia, ib = slopes(H, V, i, j)
    for hy, v, w in two(S, nm, PROC + ".regenerate_grid_points_linear", [H, V], [transposed(V), transposed(H)], facts=facts, lib=lib):
        hy = hy + [ne(ONE - ia * ib, ZERO)]
        for c in (0, 1):
            S.oblige(nm + ".hor[%d]" % c, hy + [inr(i, nh), inr(j, nv)], eq(elem(v[0], i, j, c), elem(w[1], i, j, 1 - c)))
            S.oblige(nm + ".ver[%d]" % c, hy + [inr(i, nh), inr(j, nv)], eq(elem(v[1], j, i, c), elem(w[0], j, i, 1 - c)))
    nm = "regenerate_grid_points_linear.moved"
    for hy, v, w in two(S, nm, PROC + ".regenerate_grid_points_linear", [H, V], [moved(H), moved(V)], facts=facts, lib=lib):
        h = hy + [inr(i, nh), inr(j, nv), ge(hl(i), ONE), ge(vl(j), ONE)]
        h = h + [ne(ONE - ia * ib, ZERO)]
        for c, t in ((0, TY), (1, TX)):
            S.oblige(nm + ".hor[%d]" % c, h, eq(elem(v[0], i, j, c) + t, elem(w[0], i, j, c)))
            S.oblige(nm + ".ver[%d]" % c, h, eq(elem(v[1], j, i, c) + t, elem(w[1], j, i, c)))


def s_bailey(I, ba):
    """symmetric by sec_bailey: one symbol for the two directions"""
    v = list(ba.values())
    it = str(v[2]) if len(v) > 2 else ""
    f = lambda A, B, sw: T("app", ("bailey", canon(I, A, sw), canon(I, B, sw), it), "R")
    return (f(v[0], v[1], False), f(v[1], v[0], True))


def s_polyfit1_lin(I, x, y, deg, **k):
    """least-squares line: a linear function of the fitted values"""
    if cval(asT(deg)) != 1:
        return LIB["numpy.polyfit"](I, x, y, deg, **k)
    x, y = to_arr(x, I).frozen(), to_arr(y, I).frozen()
    n = asT(x.shape[0])
    j = fresh("j")
    Y = y.get((j,))
    ms = list(tm.monos(Y))
    sg = -1 if len(ms) == 1 and ms[0][1] < 0 else 1
    f = lambda nm: sg * T("app", (nm, n, tm.lam([j], x.get((j,))), tm.lam([j], sg * Y)), "R")
    s, e = f("fslope"), f("foffset")
    return SArr((const(2),), lambda ix: ite(eq(ix[0], ZERO), s, e), "f8")


def sec_nonpersp(S):
    fn = "_generate_non_perspective_parabola_coef"
    need(S, "_para_fit_hor", "_para_fit_ver", "find_cod_bailey", fn)
    H, V, nh, nv, facts = base_input()
    i, j = idx("i", "j")
    nm = fn + ".transposed"
    for hy, v, w in two(S, nm, PROC + "." + fn, [H, V], [transposed(V), transposed(H)], facts=facts, summaries=dict(PARA_REL, find_cod_bailey=s_bailey), lib=lib_with(numpy__polyfit=s_polyfit1_lin)):
        same = [a for a in hy if a.op == "le0" and any(b.op == "le0" and (a.args[0] + b.args[0]) is ZERO for b in hy)]
        if same:
            # equal mean distances in the two directions (positive by assumption): only these facts matter
            hy = same + [ne(tm.mkpoly({m: c}), ZERO) for a in same for m, c in tm.monos(a.args[0])]
        for c in (0, 1, 2):
            S.oblige(nm + ".hor[%d]" % c, hy + [inr(i, nh)], eq(elem(v[0], i, c), elem(w[1], i, c)))
            S.oblige(nm + ".ver[%d]" % c, hy + [inr(j, nv)], eq(elem(v[1], j, c), elem(w[0], j, c)))
        S.oblige(nm + ".x", hy, eq(asT(v[2]), asT(w[3])))
        S.oblige(nm + ".y", hy, eq(asT(v[3]), asT(w[2])))


def s_cross(I, ba):
    """the crossing found by fsolve: the same one when the two parabolas change roles"""
    a, b = [to_arr(v, I).frozen() for v in list(ba.values())[:2]]
    t = lambda z: [z.get((const(c),)) for c in (0, 1, 2)]
    f = lambda u, v: T("app", ("pcross",) + tuple(t(u)) + tuple(t(v)), "R")
    return (f(a, b), f(b, a))


def s_nonpersp(I, ba):
    """symmetric by sec_nonpersp"""
    v = list(ba.values())
    nh, nv = as_list(v[0])[0], as_list(v[1])[0]
    c = (canon(I, v[0], False), canon(I, v[1], False)), (canon(I, v[1], True), canon(I, v[0], True))
    arr = lambda n, q: SArr((n, const(3)), lambda ix: T("app", ("npcoef",) + c[q] + tuple(ix), "R"), "f4")
    x, y = [T("app", ("npcentre",) + z, "R") for z in c]
    return (arr(nh, 0), arr(nv, 1), x, y)


def sec_para(S):
    fn = "regenerate_grid_points_parabola"
    need(S, "_para_fit_hor", "_para_fit_ver", "find_cod_bailey", "_find_cross_point_between_parabolas", "_generate_non_perspective_parabola_coef", fn)
    H, V, nh, nv, facts = base_input()
    i, j = idx("i", "j")
    su = dict(PARA_REL, find_cod_bailey=s_bailey, _find_cross_point_between_parabolas=s_cross, _generate_non_perspective_parabola_coef=s_nonpersp)
    for kw in (dict(), dict(find_center=True), dict(perspective=True)):
        nm = "%s[%s].transposed" % (fn, ",".join(kw))
        for hy, v, w in two(S, nm, PROC + "." + fn, [H, V], [transposed(V), transposed(H)], kw, facts=facts, summaries=su):
            for c in (0, 1):
                S.oblige(nm + ".hor[%d]" % c, hy + [inr(i, nh), inr(j, nv)], eq(elem(v[0], i, j, c), elem(w[1], i, j, 1 - c)))
                S.oblige(nm + ".ver[%d]" % c, hy + [inr(i, nh), inr(j, nv)], eq(elem(v[1], j, i, c), elem(w[0], j, i, 1 - c)))


def slopes(H, V, i, j):
    a, b = as_list(H)[1](i), as_list(V)[1](j)
    f = lambda a, c, d: s_polyfit1(None, SArr((a.shape[0],), lambda ix: a.get((ix[0], const(c))), "f8"), SArr((a.shape[0],), lambda ix: a.get((ix[0], const(d))), "f8"), ONE).get((ZERO,))
    return f(a, 1, 0), f(b, 0, 1)


def sec_lines(fn):
    def run(S):
        n = var("nl", "I", nn=True)
        L, pt, ln = lines("pt", n)
        m = var("m", "I", nn=True)
        xc, yc = var("xc"), var("yc")
        i, j = idx("i", "j")
        fl, fa, ff = factor(m)
        for what, a2 in (("transposed", [transposed(L), yc, xc, fl]), ("moved", [moved(L), xc + TX, yc + TY, fl])):
            nm = "%s.%s" % (fn, what)
            for hy, v, w in two(S, nm, POST + "." + fn, [L, xc, yc, fl], a2, facts=[ge(m, ONE)]):
                h = hy + [inr(i, n), inr(j, ln(i))]
                S.oblige(nm + ".count", hy, eq(as_list(v)[0], as_list(w)[0]))
                for c in (0, 1):
                    if what == "transposed":
                        S.oblige(nm + "[%d]" % c, h, eq(elem(v, i, j, c), elem(w, i, j, 1 - c)))
                    else:
                        S.oblige(nm + "[%d]" % c, h, eq(elem(v, i, j, c) + (TX if c else TY), elem(w, i, j, c)))
    return run


def sec_update(S):
    n = var("nl", "I", nn=True)
    L, pt, ln = lines("pt", n)
    xc, yc = var("xc"), var("yc")
    i, j = idx("i", "j")
    nm = "update_center"
    for hy, v, w in two(S, nm, PROC + ".update_center", [L, xc, yc], [transposed(L), yc, xc]):
        h = hy + [inr(i, n), inr(j, ln(i))]
        for c in (0, 1):
            S.oblige(nm + ".transposed[%d]" % c, h, eq(elem(v, i, j, c), elem(w, i, j, 1 - c)))
            S.oblige(nm + ".shifts[%d]" % c, h, eq(elem(v, i, j, c), pt(i, j, c) + (xc if c else yc)))


COEF = [(f, o) for f in ("calc_coef_backward", "calc_coef_forward", "calc_coef_backward_from_forward") for o in (False, True)]
SECTIONS = [("non_perspective", sec_nonpersp), ("para_fit_hor", lambda S: para_obligations(S, False)), ("para_fit_ver", lambda S: para_obligations(S, True)), ("ideal", sec_ideal)] \
    + [("%s_%s" % (f, o), sec_coef(f, o)) for f, o in COEF] \
    + [("residual", sec_res), ("coarse", sec_coarse), ("bailey", sec_bailey), ("metric_transposed", sec_metric("transposed")), ("metric_moved", sec_metric("moved")), ("fine", sec_fine),
       ("regenerate", sec_regen), ("line_forward", sec_lines("unwarp_line_forward")), ("line_backward", sec_lines("unwarp_line_backward")), ("update_center", sec_update), ("regenerate_parabola", sec_para)]
LIMIT = 240
