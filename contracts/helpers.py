"""Contracts of the private helpers of proc/processing.py.

Each contract is discharged against the helper's body by helper_section; callers are then
checked against the contract: the summary returns uninterpreted functions of the arguments
that satisfy it.  A helper that is no longer there, or whose body is out of the verifier's
reach, makes the calling sections out of reach (the bounded stand-in decides), never an alarm."""
from .base import *


def lines_term(I, v):
    n, item = as_list(v)
    k, j, c = fresh("k"), fresh("j"), fresh("c")
    a = to_arr(item(k), I)
    if a.ndim != 2:
        raise Unsupported("lines argument")
    return T("app", ("lines", n, tm.lam([k], a.shape[0]), tm.lam([k, j, c], a.get((j, c)))), "L"), n, item


def shifted(I, n, item, xc, yc):
    k = fresh("k")
    a = to_arr(item(k), I).frozen()
    sh = SArr((a.shape[0], const(2)), lambda ix: a.get((ix[0], ix[1])) - ite(eq(ix[1], ZERO), yc, xc), "f8")
    return SList([Seg([k], [n], TRUE, sh)])


def para_coef(L, xc, yc, i, q, ver):
    """coefficient q of the parabola fitted to line i with the centre as origin"""
    return T("app", ("parafit_ver" if ver else "parafit_hor", L, xc, yc, num(i), num(q)), "R")


def s_para(ver):
    def summ(I, ba):
        v = list(ba.values())
        L, n, item = lines_term(I, v[0])
        xc, yc = asT(v[1]), asT(v[2])
        co = SArr((n, const(3)), lambda ix: para_coef(L, xc, yc, ix[0], ix[1], ver), "f4")
        return (co, shifted(I, n, item, xc, yc))
    return summ


def s_intercept(I, ba):
    v = list(ba.values())
    LH, nh, _ = lines_term(I, v[0])
    LV, nv, _ = lines_term(I, v[1])
    xc, yc = asT(v[2]), asT(v[3])
    opt = ba.get("optimizing", False)
    opt = opt if isinstance(opt, bool) else tm.show(asT(opt))
    return tuple(SArr((n,), (lambda d: lambda ix: uc_of(LH, LV, xc, yc, opt, ix[0], d))(d), "f4") for n, d in ((nh, 0), (nv, 1)))


def uc_of(LH, LV, xc, yc, opt, i, ver):
    """intercept of ideal line i; does not depend on the threshold of the missing-line warning"""
    return T("app", ("ideal_ver" if ver else "ideal_hor", LH, LV, xc, yc, str(opt), num(i)), "R")


def need(S, *names):
    for n in names:
        S.fn(PROC + "." + n)


PARA = {"_para_fit_hor": s_para(False), "_para_fit_ver": s_para(True)}
BOOL = {"_check_missing_lines": lambda I, ba: T("var", ("missing_lines",), "B")}


def para_obligations(S, ver):
    """_para_fit_hor / _para_fit_ver"""
    fn = "_para_fit_ver" if ver else "_para_fit_hor"
    n = var("nl", "I", nn=True)
    xc, yc = var("xc"), var("yc")
    for dt in ("f8", "i8"):
        L, pt, ln = lines("pt", n, org="list_lines", dt=dt)
        i, j = idx("i", "j")
        nm = "%s[%s]" % (fn, dt)
        for I, hyps, v in each(S, nm, PROC + "." + fn, [L, xc, yc]):
            if not isinstance(v, tuple) or len(v) != 2:
                raise Unsupported("%s returns another structure" % fn)
            co, sl = v
            h = hyps + [inr(i, n), inr(j, ln(i))]
            S.cover(nm, h)
            S.oblige(nm + ".counts", hyps, and_(eq(as_list(co)[0], n), eq(as_list(sl)[0], n)))
            S.oblige(nm + ".points", h, eq(dims(as_list(sl)[1](i))[0], ln(i)))
            S.oblige(nm + ".shifted_y", h, eq(elem(sl, i, j, 0), pt(i, j, 0) - yc))
            S.oblige(nm + ".shifted_x", h, eq(elem(sl, i, j, 1), pt(i, j, 1) - xc))
            x = SArr((ln(i),), lambda ix: pt(i, ix[0], 1) - xc, "f8")
            y = SArr((ln(i),), lambda ix: pt(i, ix[0], 0) - yc, "f8")
            pf = LIB["numpy.polyfit"](I, *((y, x) if ver else (x, y)), const(2))
            for q in range(3):
                S.oblige(nm + ".coef[%d]" % q, h, eq(elem(co, i, q), pf.get((const(q),))))
            S.frame(nm, I)


def intercept_obligations(S):
    """_calc_undistor_intercept: ideal intercepts are regularly spaced about the line nearest the centre"""
    need(S, "_para_fit_hor", "_para_fit_ver", "_check_missing_lines")
    nh, nv = var("nh", "I", nn=True), var("nv", "I", nn=True)
    xc, yc = var("xc"), var("yc")
    H, hp, hl = lines("H", nh, org="list_hor_lines")
    V, vp, vl = lines("V", nv, org="list_ver_lines")
    facts = [ge(nh, const(4)), ge(nv, const(4))]
    for opt in (False, True):
        nm = "_calc_undistor_intercept[optimizing=%s]" % opt
        for I, hyps, v in each(S, nm, PROC + "._calc_undistor_intercept", [H, V, xc, yc], dict(optimizing=opt), facts=facts, summaries=dict(PARA, **BOOL)):
            i = var("i", "I")
            num_use = minv(minv(const(3), tm.idiv(nh, const(2)) - 1), tm.idiv(nv, const(2)) - 1)
            for ver, (n, src) in enumerate(((nh, H), (nv, V))):
                d = "ver" if ver else "hor"
                L, _, _ = lines_term(I, src)
                c = lambda q: para_coef(L, xc, yc, q, 2, ver)
                k = fresh("k")
                carr = SArr((n,), lambda ix: c(ix[0]), "f4")
                pos = LIB["numpy.argmin"](I, SArr((n,), lambda ix: absv(c(ix[0])), "f4"))
                out = v[ver]
                S.oblige(nm + ".%s.count" % d, hyps, eq(dims(out)[0], n))
                p1, p2 = maxv(ZERO, pos - num_use), minv(n, pos + num_use + 1)
                cnt = p2 - p1 - 1
                dist = sum_(cnt, lambda q: absv(c(p1 + q + 1) - c(p1 + q))) / cnt
                if opt:
                    u = fresh("u", "R")
                    body = sum_(n, lambda q: (tm.sign(c(q)) * absv(q - pos) * u + c(pos) - c(q)) * (tm.sign(c(q)) * absv(q - pos) * u + c(pos) - c(q)))
                    dist = T("app", ("minimize", tm.lam([u], body), dist), "R")
                h = hyps + [inr(i, n), inr(pos, n)]
                want = tm.sign(c(i)) * absv(i - pos) * dist + c(pos)
                S.oblige(nm + ".%s.intercept" % d, h, eq(out.get((i,)), want))
            S.frame(nm, I)


def havoc_polyfit(I, x, y, deg, **k):
    """any value at all, as a function of the arguments: what is proved with it holds whatever the fit returns"""
    x, y = to_arr(x, I).frozen(), to_arr(y, I).frozen()
    r = fresh("r")
    l = tm.lam([r], x.get((r,)) + var("_pf") * y.get((r,)))
    fv = sorted((v for v in tm.free_vars(l) | tm.free_vars(asT(x.shape[0])) if v.op in ("var", "bv") and v is not var("_pf")), key=lambda v: v.uid)
    c = cval(asT(deg))
    if c is None:
        raise Unsupported("polyfit degree")
    nm = "pf%d_%d" % (int(c), l.uid)
    return SArr((const(int(c) + 1),), lambda ix: T("app", (nm,) + tuple(fv) + (ix[0],), "R"), "f8")


def lib_with(**over):
    """the library contracts with some replaced (keys use '__' for '.')"""
    L = type(LIB)()
    L.__dict__.update(LIB.__dict__)
    for k in list(LIB.keys()):
        L[k] = dict.__getitem__(LIB, k)
    for k, f in over.items():
        L[k.replace("__", ".")] = f
    return L
