"""C13: the distortion centre found is the best candidate of the stated search."""
from .base import *
from .helpers import *
from .c12 import Table, metric_lib, conv

LEVEL = "proof"
ASSUME = ["numpy.polyfit is the least-squares fit, scipy.optimize.minimize a function of the objective and the starting value",
          "numpy.argmin / argmax return the position of the extreme value",
          "lines are not parallel across directions (1 - slope_hor*slope_ver is not zero)",
          "at least four lines in each direction"]
NOTE = ("Obligations generated from /repo's source on every run hold for all inputs in real arithmetic; trusted: the VC generator, the solvers, the assumed numpy/scipy contracts named in the evidence. "
        "The crossing points inside the vanishing-point methods are outside the verifier's reach (roots of symbolic quadratics): bounded concrete check only; their iteration is proved.")


def base_input():
    nh, nv = var("nh", "I", nn=True), var("nv", "I", nn=True)
    H, hp, hl = lines("H", nh, org="list_hor_lines")
    V, vp, vl = lines("V", nv, org="list_ver_lines")
    return H, V, nh, nv, [ge(nh, const(4)), ge(nv, const(4))]


def sec_coarse(S):
    need(S, "_para_fit_hor", "_para_fit_ver")
    H, V, nh, nv, facts = base_input()
    nm = "find_cod_coarse"
    for I, hyps, v in each(S, nm, PROC + ".find_cod_coarse", [H, V], facts=facts, summaries=PARA):
        S.cover(nm, hyps)
        ln = []
        for ver, (L, n) in enumerate(((H, nh), (V, nv))):
            t = lines_term(I, L)[0]
            c = lambda i, q: para_coef(t, ZERO, ZERO, i, q, ver)
            jump = SArr((n - 1,), lambda ix: absv(tm.sign(c(ix[0] + 1, 0)) - tm.sign(c(ix[0], 0))), "f4")
            p = LIB["numpy.argmax"](I, jump)
            ln.append(((c(p, 1) + c(p + 1, 1)) * HALF, (c(p, 2) + c(p + 1, 2)) * HALF))
            hyps = hyps + [inr(p, n - 1)]
        (sh, ch), (sv, cv) = ln
        x, y = asT(v[0]), asT(v[1])
        h = hyps + [ne(ONE - sh * sv, ZERO)]
        S.oblige(nm + ".on_middle_horizontal", h, eq(y, sh * x + ch))
        S.oblige(nm + ".on_middle_vertical", h, eq(x, sv * y + cv))
        S.frame(nm, I)


def nearest(a, b, c):
    """abscissa of the point of y = a x^2 + b x + c nearest the origin, searched from 0"""
    u = fresh("u", "R")
    w = a * u * u + b * u + c
    return T("app", ("minimize", tm.lam([u], u * u + w * w), ZERO), "R")


def s_error(I, ba):
    A, B = [to_arr(x, I).frozen() for x in ba.values()]
    return T("app", ("cod_error", A.to_term(), B.to_term()), "R")


def sec_error(S):
    nh, nv = var("nh", "I", nn=True), var("nv", "I", nn=True)
    A, B = farr("ah", (nh, const(3)), org="list_coef_hor"), farr("av", (nv, const(3)), org="list_coef_ver")
    nm = "_calc_error"
    for I, hyps, v in each(S, nm, PROC + "._calc_error", [A, B], facts=[ge(nh, const(2)), ge(nv, const(2))]):
        tot = ZERO
        for X, n in ((A, nh), (B, nv)):
            c = lambda i, q: X.get((num(i), const(q)))
            u = lambda i: nearest(c(i, 0), c(i, 1), c(i, 2))
            w = lambda i: c(i, 0) * u(i) * u(i) + c(i, 1) * u(i) + c(i, 2)
            pf = LIB["numpy.polyfit"](I, SArr((n,), lambda ix: u(ix[0]), "f8"), SArr((n,), lambda ix: w(ix[0]), "f8"), ONE)
            tot = tot + absv(pf.get((ONE,)))
        S.oblige(nm + ".sum_of_intercepts", hyps, eq(asT(v), tot))
        S.frame(nm, I)


def sec_metric(S):
    need(S, "_para_fit_hor", "_para_fit_ver", "_calc_error")
    H, V, nh, nv, facts = base_input()
    xc, yc, ns = var("xc"), var("yc"), var("ns", "I", nn=True)
    xs, ys = farr("xs", (ns,), org="list_xshift"), farr("ys", (ns,), org="list_yshift")
    i, j = idx("i", "j")
    nm = "_calc_metric"
    tab = Table(False)
    fa = facts + [ge(ns, ONE), inr(tab.i0, ns), inr(tab.j0, ns)]
    for I, hyps, v in each(S, nm, PROC + "._calc_metric", [H, V, xc, yc, xs, ys], facts=fa, summaries=dict(PARA, _calc_error=s_error), lib=metric_lib(tab)):
        if not tab.tables:
            raise Unsupported("no table of candidates")
        M = tab.tables[-1]
        h = hyps + [inr(i, ns), inr(j, ns)]
        S.cover(nm, h)
        num_use = minv(minv(const(5), tm.idiv(nh, const(2)) - 1), tm.idiv(nv, const(2)) - 1)
        co = []
        for ver, (L, n) in enumerate(((H, nh), (V, nv))):
            t = lines_term(I, L)[0]
            c = lambda q: para_coef(t, xc, yc, q, 2, ver)
            pos = LIB["numpy.argmin"](I, SArr((n,), lambda ix: absv(c(ix[0])), "f4"))
            p1, p2 = maxv(ZERO, pos - num_use), minv(n, pos + num_use + 1)
            k = fresh("k")
            item = as_list(L)[1]
            a = to_arr(item(p1 + k), I).frozen()
            R = SList([Seg([k], [p2 - p1], TRUE, SArr((a.shape[0], const(2)), lambda ix: a.get((ix[0], ix[1])) - ite(eq(ix[1], ZERO), yc, xc), "f8"))])
            t2 = lines_term(I, R)[0]
            co.append(SArr((p2 - p1, const(3)), (lambda t2, ver: lambda ix: para_coef(t2, xs.get((j,)), ys.get((i,)), ix[0], ix[1], ver))(t2, ver), "f4"))
            h = h + [inr(pos, n)]
        S.oblige(nm + ".candidate_error", h, eq(M.get((i, j)), s_error(I, dict(a=co[0], b=co[1]))))
        S.oblige(nm + ".best_x", hyps, eq(asT(v[0]), xs.get((tab.j0,))))
        S.oblige(nm + ".best_y", hyps, eq(asT(v[1]), ys.get((tab.i0,))))
        S.record(nm + ".table_shape", True)
        S.oblige(nm + ".all_candidates", hyps, and_(eq(M.shape[0], ns), eq(M.shape[1], ns)))
        S.frame(nm, I)


def sec_fine(S):
    need(S, "_calc_metric")
    H, V, nh, nv, facts = base_input()
    xc, yc, pd = var("xc"), var("yc"), var("pd")
    nm = "find_cod_fine"
    calls = []

    def s_metric(I, ba):
        v = list(ba.values())
        n = len([c for c in calls if c[0] is I])
        xs, ys = to_arr(v[4], I).frozen(), to_arr(v[5], I).frozen()
        p, q = var("px%d" % n, "I"), var("py%d" % n, "I")
        calls.append((I, v[0], v[1], asT(v[2]), asT(v[3]), xs, ys, p, q))
        I.assume(inr(p, xs.shape[0]))
        I.assume(inr(q, ys.shape[0]))
        return (xs.get((p,)), ys.get((q,)))
    for I, hyps, v in each(S, nm, PROC + ".find_cod_fine", [H, V, xc, yc, pd], facts=facts + [gt(pd, ZERO)], summaries=dict(_calc_metric=s_metric)):
        cs = [c for c in calls if c[0] is I]
        S.cover(nm, hyps)
        if len(cs) < 2 or any(c[1] is not H or c[2] is not V for c in cs):
            raise Unsupported("another search schedule")
        _, _, _, x1, y1, xs, ys, p, q = cs[-1]
        S.oblige(nm + ".last_pass_best", hyps, and_(eq(asT(v[0]), x1 + xs.get((p,))), eq(asT(v[1]), y1 + ys.get((q,)))))
        k = var("k", "I")
        for c, m in zip(cs, cs[1:]):
            S.oblige(nm + ".pass_starts_from_best", hyps, and_(eq(m[3], c[3] + c[5].get((c[7],))), eq(m[4], c[4] + c[6].get((c[8],)))))
        S.oblige(nm + ".starts_at_given_centre", hyps, and_(eq(cs[0][3], xc), eq(cs[0][4], yc)))
        S.oblige(nm + ".refinement_contains_its_start", hyps, and_(gt(xs.shape[0], const(4)), eq(xs.get((const(4),)), ZERO), gt(ys.shape[0], const(4)), eq(ys.get((const(4),)), ZERO)))
        S.oblige(nm + ".within_window", hyps, and_(*[and_(ge(asT(r) - c, -pd - 2), lt(asT(r) - c, pd + 4)) for r, c in ((v[0], xc), (v[1], yc))]))
        # the first pass covers the whole point distance on both sides in steps of at most 2 pixels
        f = cs[0]
        for s, t in ((f[5], "x"), (f[6], "y")):
            N = s.shape[0]
            S.oblige(nm + ".first_pass_covers.%s" % t, hyps + [inr(k, N - 1)], and_(le(s.get((ZERO,)), -pd), ge(s.get((N - 1,)), pd), le(s.get((k + 1,)) - s.get((k,)), const(2))))
        # the last pass covers 2 pixels on both sides of its start in steps of at most 0.5
        for s, t in ((xs, "x"), (ys, "y")):
            N = s.shape[0]
            S.oblige(nm + ".last_pass_covers.%s" % t, hyps + [inr(k, N - 1)], and_(le(s.get((ZERO,)), const(-2)), ge(s.get((N - 1,)), const(2)), le(s.get((k + 1,)) - s.get((k,)), const(0.5))))
        S.frame(nm, I)


def s_coarse(I, ba):
    v = list(ba.values())
    LH, LV = lines_term(I, v[0])[0], lines_term(I, v[1])[0]
    return tuple(T("app", ("coarse", LH, LV, const(q)), "R") for q in (0, 1))


def named_iterates(v, name, alts):
    """the code's loop results, with the iterate of one of the allowed (step, start) systems written name(rounds, component)

    alts: functions (state variables) -> (steps, starts, rounds already made).  A loop of another form is Unsupported: no verdict.
    """
    v = [asT(t) for t in v]
    m = {}
    for x in {x for t in v for x in tm.subterms(t, bound=True) if x.op == "app" and x.args[0] == "iter!"}:
        for steps, starts, made in alts:
            for order in ((0, 1), (1, 0)):
                hs = [fresh("h0", "R"), fresh("h1", "R")]
                st = steps(*[hs[order.index(q)] for q in (0, 1)])
                want = tm.iterate(x.args[1], 0, hs + [fresh("k")], [st[q] for q in order], [starts[q] for q in order])
                if x.args[3:] == want.args[3:]:
                    m[x] = T("app", (name, x.args[1] + made, const(order[0 if x.args[2] is ZERO else 1])), "R")
    v = [tm.subst(t, m) for t in v]
    if any(x.op == "app" and x.args[0] == "iter!" for t in v for x in tm.subterms(t, bound=True)):
        raise Unsupported("a loop whose step is not recognised")
    return v


def sec_bailey(S):
    need(S, "_para_fit_hor", "_para_fit_ver", "find_cod_coarse")
    H, V, nh, nv, facts = base_input()
    sym = var("rounds", "I", nn=True)
    for it in (None, 0, 1, 3, sym):
        nm = "find_cod_bailey[iteration=%s]" % ("any" if it is sym else it)
        for I, hyps, v in each(S, nm, PROC + ".find_cod_bailey", [H, V], {} if it is None else dict(iteration=it), facts=facts + ([ge(sym, ZERO)] if it is sym else []), summaries=dict(PARA, find_cod_coarse=s_coarse)):
            LH, LV = lines_term(I, H)[0], lines_term(I, V)[0]

            def step(x, y):
                z = []
                for ver, (t, n) in enumerate(((LH, nh), (LV, nv))):
                    g = lambda q: SArr((n,), (lambda x, y, t, ver: lambda ix: para_coef(t, x, y, ix[0], q, ver))(x, y, t, ver), "f4")
                    pf = LIB["numpy.polyfit"](I, g(2), g(0), ONE)
                    # curvature = p*intercept + q vanishes at intercept -q/p
                    z.append(-pf.get((ONE,)) / pf.get((ZERO,)))
                return x + z[1], y + z[0]
            x, y = s_coarse(I, dict(a=H, b=V))
            if it is sym:
                one = step(x, y)
                v = named_iterates(v, "bailey_rounds", [(step, (x, y), ZERO), (step, one, ONE)])
                x, y = (T("app", ("bailey_rounds", sym + 1, const(q)), "R") for q in (0, 1))
            else:
                for _ in range((2 if it is None else it) + 1):
                    x, y = step(x, y)
            S.oblige(nm + ".x", hyps, eq(asT(v[0]), x))
            S.oblige(nm + ".y", hyps, eq(asT(v[1]), y))
            S.frame(nm, I)


REPR = "__get_representative_linear_coefs"


def sec_repr(S):
    """the representative line is the one of largest / smallest curvature among the selected parabolas"""
    n, m = var("n", "I", nn=True), var("m", "I", nn=True)
    C = farr("co", (n, const(3)))
    ind = farr("nnidx", (m,), dt="i8")     # non-negative indices
    co = lambda k, q: T("app", ("co", num(k), const(q)), "R")
    p, q = idx("p", "q")
    need(S, REPR)
    for method in ("max", "min"):
        for sg in (1, -1):
            nm = "%s[%s,%s]" % (REPR, method, "convex" if sg > 0 else "concave")
            at = lambda k: T("app", ("nnidx", num(k)), "I")
            order = None
            for I, hyps, v in each(S, nm, PROC + "." + REPR, [C, ind, method], facts=[ge(m, ONE)]):
                a = lambda k: co(at(k), 0)
                order = LIB["numpy.argsort"](I, SArr((m,), lambda ix: a(ix[0]), "f8"))
                first, last = order.get((ZERO,)), order.get((m - 1,))
                h = hyps + [inr(q, m), gt(a(q) * sg, ZERO), gt(a(first) * sg, ZERO), gt(a(last) * sg, ZERO), inr(first, m), inr(last, m), le(a(first), a(q)), le(a(q), a(last)),
                            inr(at(first), n), inr(at(last), n), inr(at(q), n)]
                cond = (lambda w: ge(absv(a(w)), absv(a(q)))) if method == "max" else (lambda w: le(absv(a(w)), absv(a(q))))
                S.oblige(nm + ".extreme_line", h, or_(*[and_(eq(asT(v[0]), co(at(w), 1)), eq(asT(v[1]), co(at(w), 2)), cond(w)) for w in (first, last)]))
                S.frame(nm, I)


def sec_effect(method):
    def run(S):
        need(S, "_para_fit_hor", "_para_fit_ver", "generate_4_source_target_perspective_points", "calc_perspective_coefficients")
        H, V, nh, nv, _ = base_input()
        facts = [ge(nh, ZERO), ge(nv, ZERO)]
        xc, yc = var("xc"), var("yc")
        i, j = idx("i", "j")
        nm = "correct_perspective_effect[%s]" % method
        rec = {}

        def s_four(I, ba):
            v = list(ba.values())
            rec["pts"] = to_arr(v[0], I).frozen()
            rec["kw"] = dict(ba)
            f = lambda nm: SArr((const(4), const(2)), lambda ix: T("app", (nm, ix[0], ix[1]), "R"), "f8")
            return (f("src4"), f("tgt4"))

        def s_pers(I, ba):
            v = list(ba.values())
            rec["pers"] = (to_arr(v[0], I).frozen(), to_arr(v[1], I).frozen(), ba.get("mapping", "backward"))
            return SArr((const(8),), lambda ix: T("app", ("pc", ix[0]), "R"), "f8")
        summ = dict(PARA, generate_4_source_target_perspective_points=s_four, calc_perspective_coefficients=s_pers)
        if method != "mean":
            need(S, REPR)
            cnt_ = [0]

            def s_repr(I, ba):
                cnt_[0] += 1
                return tuple(T("var", ("repr%d_%d" % (cnt_[0], q),), "R") for q in (0, 1))
            summ[REPR] = s_repr
        for I, hyps, oc, v in S.paths(PROC + ".correct_perspective_effect", [H, V, xc, yc], dict(method=method), facts, summaries=summ):
            LH, LV = lines_term(I, H)[0], lines_term(I, V)[0]
            a = {}
            cnt = {}
            for ver, (t, n) in enumerate(((LH, nh), (LV, nv))):
                for sg in (1, -1):
                    w = (lambda t, ver, sg: lambda k: gt(para_coef(t, xc, yc, k, 0, ver) * sg, ZERO))(t, ver, sg)
                    N = sum_(n, lambda k: ite(w(k), ONE, ZERO))
                    cnt[ver, sg] = N
                    k = fresh("k")
                    a[ver, sg] = [LIB["numpy.mean"](I, list_to_array(SList([Seg([k], [n], w(k), para_coef(t, xc, yc, k, q, ver))]), I)) for q in (1, 2)]
            if oc == "raise":
                S.record(nm + ".raises", v.name == "ValueError", "raises %s" % v.name)
                S.oblige(nm + ".raises_only_without_opposite_curves", hyps, or_(lt(nh, const(2)), lt(nv, const(2)), *[eq(c, ZERO) for c in cnt.values()]))
                continue
            S.oblige(nm + ".two_lines_per_direction", hyps, and_(ge(nh, const(2)), ge(nv, const(2))))
            c = lambda q: T("app", ("pc", const(q)), "R")
            for out, L, n, d in ((v[0], H, nh, "hor"), (v[1], V, nv, "ver")):
                ln = to_arr(as_list(L)[1](i), I)
                h = hyps + [inr(i, n), inr(j, ln.shape[0])]
                S.oblige(nm + ".%s.lines" % d, hyps, eq(as_list(out)[0], n))
                S.oblige(nm + ".%s.points" % d, h, eq(dims(as_list(out)[1](i))[0], ln.shape[0]))
                y, x = ln.get((j, ZERO)) - yc, ln.get((j, ONE)) - xc
                D = c(6) * x + c(7) * y + 1
                S.oblige(nm + ".%s.y" % d, h, eq(elem(out, i, j, 0), (c(3) * x + c(4) * y + c(5)) / D + yc))
                S.oblige(nm + ".%s.x" % d, h, eq(elem(out, i, j, 1), (c(0) * x + c(1) * y + c(2)) / D + xc))
            s4, t4, mp = rec["pers"]
            for q in range(4):
                for e in (0, 1):
                    S.oblige(nm + ".homography_from_source_to_target", hyps, and_(eq(s4.get((const(q), const(e))), T("app", ("src4", const(q), const(e)), "R")), eq(t4.get((const(q), const(e))), T("app", ("tgt4", const(q), const(e)), "R"))))
            S.record(nm + ".forward", mp == "forward", "mapping %s" % (mp,))
            if method == "mean":
                P = rec["pts"]
                q = 0
                for sh in (1, -1):
                    for sv in (1, -1):
                        (bh, ch), (bv, cv) = a[0, sh], a[1, sv]
                        y, x = P.get((const(q), ZERO)), P.get((const(q), ONE))
                        h = hyps + [ne(ONE - bh * bv, ZERO)]
                        S.oblige(nm + ".corner[%d]" % q, h, and_(eq(y, bh * x + ch), eq(x, bv * y + cv)), timeout=4.0)
                        q += 1
            S.frame(nm, I)
    return run


SECOND = "_find_center_based_vanishing_points_2nd_way"


def sec_iteration(S):
    """each iteration adds the centre found on the perspective-corrected lines, relative to the current centre"""
    need(S, "_para_fit_hor", "_para_fit_ver", SECOND, "correct_perspective_effect")
    H, V, nh, nv, facts = base_input()
    key = lambda I, v: (lines_term(I, v[0])[0], lines_term(I, v[1])[0])

    def s_second(I, ba):
        a = key(I, list(ba.values()))
        return tuple(T("app", ("second",) + a + (const(q),), "R") for q in (0, 1))

    def corrected(I, L, nm, extra):
        n, item = as_list(L)
        k = fresh("k")
        a = to_arr(item(k), I).frozen()
        return SList([Seg([k], [n], TRUE, SArr((a.shape[0], const(2)), lambda ix: T("app", (nm, k, num(ix[0]), num(ix[1])) + extra, "R"), "f8"))])

    def s_effect(I, ba):
        v = list(ba.values())
        m = ba.get("method", "mean")
        ex = key(I, v) + (asT(v[2]), asT(v[3]), T("app", ("meth_" + str(m),), "R"))
        return (corrected(I, v[0], "effh", ex), corrected(I, v[1], "effv", ex))
    sym = var("rounds", "I", nn=True)
    for it, method in ((0, "mean"), (1, "mean"), (2, "median"), (None, None), (sym, "max")):
        kw = {} if it is None else dict(iteration=it, method=method)
        nm = "find_center_based_vanishing_points_iteration[%s]" % ("any" if it is sym else it,)
        for I, hyps, v in each(S, nm, PROC + ".find_center_based_vanishing_points_iteration", [H, V], kw, facts=facts + ([ge(sym, ZERO)] if it is sym else []), summaries=dict(PARA, **{SECOND: s_second, "correct_perspective_effect": s_effect})):
            def step(x, y):
                A, B = s_effect(I, dict(a=H, b=V, c=x, d=y, method=method or "mean"))
                sh = []
                for L in (A, B):
                    k = fresh("k")
                    a = to_arr(as_list(L)[1](k), I).frozen()
                    sh.append(SList([Seg([k], [as_list(L)[0]], TRUE, SArr((a.shape[0], const(2)), (lambda a, x, y: lambda ix: a.get(ix) - ite(eq(num(ix[1]), ZERO), y, x))(a, x, y), "f8"))]))
                dx, dy = s_second(I, dict(a=sh[0], b=sh[1]))
                return x + dx, y + dy
            x, y = s_second(I, dict(a=H, b=V))
            if it is sym:
                v = named_iterates(v, "vanish_rounds", [(step, (x, y), ZERO), (step, step(x, y), ONE)])
                x, y = (T("app", ("vanish_rounds", sym, const(q)), "R") for q in (0, 1))
            else:
                for _ in range(2 if it is None else it):
                    x, y = step(x, y)
            S.oblige(nm + ".x", hyps, eq(asT(v[0]), x))
            S.oblige(nm + ".y", hyps, eq(asT(v[1]), y))
            S.frame(nm, I)


SECTIONS = [("para_fit_hor", lambda S: para_obligations(S, False)), ("para_fit_ver", lambda S: para_obligations(S, True)),
            ("coarse", sec_coarse), ("error", sec_error), ("metric", sec_metric), ("fine", sec_fine), ("bailey", sec_bailey), ("representative", sec_repr),
            ("effect_mean", sec_effect("mean")), ("effect_median", sec_effect("median")), ("effect_max", sec_effect("max")), ("effect_min", sec_effect("min")), ("iteration", sec_iteration)]
LIMIT = 120
