"""C11: perspective targets form a regular rectangle or grid paired with the sources."""
from .base import *
from .helpers import *
from .c10 import setup

LEVEL = "proof"
ASSUME = ["scipy.optimize.minimize is a function of its arguments; numpy.argsort returns a sorting permutation",
          "four points: the two upper points differ in x, the two lower ones too, and the left and right pairs differ in y (the corners can be told apart)"]
SCALES = ["mean", "max", "min", "median", 1.5]


def d2(P, Q):
    return (P[0] - Q[0], P[1] - Q[1])


def sec_intercept(scale):
    def run(S):
        H, V, hp, vp, hl, vl, nh, nv = setup()
        facts = [ge(nh, const(2)), ge(nv, const(2))]
        i = var("i", "I")
        for eqd in (True, False):
            for opt in (True, False):
                nm = "_calc_undistor_intercept_perspective[%s,equal=%s,optimizing=%s]" % (scale, eqd, opt)
                sc = var("scale") if isinstance(scale, float) else scale
                for I, hyps, v in each(S, nm, PROC + "._calc_undistor_intercept_perspective", [H, V, eqd, sc, opt], facts=facts):
                    u, w = v
                    S.oblige(nm + ".counts", hyps, and_(eq(dims(u)[0], nh), eq(dims(w)[0], nv)))
                    st = []
                    for a, n, d in ((u, nh, "hor"), (w, nv, "ver")):
                        s = elem(a, 1) - elem(a, 0)
                        st.append(s)
                        S.oblige(nm + ".%s.equal_spacing" % d, hyps + [inr(i, n - 1)], eq(elem(a, i + 1) - elem(a, i), s))
                    if eqd:
                        S.oblige(nm + ".same_spacing", hyps, eq(st[0], st[1]))
                    S.frame(nm, I)
    return run


def s_uintercept(I, ba):
    """the bases and steps are whatever they are: only equal spacing (and one step when equal_dist) is used"""
    v = list(ba.values())
    nh, nv = as_list(v[0])[0], as_list(v[1])[0]
    f = lambda nm: var(nm)
    sh = f("u_step_h")
    sv = sh if v[2] is True else f("u_step_v")
    bh, bv = f("u_base_h"), f("u_base_v")
    return (SArr((nh,), lambda ix: bh + ix[0] * sh, "f4"), SArr((nv,), lambda ix: bv + ix[0] * sv, "f4"))


def sec_lines(S):
    need(S, "_calc_undistor_intercept_perspective")
    H, V, hp, vp, hl, vl, nh, nv = setup()
    facts = [ge(nh, const(2)), ge(nv, const(2))]
    i, j = idx("i", "j")
    for eqd in (True, False):
        nm = "generate_undistorted_perspective_lines[equal=%s]" % eqd
        for I, hyps, v in each(S, nm, PROC + ".generate_undistorted_perspective_lines", [H, V], dict(equal_dist=eqd), facts=facts, lib=lib_with(numpy__polyfit=havoc_polyfit),
                               summaries={"_calc_undistor_intercept_perspective": s_uintercept}):
            from .c10 import structure
            if not structure(S, nm, hyps, v, nh, nv):
                continue
            P = lambda a, b: (elem(v[0], a, b, 0), elem(v[0], a, b, 1))
            h0, v0 = d2(P(1, 0), P(0, 0)), d2(P(0, 1), P(0, 0))
            hh = hyps + [inr(i, nh), inr(j, nv)]
            for c, t in ((0, "y"), (1, "x")):
                S.oblige(nm + ".equal_steps_down.%s" % t, hh + [lt(i + 1, nh)], eq(d2(P(i + 1, j), P(i, j))[c], h0[c]))
                S.oblige(nm + ".equal_steps_right.%s" % t, hh + [lt(j + 1, nv)], eq(d2(P(i, j + 1), P(i, j))[c], v0[c]))
            S.oblige(nm + ".perpendicular", hyps, eq(h0[0] * v0[0] + h0[1] * v0[1], ZERO))
            if eqd:
                S.oblige(nm + ".same_distance", hyps, eq(h0[0] * h0[0] + h0[1] * h0[1], v0[0] * v0[0] + v0[1] * v0[1]))
            S.frame(nm, I)


def s_grid(nm):
    def summ(I, ba):
        v = list(ba.values())
        LH, nh, _ = lines_term(I, v[0])
        LV, nv, _ = lines_term(I, v[1])
        opt = tuple(str(x) for x in v[2:])
        f = lambda i, j, c: T("app", (nm, LH, LV) + opt + (num(i), num(j), num(c)), "R")
        return (SArr((nh, nv, const(2)), lambda ix: f(*ix), "f4"), SArr((nv, nh, const(2)), lambda ix: f(ix[1], ix[0], ix[2]), "f4"))
    return summ


def sec_pairs(S):
    need(S, "regenerate_grid_points_linear", "generate_undistorted_perspective_lines")
    H, V, hp, vp, hl, vl, nh, nv = setup()
    facts = [ge(nh, const(2)), ge(nv, const(2))]
    i, j = idx("i", "j")
    summ = dict(regenerate_grid_points_linear=s_grid("regrid"), generate_undistorted_perspective_lines=s_grid("undist"))
    for eqd in (True, False):
        for sc in ("mean", "max"):
            for opt in (True, False):
                nm = "generate_source_target_perspective_points[equal=%s,%s,optimizing=%s]" % (eqd, sc, opt)
                for I, hyps, v in each(S, nm, PROC + ".generate_source_target_perspective_points", [H, V], dict(equal_dist=eqd, scale=sc, optimizing=opt), facts=facts, summaries=summ):
                    if not isinstance(v, tuple) or len(v) != 2:
                        S.record(nm + ".pair", False, "result is not a pair")
                        continue
                    src = summ["regenerate_grid_points_linear"](I, dict(a=H, b=V, c=False))
                    tgt = summ["generate_undistorted_perspective_lines"](I, dict(a=src[0], b=src[1], c=eqd, d=sc, e=opt))
                    hh = hyps + [inr(i, nh), inr(j, nv)]
                    S.cover(nm, hh)
                    S.oblige(nm + ".count", hyps, and_(eq(dims(v[0])[0], nh * nv), eq(dims(v[1])[0], nh * nv)))
                    k = i * nv + j
                    # row-major or column-major order, the same for both
                    for c in (0, 1):
                        S.oblige(nm + ".source[%d]" % c, hh, eq(elem(v[0], k, c), src[0].get((i, j, const(c)))))
                        S.oblige(nm + ".target[%d]" % c, hh, eq(elem(v[1], k, c), tgt[0].get((i, j, const(c)))))
                    S.frame(nm, I)


def some_fn(nm):
    """numpy.abs/sign as uninterpreted functions: what is proved holds whatever they return"""
    def f(I, x, **k):
        if not is_scalar(x):
            raise Unsupported(nm)
        return T("app", (nm, num(x)), "R")
    return f


def sec_four(order):
    def run(S):
        pts = farr("p", (const(4), const(2)), org="points")
        p = lambda k, c: T("app", ("p", const(k), const(c)), "R")
        Y, X = (1, 0) if order == "xy" else (0, 1)
        for sc in ("mean", "max", "min", 1.5):
            for eqd in (True, False):
                nm = "generate_4_source_target_perspective_points[%s,%s,equal=%s]" % (order, sc, eqd)
                s = var("scale") if isinstance(sc, float) else sc
                facts = [gt(s, ZERO)] if isinstance(sc, float) else []
                for I, hyps, v in each(S, nm, PROC + ".generate_4_source_target_perspective_points", [pts], dict(input_order=order, equal_dist=eqd, scale=s), facts=facts,
                                       lib=lib_with(numpy__abs=some_fn("absf"), numpy__absolute=some_fn("absf"), numpy__fabs=some_fn("absf"), builtins__abs=some_fn("absf"), numpy__sign=some_fn("signf"))):
                    src, tgt = v
                    S.oblige(nm + ".four", hyps, and_(eq(dims(src)[0], const(4)), eq(dims(tgt)[0], const(4))))
                    if eqd and sc == "mean":
                        for q in range(4):
                            S.oblige(nm + ".every_input_point_is_a_source[%d]" % q, hyps,
                                     or_(*[and_(eq(elem(src, k, 0), p(q, Y)), eq(elem(src, k, 1), p(q, X))) for k in range(4)]))
                        S.oblige(nm + ".upper_above_lower", hyps, and_(*[le(elem(src, a, 0), elem(src, b, 0)) for a in (0, 1) for b in (2, 3)]))
                        S.oblige(nm + ".left_of_right", hyps, and_(le(elem(src, 0, 1), elem(src, 1, 1)), le(elem(src, 2, 1), elem(src, 3, 1))))
                    P = lambda k: (elem(tgt, k, 0), elem(tgt, k, 1))
                    a, b = d2(P(1), P(0)), d2(P(2), P(0))
                    for c, t in ((0, "y"), (1, "x")):
                        S.oblige(nm + ".parallelogram.%s" % t, hyps, eq(P(3)[c], P(1)[c] + P(2)[c] - P(0)[c]))
                    S.oblige(nm + ".right_angle", hyps, eq(a[0] * b[0] + a[1] * b[1], ZERO))
                    h2, v2 = a[0] * a[0] + a[1] * a[1], b[0] * b[0] + b[1] * b[1]
                    if eqd:
                        S.oblige(nm + ".square", hyps, eq(h2, v2))
                    S.oblige(nm + ".corners_keep_their_side", hyps, and_(ge(a[1], ZERO), ge(b[0], ZERO)))
                    D = lambda m, n: tm.sqrt((elem(src, m, 0) - elem(src, n, 0)) ** 2 + (elem(src, m, 1) - elem(src, n, 1)) ** 2)
                    f = dict(max=tm.maxv, min=tm.minv).get(sc, lambda x, y: (x + y) * HALF)
                    dh, dv = f(D(0, 1), D(2, 3)), f(D(0, 2), D(1, 3))
                    if isinstance(sc, float):
                        dh, dv = dh * s, dv * s
                    if eqd:
                        dh = dv = f(dh, dv)
                    for t, got, want in (("h", h2, dh), ("v", v2, dv)):
                        S.oblige(nm + ".side_length.%s" % t, hyps, eq(sq_abs(got), want * want))
                    S.frame(nm, I)
    return run


def sq_abs(p):
    """|x|^2 = x^2 for the absolute values of lengths"""
    r = ZERO
    for m, c in tm.monos(p):
        t = const(c)
        for a, e in m:
            big = a.op == "app" and a.args[0] == "absf" and any(x.op == "app" and x.args[0] == "sqrt" for x in tm.subterms(a.args[1]))
            t = t * (tm.power(a.args[1], const(e)) if big and e % 2 == 0 else tm.power(a, const(e)))
        r = r + t
    return r


def sec_rectangle(S):
    """four corners of a rectangle are their own targets.  The tilt is written with the half-angle t (slope 2t/(1-t^2)), so that
    lengths are rational; sqrt, sign and abs are replaced by their values where the prover shows them equal"""
    y0, x0, u, v, t = var("y0"), var("x0"), var("u"), var("v"), var("t")
    pts = farr("p", (const(4), const(2)), org="points")
    p = lambda k, c: T("app", ("p", const(k), const(c)), "R")
    above = [lt(p(a, 0), p(b, 0)) for a in (0, 1) for b in (2, 3)] + [lt(p(0, 1), p(1, 1)), lt(p(2, 1), p(3, 1))]
    for sc in ("mean", "max", "min"):
        nm = "generate_4_source_target_perspective_points[rectangle,%s]" % sc
        for I, hyps, r in each(S, nm, PROC + ".generate_4_source_target_perspective_points", [pts], dict(scale=sc), facts=above):
            src, tgt = r
            # sources: a permutation of the points (any point is a source, below), upper pair first, left one first in each pair
            perm = [or_(*[and_(eq(elem(src, k, 0), p(q, 0)), eq(elem(src, k, 1), p(q, 1))) for k in range(4)]) for q in range(4)]
            order = [le(elem(src, a, 0), elem(src, b, 0)) for a in (0, 1) for b in (2, 3)] + [le(elem(src, 0, 1), elem(src, 1, 1)), le(elem(src, 2, 1), elem(src, 3, 1))]
            for k, f in enumerate(perm + order):
                S.oblige(nm + ".sources_sorted[%d]" % k, hyps, f)
            new = {elem(src, k, c): var("s%d%d" % (k, c)) for k in range(4) for c in (0, 1)}
            m = {}
            for k in range(4):
                for c, d in ((0, "y"), (1, "x")):
                    S.oblige(nm + ".source[%d].%s" % (k, d), [tm.subst(f, new) for f in above + perm + order], eq(new[elem(src, k, c)], p(k, c)))
                    m[elem(src, k, c)] = p(k, c)
            for case in ("level", "falling", "rising"):
                tt = ZERO if case == "level" else t
                q = ONE - tt * tt
                s, W = 2 * tt / q, (ONE + tt * tt) / q
                P = [(y0, x0), (y0 + u * s, x0 + u), (y0 + v, x0 - v * s), (y0 + u * s + v, x0 + u - v * s)]
                pos = [gt(u, ZERO), gt(v, ZERO)] + {"falling": [gt(t, ZERO), lt(t, ONE)], "rising": [lt(t, ZERO), gt(t, -ONE)], "level": []}[case]
                at = {p(k, c): P[k][c] for k in range(4) for c in (0, 1)}
                for k in range(4):
                    for c, d in ((0, "y"), (1, "x")):
                        g = lemma(pos, tm.subst(tm.subst(elem(tgt, k, c), m), at), [u * W, v * W, W, u, v])
                        S.oblige(nm + ".%s.own_target[%d].%s" % (case, k, d), pos, eq(g, P[k][c]))


HARD = ("sqrt", "sign", "abs", "max", "min")


def lemma(hyps, g, roots):
    """replace roots, signs, absolute values and choices in g by their values, each justified by the prover"""
    hard = lambda x: x.op == "ite" or x.op == "app" and x.args[0] in HARD
    ok = lambda n: smt.prove(hyps, n, 4.0)[0] == "proved"
    for _ in range(12):
        m = {}
        for x in tm.subterms(g):
            if not hard(x) or any(y is not x and hard(y) for y in tm.subterms(x)):
                continue
            if x.op == "ite":
                c = [(x.args[1], [x.args[0]]), (x.args[2], [not_(x.args[0])])]
            elif x.args[0] == "sqrt":
                c = [(r, [eq(r * r, x.args[1]), ge(r, ZERO)]) for r in roots]
            elif x.args[0] == "sign":
                a = x.args[1]
                c = [(const(1), [gt(a, ZERO)]), (const(-1), [lt(a, ZERO)]), (ZERO, [eq(a, ZERO)])]
            elif x.args[0] == "abs":
                c = [(r, [ge(r, ZERO)]) for r in (x.args[1], -x.args[1])]
            else:
                a = sorted(x.args[1], key=lambda z: z.uid)
                c = [(a[0], [eq(a[0], z) for z in a[1:]])]
            for val, need in c:
                if all(ok(n) for n in need):
                    m[x] = val
                    break
        if not m:
            return g
        g = tm.subst(g, m)
    return g


def sec_not_four(S):
    n = var("n", "I", nn=True)
    pts = farr("p", (n, const(2)), org="points")
    S.raises("generate_4_source_target_perspective_points.not_four_points", PROC + ".generate_4_source_target_perspective_points", [pts], "ValueError", facts=[ne(n, const(4))])


SECTIONS = [("intercept_%s" % s, sec_intercept(s)) for s in SCALES] + [("lines", sec_lines), ("pairs", sec_pairs), ("four_yx", sec_four("yx")), ("four_xy", sec_four("xy")), ("rectangle", sec_rectangle), ("not_four", sec_not_four)]
LIMIT = 120
