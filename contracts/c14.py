"""C14: grouping dots into lines never invents, repeats or misorders points."""
from .base import *
from pyvc import rowsel

LEVEL = "proof"
ASSUME = ["Fewer than 2^31 dots and pixels (machine integers treated as mathematical)",
          "numpy.unique(axis=0) returns each distinct row once, lexicographically sorted; numpy.poly1d evaluates the polynomial; numpy.polyfit is a function of its arguments",
          "Termination of the collecting loop of _get_nearby_*_points_iter is not shown (partial correctness); the sequential grouping loop carries a variant",
          "The polynomial order of the polyfit grouping is at most 3 in the unrolled parts; real arithmetic"]


def sec_check(S):
    """contract of _check_dot_on_line: within num_dot_miss*dot_dist along x and ratio*dot_dist of the line of the given slope"""
    slope, dist, ratio, miss = var("slope"), var("dist"), var("ratio"), var("miss")
    for nm, mk in (("array", lambda n: farr(n, (const(2),))), ("list", lambda n: SList.of([T("app", (n, const(i)), "R") for i in range(2)]))):
        a, b = mk("d1"), mk("d2")
        c = lambda n, i: T("app", (n, const(i)), "R")
        nm = "_check_dot_on_line[%s]" % nm
        for I, hyps, v in each(S, nm, PREP + "._check_dot_on_line", [a, b, slope, dist, ratio, miss]):
            dx, dy = c("d2", 1) - c("d1", 1), c("d2", 0) - c("d1", 0)
            want = and_(lt(-(miss * dist), dx), lt(dx, miss * dist), lt(absv(slope * dx - dy) / sqrt(slope * slope + 1), ratio * dist))
            got = tm.tobool(v if not isinstance(v, bool) else (TRUE if v else FALSE))
            S.oblige(nm + ".within_both_tolerances", hyps + [ge(dx, ZERO)], iff(got, want))      # called from left to right
            S.frame(nm, I)
    for n1, n2 in ((3, 2), (2, 3), (1, 2)):
        S.raises("_check_dot_on_line[%d and %d coordinates].raises" % (n1, n2), PREP + "._check_dot_on_line",
                 [farr("d1", (const(n1),)), farr("d2", (const(n2),)), slope, dist, ratio, miss], "ValueError")


def index_in(es, name):
    """the index i with es[c] = name(i, c)"""
    if all(x.op == "app" and x.args[0] == name for x in es) and es[0].args[1] is es[1].args[1] and [cval(x.args[2]) for x in es] == [0, 1]:
        return es[0].args[1]
    if all(x.op == "app" and x.args[0] == "centroid" and x.args[1] is es[0].args[1] and x.args[2] is es[0].args[2] and x.args[3] is es[0].args[3] for x in es) \
            and name == "image" and [int(x.args[4]) for x in es] == [0, 1]:
        return es[0].args[3] - 1
    return None


def grouping(fn, col, image=False):
    """col: the column along the lines (1 for horizontal lines); across = the other one"""
    ob = fn + (".image" if image else "")

    def sec(S):
        n = var("nd", "I")
        slope, dist, ratio, miss, acc = var("slope"), var("dist"), var("ratio"), var("miss"), var("acc")
        facts = [ge(n, 1), lt(n, const(2 ** 31))]
        inp, name = farr("dots", (n, const(2))), "dots"
        if image:
            # the points are the centroids of the connected components of the image; component i has the label i + 1
            h, w = idx("h", "w")
            facts = [ge(h, 1), gt(w, 2), lt(h * w, const(2 ** 31))]
            inp, name = farr("img", (h, w)), "image"
        done = 0
        for I, hyps, oc, v in S.paths(PREP + "." + fn, [inp, slope, dist], dict(ratio=ratio, num_dot_miss=miss, accepted_ratio=acc), facts=facts):
            if oc == "raise":
                continue
            if not isinstance(v, SList):
                raise Unsupported("result of " + fn)
            done += 1
            m, q, m2, q2 = idx("m", "q", "m2", "q2")
            L = v.length()
            a, b = v.item(m), v.item(m2)
            if not isinstance(a, SArr) or a.ndim != 2:
                raise Unsupported("lines of " + fn)
            ln, ln2 = a.shape[0], b.shape[0]
            ea = index_in([a.get((q, const(c))) for c in (0, 1)], name)
            eb = index_in([b.get((q2, const(c))) for c in (0, 1)], name)
            ea2 = index_in([a.get((q2, const(c))) for c in (0, 1)], name)
            if ea is None or eb is None or ea2 is None:
                raise Unsupported("rows of the lines are not recognised as rows of the input")
            H = hyps + [inr(m, L), inr(q, ln)]
            if image:
                n = T("app", ("nlabel", a.get((q, ZERO)).args[2]), "I")
            S.oblige(ob + ".two_columns", hyps + [inr(m, L)], eq(a.shape[1], const(2)))
            S.oblige(ob + ".rows_are_input_points", H, inr(ea, n))
            S.oblige(ob + ".no_point_twice_in_a_line", H + [inr(q2, ln), lt(q, q2)], ne(ea, ea2))
            S.oblige(ob + ".no_point_in_two_lines", H + [inr(m2, L), inr(q2, ln2), lt(m, m2)], ne(ea, eb))
            S.oblige(ob + ".sorted_along_the_line", H + [inr(q2, ln), lt(q, q2)], le(a.get((q, const(col))), a.get((q2, const(col)))))
            mean = lambda z: sum_(z.shape[0], lambda j: z.get((j, const(1 - col)))) / z.shape[0]
            S.oblige(ob + ".lines_in_order_across", hyps + [inr(m, L), inr(m2, L), lt(m, m2)], le(mean(a), mean(b)))
            S.oblige(ob + ".accepted_ratio_of_the_longest", hyps + [inr(m, L), inr(m2, L), ge(acc, 0)], ge(ln, acc * ln2))
            S.oblige(ob + ".at_least_two_points", hyps + [inr(m, L)], ge(ln, const(2)))
            S.frame(ob, I)
            for nm, ok in I.variants[-1:]:
                S.typed(ob + ".terminates", ok, "%s is not shown to get smaller" % nm, by="z3")
        if not done:
            raise Unsupported("no returning path")
    return sec



# -- grouping based on polynomial fits -------------------------------------------

def s_nearby(I, ba):
    """contract of _get_nearby_*_points: some of the given rows, in order"""
    p = to_arr(list(ba.values())[1], I).frozen()
    k = fresh("k")
    w = "nearby!%d" % next(tm._fresh)
    return list_to_array(SList([Seg([k], [p.shape[0]], T("app", (w,) + tuple(I.loopks) + (k,), "B"), SArr((const(2),), lambda ix: p.get((k, ix[0])), p.dt))]), I)


def sec_nearby(fn, col):
    def sec(S):
        n, m = var("nd", "I"), var("nc", "I")
        res = var("residual")
        P, C = farr("pts", (n, const(2)), org="points"), farr("cur", (m, const(2)), org="current_points")
        for order in (1, 2, 3):
            nm = "%s[order=%d]" % (fn, order)
            for I, hyps, oc, v in S.paths(PREP + "." + fn, [C, P, res], dict(order=order), facts=[ge(n, ONE), gt(m, const(order))]):
                if oc == "raise":
                    S.record(nm + ".returns", False, "raises " + v.name)
                    continue
                e = rowsel.index_of(v.frozen(), P)
                if e is None:
                    raise Unsupported("rows of the result of " + fn)
                q, q2 = idx("q", "q2")
                L = v.shape[0]
                S.oblige(nm + ".rows_are_given_points", hyps + [inr(q, L)], inr(e(q), n))
                S.oblige(nm + ".in_order", hyps + [inr(q, L), inr(q2, L), lt(q, q2)], lt(e(q), e(q2)))
                c = LIB["numpy.polyfit"](I, SArr((m,), lambda ix: C.get((ix[0], const(col))), "f8"), SArr((m,), lambda ix: C.get((ix[0], const(1 - col))), "f8"), const(order))
                fit = lambda x: sum((c.get((const(order - i),)) * tm.power(x, const(i)) for i in range(order + 1)), ZERO)
                d = absv(v.get((q, const(1 - col))) - fit(v.get((q, const(col)))))
                S.oblige(nm + ".near_the_fitted_curve", hyps + [inr(q, L)], le(d, res))
                S.frame(nm, I)
    return sec


def sec_iter(fn, near):
    def sec(S):
        S.fn(PREP + "." + near)
        n = var("nd", "I")
        P = farr("pts", (n, const(2)), org="points")
        n0, sel = rowsel.new((), n)
        X = SArr((n0, const(2)), lambda ix: P.get((sel(ix[0]), ix[1])), "f8", org="initial_points")
        done = 0
        for I, hyps, oc, v in S.paths(PREP + "." + fn, [X, P] + [var(x) for x in ("left", "right", "search", "residual")], dict(overlap_ratio=var("overlap"), order=var("order", "I")),
                                      facts=[ge(n, ONE)], summaries={PREP + "." + near: s_nearby}):
            if oc == "raise":
                continue
            done += 1
            e = rowsel.index_of(v.frozen(), P)
            if e is None:
                raise Unsupported("rows of the result of " + fn)
            q, q2 = idx("q", "q2")
            L = v.shape[0]
            S.oblige(fn + ".rows_are_given_points", hyps + [inr(q, L)], inr(e(q), n))
            S.oblige(fn + ".no_point_twice", hyps + [inr(q, L), inr(q2, L), lt(q, q2)], ne(e(q), e(q2)))
            S.frame(fn, I)
        if not done:
            raise Unsupported("no returning path")
    return sec


def s_iter(I, ba):
    """contract of _get_nearby_*_points_iter: given rows of an array without repetition, rows of it without repetition"""
    v = list(ba.values())
    X, P = to_arr(v[0], I).frozen(), to_arr(v[1], I).frozen()
    e = rowsel.index_of(X, P)
    if e is None:
        raise Unsupported("initial points are not recognised as rows of the points")
    a, b = fresh("j"), fresh("j")
    rowsel.need_(I, I.pc + [inr(a, X.shape[0])], inr(e(a), P.shape[0]), "precondition of the iterative search: rows of the points")
    rowsel.need_(I, I.pc + [inr(a, X.shape[0]), inr(b, X.shape[0]), lt(a, b)], ne(e(a), e(b)), "precondition of the iterative search: no point twice")
    n, sel = rowsel.new(I.loopks, P.shape[0])
    I.pc.append(le(ZERO, n))
    return SArr((n, const(2)), lambda ix: P.get((sel(ix[0]), ix[1])), P.dt)


def s_group(I, ba):
    """contract of group_dots_*_lines for points: lines of given points without repetition (discharged above)"""
    if I.loopks:
        raise Unsupported("grouping in a loop")
    P = to_arr(list(ba.values())[0], I).frozen()
    n, sel = rowsel.new((), const(0))
    k = fresh("k")
    ln, sl = rowsel.new((k,), P.shape[0])
    I.pc.append(le(ZERO, n))
    return SList([Seg([k], [n], TRUE, SArr((ln, const(2)), lambda ix: P.get((sl(ix[0]), ix[1])), P.dt))])


def dot_index(es):
    """the only i with dots(i, .) in the terms"""
    found = {x.args[1] for t in es for x in tm.subterms(t, bound=False) if x.op == "app" and x.args[0] == "dots"}
    return found.pop() if len(found) == 1 else None


def polyfit(fn, it, group, col):
    def sec(S):
        S.fn(PREP + "." + it)
        S.fn(PREP + "." + group)
        n = var("nd", "I")
        slope, dist, ratio, miss, acc = var("slope"), var("dist"), var("ratio"), var("miss"), var("acc")
        done = 0
        for I, hyps, oc, v in S.paths(PREP + "." + fn, [farr("dots", (n, const(2)), org="points"), slope, dist], dict(ratio=ratio, num_dot_miss=miss, accepted_ratio=acc, overlap_ratio=var("overlap"), order=var("order", "I")),
                                      facts=[ge(n, 1), lt(n, const(2 ** 31))], summaries={PREP + "." + it: s_iter, PREP + "." + group: s_group}):
            if oc == "raise":
                continue
            if not isinstance(v, SList):
                raise Unsupported("result of " + fn)
            done += 1
            m, q, m2, q2 = idx("m", "q", "m2", "q2")
            L = v.length()
            a, b = v.item(m), v.item(m2)
            if not isinstance(a, SArr) or a.ndim != 2:
                raise Unsupported("lines of " + fn)
            ln, ln2 = a.shape[0], b.shape[0]
            row = lambda j: [a.get((j, const(c))) for c in (0, 1)]
            ea, ea2 = dot_index(row(q)), dot_index(row(q2))
            if ea is None or ea2 is None:
                raise Unsupported("rows of the lines are not recognised as rows of the input")
            H = hyps + [inr(m, L), inr(q, ln)]
            D = lambda e, c: T("app", ("dots", e, const(c)), "R")
            S.oblige(fn + ".two_columns", hyps + [inr(m, L)], eq(a.shape[1], const(2)))
            for c in (0, 1):
                S.oblige(fn + ".rows_are_input_points[%d]" % c, [], eq(row(q)[c], D(ea, c)))
            S.oblige(fn + ".rows_in_range", H, inr(ea, n))
            S.oblige(fn + ".no_point_twice_in_a_line", H + [inr(q2, ln), lt(q, q2)], ne(ea, ea2))
            S.oblige(fn + ".sorted_along_the_line", H + [inr(q2, ln), lt(q, q2)], le(a.get((q, const(col))), a.get((q2, const(col)))))
            mean = lambda z: sum_(z.shape[0], lambda j: z.get((j, const(1 - col)))) / z.shape[0]
            S.oblige(fn + ".lines_in_order_across", hyps + [inr(m, L), inr(m2, L), lt(m, m2)], le(mean(a), mean(b)))
            longest = [x for x in tm.subterms(ln, bound=True) if x.op == "app" and x.args[0] == "amax" and not smt.has_bv(x)]
            S.oblige(fn + ".accepted_ratio_of_the_longest", hyps + [inr(m, L), inr(m2, L), ge(acc, 0)] + [implies(ge(x, ln2), ge(acc * x, acc * ln2)) for x in longest], ge(ln, acc * ln2))
            S.frame(fn, I)
        if not done:
            raise Unsupported("no returning path")
    return sec


SECTIONS = [("check_dot_on_line", sec_check), ("group_dots_hor_lines", grouping("group_dots_hor_lines", 1)),
            ("group_dots_ver_lines", grouping("group_dots_ver_lines", 0)),
            ("group_dots_hor_lines_image", grouping("group_dots_hor_lines", 1, True)),
            ("group_dots_ver_lines_image", grouping("group_dots_ver_lines", 0, True))] \
    + [("nearby_" + d, sec_nearby("_get_nearby_%s_points" % d, c)) for d, c in (("hor", 1), ("ver", 0))] \
    + [("iter_" + d, sec_iter("_get_nearby_%s_points_iter" % d, "_get_nearby_%s_points" % d)) for d in ("hor", "ver")] \
    + [("polyfit_" + d, polyfit("group_dots_%s_lines_based_polyfit" % d, "_get_nearby_%s_points_iter" % d, "group_dots_%s_lines" % d, c)) for d, c in (("hor", 1), ("ver", 0))]
LIMIT = 400
