"""C23: padding keeps the whole view and shifts the centre with it."""
from .base import *
from .c02 import sample

LEVEL = "proof"
ASSUME = ["numpy.pad keeps the image inside the margins and fills the margins by a function of the image, the widths and the mode",
          "scipy.ndimage.map_coordinates / cv2.remap are functions of the image, the position and their options (bilinear at order 1)",
          "numpy.linspace is the stated arithmetic progression",
          "the forward model used for automatic padding is the one of transform_coef_backward_and_forward (C07)"]


def setup():
    return var("h", "I", nn=True), var("w", "I", nn=True), var("m", "I", nn=True), var("xc"), var("yc")


def sec_forms(S):
    h, w, m, xc, yc = setup()
    fl, fa, fact = factor(m)
    facts = [ge(h, ONE), ge(w, ONE), ge(m, ONE)]
    p, q, r, s = [var(n, "I") for n in "pqrs"]
    forms = [("false", False, (ZERO,) * 4), ("int", p, (p,) * 4), ("zero", ZERO, (ZERO,) * 4),
             ("tuple", (p, q, r, s), (p, q, r, s)), ("list", SList.of([p, q, r, s]), (p, q, r, s))]
    for nm, pad, want in forms:
        nm = "_calc_pad[%s]" % nm
        for I, hyps, v in each(S, nm, UTIL + "._calc_pad", [pad, h, w, xc, yc, fl], facts=facts):
            S.oblige(nm + ".pads", hyps, and_(*[eq(asT(a), b) for a, b in zip(v, want)]))
            S.record(nm + ".four", len(v) == 4, "%d values" % len(v))
            S.frame(nm, I)
    for nm, pad in (("three", (p, q, r)), ("five", (p, q, r, s, p)), ("empty", ()), ("list of two", SList.of([p, q])), ("text", "auto"), ("none", None)):
        S.raises("_calc_pad[%s].raises" % nm, UTIL + "._calc_pad", [pad, h, w, xc, yc, fl], "ValueError", facts=facts)


def sec_auto(S):
    """pad=True: whole pixels by which the undistorted corners stick out"""
    h, w, m, xc, yc = setup()
    fl, fa, fact = factor(m)
    tf = lambda i: T("app", ("tfact", num(i)), "R")
    rec = []

    def s_tr(I, ba):
        rec.append((I, dict(ba)))
        return SArr((m,), lambda ix: tf(ix[0]), "f8")
    S.fn(PROC + ".transform_coef_backward_and_forward")
    used = []

    def s_pp(I, ba):
        """contract of find_point_to_point (proved in C01): the radial map, xy output"""
        v = list(ba.values())
        y, x = [asT(q) for q in LIB.items(I, v[0])]
        k = fresh("k")
        if ba.get("output_order", "xy") != "xy":
            raise Unsupported("output order")
        used.append((I, asT(v[1]), asT(v[2]), asT(LIB.getitem(I, v[3], k)), k))
        return (corner(y, x, 0), corner(y, x, 1))

    corner = lambda y, x, q: T("app", ("corner", num(y), num(x), const(q)), "R")
    nm = "_calc_pad[true]"
    facts = [ge(h, ONE), ge(w, ONE), ge(m, ONE)]
    k = var("k", "I")
    done = {}
    for I, hyps, v in each(S, nm, UTIL + "._calc_pad", [True, h, w, xc, yc, fl], facts=facts, summaries={PROC + ".transform_coef_backward_and_forward": s_tr, UTIL + ".find_point_to_point": s_pp}):
        cs = [b for J, b in rec if J is I]
        if not cs:
            raise Unsupported("another forward model")
        b = cs[-1]
        S.record(nm + ".from_the_given_backward_model", b.get("list_fact") is fl and b.get("mapping", "backward") == "backward", "%s" % (b.get("mapping"),))
        n, item = as_list(b.get("ref_points")) if b.get("ref_points") is not None else (None, None)
        if n is None:
            raise Unsupported("no reference points")
        P = item(k)
        p0, p1 = [asT(elem(P, q)) for q in (0, 1)]
        if (n, p0, p1) not in done:              # the same points on every path
            done[n, p0, p1] = S.oblige(nm + ".reference_points_in_image", facts + [inr(k, n)], and_(ge(p0 + yc, ZERO), le(p0 + yc, h), ge(p1 + xc, ZERO), le(p1 + xc, w)))
        c = {}
        for y, x, t in ((ZERO, ZERO, "tl"), (ZERO, w - 1, "tr"), (h - 1, w - 1, "br"), (h - 1, ZERO, "bl")):
            c[t] = (corner(y, x, 0), corner(y, x, 1)) if any(J is I for J, *_ in used) else radial(x, y, xc, yc, tf, m)
        for J, a, b, f, kk in used:
            if J is I:
                S.oblige(nm + ".corners_by_the_forward_model", hyps + [inr(kk, m)], and_(eq(a, xc), eq(b, yc), eq(f, tf(kk))))
        out = [(-minv(c["tl"][1], c["tr"][1]), v[0], "top"), (maxv(c["bl"][1], c["br"][1]) - h, v[1], "bottom"),
               (-minv(c["tl"][0], c["bl"][0]), v[2], "left"), (maxv(c["tr"][0], c["br"][0]) - w, v[3], "right")]
        for stick, got, d in out:
            S.oblige(nm + "." + d, hyps, eq(asT(got), maxv(ZERO, floor(stick))))
        S.frame(nm, I)
        used.clear()
        rec.clear()


def view(S, nm, dotted, nd, samp, kw=None, order=None, mode=None, form="tuple"):
    h, w, m, xc, yc = setup()
    fl, fa, fact = factor(m)
    nch = var("nch", "I", nn=True)
    t, b, l, r = [var(x, "I", nn=True) for x in ("pt", "pb", "pl", "pr")]
    if form == "int":
        b = l = r = t
    mat = farr("img", (h, w) if nd == 2 else (h, w, nch), org="mat")
    y, x, c = idx("y", "x", "c")
    pm = "constant" if form == "tuple" else Opaque("pad_mode", term=var("pad_mode", "U"))
    kw = dict(kw or {})
    kw["pad"] = t if form == "int" else (t, b, l, r)
    if form != "tuple":
        kw["pad_mode"] = pm
    if order is not None:
        kw["order"], kw["mode"] = order, mode
    facts = [ge(h, ONE), ge(w, ONE), ge(m, ONE), ge(nch, ONE), ge(t, ZERO), ge(b, ZERO), ge(l, ZERO), ge(r, ZERO)]
    for I, hyps, v in each(S, nm, dotted, [mat, xc, yc, fl], kw, facts=facts):
        if not isinstance(v, SArr) or v.ndim != nd:
            S.record(nm + ".dims", False, "result has %s dimensions" % getattr(v, "ndim", "?"))
            continue
        H, W = h + t + b, w + l + r
        S.oblige(nm + ".shape", hyps, and_(*[eq(a, z) for a, z in zip(v.shape, (H, W, nch))]))
        P = LIB["numpy.pad"](I, mat, ((t, b), (l, r)) + (((ZERO, ZERO),) if nd == 3 else ()), mode=pm)
        hy = hyps + [inr(y, H), inr(x, W)] + ([inr(c, nch)] if nd == 3 else [])
        S.cover(nm, hy)
        X, Y = radial(x, y, xc + l, yc + t, fact, m)
        X, Y = clipt(X, W - 1), clipt(Y, H - 1)
        src = P if nd == 2 else SArr((H, W), lambda ix: P.get(tuple(ix) + (c,)), "f8")
        want = samp(src, Y, X, ONE if order is None else order, "reflect" if mode is None else mode.term)
        S.oblige(nm + ".pixel", hy, eq(v.get((y, x) + ((c,) if nd == 3 else ())), want))
        S.frame(nm, I)


def sec_view(nd, form):
    def run(S):
        view(S, "unwarp_color_image_backward[%dD,%s]" % (nd, form), UTIL + ".unwarp_color_image_backward", nd, sample, form=form)
        view(S, "unwarp_color_image_backward[%dD,%s,order,mode]" % (nd, form), UTIL + ".unwarp_color_image_backward", nd, sample, form=form, order=var("order", "I"), mode=MODE)
        view(S, "unwarp_image_backward_cv2[%dD,%s]" % (nd, form), UTIL + ".unwarp_image_backward_cv2", nd,
             lambda src, y, x, o, md: T("app", ("remap", src.to_term(), x, y, ONE, ZERO), "R"), form=form)
    return run


SECTIONS = [("forms", sec_forms), ("auto", sec_auto)] + [("view_%dd_%s" % (n, f), sec_view(n, f)) for n in (2, 3) for f in ("tuple", "int", "modes")]
