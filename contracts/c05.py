"""C05: perspective correction applies exactly the eight-coefficient homography."""
from .base import *

LEVEL = "proof"
ASSUME = ["scipy.ndimage.map_coordinates is a function of the image, the position, the order and the mode; at order 1 inside the image it is the bilinear interpolation",
          "a zero denominator c7*x+c8*y+1 is outside the property"]


def coefs(kind):
    c = [var("c%d" % (i + 1)) for i in range(8)]
    if kind == "list":
        L = SList.of(list(c))
        L.org = "list_coef"
        return L, c
    if kind == "tuple":
        return tuple(c), c
    a = farr("coef", (const(8),), org="list_coef")
    return a, [a.get((const(i),)) for i in range(8)]


def homog(c, x, y):
    d = c[6] * x + c[7] * y + 1
    return (c[0] * x + c[1] * y + c[2]) / d, (c[3] * x + c[4] * y + c[5]) / d, d


def sec_line(S):
    for dt in ("f8", "i8"):
        for kind in ("list", "tuple", "array"):
            n = var("nl", "I", nn=True)
            L, pt, ln = lines("pt", n, org="list_lines", dt=dt)
            cl, c = coefs(kind)
            i, j = idx("i", "j")
            nm = "correct_perspective_line[%s,%s]" % (dt, kind)
            for I, hyps, v in each(S, nm, POST + ".correct_perspective_line", [L, cl]):
                n_o, item = as_list(v)
                S.oblige(nm + ".line_count", hyps, eq(n_o, n))
                x, y = pt(i, j, 1), pt(i, j, 0)
                xo, yo, d = homog(c, x, y)
                h = hyps + [inr(i, n), inr(j, ln(i)), ne(d, ZERO)]
                S.cover(nm, h)
                o = item(i)
                S.oblige(nm + ".points", h, eq(dims(o)[0], ln(i)))
                S.oblige(nm + ".y", h, eq(elem(o, j, 0), yo))
                S.oblige(nm + ".x", h, eq(elem(o, j, 1), xo))
                S.frame(nm, I)


def sec_image(S):
    h, w = var("h", "I", nn=True), var("w", "I", nn=True)
    facts = [ge(h, ONE), ge(w, ONE)]
    mat = farr("img", (h, w), org="mat")
    y, x = idx("y", "x")
    for kind in ("list", "array"):
        for order, mode in ((None, None), (var("order", "I"), MODE)):
            cl, c = coefs(kind)
            nm = "correct_perspective_image[%s,%s]" % (kind, "default" if order is None else "order,mode")
            kw = {} if order is None else dict(order=order, mode=mode)
            for I, hyps, v in each(S, nm, POST + ".correct_perspective_image", [mat, cl], kw, facts=facts):
                S.oblige(nm + ".shape", hyps, and_(eq(dims(v)[0], h), eq(dims(v)[1], w)))
                xo, yo, d = homog(c, x, y)
                hy = hyps + [inr(y, h), inr(x, w), ne(d, ZERO)]
                S.cover(nm, hy)
                want = sample(mat, clipt(yo, h - 1), clipt(xo, w - 1), ONE if order is None else order, "reflect" if mode is None else mode.term)
                S.oblige(nm + ".pixel", hy, eq(elem(v, y, x), want), show=dict(h=h, w=w))
                S.frame(nm, I)
    # supplied map
    my, mx = farr("mapy", (h, w)), farr("mapx", (h, w))
    cl, c = coefs("list")
    from pyvc.nplib import flat
    nm = "correct_perspective_image[map_index]"
    order = var("order", "I")
    I0 = S.interp(facts)
    for form in ("tuple", "array"):
        fy, fx = flat(I0, my), flat(I0, mx)
        mp = (fy, fx) if form == "tuple" else list_to_array(SList.of([fy, fx]), I0)
        for I, hyps, v in each(S, nm, POST + ".correct_perspective_image", [mat, cl], dict(order=order, mode=MODE, map_index=mp), facts=facts):
            hy = hyps + [inr(y, h), inr(x, w)]
            S.oblige(nm + ".%s.shape" % form, hyps, and_(eq(dims(v)[0], h), eq(dims(v)[1], w)))
            S.oblige(nm + ".%s.pixel" % form, hy, eq(elem(v, y, x), sample(mat, my.get((y, x)), mx.get((y, x)), order, MODE.term)))


def sec_count(S):
    h, w, n = var("h", "I", nn=True), var("w", "I", nn=True), var("n", "I", nn=True)
    facts = [ge(h, ONE), ge(w, ONE), ne(n, const(8))]
    L, pt, ln = lines("pt", var("nl", "I", nn=True))
    mat = farr("img", (h, w))
    for kind in ("list", "array"):
        c = flist("c", n) if kind == "list" else farr("c", (n,))
        S.raises("correct_perspective_line.not_eight[%s]" % kind, POST + ".correct_perspective_line", [L, c], "ValueError", facts=facts)
        S.raises("correct_perspective_image.not_eight[%s]" % kind, POST + ".correct_perspective_image", [mat, c], "ValueError", facts=facts)


SECTIONS = [("line", sec_line), ("image", sec_image), ("count", sec_count)]
