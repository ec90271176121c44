"""C24: synthetic patterns contain exactly the requested features."""
from .base import *

LEVEL = "proof"
ASSUME = ["scipy.ndimage.binary_dilation sets a pixel exactly when the structure, centred on it and reflected, meets a set pixel"]


def cdiv(a, b):
    """ceil(a / b) for b > 0"""
    return tm.idiv(a + b - 1, b)


def on_line(y, first, count, dist, size, also):
    return exists(count, lambda k: and_(ge(y, first + k * dist), lt(y, first + k * dist + size), also))


def margins(form):
    a, b = var("mv", "I", nn=True), var("mh", "I", nn=True)
    if form == "int":
        return a, a, a
    if form == "tuple":
        return (a, b), a, b
    return SList.of([a, b]), a, b


def sec_circle(S):
    w, r = var("w", "I", nn=True), var("r")
    y, x = idx("y", "x")

    def part(nm, target):
        for I, hyps, v in each(S, nm, target, [w, r], facts=[ge(w, ONE), ge(r, ZERO)]):
            S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], w), eq(v.shape[1], w)))
            c = tm.idiv(w, const(2))
            h = hyps + [inr(y, w), inr(x, w)]
            S.cover(nm, h)
            S.oblige(nm + ".disk", h, eq(v.get((y, x)), ite(le((y - c) * (y - c) + (x - c) * (x - c), r * c * r * c), ONE, ZERO)))
    part("make_circle_mask", UTIL + ".make_circle_mask")
    # the line-pattern module keeps a copy of its own for the Radon transform
    safe(lambda: part("linepattern._make_circle_mask", LINE + "._make_circle_mask"), "linepattern._make_circle_mask", S)


def sec_line(form):
    def run(S):
        h, w, d, s = [var(n, "I", nn=True) for n in ("h", "w", "d", "s")]
        y, x = idx("y", "x")
        mg, mv, mh = margins(form)
        ls = minv(maxv(s, ONE), tm.idiv(minv(h, w), const(8)))
        ni, nj = cdiv(h - 2 * mv - ls, d), cdiv(w - 2 * mh - ls, d)
        facts = [ge(h, const(8)), ge(w, const(8)), ge(d, ONE), ge(s, ONE), ge(mv, ZERO), ge(mh, ZERO), ge(ni, ONE), ge(nj, ONE)]
        nm = "make_line_pattern[%s]" % form
        for I, hyps, v in each(S, nm, UTIL + ".make_line_pattern", [h, w, d, s, mg], facts=facts):
            S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], h), eq(v.shape[1], w)))
            hy = hyps + [inr(y, h), inr(x, w)]
            S.cover(nm, hy)
            ext = lambda z, m, n: and_(ge(z, m), lt(z, m + (n - 1) * d + ls))
            dark = or_(on_line(y, mv, ni, d, ls, ext(x, mh, nj)), on_line(x, mh, nj, d, ls, ext(y, mv, ni)))
            S.oblige(nm + ".pixel", hy, eq(v.get((y, x)), ite(dark, ZERO, ONE)))
    return run


def sec_dot(form):
    def run(S):
        h, w, d, s = [var(n, "I", nn=True) for n in ("h", "w", "d", "s")]
        y, x = idx("y", "x")
        mg, mv, mh = margins(form)
        ds = minv(maxv(s, ONE), tm.idiv(minv(h, w), const(8)))
        facts = [ge(h, const(8)), ge(w, const(8)), ge(d, ONE), ge(s, ONE), ge(mv, ZERO), ge(mh, ZERO)]
        hd = tm.idiv(ds, const(2)) + 1
        facts += [ge(h - 2 * mv - 2 * hd, ONE), ge(w - 2 * mh - 2 * hd, ONE)]       # room for at least one dot
        nm = "make_dot_pattern[%s]" % form
        for I, hyps, oc, v in S.paths(UTIL + ".make_dot_pattern", [h, w, d, s, mg], None, facts):
            if oc == "raise":
                S.record(nm + ".raises", v.name == "ValueError", v.name)
                S.oblige(nm + ".raises_only_for_large_dots", hyps, lt(d, ds))
                continue
            S.oblige(nm + ".accepts_only_fitting_dots", hyps, ge(d, ds))
            S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], h), eq(v.shape[1], w)))
            hy = hyps + [inr(y, h), inr(x, w)]
            S.cover(nm, hy)
            c = tm.idiv(ds, const(2))
            node = lambda z, m, n: and_(eq(tm.modv(z - m - hd, d), ZERO), inr(tm.idiv(z - m - hd, d), cdiv(n - 2 * m - 2 * hd, d)), inr(z, n))

            def covers(q, l):
                """offset (q-c, l-c) lies in the disk and leads to this pixel from a grid node"""
                u, t = q - c, l - c
                return and_(le(u * u + t * t, c * c), node(y - u, mv, h), node(x - t, mh, w))
            S.oblige(nm + ".pixel", hy, eq(v.get((y, x)), ite(exists(ds, lambda q: exists(ds, lambda l: covers(q, l))), ZERO, ONE)))
    return run


def sec_chess(S):
    h, w, d, mg = [var(n, "I", nn=True) for n in ("h", "w", "d", "mg")]
    g = var("g")
    y, x = idx("y", "x")
    ni, nj = cdiv(h - 2 * mg - 2 * d, d), cdiv(w - 2 * mg - 2 * d, d)
    nm = "make_chessboard"
    for I, hyps, v in each(S, nm, UTIL + ".make_chessboard", [h, w, d, mg, g], facts=[ge(h, ONE), ge(w, ONE), ge(d, ONE), ge(mg, ZERO)]):
        S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], h), eq(v.shape[1], w)))
        hy = hyps + [inr(y, h), inr(x, w)]
        a, b = tm.idiv(y - mg - d, d), tm.idiv(x - mg - d, d)
        cell = and_(inr(a, ni), inr(b, nj))
        S.oblige(nm + ".pixel", hy, eq(v.get((y, x)), ite(cell, ite(eq(tm.modv(a + b, const(2)), ZERO), ONE, ZERO), g)))


SECTIONS = [("circle", sec_circle)] + [("line_" + f, sec_line(f)) for f in ("int", "tuple", "list")] + [("dot_" + f, sec_dot(f)) for f in ("int", "tuple", "list")] + [("chess", sec_chess)]
