"""C03: slices and chunks of a 3D dataset equal the rows of the fully unwarped images."""
from .base import *

LEVEL = "proof"
ASSUME = ["scipy.ndimage.map_coordinates at order 1 inside the image is the bilinear interpolation of the pixels around the position",
          "positions are exact real numbers: the chunk version stores them in single precision, which moves them by less than 1e-3 pixel for images up to 8000 pixels"]


def setup():
    d, h, w, m = [var(n, "I", nn=True) for n in ("d", "h", "w", "m")]
    return d, h, w, m, var("xc"), var("yc"), [ge(d, ONE), ge(h, ONE), ge(w, ONE), ge(m, ONE)]


def row_value(mat, i, y, x, xc, yc, fact, m, h, w):
    px, py = radial(x, y, xc, yc, fact, m)
    src = SArr((h, w), lambda ix: mat.get((i,) + tuple(ix)), "f8")
    return sample(src, clipt(py, h - 1), clipt(px, w - 1), ONE, "reflect")


def sec_slice(S):
    for arr in (0, 1):
        d, h, w, m, xc, yc, facts = setup()
        fl, fa, fact = factor(m)
        mat = farr("vol", (d, h, w), org="mat3D")
        ind = var("index", "I", nn=True)
        i, x = idx("i", "x")
        nm = "unwarp_slice_backward[%s]" % ("array" if arr else "list")
        for I, hyps, v in each(S, nm, POST + ".unwarp_slice_backward", [mat, xc, yc, fa if arr else fl, ind], facts=facts + [lt(ind, h)]):
            S.oblige(nm + ".shape", hyps, and_(eq(dims(v)[0], d), eq(dims(v)[1], w)))
            hy = hyps + [inr(i, d), inr(x, w)]
            S.cover(nm, hy)
            S.oblige(nm + ".pixel", hy, eq(elem(v, i, x), row_value(mat, i, ind, x, xc, yc, fact, m, h, w)), show=dict(h=h, w=w, m=m, index=ind))
            S.frame(nm, I)
    for nd in (0, 1, 2):
        mat = farr("vol", tuple(var(n, "I", nn=True) for n in ("a", "b"))[:nd], org="mat3D") if nd else farr("vol", (ONE,))
        if nd:
            S.raises("unwarp_slice_backward.not3D[%d]" % nd, POST + ".unwarp_slice_backward", [mat, var("xc"), var("yc"), factor(var("m", "I", nn=True))[0], var("index", "I")], "ValueError")
            S.raises("unwarp_chunk_slices_backward.not3D[%d]" % nd, POST + ".unwarp_chunk_slices_backward", [mat, var("xc"), var("yc"), factor(var("m", "I", nn=True))[0], var("start", "I"), var("stop", "I")], "ValueError")


def sec_chunk(S):
    for last in (0, 1):
        d, h, w, m, xc, yc, facts = setup()
        fl, fa, fact = factor(m)
        mat = farr("vol", (d, h, w), org="mat3D")
        a, b = var("start", "I", nn=True), var("stop", "I", nn=True)
        stop = const(-1) if last else b
        end = h - 1 if last else b
        i, k, x = idx("i", "k", "x")
        nm = "unwarp_chunk_slices_backward[%s]" % ("stop=-1" if last else "start..stop")
        for I, hyps, v in each(S, nm, POST + ".unwarp_chunk_slices_backward", [mat, xc, yc, fl, a, stop], facts=facts + [le(a, end), lt(end, h)]):
            S.oblige(nm + ".shape", hyps, and_(eq(dims(v)[0], d), eq(dims(v)[1], end - a + 1), eq(dims(v)[2], w)))
            hy = hyps + [inr(i, d), inr(x, w), inr(k, end - a + 1)]
            S.cover(nm, hy)
            S.oblige(nm + ".pixel", hy, eq(elem(v, i, k, x), row_value(mat, i, a + k, x, xc, yc, fact, m, h, w)), show=dict(h=h, w=w, m=m, start=a, stop=end))
            S.frame(nm, I)


def sec_range(S):
    d, h, w, m, xc, yc, facts = setup()
    fl, fa, fact = factor(m)
    mat = farr("vol", (d, h, w), org="mat3D")
    a, b = var("start", "I"), var("stop", "I")
    f = POST + ".unwarp_chunk_slices_backward"
    S.raises("unwarp_chunk.start_below", f, [mat, xc, yc, fl, a, b], "ValueError", facts=facts + [lt(a, ZERO)])
    S.raises("unwarp_chunk.start_above", f, [mat, xc, yc, fl, a, b], "ValueError", facts=facts + [ge(a, h)])
    S.raises("unwarp_chunk.stop_below", f, [mat, xc, yc, fl, a, b], "ValueError", facts=facts + [lt(b, const(-1))])
    S.raises("unwarp_chunk.stop_above", f, [mat, xc, yc, fl, a, b], "ValueError", facts=facts + [ge(b, h)])


SECTIONS = [("slice", sec_slice), ("chunk", sec_chunk), ("range", sec_range)]
