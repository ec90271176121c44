"""C04: forward image unwarping writes each source pixel at its rounded model position."""
from .base import *

LEVEL = "proof"
ASSUME = ["numpy assignment through integer index arrays leaves in each target position the value of one of the source positions mapped to it, and other positions untouched"]


def sec_forward(S):
    for dt in ("f8", "u1", "i8"):
        for arr in (0, 1):
            h, w, m = [var(n, "I", nn=True) for n in ("h", "w", "m")]
            xc, yc = var("xc"), var("yc")
            fl, fa, fact = factor(m)
            mat = farr("img", (h, w), dt=dt, org="mat")
            facts = [ge(h, ONE), ge(w, ONE), ge(m, ONE)]
            y, x, sy, sx = idx("y", "x", "sy", "sx")
            nm = "unwarp_image_forward[%s,%s]" % (dt, "array" if arr else "list")

            def target(a, b):
                px, py = radial(b, a, xc, yc, fact, m)
                return tm.rint(clipt(py, h - 1)), tm.rint(clipt(px, w - 1))
            for I, hyps, v in each(S, nm, POST + ".unwarp_image_forward", [mat, xc, yc, fa if arr else fl], facts=facts):
                S.oblige(nm + ".shape", hyps, and_(eq(dims(v)[0], h), eq(dims(v)[1], w)))
                S.record(nm + ".type", v.dt == dt, "result type %s for %s" % (v.dt, dt))
                hy = hyps + [inr(y, h), inr(x, w)]
                S.cover(nm, hy)
                ty = SArr((h, w), lambda ix: target(ix[0], ix[1])[0], "i8").to_term()
                tx = SArr((h, w), lambda ix: target(ix[0], ix[1])[1], "i8").to_term()
                hit = T("app", ("hit", ty, tx, y, x), "B")
                p = [T("app", ("pick", ty, tx, y, x, k), "I") for k in (0, 1)]
                val = mat.get(tuple(p))
                S.oblige(nm + ".pixel", hy, eq(v.get((y, x)), ite(hit, val, ZERO)), show=dict(h=h, w=w, m=m))
                # what hit and pick mean
                S.oblige(nm + ".hit_is_a_source", hy + [hit], and_(inr(p[0], h), inr(p[1], w), eq(target(*p)[0], y), eq(target(*p)[1], x)))
                S.oblige(nm + ".every_source_is_written", hy + [inr(sy, h), inr(sx, w), eq(target(sy, sx)[0], y), eq(target(sy, sx)[1], x)], hit)
                S.frame(nm, I)


SECTIONS = [("forward", sec_forward)]
