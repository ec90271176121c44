"""C07: converted radial models are the least-squares inverse of the given model."""
from .base import *

LEVEL = "proof"
ASSUME = ["numpy.linalg.lstsq returns a minimiser of the squared residual of the system it is given; equal systems (up to the order of the rows) have equal solutions",
          "reference points at which the model's factor is exactly zero have no inverse and give no equation"]


def refs(kind, n):
    p = lambda k, c: T("app", ("ref", num(k), num(c)), "R")
    if kind == "array":
        return farr("ref", (n, const(2)), org="ref_points"), p
    k = fresh("k")
    item = SArr((const(2),), lambda ix: p(k, ix[0]), "f8") if kind == "list of arrays" else SList.of([p(k, ZERO), p(k, ONE)])
    L = SList([Seg([k], [n], TRUE, item)])
    L.org = "ref_points"
    return L, p


def sec(mapping):
    def run(S):
        for kind in ("list", "list of arrays", "array"):
            for fkind in ("list", "array"):
                n, m = var("n", "I", nn=True), var("m", "I", nn=True)
                fl, fa, fact = factor(m)
                ref, p = refs(kind, n)
                nm = "transform_coef[%s,%s,%s]" % (mapping, kind, fkind)
                kw = dict(ref_points=ref)
                if mapping != "default":
                    kw["mapping"] = mapping
                facts = [ge(m, ONE), ge(n, m), le(m, const(32767))]
                for I, hyps, v in each(S, nm, PROC + ".transform_coef_backward_and_forward", [fl if fkind == "list" else fa], kw, facts=facts):
                    j = var("j", "I")
                    S.oblige(nm + ".count", hyps, eq(dims(v)[0], m))
                    k = fresh("k")
                    r = sqrt(p(k, 0) * p(k, 0) + p(k, 1) * p(k, 1))
                    F = polyF(fact, m, r)
                    ls = lsq_spec(I, [([k], [n], ne(F, ZERO), lambda q, F=F, r=r: tm.power(F * r, q), 1 / F)], m)
                    h = hyps + [inr(j, m)]
                    S.cover(nm, h)
                    S.oblige(nm + ".least_squares_inverse", h, eq(elem(v, j), ls.get((j,))))
                    S.frame(nm, I)
                fc = facts[:1] + [lt(n, m), le(m, const(32767))]
                S.raises(nm + ".too_few_points", PROC + ".transform_coef_backward_and_forward", [fl if fkind == "list" else fa], "ValueError", kw, facts=fc)
    return run


def sec_lemma(S):
    """an exact inverse on a point satisfies that point's equation: G(F(r) r) = 1/F(r) <=> undoing the model restores the radius"""
    r, F, G = var("r"), var("F"), var("G")
    S.oblige("lemma.exact_inverse", [gt(r, ZERO), ne(F, ZERO), eq(G * (F * r), r)], eq(G, 1 / F))
    S.oblige("lemma.equation_restores_radius", [ne(F, ZERO), eq(G, 1 / F)], eq(G * (F * r), r))


SECTIONS = [(m, sec(m)) for m in ("forward", "backward", "default")] + [("lemma", sec_lemma)]
