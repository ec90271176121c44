"""Loop rule for while loops that collect rows of an array, and the symbols of its contract.

Invariant template (checked at entry and for an arbitrary iteration, else the loop is out of reach): the collected array X has
rows P[s(0)], P[s(1)], ... of an array P that the loop leaves alone, with s in range and injective.
Partial correctness: termination is not shown by this rule."""
import os
import time
from . import terms as tm, smt
from .terms import T, ZERO, ONE, TRUE, const, cval, num, and_
from .values import *
from .values import Unsupported, Poison
from .loops import assigned

REG = {}


def inr(k, n):
    return and_(tm.le(ZERO, k), tm.lt(k, n))


def new(ks, nP):
    """symbols of a selection from nP rows; a function of the enclosing iterations ks"""
    w = next(tm._fresh)
    REG[w] = tm.lam(list(ks), nP) if ks else nP
    n = T("app", ("wsn", w) + tuple(ks), "I")
    return n, lambda q: T("app", ("wsel", w) + tuple(ks) + (num(q),), "I")


def size(w, ks):
    return tm.lam_apply(REG[w], ks) if ks else REG[w]


@smt.axiom("wsn")
def _ax_n(t, tr):
    return [tm.le(ZERO, t)]


@smt.axiom("wsel")
def _ax_sel(t, tr):
    w, ks, q = t.args[1], t.args[2:-1], t.args[-1]
    ok = inr(q, T("app", ("wsn", w) + ks, "I"))
    out = [tm.implies(ok, inr(t, size(w, ks)))]
    for p, u in tr.amap.setdefault(("wsel", w, ks), []):
        ok2 = inr(p, T("app", ("wsn", w) + ks, "I"))
        out.append(tm.implies(and_(ok, ok2, tm.ne(p, q)), tm.ne(t, u)))
    tr.amap[("wsel", w, ks)].append((q, t))
    return out


def matches(P, cols):
    """finder of e with es[c] = P[e, c]"""
    h = tm.fresh("h")
    E = [P.get((h, const(c))) for c in range(cols)]
    pats = []
    for x in tm.subterms(E[0], bound=True):
        if x.op == "app" and any(a is h for a in x.args[1:]):
            pats.append(x)
    lams = [tm.lam([h], e) for e in E]

    def find(es):
        if all(x.op == "ite" and x.args[0] is es[0].args[0] for x in es):
            a, b = find([x.args[1] for x in es]), find([x.args[2] for x in es])
            return None if a is None or b is None else tm.ite(es[0].args[0], a, b)
        for x in tm.subterms(es[0], bound=False):
            if x.op != "app":
                continue
            for p in pats:
                if p.args[0] != x.args[0] or len(p.args) != len(x.args):
                    continue
                e = [b for a, b in zip(p.args[1:], x.args[1:]) if a is h]
                if any(z is not e[0] for z in e) or any(a is not h and a is not b and a != b for a, b in zip(p.args[1:], x.args[1:])):
                    continue
                if all(tm.lam_apply(l, [e[0]]) is y for l, y in zip(lams, es)):
                    return e[0]
        return None
    return find


def index_of(X, P):
    """the function s with X[q] = P[s(q)], or None"""
    cols = cval(P.shape[1])
    if X.ndim != 2 or cols is None or cval(X.shape[1]) != cols:
        return None
    q = tm.fresh("q")
    e = matches(P, int(cols))([X.get((q, const(c))) for c in range(int(cols))])
    if e is None:
        return None
    l = tm.lam([q], e)
    return lambda j: tm.lam_apply(l, [num(j)])


def applies(I, s):
    if I.loopks:
        return None
    names, muts = assigned(s.body)
    f = I.frames[-1]
    if muts - {nm for nm in muts if nm not in f.vars or is_scalar(f.vars[nm])}:
        return None
    two = lambda v: isinstance(v, SArr) and v.ndim == 2 and cval(v.shape[1]) is not None and cval(v.shape[0]) is None
    xs = [nm for nm in sorted(names) if two(f.vars.get(nm))]
    if len(xs) != 1:
        return None
    best = None
    for nm, v in sorted(f.vars.items()):
        if nm not in names and two(v):
            e = index_of(f.vars[xs[0]].frozen(), v.frozen())
            if e is not None and (best is None or index_of(best[1], v.frozen()) is not None):
                best = (xs[0], v.frozen(), e, names)       # the array of which the others are rows
    return best


def rule(I, s, X, P, e0, names):
    from .interp import Infeasible
    f = I.frames[-1]
    cols = int(cval(P.shape[1]))
    nP = P.shape[0]
    x0 = f.vars[X]
    a, b = tm.fresh("j"), tm.fresh("j")
    need = lambda h, g, what: need_(I, h, g, "%s: %s" % (X, what))
    need(I.pc + [inr(a, x0.shape[0])], inr(e0(a), nP), "rows of the array at entry")
    need(I.pc + [inr(a, x0.shape[0]), inr(b, x0.shape[0]), tm.lt(a, b)], tm.ne(e0(a), e0(b)), "no row twice at entry")
    n, sel = new((), nP)
    init = {nm: f.vars[nm] for nm in names if nm in f.vars and nm != X}
    scal = {}
    for nm, v in init.items():
        if isinstance(v, bool) or (isinstance(v, T) and v.sort == "B"):
            scal[nm] = tm.fresh("w_" + nm, "B")
        elif isinstance(v, int) or (isinstance(v, T) and v.sort == "I"):
            scal[nm] = tm.fresh("w_" + nm, "I")
        elif isinstance(v, float) or isinstance(v, T):
            scal[nm] = tm.fresh("w_" + nm, "R")

    def havoc():
        for nm in names:
            if nm in scal:
                f.vars[nm] = scal[nm]
            elif nm in init:
                f.vars[nm] = Poison("while loop variable " + nm)
            else:
                f.vars.pop(nm, None)
        f.vars[X] = SArr((n, const(cols)), lambda ix: P.get((sel(ix[0]), ix[1])), x0.dt)
        I.pc.append(tm.le(ZERO, n))

    neff = len(I.effects)
    out = []

    def once():
        havoc()
        if not I.truth(I.ev(s.test)):
            raise Infeasible()
        I.block(s.body)
    for pcx, oc, val in I.explore(once):
        if oc not in ("normal", "break"):
            raise Unsupported("a while loop is left by " + oc)
        if len(I.effects) != neff:
            raise Unsupported("I/O effect in a while loop")
        if oc == "break":
            raise Unsupported("break from a while loop that collects rows")
        v = f.vars.get(X)
        if not isinstance(v, SArr) or v.ndim != 2:
            raise Unsupported("while loop variable " + X)
        e = index_of(v.frozen(), P)
        if e is None:
            if os.environ.get("PYVC_TB"):
                print("ROWS", tm.show(v.get((tm.fresh("q"), ZERO))), "OF", tm.show(P.get((tm.fresh("h"), ZERO))))
            raise Unsupported("rows of %s are not recognised as rows of an array at entry" % X)
        out.append((list(I.pc), v.shape[0], e))
    for pc, m, e in out:
        need(pc + [inr(a, m)], inr(e(a), nP), "rows of the array")
        need(pc + [inr(a, m), inr(b, m), tm.lt(a, b)], tm.ne(e(a), e(b)), "no row twice")
    havoc()
    if I.truth(I.ev(s.test)):
        raise Infeasible()
    I.block(s.orelse)


def need_(I, hyps, goal, what):
    t0 = time.time()
    ok = smt.prove(list(hyps), tm.tobool(goal), timeout=6.0, depth=2)[0] == "proved"
    I.invs.append(dict(name="%s.loop_invariant[%s]" % (I.frames[-1].name, what), status="proved" if ok else "unknown", by="z3" if ok else None,
                       t=round(time.time() - t0, 3), goal=what, detail=tm.show(goal)[:800]))
    if not ok:
        if os.environ.get("PYVC_TB"):
            print("NEED", what, tm.show(goal), [tm.show(h) for h in hyps])
        raise Unsupported("while loop invariant not inductive: " + what)
