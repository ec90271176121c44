"""Loop rule for while loops that split a pool of rows into groups.

Invariant template (checked to hold at entry and to be kept by an arbitrary iteration, else the loop is out of reach):
  - pool arrays: rows B[l(0)], B[l(1)], ... of the array at entry with l strictly increasing;
  - group lists: a list of arrays, group m having rows B[g(m,0)], B[g(m,1)], ... (possibly with the columns exchanged) with g(m,.)
    strictly increasing, at least `least` rows, and no index in two groups or in a group and the pool.
Partial correctness; that the pool gets smaller in every iteration is checked as the variant and recorded in `variants`."""
import time
from . import terms as tm, smt
from .terms import T, ZERO, ONE, TRUE, const, cval, num, and_, not_
from .values import *
from .values import Unsupported, Poison
from .loops import Head, assigned, find

REG = {}


def ipool(w, j):
    return T("app", ("wpool", w, num(j)), "I")


def irow(w, m, q):
    return T("app", ("wrow", w, num(m), num(q)), "I")


def ilen(w, m):
    return T("app", ("wlen", w, num(m)), "I")


def inr(k, n):
    return and_(tm.le(ZERO, k), tm.lt(k, n))


@smt.axiom("wpool")
def _ax_pool(t, tr):
    w, j = t.args[1:]
    r = REG[w]
    ok = inr(j, r["npool"])
    out = [tm.implies(ok, inr(t, r["n0"]))]
    for i, u in tr.amap.setdefault(("wpool", w), []):
        out.append(tm.implies(and_(ok, inr(i, r["npool"]), tm.lt(j, i)), tm.lt(t, u)))
        out.append(tm.implies(and_(ok, inr(i, r["npool"]), tm.lt(i, j)), tm.lt(u, t)))
    tr.amap[("wpool", w)].append((j, t))
    for m, q, u in tr.amap.get(("wrow", w), []):
        out.append(tm.implies(and_(ok, inr(m, r["ngroups"]), inr(q, ilen(w, m))), tm.ne(t, u)))
    return out


@smt.axiom("wrow")
def _ax_row(t, tr):
    w, m, q = t.args[1:]
    r = REG[w]
    ok = and_(inr(m, r["ngroups"]), inr(q, ilen(w, m)))
    out = [tm.implies(ok, inr(t, r["n0"]))]
    for i, p, u in tr.amap.setdefault(("wrow", w), []):
        ok2 = and_(inr(i, r["ngroups"]), inr(p, ilen(w, i)))
        out.append(tm.implies(and_(ok, ok2, tm.eq(m, i), tm.lt(q, p)), tm.lt(t, u)))
        out.append(tm.implies(and_(ok, ok2, tm.eq(m, i), tm.lt(p, q)), tm.lt(u, t)))
        out.append(tm.implies(and_(ok, ok2, tm.ne(m, i)), tm.ne(t, u)))
    tr.amap[("wrow", w)].append((m, q, t))
    for j, u in tr.amap.get(("wpool", w), []):
        out.append(tm.implies(and_(ok, inr(j, r["npool"])), tm.ne(t, u)))
    return out


@smt.axiom("wlen")
def _ax_len(t, tr):
    w, m = t.args[1:]
    r = REG[w]
    return [tm.le(ZERO, t), tm.implies(inr(m, r["ngroups"]), tm.le(const(r["least"]), t))]


def order(v, B, cols):
    """(index of the row of B that row q of v is, column order) or None"""
    q = tm.fresh("q")
    es = [v.get((q, const(c))) for c in range(cols)]
    found = rows_of(es, B)
    if found is None:
        return None
    e, perm = found
    l = tm.lam([q], e)
    return (lambda j: tm.lam_apply(l, [num(j)])), perm


def rows_of(es, B):
    """es[c] = B(e, perm[c]) for one e (under common case distinctions)"""
    if all(x.op == "ite" and x.args[0] is es[0].args[0] for x in es):
        a, b = rows_of([x.args[1] for x in es], B), rows_of([x.args[2] for x in es], B)
        if a is None or b is None or a[1] != b[1]:
            return None
        return tm.ite(es[0].args[0], a[0], b[0]), a[1]
    if all(x.op == "app" and x.args[0] == B for x in es) and len({x.args[1] for x in es}) == 1:
        perm = [cval(x.args[2]) for x in es]
        if None not in perm and sorted(perm) == list(range(len(es))):
            return es[0].args[1], tuple(int(p) for p in perm)
    return None


def applies(I, s):
    if I.loopks:
        return None
    names, muts = assigned(s.body)
    f = I.frames[-1]
    pools = [nm for nm in sorted(names) if isinstance(f.vars.get(nm), SArr) and f.vars[nm].ndim == 2 and cval(f.vars[nm].shape[1]) is not None]
    groups = [nm for nm in sorted(muts) if isinstance(f.vars.get(nm), SList) and not f.vars[nm].segs]
    if len(pools) != 1 or len(groups) != 1 or groups[0] in names:
        return None
    for nm in muts:
        if nm not in groups and nm in f.vars and not is_scalar(f.vars[nm]):
            return None
    return pools[0], groups[0], names


def rule(I, s, pool, group, names):
    from .interp import Brk, Cont, Infeasible, same_value
    f = I.frames[-1]
    base = f.vars[pool].frozen()
    glist = f.vars[group]
    cols = int(cval(base.shape[1]))
    w = next(tm._fresh)
    B = "wb!%d" % w
    n0 = base.shape[0]
    npool, ngroups = tm.fresh("w_pool"), tm.fresh("w_groups")
    REG[w] = dict(n0=n0, npool=npool, ngroups=ngroups, least=0)
    init = {nm: f.vars[nm] for nm in names if nm in f.vars and nm != pool}
    scal, derived = {}, {}
    for nm, v in init.items():
        if isinstance(v, bool) or (isinstance(v, T) and v.sort == "B"):
            scal[nm] = tm.fresh("w_" + nm, "B")
        elif isinstance(v, int) or (isinstance(v, T) and v.sort == "I"):
            scal[nm] = tm.fresh("w_" + nm, "I")
        elif isinstance(v, float) or isinstance(v, T):
            scal[nm] = tm.fresh("w_" + nm, "R")
        e = I.derived_expr(s.body, nm, names, allow={pool})
        if e is not None and same_value(I.ev(e), v):
            derived[nm] = e

    def havoc(real):
        for nm in names:
            if nm in scal:
                f.vars[nm] = scal[nm]
            elif nm in init:
                f.vars[nm] = Poison("while loop variable " + nm)
            else:
                f.vars.pop(nm, None)
        row = base.get if real else (lambda idx: T("app", (B,) + tuple(idx), "R"))
        f.vars[pool] = SArr((npool, const(cols)), lambda idx: row((ipool(w, idx[0]), idx[1])), base.dt)
        for nm, e in derived.items():
            f.vars[nm] = I.ev(e)
        I.pc += [tm.le(ZERO, npool), tm.le(npool, n0), tm.le(ZERO, ngroups)]
        if not real:
            glist.segs = [Head(ngroups)]
        else:
            m = tm.fresh("k")
            p = REG[w]["perm"]
            glist.segs = [Seg([m], [ngroups], TRUE, SArr((ilen(w, m), const(cols)), lambda idx: base.get((irow(w, m, idx[0]), sel(p, idx[1]))), base.dt))]

    def sel(p, c):
        if p == tuple(range(cols)):
            return c
        k = cval(c)
        if k is not None:
            return const(p[int(k)])
        r = const(p[-1])
        for i in range(cols - 2, -1, -1):
            r = tm.ite(tm.eq(c, const(i)), const(p[i]), r)
        return r

    neff = len(I.effects)
    out = []

    def once():
        havoc(False)
        if not I.truth(I.ev(s.test)):
            raise Infeasible()
        I.block(s.body)
    for pcx, oc, val in I.explore(once):
        if oc not in ("normal", "break"):
            if oc == "raise":
                raise Unsupported("exception in a while loop")
            raise Unsupported("return from a while loop")
        if len(I.effects) != neff:
            raise Unsupported("I/O effect in a while loop")
        if oc == "normal":
            v = f.vars.get(pool)
            if not isinstance(v, SArr) or v.ndim != 2:
                raise Unsupported("while loop variable " + pool)
            segs = [x for x in glist.segs if not (isinstance(x, list) and not x)]
            if not segs or not isinstance(segs[0], Head) or len(segs) > 2 or (len(segs) == 2 and (not isinstance(segs[1], list) or len(segs[1]) != 1)):
                raise Unsupported("while loop list " + group)
            out.append((list(I.pc), v.frozen(), segs[1][0].frozen() if len(segs) == 2 and isinstance(segs[1][0], SArr) else (None if len(segs) == 1 else Poison(""))))
        else:
            raise Unsupported("break from a while loop over groups")
    perms = set()
    forms = []
    for pc, pv, gv in out:
        po = order(pv, B, cols)
        if po is None or po[1] != tuple(range(cols)):
            raise Unsupported("rows of %s are not rows of it at entry" % pool)
        go = None
        if gv is not None:
            if not isinstance(gv, SArr) or gv.ndim != 2:
                raise Unsupported("item of " + group)
            go = order(gv, B, cols)
            if go is None:
                raise Unsupported("rows of an item of %s are not rows of %s" % (group, pool))
            perms.add(go[1])
        forms.append((pc, pv.shape[0], po[0], gv.shape[0] if gv is not None else None, go[0] if go else None))
    if len(perms) > 1:
        raise Unsupported("column order of the items of " + group)
    REG[w]["perm"] = perms.pop() if perms else tuple(range(cols))
    for least in (2, 1, 0):
        if all(gl is None or proved(pc, tm.le(const(least), gl)) for pc, pl, pe, gl, ge in forms):
            break
    REG[w]["least"] = least
    a, b, c, d = (tm.fresh("j") for _ in range(4))
    shrinks = True
    for pc, pl, pe, gl, ge in forms:
        need = lambda h, g, what: need_(I, h, g, "%s/%s: %s" % (pool, group, what))
        need(pc, and_(tm.le(ZERO, pl), tm.le(pl, n0)), "size of the pool")
        need(pc + [inr(a, pl)], inr(pe(a), n0), "pool rows")
        need(pc + [inr(a, pl), inr(b, pl), tm.lt(a, b)], tm.lt(pe(a), pe(b)), "pool order")
        need(pc + [inr(a, pl), inr(c, ngroups), inr(d, ilen(w, c))], tm.ne(pe(a), irow(w, c, d)), "pool apart from the groups")
        if gl is not None:
            need(pc + [inr(a, gl)], inr(ge(a), n0), "group rows")
            need(pc + [inr(a, gl), inr(b, gl), tm.lt(a, b)], tm.lt(ge(a), ge(b)), "group order")
            need(pc + [inr(a, gl), inr(b, pl)], tm.ne(ge(a), pe(b)), "group apart from the pool")
            need(pc + [inr(a, gl), inr(c, ngroups), inr(d, ilen(w, c))], tm.ne(ge(a), irow(w, c, d)), "groups apart")
        shrinks = shrinks and proved(pc, tm.lt(pl, npool))
    I.variants.append((pool, shrinks))
    havoc(True)
    if I.truth(I.ev(s.test)):
        raise Infeasible()
    I.block(s.orelse)


def proved(hyps, goal, timeout=4.0):
    return smt.prove(list(hyps), tm.tobool(goal), timeout=timeout, depth=2)[0] == "proved"


def need_(I, hyps, goal, what):
    """an obligation of the loop rule: the invariant is kept by an arbitrary iteration"""
    t0 = time.time()
    ok = proved(hyps, goal)
    I.invs.append(dict(name="%s.loop_invariant[%s]" % (I.frames[-1].name, what),
                       status="proved" if ok else "unknown", by="z3" if ok else None, t=round(time.time() - t0, 3), goal=what, detail=tm.show(goal)[:800]))
    if not ok:
        import os
        if os.environ.get("PYVC_TB"):
            print("NEED", what, tm.show(goal), [tm.show(h) for h in hyps])
        raise Unsupported("while loop invariant not inductive: " + what)
