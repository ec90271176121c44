"""Closed forms for loops over symbolic ranges.

The body is executed once for an arbitrary iteration k from an arbitrary
(havocked) head state; from the resulting step function a closed form of the
head state at iteration k is built whose base case and step hold by
construction:  accumulator x' = a*x + b(k), last value x' = f(k), list
append/extend, array store at an index determined by k.  Anything else is left
unknown (Poison), which can only make obligations unprovable."""
import ast
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE, const, cval, num, and_, or_, not_
from .values import *
from .values import Unsupported, PyRaise, Poison

UNDEF = object()
MAXUNROLL = 24


class Head:
    """marker segment: list content at loop head"""

    def __init__(self, hlen):
        self.hlen = hlen
        self.val = None

    def length(self):
        return self.hlen

    def item(self, p):
        raise Unsupported("item of a list under construction")


def assigned(stmts):
    names, muts = set(), set()

    def root(n):
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        return n.id if isinstance(n, ast.Name) else None

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            r = root(t)
            if r:
                muts.add(r)
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tgt(t)
            elif isinstance(n, ast.AugAssign):
                tgt(n.target)
                if isinstance(n.target, ast.Name):
                    muts.add(n.target.id)
            elif isinstance(n, ast.AnnAssign):
                tgt(n.target)
            elif isinstance(n, ast.For):
                tgt(n.target)
            elif isinstance(n, ast.NamedExpr):
                tgt(n.target)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                tgt(n.optional_vars)
            elif isinstance(n, ast.comprehension):
                pass
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in ("append", "extend", "insert", "pop", "remove", "sort", "reverse", "clear", "update", "add", "write", "fill"):
                    r = root(n.func.value)
                    if r:
                        muts.add(r)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
    return names, muts


def tnames(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} if t is not None else set()


def summarise(I, target, body, n, item):
    n = num(n)
    c = cval(n)
    from .interp import Brk, Cont
    if c is not None and c <= MAXUNROLL:
        for i in range(int(c)):
            I.assign(target, item(const(i)) if not isinstance(item, list) else item[i])
            try:
                I.block(body)
            except Brk:
                return True
            except Cont:
                continue
        return False
    if I.known(tm.le(n, ZERO)):
        return False
    names, muts = assigned(body)
    r = _summ(I, target, body, n, item, names, muts, {})
    for nm in sorted(muts):
        o = find(I, I.frames[-1], nm)
        if isinstance(o, dict) and isinstance(o.get("$tail"), SList) and not o["$tail"].segs:
            del o["$tail"]
    return r


def _summ(I, target, body, n, item, names, muts, types):
    from .interp import Brk, Cont, Ret
    fr = I.frames[-1]
    tn = tnames(target)
    k = tm.fresh("k")
    vals0 = {}
    hv = {}            # name -> havoc var or (fname) for arrays
    lists, arrays = {}, {}
    dicts = []
    for nm in sorted(muts):
        o = find(I, fr, nm)
        if isinstance(o, dict):
            o.setdefault("$tail", SList([]))
    snap0 = I.snapshot()
    # in-place mutated objects
    for nm in sorted(muts):
        o = find(I, fr, nm)
        if isinstance(o, SList):
            lists[id(o)] = (nm, o, list(o.segs))
        elif isinstance(o, SArr) and o.ndim:
            r = o.root()
            arrays[id(r)] = (nm, r)
        elif isinstance(o, dict):
            t = o["$tail"]
            lists[id(t)] = (nm, t, list(t.segs))
            dicts.append((nm, o, {a: b for a, b in o.items() if a != "$tail"}, id(t)))
        elif getattr(o, "tag", None) == "file":
            c = o.attrs["content"]
            lists[id(c)] = (nm, c, list(c.segs))
    for nm in sorted(names - tn):
        vals0[nm] = fr.vars.get(nm, UNDEF)
    effn = len(I.effects)
    log0 = {i: getattr(r, "log", None) for i, (nm, r) in arrays.items()}

    def setup():
        for i, (nm, o, segs) in lists.items():
            o.segs = [Head(hv["len:%d" % i])]
        for i, (nm, r) in arrays.items():
            f = hv["arr:%d" % i]
            srt = "I" if r.dt[0] in "iu" else ("B" if r.dt == "b" else "R")
            r.setfn((lambda f, srt: lambda idx: T("app", (f,) + tuple(idx), srt))(f, srt))
            r.log = []
        for nm, v in vals0.items():
            h = hv.get(nm)
            if h is None:
                if v is not UNDEF:
                    fr.vars[nm] = Poison("loop-carried " + nm)
                else:
                    fr.vars.pop(nm, None)
            else:
                fr.vars[nm] = h() if callable(h) else h

    for i in lists:
        hv["len:%d" % i] = tm.fresh("hl")
    for i in arrays:
        hv["arr:%d" % i] = "ha!%d" % next(tm._fresh)
    hvars = {}
    harr = {}
    for nm, v in vals0.items():
        if id(v) in lists or (isinstance(v, SArr) and v.ndim and id(v.root()) in arrays):
            # mutated in place: keep the binding unless really re-assigned
            hv[nm] = v
            continue
        if nm in types and types[nm][0] == "grow":
            hl = tm.fresh("hl")
            hv["grw:" + nm] = hl
            hv[nm] = (lambda hl, sh, dt: lambda: growing(SList([Head(hl)]), sh, dt))(hl, types[nm][1], types[nm][2])
            continue
        if nm in types:
            sh, dt = types[nm]
            f = "hx!%d" % next(tm._fresh)
            harr[nm] = (f, sh, dt)
            hv[nm] = (lambda f, sh, dt: lambda: SArr(sh, lambda idx: T("app", (f,) + tuple(idx), "R"), dt))(f, sh, dt)
            continue
        if v is UNDEF:
            continue
        if isinstance(v, bool) or (isinstance(v, T) and v.sort == "B"):
            h = tm.fresh("h_" + nm, "B")
        elif isinstance(v, T):
            h = tm.fresh("h_" + nm, "R" if (nm, "real") in types else v.sort)
        elif isinstance(v, int):
            h = tm.fresh("h_" + nm, "R" if (nm, "real") in types else "I")
        elif isinstance(v, float):
            h = tm.fresh("h_" + nm, "R")
        elif isinstance(v, SArr):
            f = "hx!%d" % next(tm._fresh)
            harr[nm] = (f, v.shape, v.dt)
            hv[nm] = (lambda f, sh, dt: lambda: SArr(sh, lambda idx: T("app", (f,) + tuple(idx), "R"), dt))(f, v.shape, v.dt)
            continue
        elif isinstance(v, SList):
            hl = tm.fresh("hl")
            hv["lst:" + nm] = hl
            hv[nm] = (lambda hl: lambda: SList([Head(hl)]))(hl)
            continue
        else:
            continue
        hv[nm] = h
        hvars[nm] = h

    def thunk():
        setup()
        I.pc.append(tm.le(ZERO, k))
        I.pc.append(tm.lt(k, n))
        I.loopks.append(k)
        try:
            I.assign(target, item(k))
            I.block(body)
        finally:
            I.loopks.pop()

    paths = []
    base_facts = getattr(I, "factset", set())
    for pcx, oc, val in I.explore(thunk):
        dec = [x for x in pcx[2:] if x not in I.factset]
        cond = and_(*dec)
        st = dict(cond=cond, oc=oc, val=val)
        if oc == "normal":
            if len(I.effects) != effn:
                raise Unsupported("I/O effect in a symbolic loop")
            for nm, o, items, _ in dicts:
                if {a: b for a, b in o.items() if a != "$tail"} != items:
                    raise Unsupported("dict entry updated in a symbolic loop")
            st["vars"] = {nm: freeze(fr.vars.get(nm, UNDEF)) for nm in names - tn}
            st["lists"] = {i: [freeze_seg(s) for s in o.segs] for i, (nm, o, _) in lists.items()}
            st["logs"] = {i: list(r.log) for i, (nm, r) in arrays.items()}
            st["afn"] = {i: r.fn for i, (nm, r) in arrays.items()}
        paths.append(st)
    I.restore(snap0)
    for i, (nm, r) in arrays.items():
        r.log = log0[i]
    normals = [p for p in paths if p["oc"] == "normal"]
    exits = [p for p in paths if p["oc"] != "normal"]
    N = n if I.known(tm.le(ZERO, n)) else tm.maxv(n, ZERO)

    # ---- type changes: scalar initial value turning into an array / real
    redo = {}
    for nm in names - tn:
        v0 = vals0.get(nm, UNDEF)
        if v0 is UNDEF or nm in types:
            continue
        for p in normals:
            v = p["vars"].get(nm, UNDEF)
            if nm in harr and isinstance(v, SArr) and v.ndim == len(harr[nm][1]) and v.ndim and v.shape[0] is not harr[nm][1][0]:
                redo[nm] = ("grow", harr[nm][1][1:], v.dt)
            if nm in hvars and isinstance(v, SArr) and v.ndim:
                if any(tm.occurs(k, s) for s in v.shape):
                    continue
                redo[nm] = (v.shape, "f8")
            elif nm in hvars and hvars[nm].sort == "I" and isinstance(v, T) and v.sort == "R" and (nm, "real") not in types:
                redo[(nm, "real")] = True
            elif nm in hvars and hvars[nm].sort == "I" and isinstance(v, float) and (nm, "real") not in types:
                redo[(nm, "real")] = True
    redo = {a: b for a, b in redo.items() if a not in types}
    if redo:
        t2 = dict(types)
        t2.update(redo)
        return _summ(I, target, body, n, item, names, muts, t2)

    # ---- merge paths
    def merge(get):
        vs = [(p["cond"], get(p)) for p in normals]
        if not vs:
            return UNDEF
        r = vs[-1][1]
        for c, v in reversed(vs[:-1]):
            if v is UNDEF or r is UNDEF or isinstance(v, Poison) or isinstance(r, Poison):
                if v is r:
                    continue
                return Poison("undefined on some path")
            try:
                r = vite(c, v, r)
            except Unsupported as e:
                return Poison(str(e))
        return r

    allh = set(hvars.values()) | {v for kk, v in hv.items() if isinstance(v, T)}
    hfn = {f for f, _, _ in harr.values()} | {v for kk, v in hv.items() if isinstance(v, str)}

    def unsolved(t, solved):
        for x in tm.subterms(t, bound=True):
            if x in allh and x not in solved:
                return True
            if x.op == "app" and x.args[0] in hfn and ("fn", x.args[0]) not in solved:
                return True
        return False

    closed = {}     # hvar -> fn(kterm)->T
    cfn = {}        # array fname -> fn(kterm, idx)->T

    def resolve(t, kt):
        """replace solved havocs by closed form at iteration kt and k by kt"""
        m = {k: kt}
        for h, f in closed.items():
            if tm.occurs(h, t):
                m[h] = f(kt)
        for x in tm.subterms(t, bound=False):
            if x.op == "app" and x.args[0] in cfn:
                m[x] = cfn[x.args[0]](kt, x.args[1:])
        r = tm.subst(t, m)
        return r

    def lin(F, h):
        """F = a*h + b  -> (a, b) or None"""
        if F.op == "ite" and F.args[1].sort != "B":
            a1, a2 = lin(F.args[1], h), lin(F.args[2], h)
            if a1 and a2 and a1[0] is a2[0] and not tm.occurs(h, F.args[0]):
                return a1[0], tm.ite(F.args[0], a1[1], a2[1])
            return None
        a, b = {}, {}
        for m, c in tm.monos(F):
            d = dict(m)
            e = d.pop(h, 0)
            if e > 1 or any(occ(h, x) for x in d):
                # conditional increments: ite(c, h+g, h) inside a sum
                return None
            (a if e else b)[frozenset(d.items())] = c
        return tm.mkpoly(a), tm.mkpoly(b)

    def occ(h, x):
        if h.op == "var":
            return tm.occurs(h, x)
        return h in tm.subterms(x, bound=True)

    merged = {}
    for nm in names - tn:
        merged[nm] = merge(lambda p: p["vars"].get(nm, UNDEF))
    # lengths of lists under construction
    appended = {}
    for i, (nm, o, segs) in lists.items():
        appended[i] = merge_append(normals, lambda p: p["lists"][i], k, n)
    for nm, o, _, i in dicts:
        ap = appended[i]
        if ap is None or ap.kind == "none":
            continue
        from .iolib import injective_key
        if lists[i][2] or ap.kind != "one" or not isinstance(ap.val, tuple) or isinstance(ap.val[0], (int, float, T)) or not injective_key(ap.val[0], k):
            raise Unsupported("dictionary keys of a symbolic loop may repeat")
    for nm in list(hv):
        if nm.startswith("lst:"):
            real = nm[4:]
            appended[nm] = merge_append(normals, lambda p: (p["vars"][real].segs if isinstance(p["vars"].get(real), SList) else None), k, n)
        if nm.startswith("grw:"):
            real = nm[4:]
            appended[nm] = merge_append(normals, lambda p: (p["vars"][real].rows.segs if getattr(p["vars"].get(real), "rows", None) is not None else None), k, n)
    # solve
    todo = {}
    for nm, h in hvars.items():
        v = merged.get(nm, UNDEF)
        if v is UNDEF or isinstance(v, Poison):
            continue
        if is_scalar(v):
            todo[h] = (asT(v), num(vals0[nm]) if not (isinstance(vals0[nm], T) and vals0[nm].sort == "B") and not isinstance(vals0[nm], bool) else tm.tobool(vals0[nm]))
    progress = True
    solved = set()
    seqlen = {}
    for i, ap in appended.items():
        h = hv["len:%d" % i] if not isinstance(i, str) else hv[i]
        if ap is not None:
            cnt = ap.count_const()
            if cnt is not None:
                l0 = SList(lists[i][2]).length() if not isinstance(i, str) else vals0[i[4:]].length() if i.startswith("lst:") else vals0[i[4:]].shape[0]
                closed[h] = (lambda l0, cnt: lambda kt: l0 + cnt * kt)(l0, cnt)
                solved.add(h)
    atodo = {}
    for nm, (f, sh, dt) in harr.items():
        v = merged.get(nm, UNDEF)
        if isinstance(v, SArr) and v.ndim == len(sh):
            atodo[f] = (v, vals0[nm], sh)
    while progress:
        progress = False
        for h in list(todo):
            F, x0 = todo[h]
            others_ok = not unsolved(F, solved | {h})
            if not others_ok:
                continue
            if not occ(h, F):
                def f(kt, F=F, x0=x0):
                    kc = cval(kt)
                    if kc is not None and kc == 0:
                        return x0
                    v = resolve(F, kt - 1)
                    return v if I.known(tm.gt(kt, ZERO)) else tm.ite(tm.gt(kt, ZERO), v, x0)
                closed[h] = f
            elif h.sort == "B":
                continue
            else:
                ab = lin(F, h)
                if ab is None:
                    continue
                a, b = ab
                if a is ONE:
                    def f(kt, b=b, x0=x0):
                        return x0 + tm.sum_(kt, lambda j: resolve(b, j))
                elif not tm.occurs(k, a) and not unsolved(a, set()):
                    def f(kt, a=a, b=b, x0=x0):
                        return tm.power(a, kt) * x0 + tm.sum_(kt, lambda j: tm.power(a, kt - 1 - j) * resolve(b, j))
                else:
                    continue
                closed[h] = f
            solved.add(h)
            del todo[h]
            progress = True
        for fname in list(atodo):
            v, x0, sh = atodo[fname]
            q = [tm.fresh("q") for _ in sh]
            F = v.get(tuple(q))
            h = T("app", (fname,) + tuple(q), "R")
            if unsolved(F, solved | {("fn", fname)}):
                continue
            # only the element at the same index may occur
            if any(x.op == "app" and x.args[0] == fname and x is not h for x in tm.subterms(F, bound=True)):
                continue
            if not occ(h, F):
                l = tm.lam(q, F)

                def f(kt, idx, l=l, x0=x0):
                    v = resolve(tm.lam_apply(l, idx), kt - 1)
                    if I.known(tm.gt(kt, ZERO)):
                        return v
                    return tm.ite(tm.gt(kt, ZERO), v, to_arr(x0).get(idx if isinstance(x0, SArr) else ()))
            else:
                ab = lin(F, h)
                if ab is None or ab[0] is not ONE and (tm.occurs(k, ab[0]) or unsolved(ab[0], set())):
                    continue
                l = tm.lam(q, ab[1])
                la = tm.lam(q, ab[0])
                z0 = x0

                def f(kt, idx, l=l, la=la, z0=z0):
                    a = tm.lam_apply(la, idx)
                    i0 = z0.get(idx) if isinstance(z0, SArr) and z0.ndim else asT(z0)
                    if a is ONE:
                        return i0 + tm.sum_(kt, lambda j: resolve(tm.lam_apply(l, idx), j))
                    return tm.power(a, kt) * i0 + tm.sum_(kt, lambda j: tm.power(a, kt - 1 - j) * resolve(tm.lam_apply(l, idx), j))
            cfn[fname] = f
            solved.add(("fn", fname))
            del atodo[fname]
            progress = True
        if progress:
            continue
        # a system of scalars that only depends on itself, with no closed form: the iterate of its step function
        rest = {h: v for h, v in todo.items() if h.sort in ("R", "I") and v[1].sort in ("R", "I")}
        while True:
            bad = [h for h in rest if unsolved(rest[h][0], solved | set(rest)) or not any(occ(h, v[0]) for v in rest.values())]
            if not bad:
                break
            for h in bad:
                del rest[h]
        if rest and len(rest) <= 4:
            hs = sorted(rest, key=lambda h: rest[h][1].uid)
            steps = [resolve(rest[h][0], k) for h in hs]
            for pos, h in enumerate(hs):
                closed[h] = lambda kt, pos=pos, hs=hs, steps=steps, x0=[rest[g][1] for g in hs]: tm.iterate(kt, pos, hs + [k], steps, x0)
                solved.add(h)
                del todo[h]
            progress = True

    def install(kt):
        """set the state to the closed form at iteration kt"""
        for nm in names - tn:
            v0 = vals0.get(nm, UNDEF)
            if nm in hvars:
                h = hvars[nm]
                if h in closed:
                    fr.vars[nm] = closed[h](kt)
                elif merged.get(nm) is h:
                    fr.vars[nm] = v0
                else:
                    fr.vars[nm] = unknown(I, "post", h.sort)
            elif nm in harr:
                f, sh, dt = harr[nm]
                if f in cfn:
                    fr.vars[nm] = SArr(sh, (lambda f, kt: lambda idx: cfn[f](kt, idx))(f, kt), dt)
                else:
                    fr.vars[nm] = Poison("array accumulator " + nm)
            elif "grw:" + nm in hv:
                ap = appended.get("grw:" + nm)
                try:
                    fr.vars[nm] = list_to_array(rebuilt(I.lib.seq(I, v0).segs, ap, kt), I) if ap is not None else Poison("array " + nm)
                except Unsupported as e:
                    fr.vars[nm] = Poison(str(e))
            elif "lst:" + nm in hv:
                ap = appended.get("lst:" + nm)
                fr.vars[nm] = rebuilt(v0.segs, ap, kt) if ap is not None else Poison("list " + nm)
            elif v0 is not UNDEF and (id(v0) in lists or (isinstance(v0, SArr) and id(v0.root()) in arrays)):
                v = merged.get(nm, UNDEF)
                fr.vars[nm] = v0 if all(p["vars"].get(nm) is not UNDEF for p in normals) else Poison(nm)
            else:
                v = merged.get(nm, UNDEF)
                if v is UNDEF or isinstance(v, Poison):
                    fr.vars[nm] = Poison("value of %s after loop" % nm)
                    if v is UNDEF:
                        fr.vars.pop(nm)
                else:
                    # last value; for a name without prior binding (or poisoned)
                    try:
                        fr.vars[nm] = vresolve(v, kt - 1)
                    except Unsupported as e:
                        fr.vars[nm] = Poison(str(e))
        for i, (nm, o, segs) in lists.items():
            ap = appended[i]
            if ap is None:
                o.segs = [Head(tm.fresh("hl"))]
                continue
            try:
                o.segs = rebuilt(segs, ap, kt).segs
            except Unsupported:
                o.segs = [Head(tm.fresh("hl"))]
        for i, (nm, r) in arrays.items():
            fn = store_closed(I, normals, i, r, k, kt, resolve, unsolved, solved, hv["arr:%d" % i])
            r.setfn(fn)
            if log0[i] is not None:
                r.log = log0[i] + outer_log(I, normals, i, r, k, kt, resolve, unsolved, solved)

    def vresolve(v, kt):
        if isinstance(v, T):
            if unsolved(v, solved):
                raise Unsupported("unsolved recurrence")
            return resolve(v, kt)
        if isinstance(v, SArr):
            qs = [tm.fresh("q") for _ in v.shape]
            b = v.get(tuple(qs))
            if unsolved(b, solved) or any(unsolved(s, solved) for s in v.shape):
                raise Unsupported("unsolved recurrence")
            l = tm.lam(qs, resolve(b, kt)) if qs else resolve(b, kt)
            return SArr([resolve(s, kt) for s in v.shape], (lambda idx: tm.lam_apply(l, idx)) if qs else (lambda idx: l), v.dt)
        if isinstance(v, tuple):
            return tuple(vresolve(x, kt) for x in v)
        if isinstance(v, SList):
            segs = []
            for s in v.segs:
                if isinstance(s, list):
                    segs.append([vresolve(x, kt) for x in s])
                elif isinstance(s, Seg):
                    if any(unsolved(x, solved) for x in s.ns + [s.cond]):
                        raise Unsupported("unsolved recurrence")
                    segs.append(Seg(s.ks, [resolve(x, kt) for x in s.ns], resolve(s.cond, kt), vresolve(s.val, kt)))
                else:
                    raise Unsupported("list under construction")
            return SList(segs, v.kind)
        if isinstance(v, (int, float, str, bool, type(None))):
            return v
        if getattr(v, "tag", None) is not None and isinstance(getattr(v, "attrs", None), dict):
            return type(v)(v.tag, {a: vresolve(b, kt) for a, b in v.attrs.items()}, vresolve(v.term, kt) if v.term is not None else None)
        if hasattr(v, "vsubst"):
            return v.vsubst({k: kt})
        if v is UNDEF:
            raise Unsupported("undefined")
        raise Unsupported("loop value %s" % type(v).__name__)

    def rebuilt(segs0, ap, kt):
        r = SList(list(segs0))
        if ap.kind == "none":
            return r
        j = tm.fresh("k")
        seg = ap.seg(j, kt, lambda v: vresolve(v, j) if not isinstance(v, T) else tres(v, j))
        r.extend_segs([seg.expand()])
        return r

    def tres(t, j):
        if t.sort == "B" and unsolved(t, solved):
            t = abstracted(t)
        if unsolved(t, solved):
            raise Unsupported("unsolved recurrence")
        return resolve(t, j)

    atoms = {}

    def abstracted(t):
        """atoms that depend on unsummarised state, as unknown predicates of the iteration: whatever the state, their truth at
        iteration k is a function of k (and of the enclosing iterations)"""
        if not unsolved(t, solved):
            return t
        if t.op in ("and", "or"):
            return (and_ if t.op == "and" else or_)(*[abstracted(x) for x in t.args[0]])
        if t.op == "not":
            return not_(abstracted(t.args[0]))
        if t not in atoms:
            atoms[t] = "pa!%d" % next(tm._fresh)
        return T("app", (atoms[t],) + tuple(I.loopks) + (k,), "B")

    # ---- exits
    if exits:
        if any(unsolved(p["cond"], solved) for p in exits):
            raise Unsupported("loop exit depends on unsummarised state")
        C = or_(*[p["cond"] for p in exits])
        Cl = lambda kt: resolve(C, kt)
        ex = tm.exists(n, Cl)
        if I.branch(ex):
            kx = tm.T("app", ("first", n, tm.lam([k], resolve(C, k))), "I")
            I.assume_fact(tm.le(ZERO, kx))
            I.assume_fact(tm.lt(kx, n))
            I.assume_fact(Cl(kx))
            I.assume_fact(tm.forall(kx, lambda j: not_(Cl(j))))
            install(kx)
            I.assign(target, item(kx))
            try:
                I.block(body)
            except Brk:
                return True
            except Cont:
                pass
            from .interp import Infeasible
            raise Infeasible()
        install(N)
    else:
        if not normals:
            from .interp import Infeasible
            raise Infeasible()
        install(N)
    try:
        if I.known(tm.gt(n, ZERO)):
            I.assign(target, item(N - 1))
        else:
            for nm in tn:
                fr.vars[nm] = Poison("loop variable after a possibly empty loop")
    except Unsupported:
        for nm in tn:
            fr.vars[nm] = Poison("loop variable")
    return False


def unknown(I, nm, sort):
    """an unknown value, a function of the enclosing iterations"""
    nm = "%s!%d" % (nm, next(tm._fresh))
    return T("app", (nm,) + tuple(I.loopks), sort) if I.loopks else tm.fresh(nm, sort)


def find(I, fr, nm):
    g = fr
    while g is not None:
        if nm in g.vars:
            return g.vars[nm]
        g = g.parent
    return None


def freeze(v):
    if isinstance(v, SArr):
        if v.base is None and not getattr(v, "log", None):
            return v.frozen() if v.ndim else v
        return v.frozen() if v.ndim else v
    if isinstance(v, SList):
        return SList([freeze_seg(s) for s in v.segs], v.kind)
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


def freeze_seg(s):
    if isinstance(s, list):
        return [freeze(x) for x in s]
    return s


class Append:
    """what one iteration adds to a list"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def count_const(self):
        if self.kind == "none":
            return ZERO
        if self.kind == "one" and self.cond is TRUE:
            return ONE
        if self.kind == "many":
            return const(self.m)
        return None

    def seg(self, j, n, res):
        """res substitutes iteration index and closed forms"""
        if self.kind == "one":
            return Seg([j], [n], res(self.cond), res(self.val))
        if self.kind == "many":
            i = tm.fresh("k")
            return Seg([j, i], [n, const(self.m)], TRUE, res(vselect(self.items, i)))
        s = self.s
        ks = [tm.fresh("k") for _ in s.ks]
        m = dict(zip(s.ks, ks))
        return Seg([j] + ks, [n] + [res(tm.subst(x, m)) for x in s.ns], res(and_(self.cond, tm.subst(s.cond, m))), res(vsubst(s.val, m)))


def merge_append(normals, get, k, n):
    rs = []
    for p in normals:
        segs = get(p)
        if segs is None or not segs or not isinstance(segs[0], Head):
            return None
        rest = segs[1:]
        if any(isinstance(s, Head) for s in rest):
            return None
        rest = [s for s in rest if not (isinstance(s, list) and not s)]
        rs.append((p["cond"], rest))
    if all(not r for c, r in rs):
        return Append("none")
    if all(len(r) == 0 or (len(r) == 1 and isinstance(r[0], list) and len(r[0]) == 1) for c, r in rs):
        pos = [(c, r[0][0]) for c, r in rs if r]
        cond = or_(*[c for c, _ in pos]) if any(not r for c, r in rs) else TRUE
        v = pos[-1][1]
        try:
            for c, w in reversed(pos[:-1]):
                v = vite(c, w, v)
        except Unsupported:
            return None
        return Append("one", cond=cond, val=v)
    nz = [(c, r) for c, r in rs if r]
    if len(nz) == 1:
        c, r = nz[0]
        cond = TRUE if len(rs) == 1 else c
        if len(r) == 1 and isinstance(r[0], list):
            if cond is TRUE:
                return Append("many", m=len(r[0]), items=r[0])
            return None
        if len(r) == 1:
            return Append("seg", s=r[0], cond=cond)
    return None


def affine(t, k):
    """t = a*k + b"""
    a, b = {}, {}
    for m, c in tm.monos(t):
        d = dict(m)
        e = d.pop(k, 0)
        if e > 1 or any(tm.occurs(k, x) for x in d):
            return None
        (a if e else b)[frozenset(d.items())] = c
    return tm.mkpoly(a), tm.mkpoly(b)


def store_closed(I, normals, i, r, k, kt, resolve, unsolved, solved, hname):
    old = r.fn
    recs = [(p["cond"], p["logs"][i]) for p in normals]
    if all(not l for c, l in recs):
        return old
    total = len(recs)
    stores = []
    for c, l in recs:
        for (region, val) in l:
            stores.append((c if total > 1 else TRUE, region, val))
    dt = r.dt

    def opaque(why):
        raise Unsupported("array stores in loop: " + why)

    # each store: region per dim ('i', t) | ('r', start, n, step); val(idx over range dims)->T
    def fn_for(idx):
        res = None
        cases = []
        for c, region, val in stores:
            kk, extra = solve_k(I, region, idx, k, kt)
            if kk is None:
                cases.append((c, region, val, None, None))
            else:
                cases.append((c, region, val, kk, extra))
        out = ("old",)
        r0 = old(idx)
        if all(x[3] is not None for x in cases):
            # later stores of the same iteration win; all determined by same k
            kks = {x[3] for x in cases}
            if len(kks) != 1:
                opaque("different index maps")
            t = r0
            for c, region, val, kk, extra in cases:
                m, sub = match(region, idx)
                cond = and_(c, m)
                v = val(sub)
                for z in (cond, v):
                    if unsolved(z, solved):
                        opaque("depends on loop state")
                condk = and_(resolve(cond, kk), extra)
                t = tm.ite(condk, resolve(v, kk), t)
            return t
        # not determined: value must not depend on k
        t = r0
        vals = set()
        conds = []
        for c, region, val, kk, extra in cases:
            m, sub = match(region, idx)
            v = val(sub)
            if tm.occurs(k, v) or unsolved(v, solved) or unsolved(and_(c, m), solved):
                opaque("overlapping stores of different values")
            vals.add(v)
            conds.append(and_(c, m))
        if len(vals) != 1:
            opaque("overlapping stores of different values")
        C = or_(*conds)
        return tm.ite(tm.exists(kt, lambda j: resolve(C, j)), vals.pop(), t)
    return fn_for


def outer_log(I, normals, i, r0, k, kt, resolve, unsolved, solved):
    """stores of a finished inner loop as range stores of the enclosing loop"""
    stores = [(region, val) for p in normals for region, val in p["logs"][i]]
    if not stores:
        return []
    if len(normals) > 1 or any(hasattr(r, "cond") for r, _ in stores):
        return outer_general(I, normals, i, r0, k, kt, resolve, unsolved, solved)
    try:
        return outer_simple(I, stores, k, kt, resolve, unsolved, solved)
    except Unsupported:
        return outer_general(I, normals, i, r0, k, kt, resolve, unsolved, solved)


class Region(list):
    """region with a further condition on the index written"""
    cond = None


def outer_general(I, normals, i, r0, k, kt, resolve, unsolved, solved):
    """stores each of whose positions is written by one known iteration of the inner loop"""
    probe = tuple(tm.fresh("p") for _ in r0.shape)
    maps, out = set(), []
    for p in normals:
        c = p["cond"] if len(normals) > 1 else TRUE
        for region, val in p["logs"][i]:
            kk, _ = solve_k(I, region, probe, k, kt)
            if kk is None:
                raise Unsupported("overlapping array stores in a nested loop")
            maps.add(kk)
            if unsolved(c, solved) or any(unsolved(x, solved) for r in region for x in r[1:]):
                raise Unsupported("array store of a nested loop depends on loop state")
            new = Region()
            for q, r in enumerate(region):
                new.append(("r", ZERO, r0.shape[q], ONE) if any(tm.occurs(k, x) for x in r[1:]) else r)

            def cond(idx, region=region, c=c):
                kk, extra = solve_k(I, region, idx, k, kt)
                m, _ = match(region, idx)
                return and_(resolve(and_(c, m), kk), extra)

            def v2(sub, region=region, val=val, new=tuple(new)):
                idx, it = [], iter(sub)
                for r in new:
                    idx.append(r[1] if r[0] == "i" else r[1] + next(it) * r[3])
                kk, _ = solve_k(I, region, idx, k, kt)
                v = val(match(region, idx)[1])
                if unsolved(v, solved):
                    raise Unsupported("array store of a nested loop depends on loop state")
                return resolve(v, kk)
            new.cond = cond
            out.append((new, v2))
    if len(maps) > 1:
        raise Unsupported("array stores of a nested loop")
    return out


def outer_simple(I, stores, k, kt, resolve, unsolved, solved):
    out, maps = [], set()
    for region, val in stores:
        d = None
        for q, r in enumerate(region):
            parts = r[1:]
            if not any(tm.occurs(k, x) for x in parts):
                continue
            ab = affine(r[1], k) if r[0] == "i" else None
            if d is not None or ab is None or ab[0] is not ONE:
                raise Unsupported("array store of a nested loop")
            d, b = q, ab[1]
        if d is None or any(unsolved(x, solved) for r in region for x in r[1:]):
            raise Unsupported("array store of a nested loop")
        maps.add((d, b))
        res = [r for r in region]
        res[d] = ("r", b, kt, ONE)
        res = [(r[0],) + tuple(resolve(x, ZERO) if q != d else x for x in r[1:]) for q, r in enumerate(res)]
        pos = sum(1 for r in region[:d] if r[0] == "r")

        def v2(sub, val=val, pos=pos):
            kk = sub[pos]
            v = val(tuple(sub[:pos]) + tuple(sub[pos + 1:]))
            if unsolved(v, solved):
                raise Unsupported("array store of a nested loop depends on loop state")
            return resolve(v, kk)
        out.append((res, v2))
    if len(maps) > 1:
        raise Unsupported("array stores of a nested loop")
    return out


def match(region, idx):
    cs, sub = [], []
    for r, x in zip(region, idx):
        if r[0] == "i":
            cs.append(tm.eq(x, r[1]))
        else:
            st, ln, step = r[1], r[2], r[3]
            if step is ONE:
                j = x - st
                cs.append(and_(tm.le(ZERO, j), tm.lt(j, ln)))
            else:
                j = tm.idiv(x - st, step)
                cs.append(and_(tm.eq(tm.modv(x - st, step), ZERO), tm.le(ZERO, j), tm.lt(j, ln)))
            sub.append(j)
    if getattr(region, "cond", None) is not None:
        cs.append(region.cond(idx))
    return and_(*cs), tuple(sub)


def solve_k(I, region, idx, k, kt):
    """iteration that writes position idx, when it is unique"""
    for r, x in zip(region, idx):
        if r[0] == "i":
            ab = affine(r[1], k)
            if ab is None or ab[0] is ZERO:
                continue
            a, b = ab
            if a is ONE or a is tm.NEG1:
                kk = (x - b) * a
                return kk, and_(tm.le(ZERO, kk), tm.lt(kk, kt))
            if I.known(tm.gt(a, ZERO)):
                kk = tm.idiv(x - b, a)
                return kk, and_(tm.le(ZERO, kk), tm.lt(kk, kt))
        elif r[3] is ONE:
            ab = affine(r[1], k)
            if ab is None or ab[0] is ZERO or tm.occurs(k, r[2]):
                continue
            a, b = ab
            if I.known(tm.gt(a, ZERO)) and I.known(tm.le(r[2], a)):
                kk = tm.idiv(x - b, a)
                return kk, and_(tm.le(ZERO, kk), tm.lt(kk, kt))
    return None, None
