"""Contract framework: a contract module defines sections; each section runs the
symbolic executor on functions of /repo's current source, with the contracts of
the callees it names, and discharges named obligations.

Sections run in forked processes with a hard time limit, so that a solver or
interpreter that gets stuck on changed code cannot hang the check."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from pyvc import terms as tm                                    # noqa: E402
from pyvc import smt, interp, evalt                             # noqa: E402
from pyvc.terms import (T, ZERO, ONE, TRUE, FALSE, HALF, const, cval, num, var, and_, or_, not_, eq, ne, lt, le, gt, ge,   # noqa: E402,F401
                        ite, forall, exists, implies, sum_, sqrt, absv, floor, minv, maxv, fresh, iff)
from pyvc.values import SArr, SList, Seg, Unsupported, PyRaise, asT, is_scalar, Poison, list_to_array, vsubst, to_arr  # noqa: E402,F401
from pyvc.interp import Interp, load, Opaque, UserFn, Module, LibFn   # noqa: E402,F401
from pyvc.nplib import LIB                                      # noqa: E402
from pyvc import imlib, iolib                                   # noqa: E402,F401

POST = "discorpy.post.postprocessing"
PROC = "discorpy.proc.processing"
PREP = "discorpy.prep.preprocessing"
LINE = "discorpy.prep.linepattern"
LOSA = "discorpy.losa.loadersaver"
UTIL = "discorpy.util.utility"


SIGS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "sigs.json")))


class Obl(Exception):
    pass


class Section:
    """collects the obligations of one section"""

    def __init__(self, prop, name, tier):
        self.prop, self.name, self.tier = prop, name, tier
        self.obls = []
        self.functions = set()
        self.contracts_used = set()
        self.lib = set()
        self.notes = []
        self.timeout = 6.0 if tier == "quick" else 20.0

    # -- running code --------------------------------------------------------
    def fn(self, dotted):
        mod, nm = dotted.rsplit(".", 1)
        f = load(mod).env.get(nm)
        if not isinstance(f, UserFn):
            raise Unsupported("function %s is not defined" % dotted)
        if nm.startswith("_"):
            a = f.node.args
            if SIGS.get(dotted) != [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
                raise Unsupported("the helper %s has other parameters than its contract" % dotted)
        return f

    def interp(self, facts=(), summaries=None, lib=None, maxpaths=400):
        I = Interp(lib or LIB, summaries={(k if "." in k else PROC + "." + k): f for k, f in (summaries or {}).items()}, facts=[f for f in facts if f is not TRUE], maxpaths=maxpaths)
        return I

    def paths(self, dotted, args=(), kw=None, facts=(), summaries=None, lib=None, maxpaths=400, ghost=None):
        """yield (I, hyps, outcome, value) for every feasible path"""
        I = self.interp(facts, summaries, lib, maxpaths)
        if ghost:
            I.ghost.update(ghost)
        f = self.fn(dotted)
        for i, a in enumerate(args):
            I.ghost["arg%d" % i] = a
        n = 0
        self.functions.add(dotted)
        try:
            for pc, oc, v in I.explore(lambda: I.call(f, list(args), dict(kw or {}))):
                n += 1
                self.note_entered(I)
                if oc == "normal":
                    oc = "return"
                yield I, list(I.pc), oc, v
        finally:
            self.note_entered(I)
        if n == 0:
            raise Unsupported("no feasible path through %s" % dotted)

    def run(self, thunk, facts=(), summaries=None, ghost=None, maxpaths=400):
        """yield (I, hyps, outcome, value) for every feasible path of thunk(I), a composition of calls"""
        I = self.interp(facts, summaries, None, maxpaths)
        if ghost:
            I.ghost.update(ghost)
        n = 0
        for pc, oc, v in I.explore(lambda: thunk(I)):
            n += 1
            self.note_entered(I)
            yield I, list(I.pc), "return" if oc == "normal" else oc, v
        self.note_entered(I)
        if n == 0:
            raise Unsupported("no feasible path")

    def note_entered(self, I):
        self.obls += I.invs
        del I.invs[:]
        for e in I.entered:
            if e.startswith("lib:"):
                self.lib.add(e[4:])
            elif e.startswith("contract:"):
                self.contracts_used.add(e[9:])
            else:
                self.functions.add(e)

    # -- obligations -----------------------------------------------------------
    def oblige_alts(self, name, hyps, alts, goal, **k):
        """discharge hyps and all the instances in alts => goal, trying the instance sets one by one first"""
        for a in alts:
            if all(smt.prove(list(hyps) + list(a), g, timeout=2.0)[0] == "proved" for g in split(tm.tobool(goal))):
                return self.oblige(name, list(hyps) + list(a), goal, timeout=2.0)
        return self.oblige(name, list(hyps) + [x for a in alts for x in a], goal, **k)

    def oblige(self, name, hyps, goal, show=None, timeout=None, depth=2, cvc5=True):
        """discharge hyps => goal"""
        t0 = time.time()
        goal = tm.tobool(goal)
        goals = split(goal)
        worst, how, model, failed = "proved", set(), None, None
        for g in goals:
            st, d = smt.prove(list(hyps), g, timeout=timeout or self.timeout, depth=depth, cvc5=cvc5)
            if st == "proved":
                how.add(d if isinstance(d, str) else "z3")
                continue
            if st == "cex":
                # a model of the instantiated lemmas: replayed with the real meaning of sums, powers, sorts, ...
                rp, info = evalt.replay(list(hyps), g, d)
                if loose(list(hyps) + [g]):
                    st, d = "unknown", smt.Hint("the solver's model gives values to a loop abstraction that the loop need not produce", d)
                elif rp == "refuted":
                    st, d = "unknown", smt.Hint("the solver's model is not a counterexample under the standard interpretation (%d instances hold)" % info, d)
            elif not loose(list(hyps) + [g]) and evalt.interpreted(list(hyps) + [g]):
                # undecided by the solver, but every symbol has its real meaning: search for a falsifying assignment
                rp, info = evalt.replay(list(hyps), g, d.model if isinstance(d, smt.Hint) else None)
                if rp == "confirmed":
                    st, d = "cex", evalt.Assignment(info)
            worst, failed = st, g
            if st == "cex":
                model = d
            elif isinstance(d, smt.Hint):
                model = d.model
            break
        rec = dict(name=name, status=worst, by="+".join(sorted(how)) or None, t=round(time.time() - t0, 3))
        if worst != "proved":
            rec["goal"] = tm.show(failed)[:1500]
            rec["detail"] = str(model if model is not None else d)[:1500]
            if model is not None:
                hints = {}
                for nm, t in (show or {}).items():
                    v = model.value(t)
                    if v is not None:
                        hints[nm] = v
                for h in list(hyps) + [goal]:
                    for v in tm.free_vars(h):
                        if v.op == "var" and "!" not in v.args[0] and v.args[0] not in hints:
                            x = model.value(v)
                            if x is not None:
                                hints[v.args[0]] = x
                rec["hints"] = hints
        self.obls.append(rec)
        return worst == "proved"

    def record(self, name, ok, detail=""):
        """an obligation decided by the executor itself (structure, frames, exceptions)"""
        rec = dict(name=name, status="proved" if ok else "cex", by="exec", t=0.0)
        if not ok:
            rec["goal"] = name
            rec["detail"] = detail
        self.obls.append(rec)
        return ok

    def typed(self, name, ok, detail="", by="ownership"):
        """an obligation decided by a conservative typing: discharged or left open, never refuted"""
        self.obls.append(dict(name=name, status="proved" if ok else "unknown", by=by if ok else None, t=0.0, goal=name, detail=detail))

    def cover(self, name, hyps):
        """vacuity guard: the hypotheses must be satisfiable"""
        r = smt.sat(list(hyps))
        rec = dict(name="cover:" + name, status="proved" if r else ("cex" if r is False else "unknown"), by="z3", t=0.0, cover=True)
        if r is False:
            rec["goal"] = rec["detail"] = "contradictory precondition"
            rec["status"] = "unknown"
        self.obls.append(rec)

    def raises(self, name, dotted, args, exc, kw=None, facts=(), **k):
        """every path raises exc"""
        ok, det = True, ""
        for I, hyps, oc, v in self.paths(dotted, args, kw, facts, **k):
            if oc != "raise" or v.name != exc:
                if oc == "raise":
                    det = "raises %s" % v.name
                else:
                    det = "returns normally"
                if smt.sat(hyps) is False:
                    continue
                ok = False
        self.record(name, ok, det)

    def frame(self, name, I, hyps=()):
        bad = [s for s in I.safety if s[0] == "frame"]
        self.record(name + ".frame", not bad, "; ".join(sorted({s[1] for s in bad})))


LOOSE = ("pa!", "iter!", "wsn", "wsel", "nearby!", "w_", "post", "wpool", "wrow", "wlen", "w_pool", "w_groups")


def loose(ts):
    """a loop abstraction occurs: values constrained by the invariant alone, so a model need not be an execution"""
    for t in ts:
        for x in tm.subterms(t, bound=True):
            if x.op in ("app", "var") and isinstance(x.args[0], str) and x.args[0].startswith(LOOSE):
                return True
    return False


def split(g):
    if g.op == "and":
        return sorted(g.args[0], key=lambda x: x.uid)
    return [g]


def run_section(prop, secname, fn, tier, limit, q):
    os.setpgid(0, 0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, int(limit)))
    S = Section(prop, secname, tier)
    err = None
    t0 = time.time()
    try:
        fn(S)
    except Unsupported as e:
        err = "out of reach: %s" % e
        if os.environ.get("PYVC_TB"):
            traceback.print_exc()
    except PyRaise as e:
        err = "out of reach: program raised %s outside a path (%s)" % (e.name, e.msg)
        if os.environ.get("PYVC_TB"):
            traceback.print_exc()
    except TimeoutError:
        err = "timeout"
    except RecursionError:
        err = "out of reach: recursion limit"
    except Exception as e:                       # a fault of the verifier, never a verdict
        err = "internal: %s: %s" % (type(e).__name__, e)
        err += " @ " + " < ".join("%s:%d" % (f.name, f.lineno) for f in traceback.extract_tb(e.__traceback__)[-4:][::-1])
        if os.environ.get("PYVC_TB"):
            traceback.print_exc()
    signal.alarm(0)
    q.put(dict(section=secname, obls=S.obls, err=err, functions=sorted(S.functions), contracts=sorted(S.contracts_used),
               lib=sorted(S.lib), notes=S.notes, stats=dict(smt.STATS), wall=round(time.time() - t0, 2)))


def _alarm(*a):
    raise TimeoutError()


def run_sections(prop, sections, tier, limit, jobs=7):
    """sections: list of (name, fn) -> list of results, in order"""
    ctx = mp.get_context("fork")
    pend = list(sections)
    run = []
    out = {}
    while pend or run:
        while pend and len(run) < jobs:
            nm, fn = pend.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=run_section, args=(prop, nm, fn, tier, limit, q))
            p.start()
            run.append((nm, p, q, time.time()))
        for it in list(run):
            nm, p, q, t0 = it
            r = None
            try:
                r = q.get(timeout=0.02)
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=0.5)
                    except Exception:
                        r = dict(section=nm, obls=[], err="internal: section process died", functions=[], contracts=[], lib=[], notes=[], stats={}, wall=time.time() - t0)
                elif time.time() - t0 > limit + 20:
                    r = dict(section=nm, obls=[], err="timeout (killed)", functions=[], contracts=[], lib=[], notes=[], stats={}, wall=time.time() - t0)
            if r is not None:
                out[nm] = r
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    try:
                        p.kill()
                    except Exception:
                        pass
                p.join(2)
                run.remove(it)
    return [out[nm] for nm, _ in sections]


# -- common symbolic inputs -----------------------------------------------------

def farr(name, shape, dt="f8", org=None, sort=None):
    """an arbitrary array: element = uninterpreted function of the index"""
    evalt.INPUT.add(name)
    srt = sort or ("B" if dt == "b" else ("I" if dt[0] in "iu" else "R"))
    fn = lambda idx: T("app", (name,) + tuple(idx), srt)
    if dt in ("u1", "u2", "i1", "i2", "i4"):
        from pyvc.lib import wrap
        fn = lambda idx: wrap(T("app", (name,) + tuple(idx), srt), dt)
    return SArr(shape, fn, dt, org=org)


def flist(name, n, org=None, sort="R"):
    """an arbitrary python list of numbers"""
    evalt.INPUT.add(name)
    k = fresh("k")
    s = SList([Seg([k], [n], TRUE, T("app", (name, k), sort))])
    s.org = org
    return s


def lines(name="pt", n=None, org=None, cols=2, dt="f8", minlen=0):
    """list of n arrays of shape (m_i, 2); returns list, point(i,j,c), length(i)"""
    n = n if n is not None else var("nl", "I", nn=True)
    evalt.INPUT.update((name, "len"))
    k = fresh("k")
    srt = "I" if dt[0] in "iu" else "R"
    ln = lambda i: (T("app", ("len", name, i), "I") + minlen)
    pt = lambda i, j, c: T("app", (name, num(i), num(j), num(c)), srt)
    line = SArr((ln(k), const(cols)), lambda idx: pt(k, idx[0], idx[1]), dt, org=(org + "[i]") if org else None)
    L = SList([Seg([k], [n], TRUE, line)])
    L.org = org
    return L, pt, ln


def idx(*names):
    return [var(n, "I") for n in names]


def inr(k, n):
    return and_(le(ZERO, k), lt(k, n))


def as_list(v):
    """result list (SList / array / tuple) -> (length, item)"""
    if isinstance(v, tuple):
        v = SList.of(list(v))
    if isinstance(v, SList):
        return v.length(), v.item
    if isinstance(v, SArr):
        def item(i):
            if v.ndim == 1:
                return v.get((num(i),))
            i = num(i)
            fv = v
            return SArr(v.shape[1:], lambda idx: fv.get((i,) + tuple(idx)), v.dt)
        return v.shape[0], item
    raise Unsupported("result is not a sequence")


def elem(v, *ix):
    """element of a nested result"""
    for n, i in enumerate(ix):
        if isinstance(v, SArr):
            rest = ix[n:]
            if len(rest) >= v.ndim:
                r = v.get(tuple(num(x) for x in rest[:v.ndim]))
                if len(rest) > v.ndim:
                    raise Unsupported("result has fewer dimensions")
                return r
            raise Unsupported("result has more dimensions")
        if isinstance(v, tuple):
            v = SList.of(list(v))
        if isinstance(v, SList):
            v = v.item(i)
        else:
            raise Unsupported("result is not nested")
    return v


def dims(v, I=None):
    if isinstance(v, SArr):
        return v.shape
    if isinstance(v, (SList, tuple)):
        n, item = as_list(v)
        return (n,)
    return ()


def polyF(fact, m, r):
    """sum_i fact(i) r^i"""
    return sum_(m, lambda i: fact(i) * tm.power(r, i))


def factor(m, name="fact"):
    """uninterpreted coefficient list: (list value, array value, coefficient function)"""
    f = lambda i: T("app", (name, num(i)), "R")
    return flist(name, m, org="list_fact"), farr(name, (m,), org="list_fact"), f


def clipt(v, hi):
    return minv(maxv(v, ZERO), hi)


def radial(x, y, xc, yc, fact, m):
    """(x', y') = centre + F(r) * (point - centre)"""
    dx, dy = x - xc, y - yc
    F = polyF(fact, m, sqrt(dx * dx + dy * dy))
    return xc + F * dx, yc + F * dy


def sample(mat, y, x, order, mode):
    """scipy.ndimage.map_coordinates at one position; order 1 inside the image is the bilinear value"""
    from pyvc.nplib import bilinear
    if order is ONE and isinstance(mode, str):
        return bilinear(mat, [y, x])
    return T("app", ("mapc", mat.to_term(), y, x, order, mode, ZERO, True), "R")


def lsq_spec(I, rows, m):
    """the least-squares solution of the system with the rows {(coefficients fn(j), rhs) : ks < ns, cond}"""
    from pyvc.nplib import lsq
    A, B = [], []
    for ks, ns, cond, row, b in rows:
        A.append(Seg(ks, ns, cond, SArr((m,), (lambda row: lambda ix: row(ix[0]))(row), "f8")))
        B.append(Seg(ks, ns, cond, b))
    return lsq(I, list_to_array(SList(A), I), list_to_array(SList(B), I), m)


MODE = Opaque("mode", term=var("mode", "U"))


def each(S, nm, dotted, args, kw=None, facts=(), **k):
    """paths that return; a raising path must be infeasible"""
    for I, hyps, oc, v in S.paths(dotted, args, kw, facts, **k):
        if oc == "raise":
            S.oblige(nm + ".no_exception[%s]" % v.name, hyps, FALSE)
            continue
        yield I, hyps, v


def safe(fn, name, S):
    """run a sub-part of a section; out-of-reach parts are recorded, others go on"""
    try:
        fn()
    except Unsupported as e:
        S.notes.append("%s: out of reach: %s" % (name, e))
        S.obls.append(dict(name=name, status="unreached", by=None, t=0.0, detail=str(e)))
    except PyRaise as e:
        S.notes.append("%s: out of reach: raised %s" % (name, e.name))
        S.obls.append(dict(name=name, status="unreached", by=None, t=0.0, detail="PyRaise %s %s" % (e.name, e.msg)))
