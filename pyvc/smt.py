"""Discharging obligations: ring normalisation first, then z3 (cvc5 as second
opinion).  Every quantified fact is instantiated here; the solver sees
quantifier-free formulas except where a hypothesis is explicitly universal."""
import os
import time
from fractions import Fraction
import z3
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE, cval, const, add, mul, NEG1

STATS = dict(ring=0, z3=0, cvc5=0, field=0, z3_s=0.0, queries=0, cached=0)
z3.set_param("smt.random_seed", 1)


class Trans:
    """translation to z3 with lazily collected axioms"""

    def __init__(self, depth=2, insts=(), lin=False, cong=True, flat=False):
        self.flat = flat        # aggregates as opaque constants, no lemmas about them (a sound weakening)
        self.capped = False     # some instances were left out: a model is no counterexample
        self.cong = cong        # instantiate extensionality of aggregates
        self.lin = lin          # non-linear monomials as opaque constants (a sound weakening)
        self.nonlin = False
        self.memo = {}
        self.pending = []
        self.axioms = []
        self.lams = []      # closed applications with lambda arguments
        self.depth = depth
        self.cur = 0
        self.insts = list(insts)
        self.seen_ax = set()
        self.amap = {}
        self.quants, self.qinst = [], []

    def num(self, t):
        r = self.tr(t)
        return r

    def real(self, t):
        r = self.tr(t)
        return z3.ToReal(r) if z3.is_int(r) else r

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._tr(t)
            self.memo[t] = r
        return r

    def _tr(self, t):
        op = t.op
        if op == "poly":
            isint = t.sort == "I"
            ps = []
            for m, c in t.args:
                fs = []
                if sum(e for _, e in m) > 1:
                    self.nonlin = True
                    if self.lin:
                        for a, e in m:
                            self.tr(a)
                        z = (z3.Int if isint else z3.Real)("mono%s_%d" % ("i" if isint else "r", tm.mkpoly({m: Fraction(1)}).uid))
                        k = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
                        ps.append(z if c == 1 else k * z)
                        continue
                for a, e in m:
                    x = self.tr(a) if isint else self.real(a)
                    for _ in range(e):
                        fs.append(x)
                k = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
                if c != 1 or not fs:
                    fs.insert(0, k)
                p = fs[0]
                for f in fs[1:]:
                    p = p * f
                ps.append(p)
            if not ps:
                return z3.IntVal(0) if isint else z3.RealVal(0)
            r = ps[0]
            for p in ps[1:]:
                r = r + p
            return r
        if op == "var":
            if t.sort == "B":
                return z3.Bool(t.args[0])
            if t.sort == "I":
                r = z3.Int(t.args[0])
                if len(t.args) > 1:
                    self.axioms.append(r >= 0)
                return r
            if t.sort == "R":
                r = z3.Real(t.args[0])
                if len(t.args) > 1:
                    self.axioms.append(r >= 0)
                return r
            return z3.Const(t.args[0], USORT)
        if op == "bv":
            return (z3.Int if t.sort == "I" else z3.Real)("bv_" + t.args[0])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(self.tr(t.args[0]))
        if op == "and":
            return z3.And(*[self.tr(x) for x in t.args[0]])
        if op == "or":
            return z3.Or(*[self.tr(x) for x in t.args[0]])
        if op == "iff":
            a, b = list(t.args[0])
            return self.tr(a) == self.tr(b)
        if op == "ueq":
            xs = list(t.args[0])
            return self.tr(xs[0]) == self.tr(xs[-1])
        if op in ("le0", "lt0", "eq0"):
            p = t.args[0]
            # move negative coefficients to the right for readability
            x = self.tr(p)
            z = z3.IntVal(0) if z3.is_int(x) else z3.RealVal(0)
            return x <= z if op == "le0" else (x < z if op == "lt0" else x == z)
        if op == "ite":
            a, b = t.args[1], t.args[2]
            if t.sort == "U":
                return z3.If(self.tr(t.args[0]), self.tr(a), self.tr(b))
            if t.sort == "I":
                return z3.If(self.tr(t.args[0]), self.tr(a), self.tr(b))
            return z3.If(self.tr(t.args[0]), self.real(a), self.real(b))
        if op in ("forall", "exists"):
            vs, body = tm.lam_open(t.args[1], "q")
            if has_bv(t):
                # occurs below another binder: opaque
                return z3.Bool("quant_%d" % t.uid)
            v = vs[0]
            nm = z3.Bool("quant_%d" % t.uid)
            if self.flat or not pure_in(body, v, self.lin):
                # the body is not a formula over the bound variable alone: Skolem constant and instances (see close)
                self.pending.append(("quant", t, nm))
                return nm
            zv = self.tr(v)
            n = self.tr(t.args[0])
            b = self.tr(body)
            rng = z3.And(zv >= 0, zv < n)
            if op == "forall":
                f = z3.ForAll([zv], z3.Implies(rng, b))
            else:
                f = z3.Exists([zv], z3.And(rng, b))
            self.axioms.append(nm == f)
            return nm
        if op == "app":
            return self.app(t)
        if op == "lam":
            return z3.Const("lam_%d" % t.uid, USORT)
        raise NotImplementedError(op)

    def const_for(self, t, name=None):
        nm = "%s_%d" % (name or t.args[0], t.uid)
        if t.sort == "I":
            return z3.Int(nm)
        if t.sort == "B":
            return z3.Bool(nm)
        if t.sort == "R":
            return z3.Real(nm)
        return z3.Const(nm, USORT)

    def app(self, t):
        f = t.args[0]
        a = t.args[1:]
        if f in ("min", "max"):
            xs = list(a[0])
            c = self.const_for(t)
            if t.sort == "I":
                zs = [self.tr(x) for x in xs]
            else:
                zs = [self.real(x) for x in xs]
            r = zs[0]
            for z in zs[1:]:
                r = z3.If(r <= z, r, z) if f == "min" else z3.If(r >= z, r, z)
            return r
        if f == "floor":
            return z3.ToInt(self.real(a[0]))
        if f == "rint":
            x = self.real(a[0])
            fl = z3.ToInt(x)
            d = x - z3.ToReal(fl)
            return z3.If(d < z3.RealVal("1/2"), fl, z3.If(d > z3.RealVal("1/2"), fl + 1,
                                                         z3.If(fl % 2 == 0, fl, fl + 1)))
        if f == "idiv":
            x, y = self.tr(a[0]), self.tr(a[1])
            c = cval(a[1])
            if c is not None and c > 0:
                return x / y
            q = self.const_for(t)
            self.nonlin = True
            if self.lin:
                return q
            self.axioms.append(z3.Implies(y > 0, z3.And(x - y * q >= 0, x - y * q < y)))
            self.axioms.append(z3.Implies(y < 0, z3.And(x - y * q <= 0, x - y * q > y)))
            return q
        if f == "abs":
            x = self.tr(a[0])
            return z3.If(x >= 0, x, -x)
        if f in ("wrap16", "wrapu8", "wrap32", "wrapu16", "wrap8"):
            x = self.tr(a[0])
            bits = int(f.lstrip("wrapu"))
            m = 1 << bits
            if "u" in f[4:]:
                return x % m
            return (x + m // 2) % m - m // 2
        if f == "sqrt":
            c = self.const_for(t)
            x = self.real(a[0])
            self.axioms.append(c >= 0)
            self.nonlin = True
            if not self.lin:
                self.axioms.append(z3.Implies(x >= 0, c * c == x))
            self.axioms.append(z3.Implies(x > 0, c > 0))
            self._cong1(t, c, a)
            return c
        if f == "inv":
            x = self.real(a[0])
            c = self.const_for(t)
            self.nonlin = True
            if not self.lin:
                self.axioms.append(z3.If(x != 0, c * x == 1, c == 0))
            self.axioms.append(z3.Implies(x > 0, c > 0))
            self._cong1(t, c, a)
            return c
        if f == "pow":
            x, i = self.real(a[0]), self.tr(a[1])
            F = z3.Function("pow", z3.RealSort(), z3.IntSort(), z3.RealSort())
            r = F(x, i)
            self.axioms += [z3.Implies(i == 0, r == 1), z3.Implies(i == 1, r == x),
                            z3.Implies(x > 0, r > 0), z3.Implies(z3.And(x == 0, i > 0), r == 0),
                            z3.Implies(x >= 0, r >= 0)]
            return r
        if f in ("cos", "sin"):
            o = tm.app("sin" if f == "cos" else "cos", a[0])
            F = z3.Function(f, z3.RealSort(), z3.RealSort())
            G = z3.Function("sin" if f == "cos" else "cos", z3.RealSort(), z3.RealSort())
            x = self.real(a[0])
            self.nonlin = True
            if not self.lin:
                self.axioms.append(F(x) * F(x) + G(x) * G(x) == 1)
            self.axioms.append(z3.And(F(x) <= 1, F(x) >= -1))
            return F(x)
        if any(isinstance(x, T) and x.sort == "L" for x in a):
            c = self.const_for(t)
            if f == "sum":
                n = self.tr(a[0])
                self.axioms.append(z3.Implies(n <= 0, c == 0))
            if f in tm.NONNEG:
                self.axioms.append(c >= 0)
            if not self.flat:
                self.pending.append(("lam", t, c))
            return c
        zs, key = [], [f]
        for x in a:
            if isinstance(x, T):
                zs.append(self.tr(x))
            else:
                key.append(str(x))
        # argument sorts: keep ints as ints only when declared so everywhere
        srt = []
        nz = []
        for x, z in zip([x for x in a if isinstance(x, T)], zs):
            if z3.is_bool(z):
                srt.append(z3.BoolSort())
            elif z3.is_int(z) and (f, len(zs)) not in REALARGS:
                srt.append(z3.IntSort())
            elif z3.is_arith(z):
                z = z3.ToReal(z) if z3.is_int(z) else z
                srt.append(z3.RealSort())
            else:
                srt.append(z.sort())
            nz.append(z)
        key.append("".join(str(s)[0] for s in srt))
        rs = dict(I=z3.IntSort(), R=z3.RealSort(), B=z3.BoolSort()).get(t.sort, USORT)
        nm = "|".join(key)
        if not nz:
            return z3.Const(nm, rs)
        F = z3.Function(nm, *srt, rs)
        self.pending.append(("app", t, None))
        if f in tm.NONNEG:
            self.axioms.append(F(*nz) >= 0)
        return F(*nz)

    def _cong1(self, t, c, a):
        self.amap.setdefault(t.args[0], [])
        for (u, cu) in self.amap[t.args[0]][:60] if self.cong else ():
            self.axioms.append(z3.Implies(self.real(a[0]) == self.real(u.args[1]), c == cu))
        self.amap[t.args[0]].append((t, c))

    def quantifier(self, t, nm):
        """Skolem instance, and instances at the Skolem constants of the other quantifiers (sound, incomplete)"""
        self.capped = True
        sk = tm.fresh("sk")
        rng = lambda k: tm.and_(tm.le(ZERO, k), tm.lt(k, t.args[0]))
        body = lambda k: tm.lam_apply(t.args[1], [k])
        neg = t.op == "forall"
        b = body(sk)
        hit = tm.and_(rng(sk), tm.not_(b) if neg else b)
        self.axioms.append(z3.Implies(z3.Not(nm) if neg else nm, self.tr(hit)))

        def inst(q, k):
            t2, nm2 = q
            b2 = tm.lam_apply(t2.args[1], [k])
            r2 = tm.and_(tm.le(ZERO, k), tm.lt(k, t2.args[0]))
            if t2.op == "forall":
                self.axioms.append(z3.Implies(nm2, self.tr(tm.implies(r2, b2))))
            else:
                self.axioms.append(z3.Implies(self.tr(tm.and_(r2, b2)), nm2))
        for k in self.qinst[:12]:
            inst((t, nm), k)
        for q in self.quants[:12]:
            inst(q, sk)
        self.quants.append((t, nm))
        self.qinst.append(sk)

    # -- lemma instantiation ---------------------------------------------------
    def close(self):
        """instantiate congruence and domain lemmas up to self.depth rounds"""
        done_lam = {}
        pairs = 600 if QUICK[0] else 6000
        for rnd in range(self.depth + 1):
            batch, self.pending = self.pending, []
            if not batch:
                break
            for kind, t, c in batch:
                if has_bv(t):
                    continue
                if t in self.seen_ax:
                    continue
                if len(self.axioms) > MAXAX:
                    self.capped = True
                    return
                self.seen_ax.add(t)
                if kind == "quant":
                    self.quantifier(t, c)
                    continue
                fn = AXIOMS.get(t.args[0])
                if fn:
                    for b in fn(t, self):
                        self.axioms.append(self.tr(b))
                if kind == "lam" and self.cong:
                    same = done_lam.setdefault((t.args[0], len(t.args), t.sort), [])
                    for u, cu in same[:80]:
                        pairs -= 1
                        self.capped |= pairs <= 0
                        if pairs > 0:
                            l = congruence(u, t)
                            if l is not None:
                                self.axioms.append(z3.Implies(self.tr(l), c == cu))
                    same.append((t, c))


_PURE = {"poly", "var", "bv", "and", "or", "not", "le0", "lt0", "eq0", "iff", "ite"}


def pure_in(t, v, lin):
    """every subterm that depends on v translates to an expression over v itself (no named constant)"""
    if not tm.occurs(v, t):
        return True
    if t.op not in _PURE:
        return False
    if t.op == "poly":
        for m, c in t.args:
            if any(tm.occurs(v, a) for a, e in m):
                if lin and sum(e for _, e in m) > 1:
                    return False
                if any(not pure_in(a, v, lin) for a, e in m):
                    return False
        return True
    for a in t.args:
        for x in (a if isinstance(a, frozenset) else (a,)):
            if isinstance(x, T) and not pure_in(x, v, lin):
                return False
    return True


def has_bv(t):
    return any(v.op == "bv" for v in tm.free_vars(t))


MAXAX = 8000          # instances per query; a query that would need more is left undecided

USORT = z3.DeclareSort("Obj")
REALARGS = set()
AXIOMS = {}


def axiom(name):
    def d(f):
        AXIOMS[name] = f
        return f
    return d


def arr_parts(x):
    """('arr' term) -> dims, lam"""
    return x.args[1:-1], x.args[-1]


def congruence(u, t):
    """a sufficient condition (skolemised) for u == t"""
    conds = []
    f = t.args[0]
    if f == "sum":
        n1, l1 = u.args[1:]
        n2, l2 = t.args[1:]
        k = tm.fresh("sk")
        conds.append(tm.eq(n1, n2))
        b = tm.eq(tm.lam_apply(l1, [k]), tm.lam_apply(l2, [k]))
        conds.append(tm.implies(tm.and_(tm.le(0, k), tm.lt(k, n1)), b))
        direct = tm.and_(*conds)
        # reversal: sum_k f(k) = sum_k f(n-1-k)
        k2 = tm.fresh("sk")
        b2 = tm.eq(tm.lam_apply(l1, [k2]), tm.lam_apply(l2, [n1 - 1 - k2]))
        rev = tm.and_(tm.eq(n1, n2), tm.implies(tm.and_(tm.le(0, k2), tm.lt(k2, n1)), b2))
        return tm.or_(direct, rev)
    for x, y in zip(u.args[1:], t.args[1:]):
        c = arg_eq(x, y)
        if c is None:
            return None
        conds.append(c)
    return tm.and_(*conds)


def arg_eq(x, y):
    if not isinstance(x, T) or not isinstance(y, T):
        return TRUE if x == y else None
    if x is y:
        return TRUE
    if x.sort == "L" or y.sort == "L":
        if x.sort != y.sort:
            return None
        if x.op == "app" and y.op == "app":
            if x.args[0] != y.args[0] or len(x.args) != len(y.args):
                return None
            if x.args[0] == "arr":
                d1, l1 = arr_parts(x)
                d2, l2 = arr_parts(y)
                if len(l1.args) != len(l2.args):
                    return None
                ks = [tm.fresh("sk") for _ in d1]
                rng = tm.and_(*[tm.and_(tm.le(0, k), tm.lt(k, d)) for k, d in zip(ks, d1)])
                return tm.and_(*[tm.eq(a, b) for a, b in zip(d1, d2)],
                               tm.implies(rng, tm.eq(tm.lam_apply(l1, ks), tm.lam_apply(l2, ks))))
            cs = [arg_eq(a, b) for a, b in zip(x.args[1:], y.args[1:])]
            return None if any(c is None for c in cs) else tm.and_(*cs)
        if x.op == "lam" and y.op == "lam":
            if len(x.args) != len(y.args):
                return None
            ks = [tm.fresh("sk", b.sort) for b in x.args[:-1]]
            return tm.eq(tm.lam_apply(x, ks), tm.lam_apply(y, ks))
        return None
    return tm.eq(x, y)


# -- field clearing -----------------------------------------------------------

def clear_inv(p, limit=14):
    """(numerator, set of denominators) such that p == 0 <= numerator == 0 when
    all denominators are non-zero"""
    dens = []
    for _ in range(limit):
        atoms = {}
        for m, c in tm.monos(p):
            for a, e in m:
                if a.op == "app" and a.args[0] == "inv":
                    atoms[a] = max(atoms.get(a, 0), e)
        if not atoms:
            return p, dens
        # innermost-first irrelevant; pick one with the smallest denominator
        u = min(atoms, key=lambda a: (len(tm.monos(a.args[1])), a.uid))
        J = atoms[u]
        q = u.args[1]
        dens.append(q)
        r = ZERO
        for m, c in tm.monos(p):
            d = dict(m)
            j = d.pop(u, 0)
            t = mul(tm.mkpoly({frozenset(d.items()): c}), tm.power(q, const(J - j)))
            r = add(r, t)
            if len(tm.monos(r)) > 4000:
                return None, dens
        p = r
    return None, dens


# -- entry point --------------------------------------------------------------
_cache = {}
QUICK = [False]      # branch feasibility queries: give up early on big terms


def _solver(ms):
    s = z3.SolverFor("ALL") if False else z3.Solver()
    s.set("timeout", ms)
    return s


def prove(hyps, goal, timeout=6.0, depth=2, cvc5=False, want_model=False):
    """-> (status, detail) with status in proved/cex/unknown"""
    if goal is TRUE:
        STATS["ring"] += 1
        return "proved", "ring"
    hyps = [h for h in hyps if h is not TRUE]
    if any(h is FALSE for h in hyps):
        return "proved", "ring"
    for h in hyps:
        if h is goal:
            STATS["ring"] += 1
            return "proved", "ring"
    key = (frozenset(hyps), goal, timeout, QUICK[0])
    if key in _cache:
        STATS["cached"] += 1
        return _cache[key]
    r = _prove(hyps, goal, timeout, depth, cvc5)
    _cache[key] = r
    return r


def relevant(hyps, goal, rounds=4):
    """cone of influence over uninterpreted symbols; keeps queries small"""
    def syms(t):
        s = set()
        for x in tm.subterms(t, bound=True):
            if x.op == "var":
                s.add(x)
            elif x.op == "app" and x.args[0] not in tm.SIMP and x.args[0] not in ("sum", "arr", "inv"):
                s.add(("f", x.args[0]))
        return s
    hs = [(h, syms(h)) for h in hyps]
    g = syms(goal)
    keep = []
    for _ in range(rounds):
        new = [(h, s) for h, s in hs if s & g or not s]
        if not new:
            break
        keep += [h for h, s in new]
        hs = [(h, s) for h, s in hs if not (s & g or not s)]
        for h, s in new:
            g |= s
    return keep


def _prove(hyps, goal, timeout, depth, cvc5):
    t0 = time.time()
    if goal.op == "and":
        worst = ("proved", "split")
        for g in sorted(goal.args[0], key=lambda x: x.uid):
            r = prove(hyps, g, timeout, depth, cvc5)
            if r[0] != "proved":
                if r[0] == "cex":
                    return r
                worst = r
        return worst
    if goal.op == "or":
        # (not A) or B : move literals to hypotheses when one is an equation
        gs = list(goal.args[0])
        eqs = [g for g in gs if g.op == "eq0"]
        if len(eqs) == 1:
            rest = [tm.not_(g) for g in gs if g is not eqs[0]]
            r = prove(hyps + rest, eqs[0], timeout, depth, cvc5)
            return r
    if goal.op in ("eq0", "le0", "lt0"):
        g2 = simp_ites(hyps, goal)
        if g2 is not goal:
            return prove(hyps, g2, timeout, depth, cvc5)
    if goal.op == "eq0":
        p = goal.args[0]
        p2 = subst_defs(p, hyps)
        if p2 is ZERO:
            STATS["ring"] += 1
            return "proved", "ring+definitions"
        numer, dens = clear_inv(p2)
        if numer is ZERO:
            ok = True
            for q in dens:
                r = prove(hyps, tm.ne(q, ZERO), min(timeout, 3.0), depth)
                if r[0] != "proved":
                    ok = False
                    break
            if ok:
                STATS["field"] += 1
                return "proved", "field normalisation"
        r = _z3(hyps, goal, timeout, depth, cvc5)
        if r[0] == "proved":
            return r
        g2, weak = unify_arrs(hyps, goal, timeout, depth)
        if g2 is not goal:
            return prove(hyps, g2, timeout, depth, cvc5)
        if r[0] == "unknown" and weak is not None:
            return "unknown", Hint(r[1], weak)
        return r
    return _z3(hyps, goal, timeout, depth, cvc5)


class Hint:
    """reason for 'unknown' together with a model in which two arrays differ (a hint for the replay search)"""

    def __init__(self, why, model):
        self.why, self.model = why, model

    def __str__(self):
        return "%s; arrays differ in %s" % (self.why, self.model)


def unify_arrs(hyps, goal, timeout, depth):
    """replace an array term of the goal by another one that is provably equal pointwise"""
    A = []
    for x in tm.subterms(goal):
        if x.op == "app" and x.args[0] == "arr" and not has_bv(x) and x not in A:
            A.append(x)
    weak = None
    if not 2 <= len(A) <= 12:
        return goal, None
    # outermost only
    A = [x for x in A if not any(y is not x and any(z is x for z in tm.subterms(y)) for y in A)]
    A.sort(key=lambda x: x.uid)
    tried = 0
    for i, x in enumerate(A):
        for y in A[:i]:
            if len(x.args) != len(y.args) or tried > 8:
                continue
            d1, l1 = arr_parts(x)
            d2, l2 = arr_parts(y)
            if any(not isinstance(a, T) or not isinstance(b, T) for a, b in zip(d1, d2)):
                continue
            if not all(a is b or quick(hyps, tm.eq(a, b)) for a, b in zip(d1, d2)):
                continue
            ks = [tm.fresh("sk") for _ in d1]
            rng = [c for k, d in zip(ks, d1) for c in (tm.le(0, k), tm.lt(k, d))]
            try:
                e = tm.eq(tm.lam_apply(l1, ks), tm.lam_apply(l2, ks))
            except Exception:
                continue
            tried += 1
            st, d = prove(hyps + rng, e, min(timeout, 4.0), depth)
            if st == "proved":
                return tm.tobool(tm.subst(goal, {x: y})), None
            if st == "cex" and weak is None:
                weak = d
    return goal, weak


def simp_ites(hyps, goal, limit=12):
    """resolve conditionals of the goal whose condition the hypotheses decide"""
    for _ in range(limit):
        conds = []
        for x in tm.subterms(goal):
            if x.op == "ite" and x.args[0] not in conds and not has_bv(x):
                conds.append(x.args[0])
        if not conds or len(conds) > 40:
            return goal
        dec = {}
        for c in conds:
            if any(y.op == "ite" for y in tm.subterms(c)):
                continue
            for val, cc in ((False, tm.not_(c)), (True, c)):
                if quick(hyps, cc):
                    dec[c] = val
                    break
            if len(conds) <= 8 and dec:
                break
        if not dec:
            return goal
        m = {x: (x.args[1] if dec[x.args[0]] else x.args[2]) for x in tm.subterms(goal) if x.op == "ite" and x.args[0] in dec}
        goal = tm.tobool(tm.subst(goal, m))
    return goal


_qcache = {}


def quick(hyps, goal, ms=300):
    """cheap linear proof attempt"""
    if goal is TRUE:
        return True
    if goal is FALSE:
        return False
    key = (frozenset(hyps), goal)
    if key in _qcache:
        return _qcache[key]
    tr = Trans(depth=0, lin=True, cong=False)
    s = _solver(ms)
    s.add(*[tr.tr(h) for h in relevant(hyps, goal)])
    zg = tr.tr(goal)
    s.add(*tr.axioms)
    s.add(z3.Not(zg))
    r = s.check() == z3.unsat
    _qcache[key] = r
    return r


def subst_defs(p, hyps):
    """use hypotheses of the form atom == term (atom not occurring in term)"""
    for _ in range(3):
        m = {}
        for h in hyps:
            if h.op == "eq0":
                q = h.args[0]
                for mo, c in tm.monos(q):
                    if len(mo) == 1:
                        (a, e), = mo
                        if e == 1 and a.op in ("var",) and a not in m:
                            rest = add(q, mul(const(-c), a))
                            if not tm.occurs(a, rest) and not any(tm.occurs(b, rest) for b in m) and not any(tm.occurs(a, x) for x in m.values()):
                                m[a] = mul(const(-1 / c), rest)
                                break
        if not m:
            return p
        p2 = tm.subst(p, m)
        if p2 is p:
            return p
        p = p2
    return p


def _z3(hyps, goal, timeout, depth, cvc5):
    STATS["queries"] += 1
    last = None
    for rel in (True, False):
        hs = relevant(hyps, goal) if rel else hyps
        if not rel and len(hs) == len(last_hs):
            break
        last_hs = hs
        if rel:
            big = sum(len(tm.subterms(x, bound=True)) for x in list(hs) + [goal])
            try:
                if big > 700:
                    for lin, ms in ((True, 500), (False, int(min(timeout, 2.0) * 1000))):
                        tr = Trans(depth=0, lin=lin, cong=False, flat=True)
                        s = _solver(ms)
                        s.add(*[tr.tr(h) for h in hs])
                        zg = tr.tr(goal)
                        s.add(*tr.axioms)
                        s.add(z3.Not(zg))
                        t0 = time.time()
                        r = s.check()
                        STATS["z3_s"] += time.time() - t0
                        if r == z3.unsat:
                            STATS["z3"] += 1
                            return "proved", "z3"
                    if QUICK[0]:
                        return "unknown", "too big for a quick query"
                tr = Trans(depth=depth, lin=True, cong=False)
                zh = [tr.tr(h) for h in hs]
                zg = tr.tr(goal)
                tr.close()
                if True:
                    s = _solver(int(min(timeout, 1.5) * 1000))
                    s.add(*zh)
                    s.add(*tr.axioms)
                    s.add(z3.Not(zg))
                    t0 = time.time()
                    r = s.check()
                    STATS["z3_s"] += time.time() - t0
                    if r == z3.unsat:
                        STATS["z3"] += 1
                        return "proved", "z3"
            except RecursionError:
                return "unknown", "recursion"
        if QUICK[0] and not rel and sum(len(tm.subterms(x, bound=True)) for x in list(hs) + [goal]) > 700:
            return "unknown", "too big for a quick query"
        tr = Trans(depth=depth)
        try:
            zh = [tr.tr(h) for h in hs]
            zg = tr.tr(goal)
            tr.close()
        except RecursionError:
            return "unknown", "recursion"
        s = _solver(int(timeout * 1000))
        s.add(*zh)
        s.add(*tr.axioms)
        s.add(z3.Not(zg))
        t0 = time.time()
        r = s.check()
        dt = time.time() - t0
        STATS["z3_s"] += dt
        if os.environ.get("PYVC_DUMP") and dt > 2:
            open("/tmp/pyvc_slow_%d.smt2" % goal.uid, "w").write(s.to_smt2())
        if r == z3.unsat:
            STATS["z3"] += 1
            return "proved", "z3"
        if r == z3.sat:
            try:
                m = s.model()
                last = ("unknown", Hint("instances left out", Model(m, tr))) if tr.capped else ("cex", Model(m, tr))
            except z3.Z3Exception:
                last = ("unknown", "model")
        else:
            if cvc5 and _cvc5(s, timeout):
                STATS["cvc5"] += 1
                return "proved", "cvc5"
            last = ("unknown", s.reason_unknown())
            break
    return last


def _cvc5(s, timeout):
    import subprocess
    import tempfile
    txt = s.to_smt2()
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=True) as f:
            f.write(txt)
            f.flush()
            r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), "--nl-cov", f.name],
                               capture_output=True, text=True, timeout=timeout + 5)
        return r.stdout.strip().startswith("unsat")
    except Exception:
        return False


class Model:
    def __init__(self, m, tr):
        self.m, self.trn = m, tr

    def value(self, t):
        try:
            v = self.m.eval(self.trn.tr(t), model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.numerator_as_long()) / float(v.denominator_as_long())
            if z3.is_algebraic_value(v):
                return float(v.approx(12).as_fraction())
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
        except Exception:
            pass
        return None

    def __repr__(self):
        return str(self.m)[:2000]


def sat(hyps, timeout=5.0, depth=1):
    """satisfiability of hypotheses (vacuity check): True/False/None"""
    flat = sum(len(tm.subterms(x, bound=True)) for x in hyps) > 2000
    tr = Trans(depth=depth, flat=flat)
    zh = [tr.tr(h) for h in hyps if h is not TRUE]
    tr.close()
    s = _solver(int(timeout * 1000))
    s.add(*zh)
    s.add(*tr.axioms)
    r = s.check()
    return True if r == z3.sat else (False if r == z3.unsat else None)
