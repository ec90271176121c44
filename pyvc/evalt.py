"""Numeric evaluation of obligations under the standard interpretation.

A solver model interprets sums, powers, sorts, trigonometric functions and the
like only through the lemmas that were instantiated; before such a model is
reported as a counterexample it is replayed here with the real meaning of those
symbols.  Input functions and library functions without a meaning here are
arbitrary but fixed functions of their arguments.
"""
import math
import random
import time
from fractions import Fraction

from . import terms as tm
from .terms import T


class Skip(Exception):
    pass


EPS = 1e-8
CAP = 4000
# symbols with a meaning below; every other symbol is a free function
STD = {"min", "max", "floor", "rint", "idiv", "abs", "wrap16", "wrapu8", "wrap32", "wrapu16", "wrap8", "sqrt", "inv", "pow", "rpow", "cos", "sin",
       "arctan", "arctan2", "arcsin", "arccos", "exp", "sum", "amin", "amax", "argmin", "argmax", "argsort", "arr", "cdim", "clen", "cix", "first", "median",
       "percentile", "pick", "hit", "lsq", "lsqn", "polyfit", "sign", "signf", "absf", "label", "nlabel", "objbox", "centroid", "labelsum"}
INPUT = set()      # symbols that stand for arbitrary inputs: any function will do


class Env:
    def __init__(self, rnd, vars_, table=None, digits=8, cs=()):
        self.rnd, self.vars, self.table, self.digits = rnd, vars_, table, digits
        self.memo = {}
        self.seed = rnd.random()
        self.cs = cs
        # half of the samples: free functions take two values only, in a random proportion
        self.mix = None
        if rnd.random() < 0.5:
            pool = [rnd.randint(-3, 4), rnd.gauss(0, 2), rnd.random()] + [c + d for c in cs[:6] for d in (-1, -0.5, 0, 0.5, 1)]
            self.mix = (rnd.random(), rnd.choice(pool), rnd.choice(pool), rnd.random() < 0.3)
        self.work = 0

    def key(self, v):
        if isinstance(v, bool) or isinstance(v, int):
            return float(v)
        if isinstance(v, float):
            if v == 0 or not math.isfinite(v):
                return 0.0 if v == 0 else v
            r = float("%.*g" % (self.digits, v))
            return 0.0 if abs(r) < 1e-12 else r
        if isinstance(v, (tuple, list)):
            return tuple(self.key(x) for x in v)
        return v

    def free(self, f, args, sort):
        k = (f, self.key(args), sort)
        if self.table is not None and k in self.table:
            return self.table[k]
        r = random.Random(repr((self.seed, k)))
        if sort == "I":
            return r.randint(0, 6)
        if sort == "B":
            return r.random() < 0.5
        if sort != "R":
            raise Skip("sort " + str(sort))
        if self.mix:
            p, u, w, jit = self.mix
            v = (u if r.random() < p else w) + (r.gauss(0, 0.1) if jit else 0)
            return abs(v) if f in tm.NONNEG else v
        v = r.choice([r.randint(-4, 5), r.randint(-8, 8) / 2.0, r.gauss(0, 2)])
        return abs(v) if f in tm.NONNEG else v

    # -- evaluation --------------------------------------------------------------
    def ev(self, t, b=()):
        """b: tuple of (bound variable, value) pairs"""
        if b:
            fv = tm.free_vars(t)
            b = tuple(p for p in b if p[0] in fv)
        k = (t, b)
        if k in self.memo:
            return self.memo[k]
        self.work += 1
        if self.work > 60000:
            raise Skip("too much work")
        r = self._ev(t, b)
        if isinstance(r, float) and not math.isfinite(r):
            raise Skip("overflow")
        self.memo[k] = r
        return r

    def zero(self, p, b):
        """sign of a polynomial, with rounding errors taken as zero"""
        tot, mag = 0, 0.0
        for m, c in tm.monos(p):
            x = c if c.denominator != 1 else int(c)
            for a, e in m:
                v = self.ev(a, b)
                x = (float(x) if isinstance(v, float) and isinstance(x, Fraction) else x) * v ** e
            tot = (float(tot) if isinstance(x, float) and isinstance(tot, Fraction) else tot)
            x = float(x) if isinstance(tot, float) and isinstance(x, Fraction) else x
            tot += x
            mag += abs(float(x))
        if not isinstance(tot, (int, Fraction)) and abs(tot) <= EPS * (mag + 1e-3):
            return 0
        return (tot > 0) - (tot < 0)

    def poly(self, t, b):
        tot = 0
        for m, c in t.args:
            x = int(c) if c.denominator == 1 else float(c)
            for a, e in m:
                x = x * self.ev(a, b) ** e
            tot += x
        return tot

    def near_int(self, x):
        r = round(x)
        return r if abs(x - r) <= 1e-9 * (1 + abs(x)) else None

    def apply(self, l, xs, b):
        return self.ev(l.args[-1], b + tuple(zip(l.args[:-1], xs)))

    def arr(self, t, b):
        dims = [int(self.ev(d, b)) for d in t.args[1:-1]]
        n = 1
        for d in dims:
            n *= max(0, d)
        if n > CAP:
            raise Skip("array too big")
        l = t.args[-1]

        def rec(i, ix):
            if i == len(dims):
                return self.apply(l, ix, b)
            return tuple(rec(i + 1, ix + (j,)) for j in range(max(0, dims[i])))
        return tuple(dims), rec(0, ())

    def regions(self, v):
        k = ("regions", v)
        if k not in self.memo:
            self.memo[k] = _regions(v)
        return self.memo[k]

    def flat(self, v):
        return [y for x in v for y in self.flat(x)] if isinstance(v, tuple) else [v]

    def dom(self, d, b):
        k = ("dom", d, tuple(p for p in b if p[0] in tm.free_vars(d)))
        if k in self.memo:
            return self.memo[k]
        out = []
        nl = len(d.args) - 2

        def rec(i, ix):
            if i == nl:
                if self.apply(d.args[-1], ix, b):
                    out.append(ix)
                return
            a = d.args[1 + i]
            n = self.ev(a, b) if i == 0 else self.apply(a, ix, b)
            for j in range(int(n)):
                rec(i + 1, ix + (j,))
        rec(0, ())
        self.memo[k] = out
        return out

    def _ev(self, t, b):
        op = t.op
        if op == "poly":
            return self.poly(t, b)
        if op == "bv":
            for v, x in b:
                if v is t:
                    return x
            raise Skip("unbound")
        if op == "var":
            if t.args[0] == "pi":
                return math.pi
            if t not in self.vars:
                self.vars[t] = self.pickvar(t)
            return self.vars[t]
        if op in ("true", "false"):
            return op == "true"
        if op == "not":
            return not self.ev(t.args[0], b)
        if op == "and":
            return all(self.ev(x, b) for x in t.args[0])
        if op == "or":
            return any(self.ev(x, b) for x in t.args[0])
        if op == "iff":
            xs = list(t.args[0])
            return self.ev(xs[0], b) == self.ev(xs[-1], b)
        if op == "le0":
            return self.zero(t.args[0], b) <= 0
        if op == "lt0":
            return self.zero(t.args[0], b) < 0
        if op == "eq0":
            return self.zero(t.args[0], b) == 0
        if op == "ite":
            return self.ev(t.args[1] if self.ev(t.args[0], b) else t.args[2], b)
        if op in ("forall", "exists"):
            n = int(self.ev(t.args[0], b))
            if n > 200:
                raise Skip("quantifier range")
            g = (self.apply(t.args[1], (j,), b) for j in range(n))
            return all(g) if op == "forall" else any(g)
        if op == "lam":
            return self.finger(t, b)
        if op == "app":
            return self.app(t, b)
        raise Skip(op)

    def finger(self, t, b):
        """an opaque function as its values on a fixed grid"""
        import itertools
        pts = [(0, 1, 2, 3) if v.sort == "I" else (-1.3, 0.0, 0.7, 2.1) for v in t.args[:-1]]
        return ("lam",) + tuple(self.apply(t, ix, b) for ix in itertools.islice(itertools.product(*pts), 64))

    def pickvar(self, t):
        r = self.rnd
        if t.sort == "B":
            return r.random() < 0.5
        if t.sort == "I":
            v = r.choice([r.randint(0, 3), r.randint(0, 7), r.randint(-3, 12)])
        elif t.sort == "R":
            v = r.choice([r.randint(-4, 6), r.randint(-8, 12) / 2.0, r.gauss(0, 3), r.random()])
        elif t.sort == "U":
            return "obj:" + t.args[0]
        else:
            raise Skip("sort")
        return abs(v) if len(t.args) > 1 else v

    def app(self, t, b):
        f, a = t.args[0], t.args[1:]
        if f in ("min", "max"):
            return (min if f == "min" else max)(self.ev(x, b) for x in a[0])
        if f == "sum":
            n = int(self.ev(a[0], b))
            if n > 300:
                raise Skip("sum range")
            s = 0
            for j in range(n):
                s += self.apply(a[1], (j,), b)
            return s
        if f == "arr":
            return self.arr(t, b)
        if f in ("amin", "amax", "median"):
            xs = self.flat(self.ev(a[0], b)[1])
            if not xs:
                raise Skip("empty")
            if f == "median":
                xs = sorted(xs)
                n = len(xs)
                return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2.0
            return min(xs) if f == "amin" else max(xs)
        if f in ("argmin", "argmax"):
            xs = self.flat(self.ev(a[0], b)[1])
            if not xs:
                raise Skip("empty")
            m = min(xs) if f == "argmin" else max(xs)
            return next(i for i, x in enumerate(xs) if abs(x - m) <= 1e-9 * (1 + abs(m)))
        if f == "argsort":
            xs, p = self.flat(self.ev(a[0], b)[1]), int(self.ev(a[1], b))
            if not 0 <= p < len(xs):
                return 0
            ks = [self.key(x) for x in xs]
            if len(set(ks)) < len(ks) and any(abs(x - y) < 1e-9 and x != y for x in xs for y in xs):
                raise Skip("tie")
            return sorted(range(len(xs)), key=lambda i: ks[i])[p]
        if f == "clen":
            return len(self.dom(a[0], b))
        if f == "cix":
            d, p = self.dom(a[0], b), int(self.ev(a[2], b))
            return d[p][a[1]] if 0 <= p < len(d) else 0
        if f == "first":
            n = int(self.ev(a[0], b))
            for j in range(n):
                if self.apply(a[1], (j,), b):
                    return j
            return max(n, 0)
        if f in ("hit", "pick"):
            arrs = [x for x in a if isinstance(x, T) and x.sort == "L"]
            idx = [int(self.ev(x, b)) for x in a[len(arrs):len(arrs) * 2]]
            vs = [self.ev(x, b) for x in arrs]
            last = None

            def rec(ds, i, subs, ix):
                nonlocal last
                if i == len(ds):
                    if all(s == q for s, q in zip(subs, idx)):
                        last = ix
                    return
                for j in range(max(0, ds[i])):
                    rec(ds, i + 1, [s[j] for s in subs], ix + (j,))
            rec(vs[0][0], 0, [v[1] for v in vs], ())
            if f == "hit":
                return last is not None
            return 0 if last is None else last[a[-1]]
        if f in ("lsq", "polyfit"):
            c = a[0]
            xs = [float(self.ev(x, b)) for x in a[1:]]
            i = int(xs[-1])
            if f == "lsq":
                G = [[0.0] * c for _ in range(c)]
                q = 0
                for x in range(c):
                    for y in range(x, c):
                        G[x][y] = G[y][x] = xs[q]
                        q += 1
                h = xs[q:q + c]
            else:
                G = [[xs[x + y] for y in range(c + 1)] for x in range(c + 1)]
                h = xs[2 * c + 1:3 * c + 2]
            sol = solve(G, h)
            if f == "polyfit":
                sol = sol[::-1]
            return sol[i] if 0 <= i < len(sol) else 0.0
        if f == "lsqn":
            G, h, i = self.ev(a[0], b)[1], self.ev(a[1], b)[1], int(self.ev(a[2], b))
            sol = solve([[float(x) for x in r] for r in G], [float(x) for x in h])
            return sol[i] if 0 <= i < len(sol) else 0.0
        xs = []
        for x in a:
            if isinstance(x, T):
                xs.append(self.ev(x, b))
            elif isinstance(x, frozenset):
                xs.append(tuple(sorted((self.key(self.ev(y, b)) for y in x), key=repr)))
            else:
                xs.append(x)
        if f == "floor":
            r = self.near_int(xs[0])
            return int(math.floor(xs[0])) if r is None else r
        if f == "rint":
            fl = math.floor(xs[0])
            if abs(xs[0] - fl - 0.5) < 1e-9:
                return fl if fl % 2 == 0 else fl + 1
            return int(round(xs[0]))
        if f == "idiv":
            if xs[1] == 0:
                raise Skip("division by zero")
            return xs[0] // xs[1]
        if f in ("abs", "absf"):
            return abs(xs[0])
        if f in ("wrap16", "wrapu8", "wrap32", "wrapu16", "wrap8"):
            m = 1 << int(f.lstrip("wrapu"))
            return int(xs[0]) % m if "u" in f[4:] else (int(xs[0]) + m // 2) % m - m // 2
        if f == "sqrt":
            if xs[0] < 0:
                if xs[0] > -1e-9:
                    return 0.0
                raise Skip("sqrt of a negative number")
            return math.sqrt(xs[0])
        if f == "inv":
            if abs(xs[0]) < 1e-12:
                return 0
            return 1.0 / xs[0]
        if f in ("pow", "rpow"):
            try:
                if xs[0] == 0 and xs[1] < 0:
                    raise Skip("zero to a negative power")
                r = float(xs[0]) ** xs[1]
            except OverflowError:
                raise Skip("overflow")
            if isinstance(r, complex):
                raise Skip("complex power")
            return r
        if f in ("cos", "sin", "exp"):
            if abs(xs[0]) > 600:
                raise Skip("range")
            return getattr(math, f)(xs[0])
        if f == "arctan":
            return math.atan(xs[0])
        if f == "arctan2":
            return math.atan2(xs[0], xs[1])
        if f in ("arcsin", "arccos"):
            if abs(xs[0]) > 1:
                raise Skip("domain")
            return math.asin(xs[0]) if f == "arcsin" else math.acos(xs[0])
        if f in ("label", "nlabel", "objbox", "centroid", "labelsum"):
            lab, cells = self.regions(xs[1] if f in ("centroid", "labelsum") else xs[0])
            if f == "nlabel":
                return len(cells)
            if f == "label":
                return lab.get((int(xs[1]), int(xs[2])), 0)
            if f == "objbox":
                k = int(xs[1])
                if not 0 <= k < len(cells):
                    raise Skip("no such region")
                ys, vs = [c[0] for c in cells[k]], [c[1] for c in cells[k]]
                return (min(ys), max(ys) + 1, min(vs), max(vs) + 1)[int(xs[2])]
            k = int(xs[2]) - 1
            if not 0 <= k < len(cells):
                raise Skip("no such region")
            wt = [(c, xs[0][1][c[0]][c[1]]) for c in cells[k]]
            tot = sum(v for _, v in wt)
            if f == "labelsum":
                return tot
            if tot == 0:
                raise Skip("empty region")
            return sum(c[int(xs[3])] * v for c, v in wt) / float(tot)
        if f in ("sign", "signf"):
            return (xs[0] > 0) - (xs[0] < 0)
        if f == "percentile":
            raise Skip("percentile")
        if f == "pi":
            return math.pi
        return self.free(f, tuple(xs), t.sort)


def _regions(v):
    (h, w), a = v
    lab, cells = {}, []
    for y in range(h):
        for x in range(w):
            if a[y][x] and (y, x) not in lab:
                st, cur = [(y, x)], []
                lab[(y, x)] = len(cells) + 1
                while st:
                    c = st.pop()
                    cur.append(c)
                    for dy, dx in ((0, 1), (1, 0), (0, -1), (-1, 0)):
                        n = (c[0] + dy, c[1] + dx)
                        if 0 <= n[0] < h and 0 <= n[1] < w and a[n[0]][n[1]] and n not in lab:
                            lab[n] = len(cells) + 1
                            st.append(n)
                cells.append(cur)
    return lab, cells


def solve(G, h):
    n = len(h)
    A = [r[:] + [v] for r, v in zip(G, h)]
    sc = max([abs(x) for r in G for x in r] + [1e-30])
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(A[r][i]))
        if abs(A[p][i]) < 1e-7 * sc:
            raise Skip("singular")
        A[i], A[p] = A[p], A[i]
        for r in range(n):
            if r != i:
                q = A[r][i] / A[i][i]
                A[r] = [x - q * y for x, y in zip(A[r], A[i])]
    return [A[i][n] / A[i][i] for i in range(n)]


def consts(ts):
    out = set()
    for t in ts:
        for x in tm.subterms(t, bound=True):
            if x.op == "poly":
                for m, c in x.args:
                    if not m:
                        out.add(c)
    return [int(c) if c.denominator == 1 else float(c) for c in out if abs(c) < 1000]


def symbols(ts):
    out = set()
    for t in ts:
        for x in tm.subterms(t, bound=True):
            if x.op == "app":
                out.add((x.args[0], x.sort))
            elif x.sort == "U" and x.op != "var" or x.op == "ueq":
                out.add(("U", "U"))
    return out


def interpreted(ts):
    """every symbol is an input or has its real meaning here: a falsifying assignment is a counterexample"""
    return all(f in STD or f in INPUT for f, s in symbols(ts))


def usable(ts):
    return not any(s == "U" for f, s in symbols(ts))


def solve_for(env, h):
    """an equation fixes a variable that has no value yet"""
    if h.op != "eq0":
        return
    p = h.args[0]
    for m, c in tm.monos(p):
        if len(m) == 1:
            (a, e), = m
            if e == 1 and a.op == "var" and a not in env.vars and a.sort in "IR":
                rest = tm.mkpoly({q: w for q, w in tm.monos(p) if q is not m and q != m})
                if tm.occurs(a, rest):
                    continue
                v = -env.ev(rest) / c if c.denominator != 1 else -env.ev(rest) / int(c)
                r = env.near_int(v)
                if a.sort == "I" and r is None:
                    raise Skip("not an integer")
                env.vars[a] = r if r is not None else float(v)
                return


class Assignment:
    def __init__(self, d):
        self.d = d

    def value(self, t):
        return self.d.get(t.args[0]) if t.op == "var" else None

    def __repr__(self):
        return "numeric counterexample (standard interpretation of every symbol): %s" % self.d


def replay(hyps, goal, model=None, budget=3.0, want=60, seed=1):
    """-> ("confirmed", env values) | ("refuted", number of samples) | ("open", reason)"""
    ts = list(hyps) + [goal]
    if not usable(ts):
        return "open", "objects"
    rnd = random.Random(seed)
    fvs = set()
    for t in ts:
        fvs |= {v for v in tm.free_vars(t) if v.op == "var"}
    fvs = sorted(fvs, key=lambda v: v.uid)
    base = {}
    if model is not None:
        for v in fvs:
            x = model.value(v) if v.sort != "U" else None
            if x is not None:
                base[v] = x
    cs = consts(ts)
    eqs = [h for h in hyps if h.op == "eq0"]
    t0, good, tries = time.time(), 0, 0
    while time.time() - t0 < budget and tries < 3000:
        tries += 1
        vals = {}
        if base and tries == 1:
            vals = dict(base)
        elif base and tries % 2:
            keep = rnd.choice([0.5, 0.8, 0.95])
            vals = {v: x for v, x in base.items() if rnd.random() < keep}
        if cs and rnd.random() < 0.5:
            for v in fvs:
                if v not in vals and rnd.random() < 0.3 and v.sort in "IR":
                    x = rnd.choice(cs) + rnd.choice([-1, 0, 0, 1])
                    if v.sort == "I":
                        x = int(x)
                    vals[v] = abs(x) if len(v.args) > 1 else x
        env = Env(rnd, vals, cs=cs)
        try:
            if tries > 1:
                for h in eqs:
                    solve_for(env, h)
            if not all(env.ev(h) for h in hyps):
                continue
            if env.ev(goal):
                good += 1
                if good >= want and tries >= 400:
                    return "refuted", good
                continue
            # once more with another rounding of the arguments of free functions
            e2 = Env(rnd, dict(env.vars), digits=6)
            e2.seed, e2.mix = env.seed, env.mix
            if all(e2.ev(h) for h in hyps) and not e2.ev(goal):
                return "confirmed", {v.args[0]: x for v, x in env.vars.items()}
        except (Skip, OverflowError, ZeroDivisionError, RecursionError):
            continue
    if good >= 6:
        return "refuted", good
    return "open", "%d of %d samples meet the hypotheses" % (good, tries)
