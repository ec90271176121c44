"""Hash-consed terms with a canonical polynomial normal form.

Numeric terms are polynomials with rational coefficients over atoms; atoms are
variables, function applications, conditionals and binders.  Bound variables
are canonical (numbered by binder height), so that alpha-equivalent terms are
the same object and equality of normal forms is object identity.
"""
from fractions import Fraction
import itertools
import math

_table = {}
_uid = itertools.count()


class T:
    __slots__ = ("op", "args", "sort", "uid", "_h", "lvl", "fv", "_bl")

    def __new__(cls, op, args, sort):
        key = (op, args, sort)
        t = _table.get(key)
        if t is not None:
            return t
        t = object.__new__(cls)
        t.op, t.args, t.sort = op, args, sort
        t.uid = next(_uid)
        t._h = t.uid * 2654435761 & 0xFFFFFFFF
        lv = 0
        if op == "poly":
            for m, c in args:
                for a, e in m:
                    if a.lvl > lv:
                        lv = a.lvl
        else:
            for a in args:
                if isinstance(a, T) and a.lvl > lv:
                    lv = a.lvl
                elif isinstance(a, frozenset):
                    for b in a:
                        if b.lvl > lv:
                            lv = b.lvl
        if op == "lam":
            lv = max(lv, args[-1].lvl) + 1
        t.lvl = lv
        t.fv = None
        _table[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    # numeric operators -----------------------------------------------------
    def __add__(self, o):
        return add(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        return add(self, mul(NEG1, o))

    def __rsub__(self, o):
        return add(num(o), mul(NEG1, self))

    def __mul__(self, o):
        return mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, inv(num(o)))

    def __rtruediv__(self, o):
        return mul(num(o), inv(self))

    def __neg__(self):
        return mul(NEG1, self)

    def __pow__(self, e):
        return power(self, num(e))

    def __rpow__(self, b):
        return power(num(b), self)

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic truth value used as concrete: %s" % show(self))


def is_poly(t):
    return t.op == "poly"


def monos(t):
    """numeric term -> iterable of (mono frozenset, coef)"""
    if t.op == "poly":
        return t.args
    return ((frozenset(((t, 1),)), Fraction(1)),)


def mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1:
            (a, e), = m
            if e == 1:
                return a
    s = "I"
    for m, c in items:
        if c.denominator != 1:
            s = "R"
            break
        for a, e in m:
            if a.sort != "I":
                s = "R"
                break
        if s == "R":
            break
    return T("poly", frozenset(items), s)


EMPTY = frozenset()


def const(c):
    c = Fraction(c)
    if c == 0:
        return T("poly", frozenset(), "I")
    return T("poly", frozenset([(EMPTY, c)]), "I" if c.denominator == 1 else "R")


def fl(x):
    """python float -> exact decimal reading as a rational"""
    return const(Fraction(repr(float(x)))) if math.isfinite(x) else T("app", ("inf" if x > 0 else ("ninf" if x < 0 else "nan"),), "R")


def num(x):
    if isinstance(x, T):
        if x.sort == "B":
            return ite(x, ONE, ZERO)
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return fl(x)
    raise TypeError("not numeric: %r" % (x,))


ZERO = const(0)
ONE = const(1)
NEG1 = const(-1)
HALF = const(Fraction(1, 2))


def cval(t):
    """Fraction if t is constant else None"""
    if t.op == "poly":
        if not t.args:
            return Fraction(0)
        if len(t.args) == 1:
            (m, c), = t.args
            if not m:
                return c
    return None


def add(a, b):
    a, b = num(a), num(b)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    d = dict(monos(a))
    for m, c in monos(b):
        d[m] = d.get(m, 0) + c
    return mkpoly(d)


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d


def _norm_mono(d):
    """d: atom->exp ; returns (mono, extra T factors or None)"""
    extra = None
    for a in list(d):
        e = d[a]
        if e >= 2:
            if a.op == "app":
                f = a.args[0]
                if f == "sqrt" and syn_nonneg(a.args[1]):
                    d[a] = e % 2
                    x = power(a.args[1], const(e // 2))
                    extra = x if extra is None else mul(extra, x)
                elif f == "abs":
                    d[a] = e % 2
                    x = power(a.args[1], const(e - e % 2))
                    extra = x if extra is None else mul(extra, x)
                elif f == "sin":
                    d[a] = e % 2
                    cz = app("cos", a.args[1])
                    x = power(add(ONE, mul(NEG1, mul(cz, cz))), const(e // 2))
                    extra = x if extra is None else mul(extra, x)
                elif f == "sign" and False:
                    pass
                if d[a] == 0:
                    del d[a]
    return frozenset(d.items()), extra


def mul(a, b):
    a, b = num(a), num(b)
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    acc = {}
    rest = None
    for m1, c1 in monos(a):
        for m2, c2 in monos(b):
            if not m1:
                m, ex = m2, None
            elif not m2:
                m, ex = m1, None
            else:
                m, ex = _norm_mono(_mono_mul(m1, m2))
            c = c1 * c2
            if ex is None:
                acc[m] = acc.get(m, 0) + c
            else:
                t = mul(T("poly", frozenset([(m, c)]), "R") if (m or c != 1) else ONE, ex)
                rest = t if rest is None else add(rest, t)
    p = mkpoly(acc)
    if rest is not None:
        p = add(p, _renorm(rest))
    return p


def _renorm(t):
    # rebuild to get sorts and single-atom collapse right
    return mkpoly(dict(monos(t)))


_snn = {}


def syn_nonneg(t):
    """syntactic: t >= 0 everywhere"""
    r = _snn.get(t)
    if r is None:
        r = _snn[t] = _syn_nonneg(t)
    return r


def _syn_nonneg(t):
    bad = []
    for m, c in monos(t):
        if c < 0:
            bad.append((m, c))
            continue
        for a, e in m:
            if e % 2 and not atom_nonneg(a):
                bad.append((m, c))
                break
    if not bad:
        return True
    if t.op != "poly" or len(t.args) > 40:
        return False
    # sum of squares over the square roots of the square monomials
    ms = dict(t.args)
    basis = []
    for m, c in t.args:
        if c > 0 and all(e % 2 == 0 for a, e in m):
            basis.append(frozenset((a, e // 2) for a, e in m))
    if len(basis) > 12 or len(basis) < 2:
        return False
    n = len(basis)
    G = [[Fraction(0)] * n for _ in range(n)]
    for i in range(n):
        G[i][i] = ms[frozenset((a, 2 * e) for a, e in basis[i])]
    where = {}
    for i in range(n):
        for j in range(i + 1, n):
            where.setdefault(frozenset(_mono_mul(basis[i], basis[j]).items()), (i, j))
    for m, c in bad:
        ij = where.get(m)
        if ij is None:
            return False
        G[ij[0]][ij[1]] += c / 2
        G[ij[1]][ij[0]] += c / 2
    # exact positive semidefiniteness by elimination
    for i in range(n):
        if G[i][i] < 0:
            return False
        if G[i][i] == 0:
            if any(G[i][j] != 0 for j in range(i, n)):
                return False
            continue
        for j in range(i + 1, n):
            f = G[j][i] / G[i][i]
            if f:
                for k in range(i, n):
                    G[j][k] -= f * G[i][k]
    return True


NONNEG = {"clen", "len", "argsort", "argmin", "argmax", "cix", "absf", "nnidx"}     # chosen non-negative where unspecified


def atom_nonneg(a):
    if a.op == "app":
        f = a.args[0]
        if f in ("sqrt", "abs") or f in NONNEG:
            return True
        if f == "inv":
            return syn_nonneg(a.args[1])
        if f == "pow":
            return syn_nonneg(a.args[1])
        if f in ("max",):
            return any(syn_nonneg(x) for x in a.args[1])
        if f in ("min",):
            return all(syn_nonneg(x) for x in a.args[1])
        if f == "floor" or f == "ceil" or f == "rint":
            return syn_nonneg(a.args[1])
        if f == "sum":
            return syn_nonneg(a.args[2].args[-1])
    if a.op == "ite":
        return syn_nonneg(a.args[1]) and syn_nonneg(a.args[2])
    if a.op == "var" and len(a.args) > 1 and a.args[1] == "nn":
        return True
    return False


def var(name, sort="R", nn=False):
    return T("var", (name, "nn") if nn else (name,), sort)


_fresh = itertools.count(1)


def fresh(base="k", sort="I"):
    return T("var", ("%s!%d" % (base, next(_fresh)),), sort)


INTF = {"floor", "ceil", "rint", "trunc", "clen", "cix", "len", "idiv", "mod", "count", "argsort", "argmin", "argmax", "wrap16", "wrap32", "wrap8", "wrapu8", "wrapu16", "round2int"}


def app(f, *args, sort=None):
    """uninterpreted or interpreted application with light normalisation"""
    r = SIMP.get(f)
    if r is not None and sort is None:
        return r(*args)
    if sort is None:
        sort = "I" if f in INTF else "R"
    return T("app", (f,) + tuple(args), sort)


def rawapp(f, *args, sort="R"):
    return T("app", (f,) + tuple(args), sort)


# -- interpreted functions ----------------------------------------------------

def content_sign(t):
    """(scale Fraction, primitive poly) with a canonical sign"""
    ms = list(monos(t))
    g = Fraction(0)
    for m, c in ms:
        g = Fraction(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator) if g else abs(c)
    lead = min(ms, key=lambda mc: (sorted((a.uid, e) for a, e in mc[0]) or [(-1, 0)]))
    if lead[1] < 0:
        g = -g
    return g, mkpoly({m: c / g for m, c in ms})


def inv(t):
    c = cval(t)
    if c is not None:
        if c == 0:
            return rawapp("inv", ZERO)
        return const(1 / c)
    ms = monos(t)
    if len(ms) == 1:
        (m, c), = ms
        r = const(1 / c)
        for a, e in m:
            r = mul(r, power(inv_atom(a), const(e)))
        return r
    g, p = content_sign(t)
    return mul(const(1 / g), rawapp("inv", p))


def inv_atom(a):
    if a.op == "app" and a.args[0] == "inv":
        return a.args[1]
    if a.op == "app" and a.args[0] == "pow":
        return power(inv(a.args[1]), a.args[2])
    return rawapp("inv", a)


def syn_nonzero(b):
    return b.op == "app" and b.args[0] == "exp" or cval(b) not in (None, 0)


def power(b, e):
    c = cval(e)
    if c is not None:
        if c.denominator == 1:
            n = int(c)
            if n < 0:
                return inv(power(b, const(-n)))
            if n == 0:
                return ONE
            if n > 64:
                return rawapp("pow", b, e, sort=b.sort)
            r = b
            out = None
            while n:
                if n & 1:
                    out = r if out is None else mul(out, r)
                n >>= 1
                if n:
                    r = mul(r, r)
            return out
        if c == Fraction(1, 2):
            return sqrt(b)
        if c.denominator == 2:
            return power(sqrt(b), const(c.numerator))
        return rawapp("rpow", b, e)
    if b is ONE:
        return ONE
    if e.sort != "I":
        return rawapp("rpow", b, e)
    # split off constant part of exponent
    d = dict(monos(e))
    if any(c < 0 for c in d.values()):
        # b^(n-1-k) is not b^n / b^(1+k) at b = 0
        if not syn_nonzero(b):
            return rawapp("pow", b, e, sort="R")
    k = d.pop(EMPTY, Fraction(0))
    if k != 0 and k.denominator == 1:
        return mul(power(b, mkpoly(d)), power(b, const(k)))
    # split sum of positive parts
    if len(d) > 1:
        r = ONE
        for m, c in d.items():
            r = mul(r, power(b, mkpoly({m: c})))
        return r
    ms = monos(b)
    if len(ms) == 1 and b.op == "poly":
        (m, c), = ms
        r = ONE if c == 1 else rawapp("pow", const(c), e, sort="R")
        for a, x in m:
            r = mul(r, power(a, mul(const(x), e)))
        return r
    # integer multiple exponents: x^(2i) = (x^2)^i
    (m, c), = d.items()
    if c.denominator == 1 and c != 1:
        n = int(c)
        if n < 0:
            return inv_atom_pow(b, mkpoly({m: -c}))
        if b.op == "app" and b.args[0] == "sqrt" and n % 2 == 0 and syn_nonneg(b.args[1]):
            return power(b.args[1], mkpoly({m: Fraction(n // 2)}))
        r = rawapp("pow", b, mkpoly({m: Fraction(1)}), sort="R")
        return power(r, const(n)) if True else r
    return rawapp("pow", b, e, sort="R")


def inv_atom_pow(b, e):
    return inv(power(b, e))


def sqrt(t):
    c = cval(t)
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(Fraction(n, d))
    ms = monos(t)
    if len(ms) == 1:
        (m, c), = ms
        if c > 0 and len(m) == 1:
            (a, e), = m
            if e % 2 == 0:
                s = sqrt(const(c))
                return mul(s, absv(power(a, const(e // 2))))
    return rawapp("sqrt", t)


def absv(t):
    c = cval(t)
    if c is not None:
        return const(abs(c))
    if syn_nonneg(t):
        return t
    g, p = content_sign(t)
    if syn_nonneg(p):
        return mul(const(abs(g)), p)
    f = common_nonneg(p)
    if f is not None:
        return mul(mul(const(abs(g)), f[0]), absv(f[1]))
    return mul(const(abs(g)), T("app", ("abs", p), p.sort))


def common_nonneg(p):
    """(f, q) with p = f * q, f a product of syntactically non-negative factors common to all the monomials"""
    ms = list(monos(p))
    com = None
    for m, c in ms:
        d = dict(m)
        com = d if com is None else {a: min(e, d[a]) for a, e in com.items() if a in d}
        if not com:
            return None
    com = {a: e for a, e in com.items() if syn_nonneg(a)}
    if not com:
        return None
    q = {}
    for m, c in ms:
        q[frozenset((a, e - com.get(a, 0)) for a, e in m if e - com.get(a, 0))] = c
    f = ONE
    for a, e in com.items():
        f = mul(f, power(a, const(e)))
    q = mkpoly(q)
    return (f, q) if mul(f, q) is p else None


def floor(t):
    if t.sort == "I":
        return t
    c = cval(t)
    if c is not None:
        return const(math.floor(c))
    # integer-valued monomials move out
    q, r = {}, {}
    for m, c in monos(t):
        if m and c.denominator == 1 and all(a.sort == "I" for a, e in m):
            q[m] = c
        elif not m:
            f = math.floor(c)
            if f:
                q[m] = Fraction(f)
            if c != f:
                r[m] = c - f
        else:
            r[m] = c
    if q:
        return add(mkpoly(q), floor(mkpoly(r)))
    if r and all(a.sort == "I" for m in r for a, e in m):
        den = 1
        for c in r.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        return idiv(mkpoly({m: c * den for m, c in r.items()}), const(den))
    return rawapp("floor", t, sort="I")


def ceil(t):
    if t.sort == "I":
        return t
    return mul(NEG1, floor(mul(NEG1, t)))


def rint(t):
    if t.sort == "I":
        return t
    c = cval(t)
    if c is not None:
        return const(round(c))
    return rawapp("rint", t, sort="I")


def trunc(t):
    if t.sort == "I":
        return t
    c = cval(t)
    if c is not None:
        return const(math.trunc(c))
    if syn_nonneg(t):
        return floor(t)
    return ite(ge(t, ZERO), floor(t), ceil(t))


def minv(*ts):
    return _minmax("min", ts)


def maxv(*ts):
    return _minmax("max", ts)


def _minmax(f, ts):
    s = set()
    cs = []
    for t in ts:
        t = num(t)
        c = cval(t)
        if c is not None:
            cs.append(c)
        elif t.op == "app" and t.args[0] == f:
            for x in t.args[1]:
                c = cval(x)
                if c is not None:
                    cs.append(c)
                else:
                    s.add(x)
        else:
            s.add(t)
    if cs:
        s.add(const(min(cs) if f == "min" else max(cs)))
    if len(s) == 1:
        return s.pop()
    sort = "I" if all(x.sort == "I" for x in s) else "R"
    return T("app", (f, frozenset(s)), sort)


def sign(t):
    c = cval(t)
    if c is not None:
        return const((c > 0) - (c < 0))
    return ite(gt(t, ZERO), ONE, ite(lt(t, ZERO), NEG1, ZERO))


def _odd(name):
    def f(t):
        if t is ZERO:
            return ZERO
        g, p = content_sign(t)
        if g < 0:
            return mul(NEG1, rawapp(name, mul(const(-g), p)))
        return rawapp(name, t)
    return f


def cos(t):
    if t is ZERO:
        return ONE
    if t.op == "app" and t.args[0] == "arctan":
        return inv(sqrt(add(ONE, mul(t.args[1], t.args[1]))))
    g, p = content_sign(t)
    u = mul(const(abs(g)), p)
    if u.op == "app" and u.args[0] == "arctan":
        return cos(u)
    return rawapp("cos", u)


_sin = _odd("sin")
_arctan = _odd("arctan")


def sin(t):
    if t.op == "app" and t.args[0] == "arctan":
        x = t.args[1]
        return mul(x, inv(sqrt(add(ONE, mul(x, x)))))
    g, p = content_sign(t) if t is not ZERO else (Fraction(1), t)
    if g < 0:
        return mul(NEG1, sin(mul(NEG1, t)))
    return _sin(t)


def tan(t):
    if t.op == "app" and t.args[0] == "arctan":
        return t.args[1]
    if t is ZERO:
        return ZERO
    g, p = content_sign(t)
    if g < 0 and p.op == "app" and p.args[0] == "arctan":
        return mul(NEG1, tan(mul(NEG1, t)))
    return mul(sin(t), inv(cos(t)))


def idiv(a, b):
    """python floor division on numbers"""
    ca, cb = cval(a), cval(b)
    if ca is not None and cb not in (None, 0):
        return const(ca // cb)
    if b is ONE and a.sort == "I":
        return a
    if a.sort == "I" and b.sort == "I" and cb is not None:
        # (c*q + r)//c with exact part
        q, r = {}, {}
        for m, c in monos(a):
            if c % cb == 0:
                q[m] = c / cb
            else:
                r[m] = c
        if q:
            return add(mkpoly(q), idiv(mkpoly(r), b))
        return rawapp("idiv", a, b, sort="I")
    if a.sort == "I" and b.sort == "I":
        return rawapp("idiv", a, b, sort="I")
    return floor(mul(a, inv(b)))


def modv(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb not in (None, 0):
        return const(ca % cb)
    return add(a, mul(NEG1, mul(b, idiv(a, b))))


SIMP = dict(sqrt=sqrt, abs=absv, floor=floor, ceil=ceil, rint=rint, trunc=trunc,
            min=minv, max=maxv, sign=sign, cos=cos, sin=sin, tan=tan,
            arctan=_arctan, inv=inv, pow=power, idiv=idiv, mod=modv)


def cix(dm, lvl, p):
    """index at level lvl of position p in a nested domain; resolved for c*k + constant in a two-level domain of fixed inner extent c"""
    if len(dm.args) == 4 and dm.args[-1].args[-1] is TRUE:
        c = cval(dm.args[2].args[-1])
        if c is not None and c >= 1:
            q, r, ok = {}, 0, True
            for m, co in monos(p):
                if not m:
                    r = co
                elif co % c == 0:
                    q[m] = co / c
                else:
                    ok = False
                    break
            if ok and r.denominator == 1 if hasattr(r, "denominator") else ok:
                q0, r0 = divmod(r, c)
                return add(mkpoly(q), const(q0)) if lvl == 0 else const(r0)
    return T("app", ("cix", dm, lvl, p), "I")


SIMP["cix"] = cix

# -- booleans -----------------------------------------------------------------
TRUE = T("true", (), "B")
FALSE = T("false", (), "B")


def boolc(b):
    return TRUE if b else FALSE


def tobool(x):
    if isinstance(x, bool):
        return boolc(x)
    if isinstance(x, T):
        if x.sort == "B":
            return x
        return ne(x, ZERO)
    if isinstance(x, (int, float)):
        return boolc(bool(x))
    raise TypeError("no boolean: %r" % (x,))


def _cmp(op, p):
    c = cval(p)
    if c is not None:
        return boolc(c < 0 if op == "lt" else c <= 0 if op == "le" else c == 0)
    r = _cmp_indicator(op, p)
    if r is not None:
        return r
    if op in ("lt",) and syn_nonneg(p):
        return FALSE
    if op == "le" and syn_nonneg(mul(NEG1, p)):
        return TRUE
    if op == "lt" and _syn_pos(mul(NEG1, p)):
        return TRUE
    if op == "le" and _syn_pos(p):
        return FALSE
    if op == "eq" and (_syn_pos(p) or _syn_pos(mul(NEG1, p))):
        return FALSE
    g, q = content_sign(p)
    if op == "eq":
        return T("eq0", (q,), "B")
    q = mul(const(1 if g > 0 else -1), q)
    if op == "lt" and q.sort == "I":
        return T("le0", (add(q, ONE),), "B")
    return T(op + "0", (q,), "B")


def _cmp_indicator(op, p):
    """k + c*[cond ? a : b] compared with 0, a and b constants"""
    ms = monos(p)
    if len(ms) > 2:
        return None
    k, u, cf = Fraction(0), None, None
    for m, c in ms:
        if m == EMPTY:
            k = c
        else:
            if u is not None or len(m) != 1:
                return None
            (u, e), = m
            if e != 1 or u.op != "ite":
                return None
            cf = c
    if u is None:
        return None
    a, b = cval(u.args[1]), cval(u.args[2])
    if a is None or b is None:
        return None
    f = lambda v: (v < 0 if op == "lt" else v <= 0 if op == "le" else v == 0)
    va, vb = f(k + cf * a), f(k + cf * b)
    if va == vb:
        return boolc(va)
    return u.args[0] if va else not_(u.args[0])


def _syn_pos(p):
    d = dict(monos(p))
    k = d.pop(EMPTY, Fraction(0))
    return k > 0 and syn_nonneg(mkpoly(d))


def lt(a, b):
    return _cmp("lt", add(num(a), mul(NEG1, num(b))))


def le(a, b):
    return _cmp("le", add(num(a), mul(NEG1, num(b))))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if isinstance(a, T) and isinstance(b, T):
        if a is b:
            return TRUE
        if a.sort == "B" and b.sort == "B":
            return iff(a, b)
        if a.sort in "UL" or b.sort in "UL":
            return T("ueq", (frozenset((a, b)),), "B")
    return _cmp("eq", add(num(a), mul(NEG1, num(b))))


def ne(a, b):
    return not_(eq(a, b))


def not_(b):
    b = tobool(b)
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "le0":
        return _cmp("lt", mul(NEG1, b.args[0]))
    if b.op == "lt0":
        return _cmp("le", mul(NEG1, b.args[0]))
    return T("not", (b,), "B")


def and_(*bs):
    s = set()
    for b in bs:
        b = tobool(b)
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.op == "and":
            s |= b.args[0]
        else:
            s.add(b)
    for b in s:
        if not_(b) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s.pop()
    return T("and", (frozenset(s),), "B")


def or_(*bs):
    s = set()
    for b in bs:
        b = tobool(b)
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.op == "or":
            s |= b.args[0]
        else:
            s.add(b)
    for b in s:
        if not_(b) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s.pop()
    return T("or", (frozenset(s),), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    a, b = tobool(a), tobool(b)
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return T("iff", (frozenset((a, b)),), "B")


def ite(c, a, b):
    c = tobool(c)
    if c is TRUE:
        return a if isinstance(a, T) else num(a)
    if c is FALSE:
        return b if isinstance(b, T) else num(b)
    if isinstance(a, T) and a.sort == "B" or isinstance(b, T) and b.sort == "B" or (isinstance(a, bool) and isinstance(b, bool)):
        a, b = tobool(a), tobool(b)
        if a is b:
            return a
        return and_(or_(not_(c), a), or_(c, b))
    a, b = num(a), num(b)
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    # factor common summand-free case kept simple
    sort = "I" if a.sort == "I" and b.sort == "I" else (a.sort if a.sort == b.sort else "R")
    return T("ite", (c, a, b), sort)


# -- binders ------------------------------------------------------------------

def bv(level, sort):
    return T("bv", (level, sort), sort)


def lam(vars_, body):
    """close body over the list of fresh variables"""
    if not isinstance(body, T):
        body = num(body)
    lvl = body.lvl + 1
    m = {}
    bvs = []
    for i, v in enumerate(vars_):
        b = bv("%d.%d" % (lvl, i), v.sort)
        m[v] = b
        bvs.append(b)
    nb = subst(body, m)
    return T("lam", tuple(bvs) + (nb,), "L")


def lam_apply(l, args):
    m = {b: num(a) for b, a in zip(l.args[:-1], args)}
    return subst(l.args[-1], m)


def iterate(n, pos, vars_, steps, starts):
    """component pos of the n-th iterate of (x, k) -> steps (vars_ = x variables and k) from starts"""
    n = num(n)
    if n is ZERO:
        return num(starts[pos])
    return T("app", ("iter!", n, const(pos)) + tuple(lam(vars_, s) for s in steps) + tuple(num(s) for s in starts), "R")


def lam_open(l, base="b"):
    vs = [fresh(base, b.sort) for b in l.args[:-1]]
    return vs, lam_apply(l, vs)


def sum_(n, f, base="s"):
    """Sum_{k<n} f(k)"""
    n = num(n)
    c = cval(n)
    if c is not None and c <= 0:
        return ZERO
    if c is not None and c <= 16:
        r = ZERO
        for i in range(int(c)):
            r = add(r, num(f(const(i))))
        return r
    k = fresh(base)
    body = num(f(k))
    return sum_close(n, k, body)


def _split_point(k, t):
    """find an ite condition k < m (m free of k) to split a sum at"""
    for x in subterms(t):
        if x.op == "ite":
            c = x.args[0]
            if c.op == "le0":
                p = c.args[0]
                d = dict(monos(p))
                mk = frozenset(((k, 1),))
                co = d.pop(mk, None)
                if co in (1, -1):
                    rest = mkpoly(d)
                    if not occurs(k, rest):
                        # co=1: k + rest <= 0  <=> k < 1 - rest ; co=-1: -k + rest <= 0 <=> not (k < rest)
                        return x.args[0], (add(ONE, mul(NEG1, rest)) if co == 1 else rest), co == 1
    return None


def _assume_cond(t, c, val):
    nc = not_(c)
    return subst(t, {c: boolc(val), nc: boolc(not val)})


def _falling(k, body):
    """the index occurs negatively in an exponent"""
    mk = frozenset(((k, 1),))
    for x in subterms(body):
        if x.op == "app" and x.args[0] == "pow":
            c = dict(monos(x.args[2])).get(mk)
            if c is not None and c < 0:
                return True
    return False


def sum_close(n, k, body):
    """linear normal form: split over monomials, pull out k-free factors"""
    body = num(body)
    acc = ZERO
    if _falling(k, body):
        k2 = fresh("s")
        b2 = num(subst(body, {k: n - 1 - k2}))
        if not _falling(k2, b2):
            k, body = k2, b2
    if any(x.op == "ite" for x in subterms(body, bound=True)):
        # the index is in range
        lo, hi = le(ZERO, k), lt(k, n)
        m = {c: v for c, v in ((lo, TRUE), (hi, TRUE), (not_(lo), FALSE), (not_(hi), FALSE)) if c is not TRUE and c is not FALSE}
        body = num(subst(body, m))
    sp = _split_point(k, body)
    if sp is not None:
        c, m, pos = sp
        if syn_nonneg(m) and syn_nonneg(add(n, mul(NEG1, m))):
            a = sum_close(m, k, _assume_cond(body, c, pos))
            k2 = fresh("s")
            b = sum_close(add(n, mul(NEG1, m)), k2, subst(_assume_cond(body, c, not pos), {k: add(k2, m)}))
            return add(a, b)
    if n.op == "app" and n.args[0] == "clen":
        r = _expand_csum(n.args[1], k, body)
        if r is not None:
            return r
    for m, c in monos(body):
        out, inn = [], []
        for a, e in m:
            (inn if occurs(k, a) else out).append((a, e))
        o = mul(const(c), mkpoly({frozenset(out): Fraction(1)}))
        if not inn:
            acc = add(acc, mul(o, n if _nonneg_len(n) else maxv(n, ZERO)))
        else:
            b = mkpoly({frozenset(inn): Fraction(1)})
            acc = add(acc, mul(o, T("app", ("sum", n, lam([k], b)), "I" if b.sort == "I" else "R")))
    return acc


def _expand_csum(d, k, body):
    """sum over a compacted index -> nested sums over its levels"""
    nl = len(d.args) - 2
    ks = [fresh("s") for _ in range(nl)]
    m = {T("app", ("cix", d, l, k), "I"): ks[l] for l in range(nl)}
    b = subst(body, m)
    if occurs(k, b):
        return None
    cond = lam_apply(d.args[-1], ks)
    b = mul(ite(cond, ONE, ZERO), b)
    for l in range(nl - 1, -1, -1):
        a = d.args[1 + l]
        nn = a if l == 0 else lam_apply(a, ks[:l])
        b = sum_close(nn, ks[l], b)
    return b


def _nonneg_len(n):
    return syn_nonneg(n)


def quant(kind, n, f, base="q"):
    n = num(n)
    k = fresh(base)
    b = tobool(f(k))
    if b in (TRUE, FALSE):
        if kind == "forall":
            return TRUE if b is TRUE else le(n, ZERO)
        return FALSE if b is FALSE else gt(n, ZERO)
    if n.op == "app" and n.args[0] == "clen":
        r = _expand_cquant(kind, n.args[1], k, b)
        if r is not None:
            return r
    return T(kind, (n, lam([k], b)), "B")


def _expand_cquant(kind, d, k, body):
    """quantifier over a compacted index -> nested quantifiers over its levels"""
    nl = len(d.args) - 2
    ks = [fresh("q") for _ in range(nl)]
    b = subst(body, {T("app", ("cix", d, l, k), "I"): ks[l] for l in range(nl)})
    if occurs(k, b):
        return None
    cond = lam_apply(d.args[-1], ks)
    b = and_(cond, b) if kind == "exists" else implies(cond, b)
    for l in range(nl - 1, -1, -1):
        a = d.args[1 + l]
        nn = a if l == 0 else lam_apply(a, ks[:l])
        b = quant(kind, nn, (lambda b, v: lambda q: subst(b, {v: q}))(b, ks[l]))
    return b


def forall(n, f):
    return quant("forall", n, f)


def exists(n, f):
    return quant("exists", n, f)


def occurs(v, t):
    return v in free_vars(t)


_fvc = {}


def free_vars(t):
    r = _fvc.get(t)
    if r is not None:
        return r
    s = set()
    if t.op == "var" or t.op == "bv":
        s.add(t)
    elif t.op == "poly":
        for m, c in t.args:
            for a, e in m:
                s |= free_vars(a)
    elif t.op == "lam":
        s |= free_vars(t.args[-1])
        s -= set(t.args[:-1])
    else:
        for a in t.args:
            if isinstance(a, T):
                s |= free_vars(a)
            elif isinstance(a, frozenset):
                for b in a:
                    s |= free_vars(b)
    r = frozenset(s)
    _fvc[t] = r
    return r


def subst(t, m, memo=None):
    """simultaneous substitution var/atom -> term, rebuilding normal forms"""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo, frozenset(m))


def _subst(t, m, memo, keys):
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not (free_vars(t) & keys) and all(k.op in ("var", "bv") for k in keys):
        r = t
    elif t.op == "poly":
        r = ZERO
        for mo, c in t.args:
            x = const(c)
            for a, e in mo:
                x = mul(x, power(_subst(a, m, memo, keys), const(e)))
            r = add(r, x)
    elif t.op in ("var", "bv", "true", "false"):
        r = t
    elif t.op == "lam":
        vs, body = lam_open(t)
        r = lam(vs, _subst(body, m, memo, keys))
    else:
        r = rebuild(t, lambda x: _subst(x, m, memo, keys))
    memo[t] = r
    return r


def rebuild(t, f):
    op = t.op
    if op == "app":
        fn = t.args[0]
        args = []
        for a in t.args[1:]:
            if isinstance(a, T):
                args.append(f(a))
            elif isinstance(a, frozenset):
                args.append(frozenset(f(x) for x in a))
            else:
                args.append(a)
        if fn in ("min", "max"):
            return _minmax(fn, list(args[0]))
        if fn == "sum":
            vs, body = lam_open(args[1])
            c = cval(args[0])
            if c is not None and c <= 16:
                r = ZERO
                for i in range(int(c)):
                    r = add(r, lam_apply(args[1], [const(i)]))
                return r
            return sum_close(args[0], vs[0], body)
        s = SIMP.get(fn)
        if s is not None:
            return s(*args)
        return T("app", (fn,) + tuple(args), t.sort)
    if op == "ite":
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op == "not":
        return not_(f(t.args[0]))
    if op == "and":
        return and_(*[f(x) for x in t.args[0]])
    if op == "or":
        return or_(*[f(x) for x in t.args[0]])
    if op == "iff":
        xs = [f(x) for x in t.args[0]]
        return iff(xs[0], xs[-1])
    if op == "ueq":
        xs = [f(x) for x in t.args[0]]
        return eq(xs[0], xs[-1])
    if op in ("le0", "lt0", "eq0"):
        return _cmp(op[:2], f(t.args[0]))
    if op in ("forall", "exists"):
        n, l = f(t.args[0]), f(t.args[1])
        return quant(op, n, lambda k: lam_apply(l, [k]))
    raise NotImplementedError(op)


def subterms(t, seen=None, bound=False):
    """all subterms (not under binders unless bound)"""
    if seen is None:
        seen = {}
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen[x] = None
        if x.op == "poly":
            for m, c in x.args:
                for a, e in m:
                    st.append(a)
        elif x.op == "lam":
            if bound:
                st.append(x.args[-1])
        else:
            for a in x.args:
                if isinstance(a, T):
                    st.append(a)
                elif isinstance(a, frozenset):
                    st.extend(a)
    return seen


# -- printing -----------------------------------------------------------------

def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    if depth > 12:
        return "..."
    d = depth + 1
    op = t.op
    if op == "poly":
        if not t.args:
            return "0"
        parts = []
        for m, c in sorted(t.args, key=lambda mc: sorted((a.uid, e) for a, e in mc[0])):
            fs = [show(a, d) + ("" if e == 1 else "^%d" % e) for a, e in sorted(m, key=lambda ae: ae[0].uid)]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            parts.append("*".join(fs))
        return "(" + " + ".join(parts) + ")"
    if op == "var":
        return t.args[0]
    if op == "bv":
        return "%" + t.args[0]
    if op == "app":
        xs = []
        for a in t.args[1:]:
            if isinstance(a, frozenset):
                xs += sorted(show(x, d) for x in a)
            else:
                xs.append(show(a, d))
        return "%s(%s)" % (t.args[0], ", ".join(xs))
    if op == "lam":
        return "\\%s. %s" % (" ".join(show(b, d) for b in t.args[:-1]), show(t.args[-1], d))
    if op in ("and", "or", "iff", "ueq"):
        return op + "(" + ", ".join(sorted(show(x, d) for x in t.args[0])) + ")"
    if op in ("le0", "lt0", "eq0"):
        return show(t.args[0], d) + {"le0": "<=0", "lt0": "<0", "eq0": "==0"}[op]
    return op + "(" + ", ".join(show(a, d) for a in t.args) + ")"


ROUND32 = False     # contracts on exact values (C20) turn it on: a conversion to single precision is then a rounding, otherwise it is the identity (real arithmetic)


def f32(t):
    if not ROUND32 or t.op == "app" and t.args[0] == "f32":
        return t
    if t.op == "const":
        import struct
        try:
            if struct.unpack("f", struct.pack("f", float(t.args[0])))[0] == t.args[0]:
                return t
        except OverflowError:
            pass
    return T("app", ("f32", t), "R")
