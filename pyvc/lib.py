"""Trusted contracts of Python built-ins, numpy and scipy used by the code
under contract.  Element types: reals for floats, integers for ints; float32
casts are identities; int16-style casts wrap."""
import math
from fractions import Fraction
from . import terms as tm
from . import smt
from .terms import T, ZERO, ONE, TRUE, FALSE, const, cval, num, and_, or_, not_
from .values import *
from .values import Unsupported, PyRaise, Poison
from .interp import Module, LibFn, UserFn, Bound, ExcType, Opaque, Slice, Star, Range, Infeasible
from .loops import Head

PI = tm.var("pi", nn=True)


class Lib(dict):
    def __init__(self):
        super().__init__()
        self.consts = {"numpy.pi": PI, "math.pi": PI, "numpy.newaxis": None, "numpy.nan": T("app", ("nan",), "R"),
                       "numpy.inf": T("app", ("inf",), "R"),
                       "cv2.INTER_LINEAR": 1, "cv2.BORDER_CONSTANT": 0}
        self.modules = {"numpy", "numpy.linalg", "numpy.ndarray", "scipy", "scipy.ndimage", "scipy.optimize", "math", "os",
                        "os.path", "skimage", "cv2", "numpy.random", "numpy.polynomial", "numpy.polynomial.polynomial", "numpy.ma", "numpy.fft"}
        self.methods = {}
        self.attrs = {}

    # -- truth, comparison ------------------------------------------------------
    def truth(self, I, v):
        if isinstance(v, T):
            return tm.tobool(v)
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, SList):
            if any(isinstance(s, list) and s for s in v.segs):
                return True
            return tm.gt(v.length(), ZERO)
        if isinstance(v, (tuple, dict)):
            return len(v) > 0
        if isinstance(v, SArr):
            if v.ndim == 0:
                return tm.tobool(v.get(()))
            if all(cval(s) == 1 for s in v.shape):
                return tm.tobool(v.get((ZERO,) * v.ndim))
            raise Unsupported("truth value of an array")
        if isinstance(v, Opaque):
            if "truth" in v.attrs:
                return v.attrs["truth"]
            raise Unsupported("truth of opaque object")
        return True

    def land(self, I, a, b):
        return and_(tm.tobool(self.truth(I, a)), tm.tobool(self.truth(I, b))) if not (isinstance(a, bool) and isinstance(b, bool)) else (a and b)

    def compare(self, I, op, a, b):
        if op in ("Is", "IsNot"):
            if is_scalar(a) and b is None or a is None and is_scalar(b):
                r = False
            elif a is None or b is None:
                r = a is b
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(b, bool) and isinstance(a, T) and a.sort == "B":
                r = a if b else not_(a)
            elif isinstance(b, bool):
                r = False
            elif isinstance(a, (ExcType, LibFn)) and type(a) == type(b):
                r = a.name == b.name
            else:
                r = a is b
            if op == "IsNot":
                return (not r) if isinstance(r, bool) else not_(r)
            return r
        if op in ("In", "NotIn"):
            r = self.contains(I, a, b)
            if op == "NotIn":
                return (not r) if isinstance(r, bool) else not_(r)
            return r
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[op]
            if op in ("Eq", "NotEq"):
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    return self.opaque_eq(I, op, a, b)
                return op == "NotEq"
            raise PyRaise("TypeError", "comparison")
        if a is None or b is None:
            if op in ("Eq", "NotEq"):
                return (a is b) == (op == "Eq")
            raise PyRaise("TypeError", "comparison with None")
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, SList) and isinstance(b, SList):
            if op in ("Eq", "NotEq"):
                xs = list(a) if isinstance(a, tuple) else a.items()
                ys = list(b) if isinstance(b, tuple) else b.items()
                if len(xs) != len(ys):
                    return op == "NotEq"
                r = TRUE
                for x, y in zip(xs, ys):
                    c = self.compare(I, "Eq", x, y)
                    r = and_(r, tm.tobool(self.truth(I, c)))
                r = r if op == "Eq" else not_(r)
                return True if r is TRUE else False if r is FALSE else r
            raise Unsupported("sequence comparison")
        if is_scalar(a) and is_scalar(b):
            if not isinstance(a, (T, SArr)) and not isinstance(b, (T, SArr)):
                return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[op]
            return CMP[op](asT(a), asT(b))
        if isinstance(a, (SArr, SList)) or isinstance(b, (SArr, SList)):
            return self.ewise(I, lambda x, y: CMP[op](x, y), a, b, dt="b")
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return self.opaque_eq(I, op, a, b)
        raise Unsupported("compare %s %s" % (type(a).__name__, type(b).__name__))

    def opaque_eq(self, I, op, a, b):
        ta = a.term if isinstance(a, Opaque) else None
        tb = b.term if isinstance(b, Opaque) else None
        if op in ("Eq", "NotEq"):
            if isinstance(a, str):
                ta = T("app", ("str:" + a,), "U")
            if isinstance(b, str):
                tb = T("app", ("str:" + b,), "U")
            if ta is not None and tb is not None:
                r = tm.eq(ta, tb)
                return r if op == "Eq" else not_(r)
        raise Unsupported("opaque comparison")

    def contains(self, I, a, b):
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, dict):
            return a in b
        if isinstance(b, SSet):
            b = b.seq
        if isinstance(b, tuple) or (isinstance(b, SList) and b.concrete()):
            xs = list(b) if isinstance(b, tuple) else b.items()
            r = FALSE
            for x in xs:
                c = self.compare(I, "Eq", a, x)
                r = or_(r, tm.tobool(self.truth(I, c)))
            return True if r is TRUE else False if r is FALSE else r
        if isinstance(b, SArr) and b.ndim == 1 and is_scalar(a) and b.src is not None and not b.src.concrete():
            b = b.src
        if isinstance(b, SArr) and b.ndim == 1 and is_scalar(a):
            x = asT(a)
            ar = getattr(b, "arange", None)
            if ar is not None:
                st, n, step = ar
                if step is ONE and x.sort == "I":
                    return and_(tm.le(st, x), tm.lt(x, st + n))
                if step is ONE and x.sort == "R":
                    return and_(tm.le(st, x), tm.lt(x, st + n), tm.eq(x, tm.floor(x)))
            return tm.exists(b.shape[0], lambda j: tm.eq(b.get((j,)), x))
        if isinstance(b, Range) and is_scalar(a):
            x = asT(a)
            if b.step is ONE:
                r = and_(tm.le(b.start, x), tm.lt(x, b.start + b.n))
                return r if x.sort == "I" else and_(r, tm.eq(x, tm.floor(x)))
        if isinstance(b, SList):
            return or_(*[tm.tobool(self.contains(I, a, SList([s]))) if isinstance(s, list) else self.in_seg(I, a, s) for s in b.segs])
        raise Unsupported("membership test")

    def in_seg(self, I, a, s):
        if len(s.ks) == 1 and isinstance(s.val, (tuple, SList)) and isinstance(a, (tuple, SList)):
            xs = list(a) if isinstance(a, tuple) else a.items()
            v = s.val if isinstance(s.val, tuple) else tuple(s.val.items())
            if all(is_scalar(x) for x in xs) and all(is_scalar(x) for x in v):
                if len(xs) != len(v):
                    return FALSE
                return tm.exists(s.ns[0], lambda j: and_(tm.subst(s.cond, {s.ks[0]: j}), *[tm.eq(asT(vsubst(y, {s.ks[0]: j})), asT(x)) for x, y in zip(xs, v)]))
        if len(s.ks) == 1 and is_scalar(s.val) and is_scalar(a):
            from .loops import affine
            ab = affine(asT(s.val), s.ks[0])
            if ab is not None and cval(ab[0]) in (1, -1) and asT(a).sort == "I" and ab[1].sort == "I":
                j = (asT(a) - ab[1]) * ab[0]          # the only position with that value
                return and_(tm.le(ZERO, j), tm.lt(j, s.ns[0]), tm.subst(s.cond, {s.ks[0]: j}))
            return tm.exists(s.ns[0], lambda j: and_(tm.subst(s.cond, {s.ks[0]: j}), tm.eq(asT(vsubst(s.val, {s.ks[0]: j})), asT(a))))
        raise Unsupported("membership in symbolic list")

    # -- arithmetic ---------------------------------------------------------------
    def bshape(self, I, *arrs):
        nd = max(a.ndim for a in arrs)
        sh = []
        for d in range(nd):
            cur = None
            for a in arrs:
                j = d - (nd - a.ndim)
                if j < 0:
                    continue
                s = a.shape[j]
                if cval(s) == 1:
                    continue
                if cur is None or cur is s:
                    cur = s
                elif not I.known(tm.eq(cur, s)):
                    if I.known(tm.ne(cur, s)) and I.known(tm.gt(cur, ONE)) and I.known(tm.gt(s, ONE)):
                        raise PyRaise("ValueError", "operands could not be broadcast together")
                    raise Unsupported("broadcast of %r with %r" % (cur, s))
            sh.append(cur if cur is not None else ONE)
        return tuple(sh)

    def bget(self, a, idx):
        nd = len(idx)
        off = nd - a.ndim
        return a.get(tuple(ZERO if cval(s) == 1 and cval(idx[off + j]) != 0 else idx[off + j] for j, s in enumerate(a.shape)))

    def ewise(self, I, f, *xs, dt=None):
        arrs = [to_arr(x, I) for x in xs]
        if all(a.ndim == 0 for a in arrs):
            return f(*[a.get(()) for a in arrs])
        sh = self.bshape(I, *arrs)
        fr = [a.frozen() if a.ndim else a for a in arrs]
        if dt is None:
            ds = [a.dt for a in arrs if a.ndim] or [a.dt for a in arrs]
            sc = [a.dt for a in arrs if not a.ndim]
            dt = join_dt(ds)
            if any(s[0] == "f" for s in sc) and dt[0] in "iubx":
                dt = "f8"
            elif any(s == "x8" for s in sc) and dt[0] in "iub":
                dt = "x8"
            elif dt == "b" and sc:
                dt = join_dt(sc)
        r = SArr(sh, lambda idx: f(*[self.bget(a, idx) for a in fr]), dt)
        nd = [a for a in fr if a.ndim]
        if nd and all(a.unfl is not None for a in nd) and all(a.ndim == len(sh) and len(a.unfl[0]) == len(nd[0].unfl[0])
                                                               and all(x is y for x, y in zip(a.unfl[0], nd[0].unfl[0])) for a in nd):
            ins = [a.unfl[1] if a.ndim else a for a in fr]
            r.unfl = (nd[0].unfl[0], SArr(nd[0].unfl[0], lambda idx: f(*[self.bget(a, idx) if a.ndim else a.get(()) for a in ins]), dt))
        return r

    def binop(self, I, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, T):
            return pybin(op, a, b)
        if getattr(a, "tag", None) == "path" or getattr(b, "tag", None) == "path":
            return self.path_op(I, op, a, b)
        if isinstance(a, str) or isinstance(b, str) or getattr(a, "tag", None) == "str" or getattr(b, "tag", None) == "str":
            if op == "Add":
                return self.strcat(I, [a, b])
            if op == "Mod" and isinstance(a, str):
                return self.format_percent(I, a, b)
            raise Unsupported("string operator")
        if isinstance(a, SList) and isinstance(b, SList) and op == "Add":
            r = a.copy()
            r.extend_segs(b.segs)
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if op == "Add" and (isinstance(a, tuple) and getattr(b, "kind", None) == "tuple" or isinstance(b, tuple) and getattr(a, "kind", None) == "tuple"):
            r = SList.of(list(a)) if isinstance(a, tuple) else a.copy()
            r.extend_segs(SList.of(list(b)).segs if isinstance(b, tuple) else b.segs)
            r.kind = "tuple"
            return r
        if isinstance(a, SList) and op == "Mult" and is_scalar(b):
            c = cval(asT(b))
            if c is not None and a.concrete():
                return SList.of(a.items() * max(0, int(c)))
            its = a.items()
            if len(its) == 1:
                k = tm.fresh("k")
                n = asT(b)
                return SList([Seg([k], [n if I.known(tm.le(ZERO, n)) else tm.maxv(n, ZERO)], TRUE, its[0])])
            raise Unsupported("list repetition")
        if isinstance(b, SList) and op == "Mult" and is_scalar(a):
            return self.binop(I, op, b, a)
        if isinstance(a, (dict,)) or a is None or b is None:
            raise PyRaise("TypeError", "unsupported operand")
        if (isinstance(a, SList) or isinstance(b, SList)) and not (isinstance(a, SArr) or isinstance(b, SArr)):
            # list (op) numpy scalar / T : numpy scalar broadcasting
            if not (is_scalar(a) or is_scalar(b)):
                raise Unsupported("operands of " + op)
        if op in ("BitAnd", "BitOr", "BitXor"):
            def f(x, y):
                if x.sort == "B" and y.sort == "B":
                    return and_(x, y) if op == "BitAnd" else or_(x, y) if op == "BitOr" else not_(tm.iff(x, y))
                raise Unsupported("integer bit operation")
            return self.ewise(I, f, a, b, dt="b")
        if op == "MatMult":
            return self["numpy.matmul"](I, a, b)
        f = ARITH.get(op)
        if f is None:
            raise Unsupported("operator " + op)
        dt = None
        if op == "Div":
            dt = "f8"
        return self.ewise(I, f, a, b, dt=dt)

    def unop(self, I, op, v):
        if op == "Not":
            t = self.truth(I, v)
            return (not t) if isinstance(t, bool) else not_(t)
        if isinstance(v, (int, float)):
            return -v if op == "USub" else +v if op == "UAdd" else ~v
        if op == "USub":
            return self.ewise(I, lambda x: -num(x), v)
        if op == "UAdd":
            return v
        if op == "Invert":
            def f(x):
                if x.sort == "B":
                    return not_(x)
                raise Unsupported("invert")
            return self.ewise(I, f, v)
        raise Unsupported(op)

    # -- iteration ------------------------------------------------------------------
    def iterate(self, I, v):
        """-> list of ('items', [...]) | ('sym', n, fn)"""
        if isinstance(v, SList):
            out = []
            for s in v.segs:
                if isinstance(s, list):
                    out.append(("items", list(s)))
                elif isinstance(s, Head):
                    raise Unsupported("iteration over a list under construction")
                else:
                    out.append(("sym", s.length(), (lambda s: lambda k: s.item(k))(s)))
            return out
        if isinstance(v, tuple):
            return [("items", list(v))]
        if isinstance(v, dict):
            return [("items", list(v.keys()))]
        if isinstance(v, str):
            return [("items", list(v))]
        if isinstance(v, Range):
            c = cval(v.n)
            if c is not None and c <= 64 and cval(v.start) is not None and cval(v.step) is not None:
                return [("items", [int(cval(v.start) + i * cval(v.step)) for i in range(max(0, int(c)))])]
            if c is not None and c <= 24:
                return [("items", [v.start + v.step * i for i in range(max(0, int(c)))])]
            return [("sym", v.n, lambda k: v.start + v.step * k)]
        if isinstance(v, SArr):
            if v.ndim == 0:
                raise PyRaise("TypeError", "iteration over a 0-d array")
            c = cval(v.shape[0])
            if c is not None and c <= 64:
                return [("items", [self.getitem(I, v, i) for i in range(int(c))])]
            return [("sym", v.shape[0], lambda k: self.getitem(I, v, k))]
        if isinstance(v, Opaque) and "iter" in v.attrs:
            return self.iterate(I, v.attrs["iter"])
        if isinstance(v, T) or is_scalar(v):
            raise PyRaise("TypeError", "not iterable")
        raise Unsupported("iteration over %s" % type(v).__name__)

    def items(self, I, v):
        out = []
        for p in self.iterate(I, v):
            if p[0] == "items":
                out += p[1]
            else:
                c = cval(p[1])
                if c is None:
                    raise Unsupported("symbolic sequence used as a concrete one")
                out += [p[2](const(i)) for i in range(int(c))]
        return out

    def staritems(self, I, v):
        s = self.seq(I, v)
        out = []
        for g in s.segs:
            if isinstance(g, list):
                out += g
            else:
                c = cval(g.length())
                if c is not None and c <= 64:
                    out += [g.item(const(i)) for i in range(int(c))]
                else:
                    out.append(Star(SList([g])))
        return out

    def seq(self, I, v):
        """any iterable -> SList"""
        if isinstance(v, SList):
            return v
        r = SList([])
        for p in self.iterate(I, v):
            if p[0] == "items":
                for x in p[1]:
                    r.append(x)
            else:
                k = tm.fresh("k")
                r.segs.append(Seg([k], [p[1] if I.known(tm.le(ZERO, p[1])) else tm.maxv(p[1], ZERO)], TRUE, p[2](k)).expand())
        return r

    def unpack(self, I, v, n):
        if isinstance(v, (tuple,)):
            if len(v) != n:
                raise PyRaise("ValueError", "unpack")
            return list(v)
        if isinstance(v, SList):
            ln = v.length()
            c = cval(ln)
            if c is None:
                if not I.branch(tm.eq(ln, const(n))):
                    raise PyRaise("ValueError", "unpack")
                return [v.item(const(i)) for i in range(n)]
            if c != n:
                raise PyRaise("ValueError", "unpack")
            return v.items() if v.concrete() else [v.item(const(i)) for i in range(n)]
        if isinstance(v, SArr):
            if v.ndim == 0:
                raise PyRaise("TypeError", "unpack")
            if not I.branch(tm.eq(v.shape[0], const(n))):
                raise PyRaise("ValueError", "unpack")
            return [self.getitem(I, v, i) for i in range(n)]
        return self.items(I, v)

    # -- indexing ------------------------------------------------------------------
    def index_norm(self, I, i, n):
        """python index -> non-negative index term (raises IndexError path)"""
        t = asT(i)
        c = cval(t)
        if c is not None:
            if c < 0:
                t = n + t
                nc = cval(n)
                if nc is not None and cval(t) < 0:
                    raise PyRaise("IndexError", "index out of bounds")
            else:
                nc = cval(n)
                if nc is not None and c >= nc:
                    raise PyRaise("IndexError", "index out of bounds")
            return t
        if I.known(tm.le(ZERO, t)):
            return t
        return tm.ite(tm.lt(t, ZERO), t + n, t)

    def slice_norm(self, I, s, n):
        step = 1 if s.c is None else s.c
        sc = cval(asT(step))
        if sc is None:
            if I.known(tm.gt(asT(step), ZERO)):
                st = asT(step)
                a = ZERO if s.a is None else self.bound(I, s.a, n)
                b = n if s.b is None else self.bound(I, s.b, n)
                ln = self.cdiv(I, b - a, st)
                return a, ln, st
            raise Unsupported("symbolic slice step")
        if sc > 0:
            a = ZERO if s.a is None else self.bound(I, s.a, n)
            b = n if s.b is None else self.bound(I, s.b, n)
            d = b - a
            if sc == 1:
                ln = d if I.known(tm.le(ZERO, d)) else tm.maxv(d, ZERO)
            else:
                ln = self.cdiv(I, d, const(sc))
            return a, ln, const(sc)
        if s.a is None and s.b is None:
            if sc == -1:
                return n - 1, n, const(-1)
            return n - 1, self.cdiv(I, n, const(-sc)), const(sc)
        if sc == -1:
            a = n - 1 if s.a is None else self.bound(I, s.a, n, lo=-1, hi=-1)
            b = const(-1) if s.b is None else self.bound(I, s.b, n, lo=-1, hi=-1)
            d = a - b
            return a, d if I.known(tm.le(ZERO, d)) else tm.maxv(d, ZERO), const(-1)
        raise Unsupported("negative slice step")

    def cdiv(self, I, d, st):
        q = tm.idiv(d + st - 1, st)
        return q if I.known(tm.le(ZERO, d)) else tm.maxv(q, ZERO)

    def bound(self, I, x, n, lo=0, hi=0):
        t = asT(x)
        if t.sort == "R":
            raise Unsupported("slice index not known to be an integer")
        c = cval(t)
        top = n + hi
        if c is not None and c >= 0:
            return t if I.known(tm.le(t, top)) else tm.minv(t, top)
        if c is not None:
            u = n + t
            return u if I.known(tm.le(const(lo), u)) else tm.maxv(u, const(lo))
        if I.known(tm.le(ZERO, t)):
            return t if I.known(tm.le(t, top)) else tm.minv(t, top)
        if I.known(tm.lt(t, ZERO)):
            return t + n if I.known(tm.le(const(lo), t + n)) else tm.maxv(t + n, const(lo))
        return tm.ite(tm.lt(t, ZERO), tm.maxv(t + n, const(lo)), tm.minv(t, top))

    def getitem(self, I, o, k):
        if isinstance(o, SList):
            if isinstance(k, Slice):
                if o.concrete() and all(x is None or cval(asT(x)) is not None for x in (k.a, k.b, k.c)):
                    f = lambda x: None if x is None else int(cval(asT(x)))
                    return SList.of(o.items()[slice(f(k.a), f(k.b), f(k.c))])
                n = o.length()
                st, ln, step = self.slice_norm(I, k, n)
                j = tm.fresh("k")
                return SList([Seg([j], [ln], TRUE, o.item(st + j * step))])
            if not is_scalar(k):
                raise Unsupported("list index")
            return o.item(self.index_norm(I, k, o.length()))
        if isinstance(o, tuple):
            if isinstance(k, Slice):
                f = lambda x: None if x is None else int(cval(asT(x)))
                return o[slice(f(k.a), f(k.b), f(k.c))]
            c = cval(asT(k))
            if c is None:
                return vselect(list(o), self.index_norm(I, k, const(len(o))))
            if not -len(o) <= c < len(o):
                raise PyRaise("IndexError", "tuple index")
            return o[int(c)]
        if isinstance(o, dict):
            if k not in o:
                raise PyRaise("KeyError", str(k))
            return o[k]
        if isinstance(o, str):
            if isinstance(k, Slice):
                f = lambda x: None if x is None else int(cval(asT(x)))
                return o[slice(f(k.a), f(k.b), f(k.c))]
            return o[int(cval(asT(k)))]
        if isinstance(o, SArr):
            return self.arr_get(I, o, k)
        if isinstance(o, Range):
            if not isinstance(k, Slice):
                return o.start + o.step * self.index_norm(I, k, o.n)
        if isinstance(o, LibFn) and o.name in ("numpy.ogrid", "numpy.mgrid"):
            return self.ogrid(I, o.name, k)
        if isinstance(o, Opaque) and "getitem" in o.attrs:
            return o.attrs["getitem"](I, o, k)
        if is_scalar(o):
            raise PyRaise("TypeError", "scalar is not subscriptable")
        raise Unsupported("subscript of %s" % type(o).__name__)

    def ogrid(self, I, nm, k):
        ks = k if isinstance(k, tuple) else (k,)
        rs = []
        for s in ks:
            a = ZERO if s.a is None else asT(s.a)
            b = asT(s.b)
            if s.c is not None:
                raise Unsupported("ogrid step")
            d = b - a
            rs.append((a, d if I.known(tm.le(ZERO, d)) else tm.maxv(d, ZERO)))
        nd = len(rs)
        out = []
        for i, (a, n) in enumerate(rs):
            if nm.endswith("ogrid"):
                sh = [ONE] * nd
                sh[i] = n
            else:
                sh = [r[1] for r in rs]
            out.append(SArr(sh, (lambda i, a: lambda idx: a + idx[i])(i, a), "i8"))
        return SList.of(out) if nm.endswith("ogrid") else list_to_array(SList.of(out), I)

    def keylist(self, I, o, k):
        ks = list(k) if isinstance(k, tuple) else [k]
        if isinstance(k, SList):
            ks = [to_arr(k, I)]
        ks = [to_arr(x, I) if isinstance(x, SList) else x for x in ks]
        nm = 0
        for x in ks:
            if x is None or x is Ellipsis:
                continue
            nm += x.ndim if isinstance(x, SArr) and x.dt == "b" else 1
        if any(x is Ellipsis for x in ks):
            i = [x is Ellipsis for x in ks].index(True)
            ks = ks[:i] + [Slice(None, None, None)] * (o.ndim - nm) + ks[i + 1:]
        else:
            ks = ks + [Slice(None, None, None)] * (o.ndim - nm)
        if sum((x.ndim if isinstance(x, SArr) and x.dt == "b" else 0 if x is None else 1) for x in ks) > o.ndim:
            raise PyRaise("IndexError", "too many indices for array")
        return ks

    def arr_get(self, I, o, k):
        ks = self.keylist(I, o, k)
        ks = [asT(x.get(())) if isinstance(x, SArr) and x.ndim == 0 and x.dt != "b" else x for x in ks]
        if all(x is None or isinstance(x, Slice) or is_scalar(x) for x in ks):
            region, newax, d = [], [], 0
            oi = 0
            for x in ks:
                if x is None:
                    newax.append(oi)
                    oi += 1
                elif isinstance(x, Slice):
                    st, ln, step = self.slice_norm(I, x, o.shape[d])
                    region.append(("r", st, ln, step))
                    d += 1
                    oi += 1
                else:
                    if isinstance(x, (bool,)) or (isinstance(x, T) and x.sort == "B"):
                        raise Unsupported("boolean scalar index")
                    t = asT(x)
                    if t.sort == "R":
                        raise PyRaise("IndexError", "only integers are valid indices")
                    region.append(("i", self.index_norm(I, x, o.shape[d])))
                    d += 1
            sh = [r[2] for r in region if r[0] == "r"]
            if not sh and not newax:
                return o.get(tuple(r[1] for r in region))
            if getattr(o, "arange", None) and not newax and o.ndim == 1:
                pass
            v = SArr(sh, None, o.dt, base=o, region=region, org=o.org)
            if newax:
                for a in newax:
                    v = self.expand_dims(v, a)
            return v
        # boolean mask alone
        masks = [x for x in ks if isinstance(x, SArr) and x.dt == "b"]
        if masks:
            if len(masks) == 1 and all(x is masks[0] or (isinstance(x, Slice) and x.a is None and x.b is None and x.c is None) for x in ks) and ks[0] is masks[0]:
                m = masks[0].frozen()
                fo = o.frozen()
                kk = [tm.fresh("k") for _ in m.shape]
                rest = o.shape[m.ndim:]
                val = SArr(rest, (lambda idx: fo.get(tuple(kk) + tuple(idx))), o.dt) if rest else fo.get(tuple(kk))
                seg = Seg(kk, list(m.shape), m.get(tuple(kk)), val).expand()
                r = list_to_array(SList([seg]), I)
                r.dt = o.dt
                return r
            raise Unsupported("mixed boolean index")
        # integer arrays
        arrs = [(d, x) for d, x in enumerate(ks) if isinstance(x, SArr)]
        if any(x is None for x in ks):
            raise Unsupported("newaxis with fancy index")
        fo = o.frozen()
        idxs = [x.frozen() for _, x in arrs]
        bsh = self.bshape(I, *idxs)
        sc = {}
        slices = []
        for d, x in enumerate(ks):
            if isinstance(x, Slice):
                slices.append((d,) + self.slice_norm(I, x, o.shape[d]))
            elif not isinstance(x, SArr):
                sc[d] = self.index_norm(I, x, o.shape[d])
        adims = [d for d, x in enumerate(ks) if isinstance(x, SArr) or d in sc]
        contiguous = adims == list(range(adims[0], adims[-1] + 1))
        first = adims[0] if contiguous else 0
        nb = sum(1 for s in slices if s[0] < first)
        sh = [s[2] for s in slices[:nb]] + list(bsh) + [s[2] for s in slices[nb:]]

        def fn(idx):
            bi = idx[nb:nb + len(bsh)]
            si = idx[:nb] + idx[nb + len(bsh):]
            full = [None] * o.ndim
            for (d, _), a in zip(arrs, idxs):
                t = self.bget(a, bi)
                full[d] = t if tm.syn_nonneg(t) or getattr(a, "nonneg", False) or I.known(tm.le(ZERO, t)) else tm.ite(tm.lt(t, ZERO), t + o.shape[d], t)
            for d, t in sc.items():
                full[d] = t
            for (d, st, ln, step), i in zip(slices, si):
                full[d] = st + i * step
            return fo.get(tuple(full))
        return SArr(sh, fn, o.dt)

    def expand_dims(self, v, ax):
        fv = v
        sh = list(v.shape)
        sh.insert(ax, ONE)
        return SArr(sh, lambda idx: fv.get(idx[:ax] + idx[ax + 1:]), v.dt)

    def cast(self, t, dt):
        """value stored in an array of type dt"""
        if dt == "b":
            return tm.tobool(t)
        if t.sort == "B":
            t = num(t)
        if dt[0] in "iu" and t.sort != "I":
            t = tm.trunc(t)
        if dt in ("i2", "u1", "u2", "i4", "i1"):
            t = wrap(t, dt)
        return tm.f32(t) if dt == "f4" else t

    def store(self, I, o, region, valfn):
        """o: root array; region per dim; valfn(idx over range dims)->T"""
        from .loops import match
        while o.base is not None:
            # compose with the view's region
            nr, j = [], 0
            for r in o.region:
                if r[0] == "i":
                    nr.append(r)
                else:
                    q = region[j]
                    j += 1
                    if q[0] == "i":
                        nr.append(("i", r[1] + q[1] * r[3]))
                    else:
                        nr.append(("r", r[1] + q[1] * r[3], q[2], r[3] * q[3]))
            region, o = nr, o.base
        old, omemo = o.fn, o.memo
        dt = o.dt
        cv = lambda sub: self.cast(valfn(sub), dt)
        log = getattr(o, "log", None)

        def fn(idx):
            c, sub = match(region, idx)
            if c is FALSE:
                return memo_call(old, omemo, idx)
            v = cv(sub)
            return v if c is TRUE else tm.ite(c, v, memo_call(old, omemo, idx))
        o.setfn(fn)
        if log is not None:
            o.log = log + [(region, cv)]
        if o.org:
            I.safety.append(("frame", "store into caller's array %s" % o.org))

    def setitem(self, I, o, k, v):
        if isinstance(o, SList):
            if o.concrete() and not isinstance(k, Slice):
                its = o.items()
                c = cval(asT(k))
                if c is not None:
                    its[int(c)] = v
                    o.segs = [its]
                    return
            raise Unsupported("list item assignment")
        if isinstance(o, dict):
            if isinstance(k, (T, SArr, SList)):
                raise Unsupported("symbolic dict key")
            o[k] = v
            return
        if isinstance(o, Opaque) and "setitem" in o.attrs:
            return o.attrs["setitem"](I, o, k, v)
        if not isinstance(o, SArr):
            raise Unsupported("item assignment on %s" % type(o).__name__)
        ks = self.keylist(I, o, k)
        if any(x is None for x in ks):
            raise Unsupported("newaxis assignment")
        va = to_arr(v, I)
        va = va.frozen() if va.ndim else va
        if all(isinstance(x, Slice) or is_scalar(x) for x in ks):
            region = []
            for d, x in enumerate(ks):
                if isinstance(x, Slice):
                    region.append(("r",) + self.slice_norm(I, x, o.shape[d]))
                else:
                    if asT(x).sort == "R":
                        raise PyRaise("IndexError", "only integers")
                    region.append(("i", self.index_norm(I, x, o.shape[d])))
            tsh = SArr([r[2] for r in region if r[0] == "r"], None)
            self.check_assignable(I, va, tsh)
            self.store(I, o, region, lambda sub: self.bget_l(va, sub))
            return
        masks = [x for x in ks if isinstance(x, SArr) and x.dt == "b"]
        if masks:
            if len(masks) == 1 and ks[0] is masks[0] and va.ndim == 0 and o.base is None:
                m = masks[0].frozen()
                old, omemo = o.fn, o.memo
                val = self.cast(va.get(()), o.dt)
                o.setfn(lambda idx: tm.ite(m.get(idx[:m.ndim]), val, memo_call(old, omemo, idx)))
                if o.org:
                    I.safety.append(("frame", "masked store into caller's array %s" % o.org))
                if getattr(o, "log", None) is not None:
                    raise Unsupported("masked store in loop")
                return
            if len(masks) == 1 and ks[0] is masks[0] and masks[0].ndim == 1 and o.ndim == 1 and va.ndim <= 1:
                m, old = masks[0].frozen(), o.frozen()
                put = self.masked_value(m, va)
                self.store(I, o, [("r", ZERO, o.shape[0], ONE)], lambda sub: tm.ite(m.get(sub), self.cast(put(sub[0]), o.dt), old.get(sub)))
                return
            raise Unsupported("masked assignment")
        # scatter
        arrs = [x for x in ks if isinstance(x, SArr)]
        if len(arrs) == o.ndim and o.base is None and getattr(o, "log", None) is None:
            fi = [x.frozen() for x in arrs]
            sh = self.bshape(I, *fi)
            old, omemo = o.fn, o.memo
            ks_ = [tm.fresh("k") for _ in sh]
            rng = [and_(tm.le(ZERO, k_), tm.lt(k_, n_)) for k_, n_ in zip(ks_, sh)]
            goal = and_(*[and_(tm.le(ZERO, self.bget(a, tuple(ks_))), tm.lt(self.bget(a, tuple(ks_)), n_)) for a, n_ in zip(fi, o.shape)])
            if smt.prove(list(I.pc) + rng, goal, timeout=4)[0] != "proved":
                raise Unsupported("scatter positions not shown inside the array")
            terms = [SArr(sh, (lambda a: lambda idx: self.bget(a, idx))(a), "i8").to_term() for a in fi]

            l = terms[0].args[-1]
            b = l.args[-1]
            if len(terms) == 1 and len(sh) == 1 and o.ndim == 1 and b.op == "app" and b.args[0] == "argsort" and b.args[2] is l.args[0] and b.args[1].args[1] is sh[0] and sh[0] is o.shape[0]:
                # a permutation: every position is written once, by the position that its inverse gives
                o.setfn(lambda idx: self.cast(self.bget(va, (T("app", ("argsort", terms[0], idx[0]), "I"),)), o.dt))
                if o.org:
                    I.safety.append(("frame", "scatter into caller's array %s" % o.org))
                return

            def fn(idx):
                p = tuple(T("app", ("pick",) + tuple(terms) + tuple(idx) + (i,), "I") for i in range(len(sh)))
                hit = T("app", ("hit",) + tuple(terms) + tuple(idx), "B")
                return tm.ite(hit, self.cast(self.bget(va, p), o.dt), memo_call(old, omemo, idx))
            o.setfn(fn)
            if o.org:
                I.safety.append(("frame", "scatter into caller's array %s" % o.org))
            return
        raise Unsupported("fancy assignment")

    def masked_value(self, m, va):
        """x[m] = va: the value that goes to position k, for a scalar or an array selected by the same mask"""
        if va.ndim == 0:
            return lambda k: va.get(())
        kk, p = tm.fresh("k"), tm.fresh("p")
        d = Seg([kk], [m.shape[0]], m.get((kk,)), ZERO).dim()
        if va.shape[0] is not T("app", ("clen", d), "I"):
            raise Unsupported("masked assignment")
        v = va.get((p,))

        def put(k):
            r = tm.subst(v, {tm.cix(d, 0, p): k})
            if tm.occurs(p, r):
                raise Unsupported("masked assignment")
            return r
        return put

    def check_assignable(self, I, va, tgt):
        if va.ndim > tgt.ndim:
            if all(cval(s) == 1 for s in va.shape[:va.ndim - tgt.ndim]):
                return
            raise PyRaise("ValueError", "could not broadcast input array")
        self.bshape(I, va, tgt)

    def bget_l(self, a, idx):
        if a.ndim > len(idx):
            return a.get((ZERO,) * (a.ndim - len(idx)) + tuple(idx))
        return self.bget(a, tuple(idx))

    def store_all(self, I, o, v):
        if o.base is None and getattr(o, "log", None) is None:
            va = to_arr(v, I).frozen()
            if any(a is not b and not I.known(tm.eq(a, b)) for a, b in zip(va.shape, o.shape)) or va.ndim != o.ndim:
                raise Unsupported("in-place shape")
            dt = o.dt
            if dt[0] in "iu" and va.dt[0] == "f":
                raise PyRaise("UFuncTypeError", "cannot cast")
            o.setfn(lambda idx: self.cast(va.get(idx), dt))
            if o.org:
                I.safety.append(("frame", "in-place update of caller's array %s" % o.org))
            return
        self.setitem(I, o, Ellipsis, v)

    # -- attributes and methods -----------------------------------------------------
    def getattr(self, I, o, name):
        if isinstance(o, SArr):
            if name == "shape":
                return tuple(o.shape)
            if name == "T":
                return self["numpy.transpose"](I, o)
            if name == "size":
                r = ONE
                for s in o.shape:
                    r = r * s
                return r
            if name == "ndim":
                return o.ndim
            if name == "dtype":
                return Opaque("dtype", {"dt": o.dt})
            if name == "real":
                return o
            return Bound(o, name)
        if isinstance(o, (SList, dict, str, tuple)):
            return Bound(o, name)
        if isinstance(o, LibFn):
            q = o.name + "." + name
            if q in self.consts:
                return self.consts[q]
            return LibFn(q)
        if isinstance(o, Opaque):
            if name in o.attrs:
                return o.attrs[name]
            return Bound(o, name)
        if isinstance(o, (T, int, float)):
            if name == "shape":
                return ()
            if name == "dtype":
                return Opaque("dtype", {"dt": scalar_dt(o)})
            if name == "real":
                return o
            return Bound(o, name)
        if isinstance(o, (tuple,)):
            return Bound(o, name)
        raise Unsupported("attribute %s of %s" % (name, type(o).__name__))

    def setattr(self, I, o, name, v):
        raise Unsupported("attribute assignment")

    def method(self, I, o, name, args, kw):
        if isinstance(o, SArr) or (isinstance(o, T) and o.sort != "U") or isinstance(o, (int, float)):
            if ("ndarray." + name) in self:
                return self["ndarray." + name](I, o, *args, **kw)
            if ("numpy." + name) in self and name in ("sum", "mean", "min", "max", "argsort", "argmin", "argmax", "reshape", "transpose",
                                                      "std", "round", "clip", "any", "all", "ravel", "nonzero", "squeeze", "dot", "copy", "cumsum", "prod", "swapaxes", "repeat"):
                return self["numpy." + name](I, o, *args, **kw)
            raise Unsupported("array method %s" % name)
        if isinstance(o, SList):
            m = getattr(self, "list_" + name, None)
            if m is None:
                raise Unsupported("list method %s" % name)
            return m(I, o, *args, **kw)
        if isinstance(o, dict):
            return self.dict_method(I, o, name, args, kw)
        if isinstance(o, str):
            return self.str_method(I, o, name, args, kw)
        if isinstance(o, Opaque):
            h = self.methods.get((o.tag, name))
            if h is not None:
                return h(I, o, *args, **kw)
            raise Unsupported("method %s.%s" % (o.tag, name))
        raise Unsupported("method %s of %s" % (name, type(o).__name__))

    def dict_method(self, I, o, name, args, kw):
        if name == "items":
            return SList.of([(k, v) for k, v in o.items()])
        if name == "keys":
            return SList.of(list(o.keys()))
        if name == "values":
            return SList.of(list(o.values()))
        if name == "get":
            return o.get(args[0], args[1] if len(args) > 1 else None)
        if name == "copy":
            return dict(o)
        if name == "pop":
            if args[0] in o:
                return o.pop(args[0])
            if len(args) > 1:
                return args[1]
            raise PyRaise("KeyError", "")
        if name == "update":
            if args:
                o.update(args[0])
            o.update(kw)
            return None
        raise Unsupported("dict method " + name)

    def str_method(self, I, o, name, args, kw):
        if all(isinstance(a, (str, int)) for a in args) and name in ("lower", "upper", "strip", "startswith", "endswith", "replace", "split", "find", "rfind", "isdigit", "zfill", "lstrip", "rstrip", "splitlines", "count", "title", "capitalize"):
            r = getattr(o, name)(*args)
            return SList.of(r) if isinstance(r, list) else r
        if name == "format":
            return self.str_format(I, o, args, kw)
        if name == "join":
            its = self.items(I, args[0])
            return self.strcat(I, [x for i, it in enumerate(its) for x in ([o, it] if i else [it])]) if its else ""
        raise Unsupported("str method " + name)

    def frame_list(self, I, o):
        if o.org:
            I.safety.append(("frame", "caller's list %s modified" % o.org))

    def list_append(self, I, o, v):
        self.frame_list(I, o)
        o.append(v)

    def list_extend(self, I, o, v):
        self.frame_list(I, o)
        s = self.seq(I, v)
        o.extend_segs(s.segs)

    def list_copy(self, I, o):
        return o.copy()

    def list_insert(self, I, o, i, v):
        self.frame_list(I, o)
        c = cval(asT(i))
        if c == 0:
            o.segs = [[v]] + o.segs
            return
        if o.concrete() and c is not None:
            its = o.items()
            its.insert(int(c), v)
            o.segs = [its]
            return
        raise Unsupported("insert")

    def list_reverse(self, I, o):
        self.frame_list(I, o)
        r = self.getitem(I, o, Slice(None, None, -1))
        o.segs = r.segs

    def list_pop(self, I, o, i=-1):
        self.frame_list(I, o)
        its = o.items()
        v = its.pop(int(cval(asT(i))))
        o.segs = [its]
        return v

    def list_sort(self, I, o, key=None, reverse=False):
        self.frame_list(I, o)
        r = self["builtins.sorted"](I, o, key=key, reverse=reverse)
        o.segs = r.segs

    def list_index(self, I, o, v):
        raise Unsupported("list.index")

    def list_count(self, I, o, v):
        raise Unsupported("list.count")

    # -- strings -------------------------------------------------------------------
    def strcat(self, I, parts):
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        ps = []
        for p in parts:
            if isinstance(p, Opaque) and p.tag == "str":
                ps += p.attrs["parts"]
            else:
                ps.append(p)
        return Opaque("str", {"parts": ps})

    def format(self, I, x, spec, conv):
        if isinstance(x, str) and not spec:
            return x
        if isinstance(x, int) and not isinstance(x, bool) and isinstance(spec, str):
            return format(x, spec)
        return Opaque("str", {"parts": [("fmt", x, spec)]})

    def str_format(self, I, o, args, kw):
        import string
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if spec and "{" in spec:
                raise Unsupported("nested format")
            if field == "":
                v, auto = args[auto], auto + 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupported("format field")
            parts.append(self.format(I, v, spec or "", ord(conv) if conv else -1))
        return self.strcat(I, parts) if parts else ""

    def format_percent(self, I, a, b):
        import re
        args = list(b) if isinstance(b, tuple) else [b]
        parts, pos = [], 0
        for m in re.finditer(r"%([-+ 0#]*\d*(?:\.\d+)?)([sdifgeGEFr%])", a):
            if m.start() > pos:
                parts.append(a[pos:m.start()])
            pos = m.end()
            opt, c = m.groups()
            if c == "%":
                parts.append("%")
                continue
            if not args:
                raise PyRaise("TypeError", "not enough arguments for format string")
            v = args.pop(0)
            if c in "sr":
                if opt:
                    raise Unsupported("percent formatting")
                parts.append(self.format(I, v, "", -1 if c == "s" else 114))
            elif c in "di":
                if not (isinstance(v, int) or isinstance(v, T) and v.sort == "I"):
                    raise Unsupported("percent formatting")
                parts.append(self.format(I, v, opt + ("d" if opt else ""), -1))
            else:
                parts.append(self.format(I, v, opt + c, -1))
        if "%" in a[pos:] or args:
            raise Unsupported("percent formatting")
        if a[pos:]:
            parts.append(a[pos:])
        return self.strcat(I, parts) if parts else ""

    def path_op(self, I, op, a, b):
        raise Unsupported("path operator")

    def enter(self, I, v):
        return v


def memo_call(fn, memo, idx):
    r = memo.get(idx)
    if r is None:
        r = fn(idx)
        memo[idx] = r
    return r


def wrap(t, dt):
    c = cval(t)
    bits = {"1": 8, "2": 16, "4": 32}[dt[1]]
    if c is not None:
        m = 1 << bits
        c = int(c) % m
        if dt[0] == "i" and c >= m // 2:
            c -= m
        return const(c)
    nm = "wrap%s%d" % ("u" if dt[0] == "u" else "", bits)
    if t.op == "app" and t.args[0] == nm:
        return t
    if t.op == "ite":
        return tm.ite(t.args[0], wrap(t.args[1], dt), wrap(t.args[2], dt))
    return T("app", (nm, t), "I")


def pybin(op, a, b):
    try:
        return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b,
                "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b,
                "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "LShift": lambda: a << b, "RShift": lambda: a >> b}[op]()
    except ZeroDivisionError:
        raise PyRaise("ZeroDivisionError", "")
    except KeyError:
        raise Unsupported("operator " + op)


CMP = {"Eq": tm.eq, "NotEq": tm.ne, "Lt": tm.lt, "Gt": tm.gt, "LtE": tm.le, "GtE": tm.ge}
ARITH = {"Add": lambda x, y: num(x) + num(y), "Sub": lambda x, y: num(x) - num(y), "Mult": lambda x, y: num(x) * num(y),
         "Div": lambda x, y: num(x) / num(y), "Pow": lambda x, y: tm.power(num(x), num(y)),
         "FloorDiv": lambda x, y: tm.idiv(num(x), num(y)), "Mod": lambda x, y: tm.modv(num(x), num(y))}
