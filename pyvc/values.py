"""Symbolic values: arrays as index functions, lists as concatenations of
concrete items and comprehension segments."""
from fractions import Fraction
from . import terms as tm
from .terms import T, ZERO, ONE, const, cval, num


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, name, msg=""):
        super().__init__(name, msg)
        self.name, self.msg = name, msg


class Poison:
    """value that depends on loop history in a way we do not summarise"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Poison(%s)" % self.why


def asT(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (bool,)):
        return tm.boolc(x)
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    if isinstance(x, SArr) and x.ndim == 0:
        return x.get(())
    raise Unsupported("scalar expected, got %s" % type(x).__name__)


def is_scalar(x):
    return isinstance(x, (T, int, float, bool, Fraction)) or (isinstance(x, SArr) and x.ndim == 0)


class SArr:
    """dtype: f8 f4 i8 b u1 u2 i2 i4 O"""

    def __init__(self, shape, fn, dt="f8", base=None, region=None, org=None):
        self.shape = tuple(num(s) for s in shape)
        self.fn = fn
        self.dt = dt
        self.base = base          # SArr this is a view of
        self.region = region      # per base dim ('i', t) | ('r', start, n, step)
        self.org = org            # provenance tag (name of the input it came from)
        self.memo = {}
        self.stores = 0
        self.unfl = None          # (shape, array) this 1-D array is the flattening of
        self.unfl_rows = None     # the same for each row of a stack of flattened arrays
        self.rows = None          # the rows of an array under construction in a loop
        self.src = None           # the list of numbers it was made from

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        idx = tuple(num(i) for i in idx)
        if len(idx) != len(self.shape):
            raise Unsupported("index arity")
        if self.base is not None:
            return self.base.get(self._bidx(idx))
        r = self.memo.get(idx)
        if r is None:
            r = self.fn(idx)
            if not isinstance(r, T):
                r = num(r)
            self.memo[idx] = r
        return r

    def _bidx(self, idx):
        out, j = [], 0
        for r in self.region:
            if r[0] == "i":
                out.append(r[1])
            else:
                out.append(r[1] + idx[j] * r[3])
                j += 1
        return tuple(out)

    def root(self):
        return self.base.root() if self.base is not None else self

    def setfn(self, fn):
        self.fn = fn
        self.memo = {}
        self.stores += 1
        self.unfl = self.unfl_rows = self.src = None

    def to_term(self):
        """canonical array term"""
        ks = [tm.fresh("a") for _ in self.shape]
        body = self.get(tuple(ks))
        return T("app", ("arr",) + self.shape + (tm.lam(ks, body),), "L")

    def frozen(self):
        """an immutable copy (no view)"""
        if self.base is None:
            fn, memo = self.fn, self.memo
            a = SArr(self.shape, fn, self.dt)
            a.memo = dict(memo)
            a.unfl, a.unfl_rows = self.unfl, self.unfl_rows
            a.rows, a.src = self.rows, self.src
            return a
        ks = [tm.fresh("a") for _ in self.shape]
        l = tm.lam(ks, self.get(tuple(ks)))
        return SArr(self.shape, lambda idx: tm.lam_apply(l, idx), self.dt)

    def isint(self):
        return self.dt[0] in "iu"

    def __repr__(self):
        return "SArr(%s,%s)" % (",".join(map(repr, self.shape)), self.dt)


def from_term(a, dt):
    dims, l = a.args[1:-1], a.args[-1]
    return SArr(dims, lambda idx: tm.lam_apply(l, idx), dt)


class Seg:
    """{ val(k1..km) : k1 < n1, k2 < n2(k1), ..., cond }  in lexicographic order"""

    def __init__(self, ks, ns, cond, val):
        self.ks, self.ns, self.cond, self.val = list(ks), list(ns), cond, val

    def dim(self):
        args = []
        for i, n in enumerate(self.ns):
            args.append(tm.lam(self.ks[:i], n) if i else n)
        args.append(tm.lam(self.ks, self.cond))
        return T("app", ("cdim",) + tuple(args), "L")

    def simple(self):
        return len(self.ks) == 1 and self.cond is tm.TRUE

    def length(self):
        if self.simple():
            return self.ns[0]
        return T("app", ("clen", self.dim()), "I")

    def item(self, p):
        p = num(p)
        if self.simple():
            return vsubst(self.val, {self.ks[0]: p})
        d = self.dim()
        m = {}
        for i, k in enumerate(self.ks):
            m[k] = tm.cix(d, i, p)
        return vsubst(self.val, m)

    def expand(self):
        """rewrite a level that ranges over clen(dim) with uses only via cix"""
        for i, (k, n) in enumerate(zip(self.ks, self.ns)):
            if n.op == "app" and n.args[0] == "clen":
                d = n.args[1]
                nl = len(d.args) - 2
                nk = [tm.fresh("k") for _ in range(nl)]
                m = {T("app", ("cix", d, l, k), "I"): nk[l] for l in range(nl)}
                nns = []
                for l in range(nl):
                    a = d.args[1 + l]
                    nns.append(a if l == 0 else tm.lam_apply(a, nk[:l]))
                dc = tm.lam_apply(d.args[-1], nk)
                try:
                    v2 = vsubst(self.val, m)
                    c2 = tm.subst(self.cond, m)
                    n2 = [tm.subst(x, m) for x in self.ns[i + 1:]]
                except Unsupported:
                    return self
                if tm.occurs(k, c2) or any(tm.occurs(k, x) for x in n2) or voccurs(k, v2):
                    return self
                return Seg(self.ks[:i] + nk + self.ks[i + 1:], self.ns[:i] + nns + n2,
                           tm.and_(dc, c2), v2).expand()
        return self


class SList:
    """python list (or deque of items); segs: list of python lists | Seg"""

    def __init__(self, segs=(), kind="list"):
        self.segs = list(segs)
        self.kind = kind
        self.org = None

    @staticmethod
    def of(items):
        return SList([list(items)] if items else [])

    def concrete(self):
        return all(isinstance(s, list) for s in self.segs)

    def items(self):
        out = []
        for s in self.segs:
            if not isinstance(s, list):
                raise Unsupported("symbolic list used as a concrete one")
            out += s
        return out

    def length(self):
        n = ZERO
        for s in self.segs:
            n = n + (len(s) if isinstance(s, list) else s.length())
        return n

    def append(self, v):
        if self.segs and isinstance(self.segs[-1], list):
            self.segs[-1] = self.segs[-1] + [v]
        else:
            self.segs.append([v])

    def extend_segs(self, segs):
        for s in segs:
            if isinstance(s, list):
                for v in s:
                    self.append(v)
            else:
                self.segs.append(s)

    def copy(self):
        return SList(list(self.segs), self.kind)

    def item(self, p):
        """item at a (possibly symbolic) non-negative index"""
        c = cval(num(p)) if is_scalar(p) else None
        if c is not None:
            c = int(c)
            off = ZERO
            for s in self.segs:
                oc = cval(off)
                if isinstance(s, list):
                    if oc is not None and c - int(oc) < len(s):
                        return s[c - int(oc)]
                    off = off + len(s)
                else:
                    n = s.length()
                    nc = cval(n)
                    if len(self.segs) == 1:
                        return s.item(const(c) - off)
                    if nc is None:
                        break
                    if c - int(oc) < nc:
                        return s.item(const(c) - off)
                    off = off + n
            else:
                raise PyRaise("IndexError", "list index")
        p = num(p)
        if len(self.segs) == 1:
            s = self.segs[0]
            if isinstance(s, Seg):
                return s.item(p)
            return vselect(s, p)
        off, parts = ZERO, []
        for s in self.segs:
            n = const(len(s)) if isinstance(s, list) else s.length()
            q = p - off
            v = vselect(s, q) if isinstance(s, list) else s.item(q)
            off = off + n
            parts.append((tm.lt(p, off), v))
        r = parts[-1][1]
        for c, v in reversed(parts[:-1]):
            r = vite(c, v, r)
        return r

    def __repr__(self):
        return "SList(%r)" % (["list%d" % len(s) if isinstance(s, list) else "seg" for s in self.segs],)


class SSet:
    """python set: membership only"""

    def __init__(self, seq):
        self.seq = seq

    def vsubst(self, m):
        return SSet(vsubst(self.seq, m))


def vselect(items, p):
    if not items:
        raise Unsupported("index into empty list")
    r = items[-1]
    for i in range(len(items) - 2, -1, -1):
        r = vite(tm.eq(p, const(i)), items[i], r)
    return r


def vite(c, a, b):
    """conditional value"""
    c = tm.tobool(c)
    if c is tm.TRUE:
        return a
    if c is tm.FALSE:
        return b
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        return tm.ite(c, asT(a), asT(b))
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim:
        sh = tuple(tm.ite(c, x, y) for x, y in zip(a.shape, b.shape))
        fa, fb = a.frozen(), b.frozen()
        return SArr(sh, lambda idx: tm.ite(c, fa.get(idx), fb.get(idx)), a.dt if a.dt == b.dt else "f8")
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SList) and isinstance(b, SList) and a.concrete() and b.concrete() and len(a.items()) == len(b.items()):
        return SList.of([vite(c, x, y) for x, y in zip(a.items(), b.items())])
    if type(a) in (str, type(None)) and a == b:
        return a
    raise Unsupported("cannot merge %s with %s" % (type(a).__name__, type(b).__name__))


def vsubst(v, m):
    if isinstance(v, T):
        return tm.subst(v, m)
    if isinstance(v, SArr):
        ks = [tm.fresh("a") for _ in v.shape]
        l = tm.lam(ks, tm.subst(v.get(tuple(ks)), m)) if ks else None
        if l is None:
            t = tm.subst(v.get(()), m)
            return SArr((), lambda idx: t, v.dt)
        return SArr([tm.subst(s, m) for s in v.shape], lambda idx: tm.lam_apply(l, idx), v.dt, org=v.org)
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, SList):
        segs = []
        for s in v.segs:
            if isinstance(s, list):
                segs.append([vsubst(x, m) for x in s])
            else:
                segs.append(Seg(s.ks, [tm.subst(n, m) for n in s.ns], tm.subst(s.cond, m), vsubst(s.val, m)))
        return SList(segs, v.kind)
    if isinstance(v, (int, float, str, bool, type(None), Fraction)):
        return v
    if isinstance(v, dict):
        return {k: vsubst(x, m) for k, x in v.items()}
    if isinstance(v, Poison):
        return v
    if hasattr(v, "vsubst"):
        return v.vsubst(m)
    raise Unsupported("substitution in %s" % type(v).__name__)


def voccurs(k, v):
    if isinstance(v, T):
        return tm.occurs(k, v)
    if isinstance(v, SArr):
        ks = [tm.fresh("a") for _ in v.shape]
        return any(tm.occurs(k, s) for s in v.shape) or tm.occurs(k, v.get(tuple(ks)))
    if isinstance(v, tuple):
        return any(voccurs(k, x) for x in v)
    if isinstance(v, SList):
        for s in v.segs:
            if isinstance(s, list):
                if any(voccurs(k, x) for x in s):
                    return True
            elif any(tm.occurs(k, n) for n in s.ns) or tm.occurs(k, s.cond) or voccurs(k, s.val):
                return True
        return False
    if hasattr(v, "a") and hasattr(v, "b") and hasattr(v, "c"):           # a slice
        return any(voccurs(k, x) for x in (v.a, v.b, v.c))
    return False


def list_to_array(lst, ctx=None):
    """np.asarray of a list of scalars / arrays / tuples"""
    if isinstance(lst, SArr):
        return lst
    if isinstance(lst, tuple):
        lst = SList.of(list(lst))
    r = _list_to_array(lst, ctx)
    if r.ndim == 1:
        r.src = lst.copy()
    return r


def _list_to_array(lst, ctx):
    if lst.concrete():
        its = lst.items()
        if not its:
            return SArr((ZERO,), lambda idx: ZERO, "f8")
        its = [to_arr(x, ctx) for x in its]
        sh = its[0].shape
        if any(i.ndim != len(sh) for i in its):
            raise Unsupported("ragged array")
        for i in its[1:]:
            for a, b in zip(i.shape, sh):
                if a is not b and not (ctx and ctx.known(tm.eq(a, b))):
                    raise Unsupported("possibly ragged array")
        fr = [i.frozen() for i in its]
        dt = join_dt([i.dt for i in its])

        def fn(idx):
            c = cval(idx[0])
            if c is not None:
                ci = int(c)
                return fr[ci if ci >= 0 else ci + len(fr)].get(idx[1:])
            r = fr[-1].get(idx[1:])
            for j in range(len(fr) - 2, -1, -1):
                r = tm.ite(tm.eq(idx[0], const(j)), fr[j].get(idx[1:]), r)
            return r
        r = SArr((const(len(its)),) + sh, fn, dt)
        if all(i.unfl is not None for i in fr):
            r.unfl_rows = [i.unfl for i in fr]
        return r
    # symbolic
    parts = []
    for s in lst.segs:
        if isinstance(s, list):
            if s:
                parts.append(list_to_array(SList([s]), ctx))
        else:
            v = to_arr(s.val, ctx)
            ks = [tm.fresh("a") for _ in v.shape]
            for d in v.shape:
                for k in s.ks:
                    if tm.occurs(k, d):
                        raise Unsupported("ragged array")
            body = v.get(tuple(ks))
            allv = tm.lam(list(s.ks) + ks, body)
            if s.simple():
                fn = (lambda al: lambda idx: tm.lam_apply(al, idx))(allv)
            else:
                d = s.dim()
                nl = len(s.ks)
                fn = (lambda al, d, nl: lambda idx: tm.lam_apply(
                    al, tuple(tm.cix(d, l, num(idx[0])) for l in range(nl)) + tuple(idx[1:])))(allv, d, nl)
            parts.append(SArr((s.length(),) + v.shape, fn, v.dt))
    if not parts:
        return SArr((ZERO,), lambda idx: ZERO, "f8")
    return concat_arrays(parts, ctx)


def growing(rows, trail, dt):
    """an array that a loop extends row by row (rows: the list of its rows)"""
    def fn(idx):
        raise Unsupported("element of an array under construction")
    r = SArr((rows.length(),) + tuple(trail), fn, dt)
    r.rows = rows
    return r


def concat_arrays(parts, ctx=None):
    if len(parts) == 1:
        return parts[0]
    if getattr(parts[0], "rows", None) is not None:
        rows = parts[0].rows.copy()
        for p in parts[1:]:
            if p.ndim != parts[0].ndim or any(a is not b for a, b in zip(p.shape[1:], parts[0].shape[1:])):
                raise Unsupported("concat shape")
            fp = p.frozen()
            row = lambda j: SArr(fp.shape[1:], (lambda fp, j: lambda idx: fp.get((j,) + idx))(fp, j), fp.dt)
            c = cval(fp.shape[0])
            if c is not None:
                for j in range(int(c)):
                    rows.append(row(const(j)))
            else:
                k = tm.fresh("k")
                rows.extend_segs([Seg([k], [fp.shape[0]], tm.TRUE, row(k))])
        return growing(rows, parts[0].shape[1:], join_dt([p.dt for p in parts]))
    sh = parts[0].shape[1:]
    for p in parts[1:]:
        if p.ndim != parts[0].ndim:
            raise Unsupported("concat arity")
        for a, b in zip(p.shape[1:], sh):
            if a is not b and not (ctx and ctx.known(tm.eq(a, b))):
                raise Unsupported("concat shape")
    fr = [p.frozen() for p in parts]
    offs = [ZERO]
    for p in fr:
        offs.append(offs[-1] + p.shape[0])

    def fn(idx):
        r = fr[-1].get((idx[0] - offs[-2],) + idx[1:])
        for j in range(len(fr) - 2, -1, -1):
            r = tm.ite(tm.lt(idx[0], offs[j + 1]), fr[j].get((idx[0] - offs[j],) + idx[1:]), r)
        return r
    return SArr((offs[-1],) + sh, fn, join_dt([p.dt for p in parts]))


def join_dt(ds):
    ds = list(ds)
    if all(d == ds[0] for d in ds):
        return ds[0]
    if any(d == "O" for d in ds):
        return "O"
    fs = [d for d in ds if d[0] == "f"]
    if fs:
        return "f8" if "f8" in fs or any(d in ("i8", "i4") for d in ds) else fs[0]
    xs = [d for d in ds if d != "b"]
    if "x8" in xs:
        return "x8"
    if all(x == xs[0] for x in xs):
        return xs[0]
    return "i8"


def scalar_dt(x):
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i8"
    if isinstance(x, (float, Fraction)):
        return "f8"
    if isinstance(x, T):
        return {"I": "x8", "B": "b"}.get(x.sort, "f8")
    return "f8"


def to_arr(x, ctx=None):
    if isinstance(x, SArr):
        return x
    if isinstance(x, (SList, tuple)):
        return list_to_array(x, ctx)
    if isinstance(x, (T, int, float, bool, Fraction)):
        t = asT(x)
        return SArr((), lambda idx: t, scalar_dt(x))
    raise Unsupported("array from %s" % type(x).__name__)
