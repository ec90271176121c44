"""numpy / scipy / builtins models."""
from .lib import *
from .lib import Lib, PI, wrap, memo_call, CMP, ARITH

LIB = Lib()


def d(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


DT = {"float": "f8", "float64": "f8", "float32": "f4", "double": "f8", "single": "f4", "float16": "f4", "int": "i8", "int64": "i8", "intp": "i8",
      "int_": "i8", "int32": "i4", "int16": "i2", "int8": "i1", "uint8": "u1", "uint16": "u2", "uint32": "u4", "bool": "b", "bool_": "b"}


def dtype_of(x, default="f8"):
    if x is None:
        return default
    if isinstance(x, Opaque) and x.tag == "dtype":
        return x.attrs["dt"]
    if isinstance(x, LibFn):
        n = x.name.split(".")[-1]
        if n in DT:
            return DT[n]
    if isinstance(x, str) and x in DT:
        return DT[x]
    raise Unsupported("dtype %r" % (x,))


def conv(t, dt):
    t = asT(t)
    if dt == "b":
        return tm.tobool(t)
    if t.sort == "B":
        t = num(t)
    if dt[0] == "f":
        return tm.f32(t) if dt == "f4" else t
    if dt[0] in "iu":
        t = tm.trunc(t)
        if dt in ("i8", "u4"):
            return t
        return wrap(t, dt)
    return t


def mkcast(dt):
    def f(I, x=0, **kw):
        if isinstance(x, (SList, tuple)):
            x = to_arr(x, I)
        if isinstance(x, SArr) and x.ndim:
            fx = x.frozen()
            if dt == "i4" and fx.ndim == 1 and fits(I, fx, dt):
                r = SArr(fx.shape, fx.fn, dt)
                r.src = fx.src
                if getattr(x, "nonneg", False):
                    r.nonneg = True
                return r
            r = SArr(x.shape, lambda idx: conv(fx.get(idx), dt), dt)
            if fx.unfl is not None:
                us, inner = fx.unfl
                r.unfl = (us, SArr(us, lambda idx: conv(inner.get(idx), dt), dt))
            return r
        if isinstance(x, Opaque):
            raise Unsupported("cast of opaque")
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            if dt[0] == "f" and not (dt == "f4" and tm.ROUND32):
                return float(x) if isinstance(x, float) else x
            if dt == "i8":
                return int(x)
        r = conv(x, dt)
        if r.op == "app" and r.args[0].startswith("wrap") and not any(v.op == "bv" for v in tm.free_vars(r)) and len(tm.subterms(r, bound=True)) < 60:
            lo, hi = int_range(dt)
            if I.known(tm.and_(tm.le(const(lo), r.args[1]), tm.le(r.args[1], const(hi)))):
                return r.args[1]
        return r
    return f


def fits(I, x, dt):
    """every element is in the range of the integer type"""
    q = tm.fresh("q")
    e = x.get((q,))
    if e.sort != "I" or len(tm.subterms(e, bound=True)) > 400:
        return False
    lo, hi = int_range(dt)
    del_ = len(I.pc)
    I.pc += [tm.le(ZERO, q), tm.lt(q, x.shape[0])]
    try:
        return I.known(and_(tm.le(const(lo), e), tm.le(e, const(hi))))
    finally:
        del I.pc[del_:]


def int_range(dt):
    b = {"1": 8, "2": 16, "4": 32}[dt[1]]
    return (0, (1 << b) - 1) if dt[0] == "u" else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


for _n, _dt in DT.items():
    LIB["numpy." + _n] = mkcast(_dt)


@d("builtins.int")
def _int(I, x=0):
    if isinstance(x, (int, float)):
        return int(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            raise PyRaise("ValueError", "int()")
    if isinstance(x, Opaque):
        raise Unsupported("int of opaque")
    return tm.trunc(num(asT(x)))


@d("builtins.float")
def _float(I, x=0.0):
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, Opaque):
        h = LIB.methods.get((x.tag, "__float__"))
        if h:
            return h(I, x)
        raise Unsupported("float of opaque")
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError:
            raise PyRaise("ValueError", "float()")
    return num(asT(x))


@d("builtins.bool")
def _bool(I, x=False):
    return LIB.truth(I, x)


@d("builtins.len")
def _len(I, x):
    if isinstance(x, SList):
        n = x.length()
        c = cval(n)
        return int(c) if c is not None else n
    if isinstance(x, (tuple, dict, str)):
        return len(x)
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise PyRaise("TypeError", "len() of unsized object")
        c = cval(x.shape[0])
        return int(c) if c is not None else x.shape[0]
    if isinstance(x, Range):
        return x.n
    if is_scalar(x) or x is None:
        raise PyRaise("TypeError", "len()")
    raise Unsupported("len of %s" % type(x).__name__)


@d("builtins.range")
def _range(I, a, b=None, c=1):
    if b is None:
        a, b = 0, a
    a, b, c = asT(a), asT(b), asT(c)
    for t in (a, b, c):
        if t.sort == "R":
            raise PyRaise("TypeError", "range of float")
    sc = cval(c)
    if sc is None:
        if not I.known(tm.gt(c, ZERO)):
            raise Unsupported("range step")
        n = LIB.cdiv(I, b - a, c)
    elif sc == 1:
        n = b - a
        if not I.known(tm.le(ZERO, n)):
            n = tm.maxv(n, ZERO)
    elif sc > 0:
        n = LIB.cdiv(I, b - a, c)
    elif sc < 0:
        n = LIB.cdiv(I, a - b, -c)
    else:
        raise PyRaise("ValueError", "range step")
    return Range(a, n, c)


@d("builtins.enumerate")
def _enumerate(I, x, start=0):
    out = SList([])
    off = asT(start)
    for p in LIB.iterate(I, x):
        if p[0] == "items":
            for v in p[1]:
                c = cval(off)
                out.append((int(c) if c is not None else off, v))
                off = off + 1
        else:
            k = tm.fresh("k")
            n = p[1] if I.known(tm.le(ZERO, p[1])) else tm.maxv(p[1], ZERO)
            out.segs.append(LazySeg(n, (lambda off, f: lambda j: (off + j, f(j)))(off, p[2])))
            off = off + n
    return out


class LazySeg(Seg):
    """segment given by an item function; keeps array items as live views"""

    def __init__(self, n, f):
        k = tm.fresh("k")
        self.f = f
        super().__init__([k], [n], TRUE, None)

    @property
    def val(self):
        return self.f(self.ks[0])

    @val.setter
    def val(self, v):
        pass

    def item(self, p):
        return self.f(num(p))

    def expand(self):
        return Seg(self.ks, self.ns, self.cond, self.val).expand()


@d("builtins.zip")
def _zip(I, *xs):
    its = [LIB.iterate(I, x) for x in xs]
    if all(all(p[0] == "items" for p in it) for it in its):
        ls = [sum((p[1] for p in it), []) for it in its]
        return SList.of([tuple(t) for t in zip(*ls)])
    ss = [LIB.seq(I, x) if not isinstance(x, (SArr, Range)) else x for x in xs]
    ns = [_len(I, s) for s in ss]
    n = asT(ns[0])
    for m in ns[1:]:
        m = asT(m)
        if m is not n and not I.known(tm.eq(m, n)):
            n = tm.minv(n, m)
    getters = [(lambda s: (lambda j: LIB.getitem(I, s, j) if isinstance(s, (SArr, Range)) else s.item(j)))(s) for s in ss]
    return SList([LazySeg(n, lambda j: tuple(g(j) for g in getters))])


@d("builtins.list")
def _list(I, x=None):
    if x is None:
        return SList([])
    s = LIB.seq(I, x)
    return SList([g.expand() if isinstance(g, LazySeg) else g for g in s.segs])


@d("builtins.tuple")
def _tuple(I, x=()):
    if isinstance(x, tuple):
        return x
    s = LIB.seq(I, x)
    if s.concrete():
        return tuple(s.items())
    r = s.copy()
    r.kind = "tuple"
    return r


@d("builtins.dict")
def _dict(I, x=None, **kw):
    r = dict(x) if isinstance(x, dict) else {}
    r.update(kw)
    return r


LIB["collections.OrderedDict"] = _dict


@d("builtins.set", "builtins.frozenset")
def _set(I, x=()):
    return SSet(LIB.seq(I, x.seq if isinstance(x, SSet) else x))


@d("builtins.reversed")
def _reversed(I, x):
    if isinstance(x, (SList, SArr, tuple)):
        return LIB.getitem(I, x if not isinstance(x, tuple) else SList.of(list(x)), Slice(None, None, -1))
    if isinstance(x, Range):
        return Range(x.start + x.step * (x.n - 1), x.n, -x.step)
    raise Unsupported("reversed")


@d("builtins.print")
def _print(I, *a, **k):
    return None


@d("warnings.warn")
def _warn(I, *a, **k):
    return None


def has_extreme(t):
    """a sum with the largest or smallest value of an array among its summands"""
    return isinstance(t, T) and t.op == "poly" and any(len(m) == 1 and a.op == "app" and a.args[0] in ("amax", "amin") for m, c in t.args for a, e in m)


@d("builtins.abs", "numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs")
def _abs(I, x):
    if isinstance(x, (int, float)):
        return abs(x)
    if isinstance(x, SArr) and x.ndim == 1:
        # |max(v) - v| is max(v) - v: drop the sign where the extreme value of the array decides it
        k = tm.fresh("a", "I")
        e = x.get((k,))
        if has_extreme(e):
            rng = [tm.le(ZERO, k), tm.lt(k, x.shape[0])]
            for sg in (1, -1):
                if smt.prove(list(I.pc) + rng, tm.ge(const(sg) * num(e), ZERO), timeout=0.5, depth=1)[0] == "proved":
                    return x if sg == 1 else LIB.ewise(I, lambda t: const(-1) * num(t), x)
    return LIB.ewise(I, lambda t: tm.absv(num(t)), x)


def mm(kind):
    red = None

    def f(I, *xs, key=None, default=None, axis=None, **kw):
        if key is not None:
            raise Unsupported("min/max key")
        if len(xs) == 1:
            x = xs[0]
            if isinstance(x, SArr):
                return reduce_arr(I, "a" + kind, x, axis)
            s = LIB.seq(I, x)
            if s.concrete():
                its = s.items()
                if not its:
                    raise PyRaise("ValueError", "empty sequence")
                if all(isinstance(i, (int, float)) for i in its):
                    return (min if kind == "min" else max)(its)
                return (tm.minv if kind == "min" else tm.maxv)(*[asT(i) for i in its])
            return reduce_arr(I, "a" + kind, list_to_array(s, I), None)
        if all(isinstance(i, (int, float)) for i in xs):
            return (min if kind == "min" else max)(xs)
        return (tm.minv if kind == "min" else tm.maxv)(*[asT(i) for i in xs])
    return f


LIB["builtins.min"] = mm("min")
LIB["builtins.max"] = mm("max")


def flat(I, x):
    """flatten to 1-D in C order"""
    if x.ndim == 1:
        return x
    if x.ndim == 0:
        return LIB.expand_dims(x, 0)
    fx = x.frozen()
    fl = getattr(x, "unflat", None)
    if x.ndim == 2:
        h, w = x.shape
        if cval(w) == 1:
            return SArr((h,), lambda idx: fx.get((idx[0], ZERO)), x.dt)
        if cval(h) == 1:
            return SArr((w,), lambda idx: fx.get((ZERO, idx[0])), x.dt)
        r = SArr((h * w,), lambda idx: fx.get((tm.idiv(idx[0], w), tm.modv(idx[0], w))), x.dt)
        r.unfl = (x.shape, fx)
        return r
    n = ONE
    for s in x.shape:
        n = n * s

    def fn(idx):
        p = idx[0]
        out = []
        for s in reversed(x.shape[1:]):
            out.append(tm.modv(p, s))
            p = tm.idiv(p, s)
        out.append(p)
        return fx.get(tuple(reversed(out)))
    r = SArr((n,), fn, x.dt)
    r.unfl = (x.shape, fx)
    return r


def reduce_arr(I, name, x, axis=None, keepdims=False):
    """amin/amax: opaque aggregate of the array term"""
    x = to_arr(x, I)
    if axis is None:
        n = ONE
        for s in x.shape:
            n = n * s
        if cval(n) is not None and cval(n) <= 8 and x.ndim == 1:
            vs = [x.get((const(i),)) for i in range(int(cval(n)))]
            if not vs:
                raise PyRaise("ValueError", "zero-size array")
            return (tm.minv if name == "amin" else tm.maxv)(*vs)
        t = x.to_term()
        srt = "I" if x.dt[0] in "iu" else "R"
        ks = [tm.fresh("a") for _ in x.shape]
        if x.get(tuple(ks)).sort == "I":
            srt = "I"
        if name == "amax":
            pass
        return T("app", (name, t), srt)
    ax = int(cval(asT(axis)))
    if ax < 0:
        ax += x.ndim
    fx = x.frozen()
    n = x.shape[ax]
    sh = x.shape[:ax] + x.shape[ax + 1:]

    def fn(idx):
        k = tm.fresh("a")
        body = fx.get(idx[:ax] + (k,) + idx[ax:])
        c = cval(n)
        if c is not None and c <= 8:
            return (tm.minv if name == "amin" else tm.maxv)(*[fx.get(idx[:ax] + (const(i),) + idx[ax:]) for i in range(int(c))])
        return T("app", (name, T("app", ("arr", n, tm.lam([k], body)), "L")), "R")
    if not sh:
        return fn(())
    return SArr(sh, fn, x.dt)


LIB["numpy.amin"] = LIB["numpy.min"] = LIB["numpy.nanmin"] = lambda I, x, axis=None, **k: reduce_arr(I, "amin", x, axis)
LIB["numpy.amax"] = LIB["numpy.max"] = LIB["numpy.nanmax"] = lambda I, x, axis=None, **k: reduce_arr(I, "amax", x, axis)


@d("numpy.ptp")
def _ptp(I, x):
    return reduce_arr(I, "amax", x) - reduce_arr(I, "amin", x)


@d("numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.copy")
def _asarray(I, x, dtype=None, copy=None, **kw):
    if isinstance(x, SArr):
        r = x
    elif isinstance(x, (SList, tuple)):
        r = list_to_array(x, I)
    elif isinstance(x, Range):
        r = SArr((x.n,), lambda idx: x.start + x.step * idx[0], "i8")
    elif is_scalar(x):
        r = to_arr(x, I)
    else:
        raise Unsupported("asarray of %s" % type(x).__name__)
    if dtype is not None:
        dt = dtype_of(dtype)
        if dt != r.dt:
            return mkcast(dt)(I, r) if r.ndim else r
    return r


def _copy(I, x, *a, **k):
    r = _asarray(I, x)
    return r.frozen() if r.ndim else r


LIB["numpy.copy"] = _copy
LIB["numpy.array"] = lambda I, x, dtype=None, **k: (lambda r: r.frozen() if isinstance(r, SArr) and r.ndim else r)(_asarray(I, x, dtype))
LIB["ndarray.copy"] = _copy


@d("ndarray.astype")
def _astype(I, x, dtype, **k):
    return mkcast(dtype_of(dtype))(I, x)


@d("ndarray.tolist")
def _tolist(I, x):
    return LIB.seq(I, x)


@d("ndarray.item")
def _item(I, x):
    return asT(x)


@d("ndarray.flatten", "ndarray.ravel", "numpy.ravel", "numpy.ndarray.flatten", "numpy.ndarray.ravel")
def _flatten(I, x, *a, **k):
    return flat(I, to_arr(x, I))


@d("ndarray.fill")
def _fill(I, x, v):
    LIB.setitem(I, x, Ellipsis, v)


@d("numpy.arange")
def _arange(I, a, b=None, c=1, dtype=None):
    if b is None:
        a, b = 0, a
    a, b, c = asT(a), asT(b), asT(c)
    real = any(t.sort == "R" for t in (a, b, c))
    if c is ONE and not real:
        n = b - a
        if not I.known(tm.le(ZERO, n)):
            n = tm.maxv(n, ZERO)
    elif not real and I.known(tm.gt(c, ZERO)):
        n = LIB.cdiv(I, b - a, c)
    elif not real and I.known(tm.lt(c, ZERO)):
        n = LIB.cdiv(I, a - b, -c)
    else:
        n = tm.ceil((b - a) / c)
        if not I.known(tm.le(ZERO, n)):
            n = tm.maxv(n, ZERO)
    dt = dtype_of(dtype, "f8" if real else "i8")
    narrow = dt in ("i2", "u1", "u2", "i1", "i4")
    if narrow and c is ONE and a is ZERO:
        mx = {"i2": 32768, "u1": 256, "u2": 65536, "i1": 128, "i4": 2 ** 31}[dt]
        if I.known(tm.le(n, const(mx))):
            narrow = False
    r = SArr((n,), (lambda idx: wrap(a + c * idx[0], dt)) if narrow else (lambda idx: a + c * idx[0]), dt)
    if narrow:
        r.arange = None
    else:
        r.arange = (a, n, c)
    return r


@d("numpy.linspace")
def _linspace(I, a, b, num_=50, endpoint=True, **kw):
    if "num" in kw:
        num_ = kw["num"]
    a, b, n = asT(a), asT(b), asT(num_)
    if endpoint is not True:
        st = (b - a) / n
    else:
        st = (b - a) / (n - 1)
    return SArr((n,), lambda idx: a + st * idx[0], "f8")


def shape_arg(I, sh):
    if is_scalar(sh):
        return (asT(sh),)
    if isinstance(sh, tuple):
        return tuple(asT(s) for s in sh)
    return tuple(asT(s) for s in LIB.items(I, sh))


def mkfull(v):
    def f(I, shape, dtype=None, **k):
        dt = dtype_of(dtype)
        val = tm.boolc(bool(v)) if dt == "b" else const(v)
        return SArr(shape_arg(I, shape), lambda idx: val, dt)
    return f


LIB["numpy.zeros"] = mkfull(0)
LIB["numpy.ones"] = mkfull(1)
LIB["numpy.empty"] = lambda I, shape, dtype=None, **k: (lambda f: SArr(shape_arg(I, shape), lambda idx: T("app", (f,) + tuple(idx), "R"), dtype_of(dtype)))("empty!%d" % next(tm._fresh))


@d("numpy.full")
def _full(I, shape, v, dtype=None):
    t = asT(v)
    return SArr(shape_arg(I, shape), lambda idx: t, dtype_of(dtype, scalar_dt(v)))


def mklike(v):
    def f(I, x, dtype=None, **k):
        x = to_arr(x, I)
        dt = dtype_of(dtype, x.dt)
        val = tm.boolc(bool(v)) if dt == "b" else const(v)
        return SArr(x.shape, lambda idx: val, dt)
    return f


LIB["numpy.zeros_like"] = mklike(0)
LIB["numpy.ones_like"] = mklike(1)
LIB["numpy.empty_like"] = lambda I, x, dtype=None, **k: LIB["numpy.empty"](I, tuple(to_arr(x, I).shape), Opaque("dtype", {"dt": dtype_of(dtype, to_arr(x, I).dt)}))


@d("numpy.full_like")
def _full_like(I, x, v, dtype=None):
    x = to_arr(x, I)
    dt = dtype_of(dtype, x.dt)
    t = LIB.cast(asT(v), dt)
    return SArr(x.shape, lambda idx: t, dt)


@d("numpy.result_type", "numpy.promote_types")
def _result_type(I, *xs):
    ds = []
    for x in xs:
        if isinstance(x, (SArr,)):
            ds.append(x.dt)
        elif isinstance(x, (SList, tuple)):
            ds.append(to_arr(x, I).dt)
        elif is_scalar(x):
            ds.append(scalar_dt(x))
        else:
            ds.append(dtype_of(x))
    return Opaque("dtype", {"dt": join_dt(ds)})


def ufunc(f, dt=None):
    def g(I, *xs, **kw):
        if isinstance(kw.get("out"), SArr) and set(kw) <= {"out", "where"}:
            # out is a fresh array in the code under contract: the result replaces it
            o = kw["out"]
            r = LIB.ewise(I, lambda a, w, *ts: tm.ite(w if w.sort == "B" else tm.ne(w, ZERO), f(*[num(t) for t in ts]), a), o, kw.get("where", True), *xs, dt=o.dt)
            LIB.setitem(I, o, Ellipsis, r)
            return o
        for k in kw:
            if k not in ("dtype",):
                raise Unsupported("ufunc keyword " + k)
        return LIB.ewise(I, lambda *ts: f(*[t if t.sort == "B" and dt == "b" else num(t) for t in ts]), *xs, dt=dt)
    return g


for nm, f in dict(sqrt=tm.sqrt, sin=tm.sin, cos=tm.cos, tan=tm.tan, arctan=tm._arctan).items():
    LIB["numpy." + nm] = ufunc(f, "f8")
    LIB["math." + nm] = ufunc(f, "f8")
LIB["math.atan"] = LIB["numpy.arctan"]
for nm, f in dict(floor=tm.floor, ceil=tm.ceil, rint=tm.rint, trunc=tm.trunc, fix=tm.trunc).items():
    LIB["numpy." + nm] = ufunc(f, "f8")
    LIB["math." + nm] = ufunc(f)
LIB["numpy.sign"] = ufunc(tm.sign)
LIB["numpy.square"] = ufunc(lambda x: x * x)
LIB["numpy.negative"] = ufunc(lambda x: -x)
LIB["numpy.reciprocal"] = ufunc(lambda x: tm.inv(x))
LIB["numpy.add"] = ufunc(lambda x, y: x + y)
LIB["numpy.subtract"] = ufunc(lambda x, y: x - y)
LIB["numpy.multiply"] = ufunc(lambda x, y: x * y)
LIB["numpy.divide"] = LIB["numpy.true_divide"] = ufunc(lambda x, y: x / y, "f8")
LIB["numpy.floor_divide"] = ufunc(tm.idiv)
LIB["numpy.mod"] = LIB["numpy.remainder"] = ufunc(tm.modv)
LIB["numpy.power"] = LIB["numpy.float_power"] = LIB["builtins.pow"] = LIB["math.pow"] = ufunc(tm.power)
LIB["numpy.minimum"] = LIB["numpy.fmin"] = ufunc(tm.minv)
LIB["numpy.maximum"] = LIB["numpy.fmax"] = ufunc(tm.maxv)
LIB["numpy.hypot"] = LIB["math.hypot"] = ufunc(lambda x, y: tm.sqrt(x * x + y * y), "f8")
LIB["numpy.deg2rad"] = LIB["numpy.radians"] = LIB["math.radians"] = ufunc(lambda x: x * PI / 180, "f8")
LIB["numpy.rad2deg"] = LIB["numpy.degrees"] = LIB["math.degrees"] = ufunc(lambda x: x * 180 / PI, "f8")
LIB["numpy.exp"] = LIB["math.exp"] = ufunc(lambda x: tm.rawapp("exp", x), "f8")
LIB["numpy.arctan2"] = LIB["math.atan2"] = ufunc(lambda y, x: tm.rawapp("arctan2", y, x), "f8")
LIB["numpy.arcsin"] = LIB["math.asin"] = ufunc(lambda x: tm.rawapp("arcsin", x), "f8")
LIB["numpy.arccos"] = LIB["math.acos"] = ufunc(lambda x: tm.rawapp("arccos", x), "f8")
for nm, op in dict(greater="Gt", greater_equal="GtE", less="Lt", less_equal="LtE", equal="Eq", not_equal="NotEq").items():
    LIB["numpy." + nm] = (lambda op: lambda I, a, b: LIB.compare(I, op, a, b) if not (isinstance(a, (SArr, SList)) or isinstance(b, (SArr, SList))) else LIB.ewise(I, CMP[op], a, b, dt="b"))(op)
LIB["numpy.logical_and"] = lambda I, *xs: LIB.ewise(I, lambda *b: and_(*b), *xs, dt="b")
LIB["numpy.logical_or"] = lambda I, *xs: LIB.ewise(I, lambda *b: or_(*b), *xs, dt="b")
LIB["numpy.logical_not"] = lambda I, x: LIB.ewise(I, lambda b: not_(b), x, dt="b")
LIB["numpy.isfinite"] = lambda I, x: LIB.ewise(I, lambda b: TRUE, x, dt="b")
LIB["numpy.isnan"] = lambda I, x: LIB.ewise(I, lambda b: FALSE, x, dt="b")


@d("numpy.round", "numpy.around", "builtins.round")
def _round(I, x, n=0, **k):
    if "decimals" in k:
        n = k["decimals"]
    if n not in (0, None):
        raise Unsupported("round to decimals")
    if isinstance(x, (int, float)):
        return round(x)
    r = LIB.ewise(I, lambda t: tm.rint(num(t)), x)
    return r


@d("numpy.clip")
def _clip(I, x, a_min=None, a_max=None, **k):
    def f(*ts):
        return None
    lo, hi = k.get("min", a_min), k.get("max", a_max)
    if isinstance(x, (int, float)) and isinstance(lo, (int, float)) and isinstance(hi, (int, float)):
        return min(max(x, lo), hi)
    if lo is None:
        return LIB.ewise(I, lambda t, b: tm.minv(num(t), b), x, hi)
    if hi is None:
        return LIB.ewise(I, lambda t, a: tm.maxv(num(t), a), x, lo)
    return LIB.ewise(I, lambda t, a, b: tm.minv(tm.maxv(num(t), num(a)), num(b)), x, lo, hi)


@d("numpy.where")
def _where(I, c, a=None, b=None):
    ca = to_arr(c, I)
    if a is None:
        if ca.dt != "b":
            ca = LIB.ewise(I, lambda t: tm.tobool(t), ca, dt="b")
        if ca.ndim == 0:
            raise Unsupported("where on scalar")
        m = ca.frozen()
        kk = [tm.fresh("k") for _ in m.shape]
        out = []
        for i in range(m.ndim):
            seg = Seg(kk, list(m.shape), m.get(tuple(kk)), kk[i]).expand()
            r = list_to_array(SList([seg]), I)
            r.dt = "i8"
            r.nonneg = True
            out.append(r)
        return tuple(out)
    ds = [to_arr(x, I).dt for x in (a, b)]
    return LIB.ewise(I, lambda c, x, y: tm.ite(tm.tobool(c), x, y), ca, a, b, dt=join_dt(ds))


LIB["numpy.nonzero"] = lambda I, c: _where(I, c)
LIB["numpy.flatnonzero"] = lambda I, c: _where(I, flat(I, to_arr(c, I)))[0]
LIB["ndarray.nonzero"] = LIB["numpy.nonzero"]


@d("numpy.argwhere")
def _argwhere(I, c):
    return LIB["numpy.transpose"](I, list_to_array(SList.of(list(_where(I, c))), I))


def axis_int(x, axis):
    ax = int(cval(asT(axis)))
    return ax + x.ndim if ax < 0 else ax


@d("builtins.sum")
def _bsum(I, x, start=0):
    """python's sum adds the items one after another"""
    if isinstance(x, (tuple, SList)):
        s = LIB.seq(I, x)
        if s.concrete():
            r = start
            for it in s.items():
                r = LIB.binop(I, "Add", r, it)
            return r
    x = to_arr(x, I)
    r = _sum(I, x, axis=0 if x.ndim > 1 else None)
    return r if is_scalar(start) and cval(asT(start)) == 0 else LIB.binop(I, "Add", r, start)


@d("numpy.sum", "numpy.nansum", "math.fsum", "ndarray.sum")
def _sum(I, x, axis=None, start=0, dtype=None, **kw):
    if kw.get("keepdims") or any(k not in ("keepdims",) for k in kw):
        raise Unsupported("sum keyword")
    x = to_arr(x, I)
    if x.ndim == 0:
        return asT(x)
    isb = x.dt == "b"
    if axis is None:
        fx = x

        def rec(pre):
            if len(pre) == x.ndim:
                return num(fx.get(tuple(pre)))
            return tm.sum_(x.shape[len(pre)], lambda k: rec(pre + [k]))
        r = rec([])
        return r + asT(start) if start != 0 else r
    if isinstance(axis, tuple):
        axs = sorted([axis_int(x, a) for a in axis], reverse=True)
        for a in axs:
            x = to_arr(_sum(I, x, axis=a), I)
        return x if x.ndim else asT(x)
    ax = axis_int(x, axis)
    if ax >= x.ndim:
        raise PyRaise("AxisError", "axis out of bounds")
    fx = x.frozen()
    sh = x.shape[:ax] + x.shape[ax + 1:]
    fn = lambda idx: tm.sum_(x.shape[ax], lambda k: num(fx.get(idx[:ax] + (k,) + idx[ax:])))
    if not sh:
        return fn(())
    return SArr(sh, fn, "f8" if x.dt[0] == "f" else "i8")


@d("numpy.count_nonzero")
def _count_nonzero(I, x, axis=None):
    return _sum(I, LIB.ewise(I, lambda t: num(tm.tobool(t)), to_arr(x, I), dt="i8"), axis)


def size_of(x, axis=None):
    if axis is not None:
        return x.shape[axis_int(x, axis)]
    n = ONE
    for s in x.shape:
        n = n * s
    return n


LIB["numpy.size"] = lambda I, x, axis=None: size_of(to_arr(x, I), axis)
LIB["numpy.shape"] = lambda I, x: tuple(to_arr(x, I).shape)
LIB["numpy.ndim"] = lambda I, x: to_arr(x, I).ndim


@d("numpy.mean", "numpy.nanmean", "numpy.average", "ndarray.mean")
def _mean(I, x, axis=None, dtype=None, **k):
    if k:
        raise Unsupported("mean keyword")
    x = to_arr(x, I)
    if x.ndim == 0:
        return asT(x)
    s = _sum(I, x, axis)
    n = size_of(x, axis)
    return LIB.ewise(I, lambda t: t / n, s, dt="f8")


@d("numpy.std", "ndarray.std")
def _std(I, x, axis=None):
    x = to_arr(x, I)
    if axis is not None:
        raise Unsupported("std axis")
    m = _mean(I, x)
    return tm.sqrt(_mean(I, LIB.ewise(I, lambda t: (t - m) * (t - m), x)))


@d("numpy.var")
def _var(I, x):
    x = to_arr(x, I)
    m = _mean(I, x)
    return _mean(I, LIB.ewise(I, lambda t: (t - m) * (t - m), x))


@d("numpy.median", "numpy.nanmedian")
def _median(I, x, axis=None):
    x = to_arr(x, I)
    if axis is not None:
        raise Unsupported("median axis")
    return T("app", ("median", flatterm(I, x)), "R")


def flatterm(I, x):
    return flat(I, x).to_term()


@d("numpy.percentile", "numpy.quantile")
def _percentile(I, x, q, **k):
    return T("app", ("percentile", flatterm(I, to_arr(x, I)), asT(q)), "R")


@d("numpy.prod")
def _prod(I, x, axis=None):
    x = to_arr(x, I)
    c = cval(x.shape[0])
    if x.ndim == 1 and c is not None:
        r = ONE
        for i in range(int(c)):
            r = r * x.get((const(i),))
        return r
    raise Unsupported("prod")


@d("numpy.any", "builtins.any", "ndarray.any")
def _any(I, x, axis=None):
    x = to_arr(x, I)
    if axis is not None:
        ax = axis_int(x, axis)
        fx = x.frozen()
        sh = x.shape[:ax] + x.shape[ax + 1:]
        fn = lambda idx: tm.exists(x.shape[ax], lambda k: fx.get(idx[:ax] + (k,) + idx[ax:]))
        return SArr(sh, fn, "b") if sh else fn(())

    def rec(pre):
        if len(pre) == x.ndim:
            return tm.tobool(x.get(tuple(pre)))
        c = cval(x.shape[len(pre)])
        if c is not None and c <= 8:
            return or_(*[rec(pre + [const(i)]) for i in range(int(c))])
        return tm.exists(x.shape[len(pre)], lambda k: rec(pre + [k]))
    return rec([])


@d("numpy.all", "builtins.all", "ndarray.all")
def _all(I, x, axis=None):
    x = to_arr(x, I)
    if axis is not None:
        raise Unsupported("all axis")

    def rec(pre):
        if len(pre) == x.ndim:
            return tm.tobool(x.get(tuple(pre)))
        c = cval(x.shape[len(pre)])
        if c is not None and c <= 8:
            return and_(*[rec(pre + [const(i)]) for i in range(int(c))])
        return tm.forall(x.shape[len(pre)], lambda k: rec(pre + [k]))
    return rec([])


@d("numpy.meshgrid")
def _meshgrid(I, *xs, indexing="xy", **k):
    if k.get("sparse"):
        raise Unsupported("sparse meshgrid")
    arrs = [flat(I, to_arr(x, I)).frozen() for x in xs]
    if len(arrs) != 2:
        raise Unsupported("meshgrid arity")
    x, y = arrs
    if indexing == "xy":
        sh = (y.shape[0], x.shape[0])
        return SList.of([SArr(sh, lambda idx: x.get((idx[1],)), x.dt), SArr(sh, lambda idx: y.get((idx[0],)), y.dt)])
    sh = (x.shape[0], y.shape[0])
    return SList.of([SArr(sh, lambda idx: x.get((idx[0],)), x.dt), SArr(sh, lambda idx: y.get((idx[1],)), y.dt)])


@d("numpy.indices")
def _indices(I, sh, **k):
    sh = shape_arg(I, sh)
    return list_to_array(SList.of([SArr(sh, (lambda i: lambda idx: idx[i])(i), "i8") for i in range(len(sh))]), I)


@d("numpy.reshape", "ndarray.reshape")
def _reshape(I, x, *shape, **k):
    x = to_arr(x, I)
    sh = shape[0] if len(shape) == 1 and not is_scalar(shape[0]) else shape
    sh = list(shape_arg(I, tuple(sh) if not isinstance(sh, (tuple, SList)) else sh))
    total = size_of(x)
    neg = [i for i, s in enumerate(sh) if cval(s) == -1]
    if neg:
        rest = ONE
        for i, s in enumerate(sh):
            if i != neg[0]:
                rest = rest * s
        dv = _divides(total, rest)
        sh[neg[0]] = total if rest is ONE else tm.idiv(total, rest) if dv is None else dv
    # known inverse of a flattening
    src = getattr(x, "unfl", None)
    if src is not None and len(src[0]) == len(sh) and all(a is b or I.known(tm.eq(a, b)) for a, b in zip(src[0], sh)):
        fx = src[1]
        return SArr(sh, lambda idx: fx.get(idx), x.dt)
    if len(sh) == x.ndim and all(a is b for a, b in zip(sh, x.shape)):
        return x
    fx = flat(I, x)
    fx2 = fx if x.ndim == 1 and x.base is None else fx
    f1 = fx2.frozen() if fx2.base is not None else fx2
    if len(sh) == 1:
        return fx2
    # keep flattening provenance through (n,1) shapes
    if len(sh) == 2 and cval(sh[1]) == 1:
        r = SArr(sh, lambda idx: f1.get((idx[0],)), x.dt)
        if getattr(fx2, "unfl", None):
            r.unfl = fx2.unfl
        elif x.ndim > 1:
            r.unfl = (x.shape, x.frozen())
        return r
    if len(sh) == 2 and cval(sh[0]) == 1:
        return SArr(sh, lambda idx: f1.get((idx[1],)), x.dt)
    if getattr(fx2, "unfl", None) is None and x.ndim > 1 and len(x.shape) == len(sh):
        pass
    ok = I.known(tm.eq(total, prod_t(sh)))
    if not ok:
        raise Unsupported("reshape size")

    def fn(idx):
        p = idx[0]
        for i, s in zip(idx[1:], sh[1:]):
            p = p * s + i
        return f1.get((p,))
    return SArr(sh, fn, x.dt)


def prod_t(sh):
    r = ONE
    for s in sh:
        r = r * s
    return r


def _divides(total, rest):
    """exact polynomial quotient for monomials"""
    m1, m2 = list(tm.monos(total)), list(tm.monos(rest))
    if len(m1) == 1 and len(m2) == 1:
        a, b = dict(m1[0][0]), dict(m2[0][0])
        for k, e in b.items():
            if a.get(k, 0) < e:
                return None
            a[k] -= e
            if not a[k]:
                del a[k]
        c = m1[0][1] / m2[0][1]
        if c.denominator == 1:
            return tm.mkpoly({frozenset(a.items()): c})
    return None


@d("numpy.transpose", "ndarray.transpose")
def _transpose(I, x, *axes):
    x = to_arr(x, I)
    if axes and axes[0] is not None:
        ax = [int(cval(asT(a))) for a in (LIB.items(I, axes[0]) if not is_scalar(axes[0]) else axes)]
    else:
        ax = list(range(x.ndim))[::-1]
    fx = x.frozen() if x.ndim else x
    inv = [ax.index(i) for i in range(x.ndim)]
    return SArr([x.shape[a] for a in ax], lambda idx: fx.get(tuple(idx[inv[i]] for i in range(x.ndim))), x.dt)


@d("numpy.moveaxis")
def _moveaxis(I, x, s, t):
    x = to_arr(x, I)
    s, t = axis_int(x, s), axis_int(x, t)
    ax = [i for i in range(x.ndim) if i != s]
    ax.insert(t, s)
    return _transpose(I, x, tuple(ax))


@d("numpy.swapaxes")
def _swapaxes(I, x, a, b):
    x = to_arr(x, I)
    a, b = axis_int(x, a), axis_int(x, b)
    ax = list(range(x.ndim))
    ax[a], ax[b] = ax[b], ax[a]
    return _transpose(I, x, tuple(ax))


@d("numpy.squeeze")
def _squeeze(I, x, axis=None):
    x = to_arr(x, I)
    if axis is not None:
        axs = axis if isinstance(axis, tuple) else (axis,)
        axs = [int(cval(asT(a))) % x.ndim for a in axs]
        for a in axs:
            if not I.branch(tm.eq(x.shape[a], ONE)):
                raise PyRaise("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
        keep = [i for i in range(x.ndim) if i not in axs]
    else:
        keep = [i for i, s in enumerate(x.shape) if not I.branch(tm.eq(s, ONE))]
    fx = x.frozen()
    if len(keep) == x.ndim:
        return x
    return SArr([x.shape[i] for i in keep], lambda idx: fx.get(tuple(idx[keep.index(i)] if i in keep else ZERO for i in range(x.ndim))), x.dt)


@d("numpy.expand_dims")
def _expand_dims(I, x, axis):
    x = to_arr(x, I)
    ax = int(axis)
    return LIB.expand_dims(x.frozen() if x.ndim else x, ax if ax >= 0 else ax + x.ndim + 1)


@d("numpy.atleast_1d")
def _atleast_1d(I, x):
    x = to_arr(x, I)
    return x if x.ndim else LIB.expand_dims(x, 0)


@d("numpy.broadcast_to")
def _broadcast_to(I, x, sh):
    x = to_arr(x, I)
    sh = shape_arg(I, sh)
    fx = x.frozen() if x.ndim else x
    return SArr(sh, lambda idx: LIB.bget(fx, idx), x.dt)


@d("numpy.concatenate")
def _concatenate(I, xs, axis=0, **k):
    s = LIB.seq(I, xs)
    ax = int(cval(asT(axis)))
    if s.concrete():
        arrs = [to_arr(x, I) for x in s.items()]
        if ax < 0:
            ax += arrs[0].ndim
        if ax == 0:
            return concat_arrays(arrs, I)
        ts = [LIB["numpy.swapaxes"](I, a, 0, ax) for a in arrs]
        return LIB["numpy.swapaxes"](I, concat_arrays(ts, I), 0, ax)
    if ax == 0:
        out = SList([])
        for g in s.segs:
            if isinstance(g, list):
                for x in g:
                    out.extend_segs(LIB.seq(I, to_arr(x, I)).segs)
            else:
                v = to_arr(g.val, I).frozen()
                j = tm.fresh("k")
                rest = v.shape[1:]
                val = SArr(rest, (lambda v, j: lambda idx: v.get((j,) + idx))(v, j), v.dt) if rest else v.get((j,))
                out.segs.append(Seg(g.ks + [j], g.ns + [v.shape[0]], g.cond, val).expand())
        return list_to_array(out, I)
    raise Unsupported("concatenate")


@d("numpy.vstack", "numpy.row_stack")
def _vstack(I, xs):
    s = LIB.seq(I, xs)
    if s.concrete():
        arrs = [to_arr(x, I) for x in s.items()]
        if all(a.ndim == 1 for a in arrs):
            return list_to_array(SList.of(arrs), I)
        arrs = [LIB.expand_dims(a.frozen() if a.ndim else a, 0) if a.ndim <= 1 else a for a in arrs]
        return concat_arrays(arrs, I)
    if all(isinstance(g, list) or to_arr(g.val, I).ndim == 1 for g in s.segs):
        return list_to_array(s, I)
    return _concatenate(I, xs, 0)


@d("numpy.hstack")
def _hstack(I, xs):
    s = LIB.seq(I, xs)
    if s.concrete():
        arrs = [to_arr(x, I) for x in s.items()]
        return _concatenate(I, s, 0 if arrs[0].ndim <= 1 else 1)
    return _concatenate(I, xs, 0)


@d("numpy.column_stack")
def _column_stack(I, xs):
    arrs = [to_arr(x, I) for x in LIB.items(I, xs)]
    arrs = [LIB.expand_dims(a.frozen(), 1) if a.ndim == 1 else a for a in arrs]
    return _concatenate(I, SList.of(arrs), 1)


@d("numpy.stack")
def _stack(I, xs, axis=0):
    a = list_to_array(LIB.seq(I, xs), I)
    ax = int(axis)
    if ax < 0:
        ax += a.ndim
    return _moveaxis(I, a, 0, ax) if ax else a


@d("numpy.append")
def _append(I, a, b, axis=None):
    if axis is None:
        return concat_arrays([flat(I, to_arr(a, I)), flat(I, to_arr(b, I))], I)
    return _concatenate(I, SList.of([a, b]), axis)


@d("numpy.insert")
def _insert(I, a, i, v, axis=None):
    a = to_arr(a, I)
    if a.ndim == 1 and cval(asT(i)) == 0:
        return concat_arrays([flat(I, to_arr(v, I)), a], I)
    if a.ndim == 1 and is_scalar(i):
        p = LIB.index_norm(I, i, a.shape[0])
        fa = a.frozen()
        vv = asT(v)
        return SArr((a.shape[0] + 1,), lambda idx: tm.ite(tm.lt(idx[0], p), fa.get(idx), tm.ite(tm.eq(idx[0], p), vv, fa.get((idx[0] - 1,)))), a.dt)
    raise Unsupported("insert")


@d("numpy.delete")
def _delete(I, a, i, axis=None):
    a = to_arr(a, I)
    if is_scalar(i) and (a.ndim == 1 or axis == 0):
        p = LIB.index_norm(I, i, a.shape[0])
        fa = a.frozen()
        return SArr((a.shape[0] - 1,) + a.shape[1:], lambda idx: tm.ite(tm.lt(idx[0], p), fa.get(idx), fa.get((idx[0] + 1,) + idx[1:])), a.dt)
    raise Unsupported("delete")


@d("numpy.flip", "numpy.flipud", "numpy.fliplr")
def _flip(I, x, axis=None):
    raise Unsupported("flip axis")


LIB["numpy.flipud"] = lambda I, x: LIB.getitem(I, to_arr(x, I), Slice(None, None, -1))
LIB["numpy.fliplr"] = lambda I, x: LIB.getitem(I, to_arr(x, I), (Slice(None, None, None), Slice(None, None, -1)))


def _flip2(I, x, axis=None):
    x = to_arr(x, I)
    axs = range(x.ndim) if axis is None else [axis_int(x, axis)]
    return LIB.getitem(I, x, tuple(Slice(None, None, -1 if i in axs else None) for i in range(x.ndim)))


LIB["numpy.flip"] = _flip2


@d("numpy.diff")
def _diff(I, x, n=1, axis=-1):
    x = to_arr(x, I)
    if n != 1:
        raise Unsupported("diff order")
    ax = axis_int(x, axis)
    fx = x.frozen()
    sh = list(x.shape)
    sh[ax] = sh[ax] - 1 if I.known(tm.ge(sh[ax], ONE)) else tm.maxv(sh[ax] - 1, ZERO)

    def fn(idx):
        hi = idx[:ax] + (idx[ax] + 1,) + idx[ax + 1:]
        return fx.get(hi) - fx.get(idx)
    return SArr(sh, fn, x.dt)


@d("numpy.cumsum")
def _cumsum(I, x, axis=None):
    x = to_arr(x, I)
    if x.ndim != 1:
        raise Unsupported("cumsum")
    fx = x.frozen()
    return SArr(x.shape, lambda idx: tm.sum_(idx[0] + 1, lambda j: fx.get((j,))), x.dt)


@d("numpy.dot", "numpy.matmul", "numpy.inner")
def _dot(I, a, b):
    a, b = to_arr(a, I), to_arr(b, I)
    fa, fb = a.frozen() if a.ndim else a, b.frozen() if b.ndim else b
    if a.ndim == 0 or b.ndim == 0:
        return LIB.binop(I, "Mult", a, b)
    if a.ndim == 1 and b.ndim == 1:
        return tm.sum_(a.shape[0], lambda k: fa.get((k,)) * fb.get((k,)))
    if a.ndim == 2 and b.ndim == 1:
        return SArr((a.shape[0],), lambda idx: tm.sum_(a.shape[1], lambda k: fa.get((idx[0], k)) * fb.get((k,))), "f8")
    if a.ndim == 1 and b.ndim == 2:
        return SArr((b.shape[1],), lambda idx: tm.sum_(a.shape[0], lambda k: fa.get((k,)) * fb.get((k, idx[0]))), "f8")
    if a.ndim == 2 and b.ndim == 2:
        return SArr((a.shape[0], b.shape[1]), lambda idx: tm.sum_(a.shape[1], lambda k: fa.get((idx[0], k)) * fb.get((k, idx[1]))), "f8")
    raise Unsupported("dot")


@d("numpy.outer")
def _outer(I, a, b):
    a, b = flat(I, to_arr(a, I)).frozen(), flat(I, to_arr(b, I)).frozen()
    return SArr((a.shape[0], b.shape[0]), lambda idx: a.get((idx[0],)) * b.get((idx[1],)), "f8")


@d("numpy.vander")
def _vander(I, x, N=None, increasing=False):
    x = to_arr(x, I).frozen()
    n = asT(N) if N is not None else x.shape[0]
    return SArr((x.shape[0], n), lambda idx: tm.power(x.get((idx[0],)), idx[1] if increasing else n - 1 - idx[1]), "f8")


@d("numpy.polyval")
def _polyval(I, p, x):
    p = to_arr(p, I).frozen()
    n = p.shape[0]
    return LIB.ewise(I, lambda t: tm.sum_(n, lambda i: p.get((n - 1 - i,)) * tm.power(num(t), i)), x, dt="f8")


@d("numpy.poly1d")
def _poly1d(I, c, *a, **k):
    if a or k:
        raise Unsupported("poly1d options")
    p = to_arr(c, I).frozen()
    f = lambda I, x: _polyval(I, p, x)
    f._pyvc = True
    return f


@d("numpy.polynomial.polynomial.polyval")
def _polyval2(I, x, c, **k):
    c = to_arr(c, I).frozen()
    return LIB.ewise(I, lambda t: tm.sum_(c.shape[0], lambda i: c.get((i,)) * tm.power(num(t), i)), x, dt="f8")


# -- sorting ------------------------------------------------------------------

@d("numpy.unique")
def _unique(I, x, axis=None, **k):
    """the distinct rows: pairwise different, each one a row of x (in lexicographic order)"""
    x = to_arr(x, I)
    if k or axis != 0 or x.ndim != 2 or cval(x.shape[1]) is None:
        raise Unsupported("unique")
    fx = x.frozen()
    t = fx.to_term()
    return SArr((T("app", ("udim", t), "I"), x.shape[1]), lambda ix: fx.get((T("app", ("uix", t, ix[0]), "I"), ix[1])), x.dt)


@smt.axiom("udim")
def _ax_udim(t, tr):
    n = t.args[1].args[1]
    return [tm.le(ZERO, t), tm.le(t, tm.maxv(n, ZERO)), tm.implies(tm.gt(n, ZERO), tm.gt(t, ZERO))]


@smt.axiom("uix")
def _ax_uix(t, tr):
    a, p = t.args[1:]
    n, c, l = a.args[1:]
    d = T("app", ("udim", a), "I")
    ok = and_(tm.le(ZERO, p), tm.lt(p, d))
    out = [tm.implies(ok, and_(tm.le(ZERO, t), tm.lt(t, n)))]
    for q, u in tr.amap.setdefault(("uix", a), []):
        ok2 = and_(tm.le(ZERO, q), tm.lt(q, d))
        out.append(tm.implies(and_(ok, ok2, tm.ne(p, q)), or_(*[tm.ne(tm.lam_apply(l, [t, const(i)]), tm.lam_apply(l, [u, const(i)])) for i in range(int(cval(c)))])))
    tr.amap[("uix", a)].append((p, t))
    return out


@d("numpy.argsort")
def _argsort(I, x, axis=-1, **k):
    x = to_arr(x, I)
    if x.ndim != 1:
        raise Unsupported("argsort dim")
    t = x.to_term()
    r = SArr(x.shape, lambda idx: T("app", ("argsort", t, idx[0]), "I"), "i8")
    r.nonneg = True
    return r


@d("numpy.sort")
def _sort(I, x, axis=-1):
    x = to_arr(x, I)
    if x.ndim != 1:
        raise Unsupported("sort dim")
    t = x.to_term()
    fx = x.frozen()

    def fn(idx):
        if idx[0] is ZERO:
            return reduce_arr(I, "amin", fx)
        if idx[0] is fx.shape[0] - 1:
            return reduce_arr(I, "amax", fx)
        return fx.get((T("app", ("argsort", t, idx[0]), "I"),))
    return SArr(x.shape, fn, x.dt)


@d("builtins.sorted")
def _sorted(I, x, key=None, reverse=False):
    s = LIB.seq(I, x)
    if s.concrete() and len(s.items()) <= 1:
        return s.copy()
    if reverse is not False:
        raise Unsupported("sorted reverse")
    k = tm.fresh("k")
    it = s.item(k)
    I.loopks.append(k)
    try:
        kv = it if key is None else I.call(key, [it], {})
    finally:
        I.loopks.pop()
    if not is_scalar(kv):
        raise Unsupported("sorted key")
    n = s.length()
    t = T("app", ("arr", n, tm.lam([k], asT(kv))), "L")
    j = tm.fresh("k")
    return SList([Seg([j], [n], TRUE, vsubst(it, {k: T("app", ("argsort", t, j), "I")}))])


@smt.axiom("argsort")
def _ax_argsort(t, tr):
    a, p = t.args[1], t.args[2]
    n, l = a.args[1], a.args[2]
    inr = and_(tm.le(ZERO, p), tm.lt(p, n))
    out = [tm.implies(inr, and_(tm.le(ZERO, t), tm.lt(t, n)))]
    # monotone and injective against the other instances on the same array
    for q, u in tr.amap.setdefault(("argsort", a), []):
        inq = and_(tm.le(ZERO, q), tm.lt(q, n))
        out.append(tm.implies(and_(inr, inq, tm.le(p, q)), tm.le(tm.lam_apply(l, [t]), tm.lam_apply(l, [u]))))
        out.append(tm.implies(and_(inr, inq, tm.le(q, p)), tm.le(tm.lam_apply(l, [u]), tm.lam_apply(l, [t]))))
        out.append(tm.implies(and_(inr, inq, tm.eq(t, u)), tm.eq(p, q)))
    tr.amap[("argsort", a)].append((p, t))
    return out


def argext(kind):
    def f(I, x, axis=None):
        x = to_arr(x, I)
        if axis is not None:
            raise Unsupported("arg%s axis" % kind)
        if x.ndim != 1:
            x = flat(I, x)
        if x.ndim == 1 and cval(x.shape[0]) == 0:
            raise PyRaise("ValueError", "empty sequence")
        return T("app", ("arg" + kind, x.to_term()), "I")
    return f


LIB["numpy.argmin"] = argext("min")
LIB["numpy.argmax"] = argext("max")


@smt.axiom("argmin")
def _ax_argmin(t, tr):
    a = t.args[1]
    n, l = a.args[1], a.args[2]
    k = tm.fresh("sk")
    out = [tm.implies(tm.gt(n, ZERO), and_(tm.le(ZERO, t), tm.lt(t, n)))]
    for j in index_terms(tr, t):
        inj = and_(tm.le(ZERO, j), tm.lt(j, n))
        v = tm.lam_apply(l, [j])
        m = tm.lam_apply(l, [t])
        if t.args[0] == "argmin":
            out.append(tm.implies(inj, tm.le(m, v)))
            out.append(tm.implies(and_(inj, tm.lt(j, t)), tm.lt(m, v)))
        else:
            out.append(tm.implies(inj, tm.ge(m, v)))
            out.append(tm.implies(and_(inj, tm.lt(j, t)), tm.gt(m, v)))
    return out


smt.AXIOMS["argmax"] = _ax_argmin


def index_terms(tr, t):
    """candidate integer instantiation terms"""
    seen = []
    for x in list(tr.memo):
        if x.sort == "I" and x.op in ("var", "app", "poly") and not smt.has_bv(x) and cval(x) is None:
            if x.op == "app" and x.args[0] in ("wrap16",):
                continue
            seen.append(x)
        if len(seen) > 40:
            break
    return [const(0)] + seen


@smt.axiom("amin")
def _ax_amin(t, tr):
    a = t.args[1]
    dims, l = a.args[1:-1], a.args[-1]
    out = []
    ks = [tm.fresh("w") for _ in dims]
    rng = and_(*[and_(tm.le(ZERO, k), tm.lt(k, n)) for k, n in zip(ks, dims)])
    nonempty = and_(*[tm.gt(n, ZERO) for n in dims])
    out.append(tm.implies(nonempty, and_(rng, tm.eq(t, tm.lam_apply(l, ks)))))
    cands = index_terms(tr, t)
    import itertools
    if len(dims) == 1:
        combos = [(c,) for c in cands]
    else:
        vs = [c for c in cands if c.op == "var"]
        combos = list(itertools.product(vs, repeat=len(dims)))[:60]
    for c in combos:
        inr = and_(*[and_(tm.le(ZERO, k), tm.lt(k, n)) for k, n in zip(c, dims)])
        v = tm.lam_apply(l, c)
        out.append(tm.implies(inr, tm.le(t, v) if t.args[0] == "amin" else tm.ge(t, v)))
    if len(dims) == 1 and dims[0].op == "app" and dims[0].args[0] == "clen" and len(dims[0].args[1].args) == 3:
        # over a filtered range: bounded by the value at every index that passes the filter
        dm = dims[0].args[1]
        q = tm.fresh("q")
        h = tm.fresh("h")
        F = tm.subst(tm.lam_apply(l, [q]), {T("app", ("cix", dm, 0, q), "I"): h})
        if not tm.occurs(q, F):
            n, pr, lF = dm.args[1], dm.args[2], tm.lam([h], F)
            for c in [x for x in tr.memo if x.sort == "I" and x.op == "app" and x.args[0] in ("cix", "argsort") and not smt.has_bv(x)][:40]:
                v = tm.lam_apply(lF, [c])
                out.append(tm.implies(and_(tm.le(ZERO, c), tm.lt(c, n), tm.lam_apply(pr, [c])), tm.le(t, v) if t.args[0] == "amin" else tm.ge(t, v)))
    return out


smt.AXIOMS["amax"] = _ax_amin


def rect_dims(dm):
    """extents of a nested domain without filter whose inner extents do not depend on outer indices"""
    nl = len(dm.args) - 2
    if dm.args[-1].args[-1] is not TRUE:
        return None
    out = [dm.args[1]]
    for i in range(1, nl):
        l = dm.args[1 + i]
        b = l.args[-1]
        if smt.has_bv(b):
            return None
        out.append(b)
    return out


@smt.axiom("cix")
def _ax_cix(t, tr):
    dm, lvl, p = t.args[1:]
    nl = len(dm.args) - 2
    ks = [T("app", ("cix", dm, i, p), "I") for i in range(nl)]
    inr = and_(tm.le(ZERO, p), tm.lt(p, T("app", ("clen", dm), "I")))
    out = []
    for i in range(nl):
        n = dm.args[1 + i] if i == 0 else tm.lam_apply(dm.args[1 + i], ks[:i])
        out.append(tm.implies(inr, and_(tm.le(ZERO, ks[i]), tm.lt(ks[i], n))))
    out.append(tm.implies(inr, tm.lam_apply(dm.args[-1], ks)))
    rd = rect_dims(dm)
    if rd is not None and nl > 1:
        acc = ks[0]
        for i in range(1, nl):
            acc = acc * rd[i] + ks[i]
        out.append(tm.implies(inr, tm.eq(p, acc)))
    if nl == 1:
        for q, u in tr.amap.setdefault(("cix", dm), []):
            inq = and_(tm.le(ZERO, q), tm.lt(q, T("app", ("clen", dm), "I")))
            out.append(tm.implies(and_(inr, inq, tm.lt(p, q)), tm.lt(t, u)))
            out.append(tm.implies(and_(inr, inq, tm.lt(q, p)), tm.lt(u, t)))
        tr.amap[("cix", dm)].append((p, t))
    return out


@smt.axiom("clen")
def _ax_clen(t, tr):
    dm = t.args[1]
    out = [tm.le(ZERO, t)]
    rd = rect_dims(dm)
    if rd is not None and len(rd) > 1:
        prod = rd[0]
        for x in rd[1:]:
            prod = prod * x
        out.append(tm.implies(and_(*[tm.le(ZERO, x) for x in rd]), tm.eq(t, prod)))
    if len(dm.args) == 3:
        out.append(tm.le(t, tm.maxv(dm.args[1], ZERO)))
        if any(x.op == "app" and x.args[0] == "sum" for x in tr.memo):
            l = dm.args[2]
            out.append(tm.eq(t, tm.sum_(dm.args[1], lambda q: tm.ite(tm.lam_apply(l, [q]), ONE, ZERO))))
        # all kept / none kept, via one skolem each
        k, j = tm.fresh("sk"), tm.fresh("sk")
        n, l = dm.args[1], dm.args[2]
        ink = and_(tm.le(ZERO, k), tm.lt(k, n))
        out.append(or_(and_(ink, not_(tm.lam_apply(l, [k]))), tm.eq(t, tm.maxv(n, ZERO))))
        inj = and_(tm.le(ZERO, j), tm.lt(j, n))
        out.append(or_(and_(inj, tm.lam_apply(l, [j])), tm.eq(t, ZERO)))
        for c in index_terms(tr, t)[:12]:
            inc = and_(tm.le(ZERO, c), tm.lt(c, n))
            out.append(tm.implies(and_(inc, tm.lam_apply(l, [c])), tm.gt(t, ZERO)))
            out.append(tm.implies(and_(inc, not_(tm.lam_apply(l, [c]))), tm.lt(t, n)))
    return out


@smt.axiom("hit")
def _ax_hit(t, tr):
    """scatter: hit <=> some source position maps here; pick is such a position"""
    nt = sum(1 for a in t.args[1:] if isinstance(a, T) and a.sort == "L")
    arrs, idx = t.args[1:1 + nt], t.args[1 + nt:]
    dims = arrs[0].args[1:-1]
    p = [T("app", ("pick",) + tuple(arrs) + tuple(idx) + (i,), "I") for i in range(len(dims))]
    inr = and_(*[and_(tm.le(ZERO, k), tm.lt(k, n)) for k, n in zip(p, dims)])
    at = lambda ks: and_(*[tm.eq(tm.lam_apply(a.args[-1], ks), x) for a, x in zip(arrs, idx)])
    out = [tm.implies(t, and_(inr, at(p)))]
    vs = [c for c in index_terms(tr, t) if c.op == "var"]
    import itertools
    for c in list(itertools.product(vs, repeat=len(dims)))[:60]:
        inr = and_(*[and_(tm.le(ZERO, k), tm.lt(k, n)) for k, n in zip(c, dims)])
        out.append(tm.implies(and_(inr, at(c)), t))
    return out


# -- least squares ---------------------------------------------------------------

def lsq(I, A, b, n):
    """solution of the normal equations as scalar moments when n is concrete"""
    c = cval(n)
    rows = A.shape[0]
    G = lambda i, j: tm.sum_(rows, lambda r: A.get((r, i)) * A.get((r, j)))
    h = lambda i: tm.sum_(rows, lambda r: A.get((r, i)) * b.get((r,)))
    if c is not None and c <= 12:
        c = int(c)
        gs = [G(const(i), const(j)) for i in range(c) for j in range(i, c)]
        hs = [h(const(i)) for i in range(c)]
        return SArr((n,), lambda idx: T("app", ("lsq", c) + tuple(gs) + tuple(hs) + (idx[0],), "R"), "f8")
    i, j = tm.fresh("a"), tm.fresh("a")
    Gt = T("app", ("arr", n, n, tm.lam([i, j], G(i, j))), "L")
    ht = T("app", ("arr", n, tm.lam([i], h(i))), "L")
    return SArr((n,), lambda idx: T("app", ("lsqn", Gt, ht, idx[0]), "R"), "f8")


@d("numpy.linalg.lstsq", "scipy.linalg.lstsq")
def _lstsq(I, A, b, rcond=None, **k):
    A, b = to_arr(A, I).frozen(), to_arr(b, I).frozen()
    if b.ndim == 2 and cval(b.shape[1]) == 1:
        fb = b
        b1 = SArr((b.shape[0],), lambda idx: fb.get((idx[0], ZERO)), b.dt)
        x = lsq(I, A, b1, A.shape[1])
        r = SArr((A.shape[1], ONE), lambda idx: x.get((idx[0],)), "f8")
        return (r, Poison("residues"), Poison("rank"), Poison("sv"))
    if b.ndim != 1:
        raise Unsupported("lstsq rhs")
    if A.shape[0] is not b.shape[0] and not I.known(tm.eq(A.shape[0], b.shape[0])):
        raise Unsupported("lstsq sizes")
    if rcond is not None:
        rc = cval(asT(rcond)) if is_scalar(rcond) else None
        if rc is None or rc > 1e-9:
            raise Unsupported("lstsq with a coarse rcond")
    I.ghost.setdefault("lstsq", SList([])).append((A, b))
    return (lsq(I, A, b, A.shape[1]), Poison("residues"), Poison("rank"), Poison("sv"))


@d("numpy.linalg.solve")
def _solve(I, A, b):
    A, b = to_arr(A, I).frozen(), to_arr(b, I).frozen()
    return lsq(I, A, b, A.shape[1])


def small_fit(x, y, n, deg):
    """the least-squares polynomial through n points with known distinct abscissae, highest power first"""
    xs = [cval(x.get((const(i),))) for i in range(n)]
    if any(v is None for v in xs) or len(set(xs)) <= deg:
        return None
    from fractions import Fraction as Fr
    ys = [y.get((const(i),)) for i in range(n)]
    m = deg + 1
    A = [[sum(Fr(v) ** (i + j) for v in xs) for j in range(m)] for i in range(m)]
    B = [sum((const(Fr(v) ** i) * w for v, w in zip(xs, ys)), ZERO) for i in range(m)]
    for i in range(m):
        p = next(r for r in range(i, m) if A[r][i] != 0)
        A[i], A[p], B[i], B[p] = A[p], A[i], B[p], B[i]
        for r in range(m):
            if r != i and A[r][i] != 0:
                f = A[r][i] / A[i][i]
                A[r] = [a - f * b for a, b in zip(A[r], A[i])]
                B[r] = B[r] - const(f) * B[i]
    return [B[i] / const(A[i][i]) for i in reversed(range(m))]


@d("numpy.polyfit")
def _polyfit(I, x, y, deg, **k):
    if k:
        raise Unsupported("polyfit keyword")
    x, y = to_arr(x, I).frozen(), to_arr(y, I).frozen()
    if x.shape[0] is not y.shape[0] and not I.known(tm.eq(x.shape[0], y.shape[0])):
        raise PyRaise("TypeError", "expected x and y to have same length")
    n = asT(deg)
    c = cval(n)
    rows = x.shape[0]
    if c is None:
        A = SArr((rows, n + 1), lambda idx: tm.power(x.get((idx[0],)), n - idx[1]), "f8")
        return lsq(I, A, y, n + 1)
    c = int(c)
    if cval(rows) is not None and cval(rows) <= 8:
        exact = small_fit(x, y, int(cval(rows)), c)
        if exact is not None:
            return SArr((const(c + 1),), lambda idx: vselect(exact, idx[0]) if cval(idx[0]) is None else exact[int(cval(idx[0]))], "f8")
    S = [tm.sum_(rows, lambda r: tm.power(x.get((r,)), const(m))) for m in range(2 * c + 1)]
    Tm = [tm.sum_(rows, lambda r: tm.power(x.get((r,)), const(m)) * y.get((r,))) for m in range(c + 1)]
    return SArr((const(c + 1),), lambda idx: T("app", ("polyfit", c) + tuple(S) + tuple(Tm) + (idx[0],), "R"), "f8")


# -- scipy ------------------------------------------------------------------------

@d("scipy.ndimage.map_coordinates")
def _map_coordinates(I, mat, coords, output=None, order=3, mode="constant", cval_=0.0, prefilter=True, **kw):
    if "cval" in kw:
        cval_ = kw["cval"]
    mat = to_arr(mat, I)
    if isinstance(coords, (tuple, SList)):
        cs = [to_arr(c, I).frozen() for c in LIB.items(I, coords)]
    else:
        ca = to_arr(coords, I)
        n = cval(ca.shape[0])
        if n is None:
            raise Unsupported("coordinates shape")
        cs = [to_arr(LIB.getitem(I, ca, i), I) for i in range(int(n))]
        cs = [x.frozen() if x.ndim else x for x in cs]
        if ca.unfl_rows is not None:
            for c, u in zip(cs, ca.unfl_rows):
                c.unfl = u
    if len(cs) != mat.ndim:
        raise PyRaise("RuntimeError", "invalid shape for coordinate array")
    sh = cs[0].shape
    for c in cs[1:]:
        if c.ndim != len(sh) or any(a is not b and not I.known(tm.eq(a, b)) for a, b in zip(c.shape, sh)):
            raise Unsupported("coordinate shapes")
    order_t = asT(order) if is_scalar(order) else None
    if order_t is None:
        raise Unsupported("order")
    mode_t = mode if isinstance(mode, str) else None
    fm = mat.frozen()
    unfl = cs[0].unfl
    if order_t is ONE and mode_t is not None:
        ks = [tm.fresh("k") for _ in sh]
        if unfl is not None and all(getattr(c, "unfl", None) for c in cs):
            us = unfl[0]
            uk = [tm.fresh("k") for _ in us]
            rng = [and_(tm.le(ZERO, k), tm.lt(k, n)) for k, n in zip(uk, us)]
            vals = [c.unfl[1].get(tuple(uk)) for c in cs]
        else:
            rng = [and_(tm.le(ZERO, k), tm.lt(k, n)) for k, n in zip(ks, sh)]
            vals = [c.get(tuple(ks)) for c in cs]
        goal = and_(*[and_(tm.le(ZERO, v), tm.le(v, n - 1)) for v, n in zip(vals, mat.shape)])
        r = smt.prove(list(I.pc) + rng, goal, timeout=4, depth=2)
        if r[0] == "proved":
            fn = lambda idx: bilinear(fm, [c.get(idx) for c in cs])
            mk = lambda vs: bilinear(fm, vs)
            return finish_map(sh, cs, fn, mk, mat.dt)
        if r[0] != "cex":
            raise Unsupported("sampling positions not shown inside the image")
    mt = fm.to_term()
    md = mode_t if mode_t is not None else mode.term if isinstance(mode, Opaque) and mode.term is not None else None
    if md is None:
        raise Unsupported("mode")
    mk = lambda vs: T("app", ("mapc", mt) + tuple(num(v) for v in vs) + (order_t, md, num(cval_), prefilter), "R")
    return finish_map(sh, cs, lambda idx: mk([c.get(idx) for c in cs]), mk, mat.dt)


def finish_map(sh, cs, fn, mk, dt):
    r = SArr(sh, fn, dt)
    if all(getattr(c, "unfl", None) for c in cs):
        us = cs[0].unfl[0]
        srcs = [c.unfl[1] for c in cs]
        inner = SArr(us, lambda idx: mk([s.get(idx) for s in srcs]), dt)
        r.unfl = (us, inner)
    return r


def bilinear(fm, vs):
    """order-1 spline inside the image: exact linear interpolation"""
    fl = [tm.floor(num(v)) for v in vs]
    fr = [num(v) - f for v, f in zip(vs, fl)]
    acc = ZERO
    import itertools
    for bits in itertools.product((0, 1), repeat=len(vs)):
        w = ONE
        for b, f in zip(bits, fr):
            w = w * (f if b else ONE - f)
        if w is ZERO:
            continue
        acc = acc + w * fm.get(tuple(f + b for f, b in zip(fl, bits)))
    return acc


@d("cv2.remap")
def _remap(I, src, map1, map2, interpolation=None, borderMode=None, **k):
    src, m1, m2 = to_arr(src, I).frozen(), to_arr(map1, I).frozen(), to_arr(map2, I).frozen()
    if k:
        raise Unsupported("remap keyword")

    def key(x):
        if isinstance(x, str):
            return x
        if isinstance(x, Opaque) and x.term is not None:
            return x.term
        return asT(x)
    ik, bk = key(interpolation), key(borderMode)
    if src.ndim == 2:
        t = src.to_term()
        return SArr(m1.shape, lambda idx: T("app", ("remap", t, m1.get(idx), m2.get(idx), ik, bk), "R"), src.dt)
    h, w, c = src.shape

    def fn(idx):
        ch = idx[2]
        ks = [tm.fresh("a"), tm.fresh("a")]
        t = T("app", ("arr", h, w, tm.lam(ks, src.get((ks[0], ks[1], ch)))), "L")
        return T("app", ("remap", t, m1.get(idx[:2]), m2.get(idx[:2]), ik, bk), "R")
    return SArr(m1.shape + (c,), fn, src.dt)


@d("numpy.pad")
def _pad(I, x, pw, mode="constant", **k):
    x = to_arr(x, I).frozen()
    if is_scalar(pw):
        pws = [(asT(pw), asT(pw))] * x.ndim
    else:
        its = LIB.items(I, pw)
        if len(its) == 2 and all(is_scalar(i) for i in its):
            pws = [(asT(its[0]), asT(its[1]))] * x.ndim
        else:
            pws = [tuple(asT(z) for z in LIB.items(I, p)) for p in its]
            if len(pws) == 1:
                pws = pws * x.ndim
            pws = [(p[0], p[-1]) for p in pws]
    if len(pws) != x.ndim:
        raise PyRaise("ValueError", "pad width")
    sh = [s + a + b for s, (a, b) in zip(x.shape, pws)]
    md = mode if isinstance(mode, str) else (mode.term if isinstance(mode, Opaque) else None)
    if md is None:
        raise Unsupported("pad mode")
    if all(a is ZERO and b is ZERO for a, b in pws):
        return x
    kk = tuple(sorted((a, b if not is_scalar(b) else asT(b)) for a, b in k.items()))
    if any(not isinstance(b, T) for _, b in kk):
        raise Unsupported("pad keyword")
    kargs = tuple(z for p in kk for z in p)
    # channels (last axis) are padded independently when their pad is zero
    if x.ndim == 3 and pws[2][0] is ZERO and pws[2][1] is ZERO:
        def fn(idx):
            ks = [tm.fresh("a"), tm.fresh("a")]
            t = T("app", ("arr", x.shape[0], x.shape[1], tm.lam(ks, x.get((ks[0], ks[1], idx[2])))), "L")
            return _padelem(x, t, pws[:2], md, kargs, idx[:2], idx[2:])
        return SArr(sh, fn, x.dt)
    t = x.to_term()
    return SArr(sh, lambda idx: _padelem(x, t, pws, md, kargs, idx, ()), x.dt)


def _padelem(x, t, pws, md, kargs, idx, rest):
    inner = tuple(i - a for i, (a, b) in zip(idx, pws))
    rng = and_(*[and_(tm.le(ZERO, i), tm.lt(i, s)) for i, s in zip(inner, x.shape)])
    if md == "constant" and not kargs:
        return tm.ite(rng, x.get(inner + tuple(rest)), ZERO)
    if md == "constant" and len(kargs) == 2 and kargs[0] == "constant_values":
        return tm.ite(rng, x.get(inner + tuple(rest)), kargs[1])
    if md == "edge":
        return x.get(tuple(tm.minv(tm.maxv(i, ZERO), s - 1) for i, s in zip(inner, x.shape)) + tuple(rest))
    flatp = tuple(z for p in pws for z in p)
    return tm.ite(rng, x.get(inner + tuple(rest)), T("app", ("padv", t) + flatp + tuple(idx) + (md,) + kargs, "R"))


@d("scipy.optimize.minimize")
def _minimize(I, fun, x0, args=(), **k):
    if k:
        raise Unsupported("minimize keyword")
    x0 = asT(x0) if is_scalar(x0) else None
    if x0 is None:
        raise Unsupported("minimize vector")
    u = tm.fresh("u", "R")
    if isinstance(args, (SList, tuple)):
        extra = LIB.staritems(I, args)
    else:
        extra = [args]
    v = I.call(fun, [u] + extra, {})
    r = T("app", ("minimize", tm.lam([u], asT(v)), x0), "R")
    return Opaque("optres", {"x": SArr((ONE,), lambda idx: r, "f8")})


@d("scipy.optimize.fsolve")
def _fsolve(I, func, x0, args=(), **k):
    """a root of the system; which one depends on the system and the start only"""
    if any(n not in ("xtol", "maxfev") for n in k):
        raise Unsupported("fsolve keyword")
    x0 = LIB.staritems(I, x0) if isinstance(x0, (SList, tuple)) else [asT(x0)]
    us = [tm.fresh("u", "R") for _ in x0]
    extra = LIB.staritems(I, args) if isinstance(args, (SList, tuple)) else [args]
    v = I.call(func, [tuple(us)] + extra, {})
    v = LIB.staritems(I, v) if isinstance(v, (SList, tuple)) else [v]
    if len(v) != len(us):
        raise Unsupported("fsolve system")
    ls = tuple(tm.lam(us, num(asT(e))) for e in v)
    x0 = tuple(num(asT(x)) for x in x0)
    return SList.of([T("app", ("fsolve", const(len(us)), const(i)) + ls + x0, "R") for i in range(len(us))])


@smt.axiom("fsolve")
def _ax_fsolve(t, tr):
    n = int(cval(t.args[1]))
    ls = t.args[3:3 + n]
    root = [T("app", ("fsolve", t.args[1], const(i)) + t.args[3:], "R") for i in range(n)]
    return [tm.eq(tm.lam_apply(l, root), ZERO) for l in ls]


@d("builtins.isinstance")
def _isinstance(I, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    out = False
    for y in ts:
        n = y.name.split(".")[-1] if isinstance(y, (LibFn, ExcType)) else None
        q = y.name if isinstance(y, LibFn) else ""
        if isinstance(y, tuple):
            out |= _isinstance(I, x, y)
            continue
        if isinstance(y, Opaque) and y.tag == "dtype":       # numpy scalar classes; numbers of the model are plain ones
            continue
        if n is None and type(y).__name__ == "Module" and y.name == "numpy.ndarray":
            out |= isinstance(x, SArr)
            continue
        if n is None:
            raise Unsupported("isinstance type %r" % (getattr(y, "tag", None) or getattr(y, "name", y),))
        if q.startswith("builtins."):
            if n == "bool":
                out |= isinstance(x, bool) or (isinstance(x, T) and x.sort == "B")
            elif n == "int":
                out |= isinstance(x, int) or (isinstance(x, T) and x.sort in "IB" and not getattr(x, "np", False))
            elif n == "float":
                out |= isinstance(x, float) or (isinstance(x, T) and x.sort == "R")
            elif n == "str":
                out |= isinstance(x, str) or (isinstance(x, Opaque) and x.tag == "str")
            elif n == "list":
                out |= isinstance(x, SList) and x.kind == "list"
            elif n == "tuple":
                out |= isinstance(x, tuple) or (isinstance(x, SList) and x.kind == "tuple")
            elif n == "dict":
                out |= isinstance(x, dict)
            elif n == "slice":
                out |= isinstance(x, Slice)
            else:
                raise Unsupported("isinstance " + n)
        elif n == "ndarray":
            out |= isinstance(x, SArr)
        elif n in ("integer", "floating", "number", "generic", "bool_", "int64", "float64", "float32"):
            out |= False
        elif isinstance(x, Opaque) and x.tag == "path":
            raise Unsupported("isinstance path")
        else:
            out |= isinstance(x, Opaque) and x.tag == n
    return out


for _n in ("str", "slice", "type", "object", "complex", "iter", "next", "map", "filter", "getattr", "hasattr", "callable", "open", "id", "sum"):
    if "builtins." + _n not in LIB:
        pass


@d("builtins.str")
def _str(I, x=""):
    if isinstance(x, str):
        return x
    if isinstance(x, int) and not isinstance(x, bool):
        return str(x)
    return LIB.format(I, x, "", -1)


@d("builtins.map")
def _map(I, f, *xs):
    s = LIB.seq(I, xs[0]) if len(xs) == 1 else _zip(I, *xs)
    out = SList([])
    for p in LIB.iterate(I, s):
        if p[0] == "items":
            for x in p[1]:
                out.append(I.call(f, [x] if len(xs) == 1 else list(x), {}))
        else:
            k = tm.fresh("k")
            own = [tm.le(ZERO, k), tm.lt(k, p[1])]
            own = [c for c in own if c not in I.pc]
            I.pc.extend(own)
            I.loopks.append(k)
            try:
                it = p[2](k)
                v = I.call(f, [it] if len(xs) == 1 else list(it), {})
            finally:
                I.loopks.pop()
                I.pc[:] = [c for c in I.pc if c not in own]
            if any(tm.occurs(k, c) for c in I.pc):
                raise Unsupported("map with a branching function")
            out.segs.append(Seg([k], [p[1]], TRUE, v).expand())
    return out


LIB["builtins.slice"] = lambda I, *a: Slice(None, a[0], None) if len(a) == 1 else Slice(*(list(a) + [None])[:3])


@d("numpy.iscomplexobj")
def _iscomplexobj(I, x):
    return False


@d("numpy.real")
def _real(I, x):
    return x


@d("numpy.isscalar")
def _isscalar(I, x):
    return is_scalar(x)


@d("numpy.repeat")
def _repeat(I, x, n, axis=None):
    x = to_arr(x, I)
    m = asT(n)
    if x.ndim == 0:
        t = asT(x)
        return SArr((m,), lambda idx: t, x.dt)
    if x.ndim == 1:
        fx = x.frozen()
        return SArr((x.shape[0] * m,), lambda idx: fx.get((tm.idiv(idx[0], m),)), x.dt)
    raise Unsupported("repeat")


@d("numpy.tile")
def _tile(I, x, reps):
    raise Unsupported("tile")


@smt.axiom("len")
def _ax_len(t, tr):
    return [tm.ge(t, ZERO)]


@d("scipy.ndimage.binary_dilation")
def _dilate(I, x, structure=None, iterations=1, **k):
    """a pixel is set when the structure, centred at shape // 2 and reflected, meets a set pixel"""
    if structure is None or k or cval(asT(iterations)) != 1:
        raise Unsupported("binary_dilation options")
    x, s = to_arr(x, I).frozen(), to_arr(structure, I).frozen()
    if x.ndim != s.ndim:
        raise PyRaise("RuntimeError", "structure and input must have same dimensionality")
    tr = lambda v: v if v.sort == "B" else tm.ne(v, ZERO)

    def fn(idx):
        def rec(q):
            if len(q) == s.ndim:
                p = tuple(i - (a - tm.idiv(n, const(2))) for i, a, n in zip(idx, q, s.shape))
                return and_(tr(s.get(tuple(q))), *[and_(tm.le(ZERO, a), tm.lt(a, n)) for a, n in zip(p, x.shape)], tr(x.get(p)))
            return tm.exists(s.shape[len(q)], lambda a: rec(q + [a]))
        return rec([])
    return SArr(x.shape, fn, "b")


@d("scipy.ndimage.rotate")
def _ndrotate(I, x, angle, axes=(1, 0), reshape=True, **k):
    """a function of the image, the angle and the options"""
    x = to_arr(x, I)
    if reshape is not False or x.ndim != 2:
        raise Unsupported("rotate options")
    t = x.to_term()
    opt = repr(sorted((a, str(v)) for a, v in k.items())) + repr(axes)
    return SArr(x.shape, lambda idx: T("app", ("ndrotate", t, asT(angle), opt) + tuple(idx), "R"), x.dt)


@d("scipy.ndimage.gaussian_filter", "scipy.ndimage.gaussian_filter1d")
def _gaussian(I, x, sigma, *a, **k):
    """a function of the array, sigma and the options"""
    x = to_arr(x, I)
    if a or any(not isinstance(v, (str, int, float)) for v in k.values()) or not is_scalar(sigma):
        raise Unsupported("gaussian_filter options")
    if x.ndim != 1 and k.get("axis") is not None:
        raise Unsupported("gaussian_filter axis")
    t = x.to_term()
    opt = repr(sorted(k.items()))
    return SArr(x.shape, lambda idx: T("app", ("gaussf", t, asT(sigma), opt) + tuple(idx), "R"), x.dt if x.dt[0] == "f" else x.dt)
