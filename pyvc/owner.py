"""Frame contracts by ownership typing.

Every function is checked, modularly, against the contract "assigns nothing that the caller owns".
The typing judgement gives each expression two sets of owners: the parameters whose memory the
object itself may share (own), and those whose memory may be reached through it (elem).  A store is
allowed only into an object that no parameter may own.  A caller uses the callee's contract (what
the callee may write, which parameters its result may share memory with), computed as the least
fixed point over the call graph.  The typing is conservative: a store that cannot be shown to go to
fresh memory leaves the obligation undischarged, never the other way round."""
import ast
import os

E = frozenset()


class AV:
    __slots__ = ("own", "elem", "imm")

    def __init__(self, own=E, elem=E, imm=False):
        self.own, self.elem, self.imm = frozenset(own), frozenset(elem), imm   # imm: an immutable scalar or string

    def all(self):
        return self.own | self.elem

    def __eq__(self, o):
        return isinstance(o, AV) and self.own == o.own and self.elem == o.elem and self.imm == o.imm

    def __repr__(self):
        return "AV(%s|%s)" % (",".join(sorted(map(str, self.own))), ",".join(sorted(map(str, self.elem))))


FRESH = AV()
IMM = AV(imm=True)


def join(*vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return FRESH
    return AV(frozenset().union(*[v.own for v in vs]), frozenset().union(*[v.elem for v in vs]), all(v.imm for v in vs))


# library functions whose result may share memory with an argument
ALIAS = set("""asarray asanyarray ascontiguousarray asfortranarray require reshape ravel squeeze transpose moveaxis swapaxes rollaxis
 expand_dims atleast_1d atleast_2d atleast_3d broadcast_to broadcast_arrays flip flipud fliplr rot90 split array_split hsplit vsplit diag
 diagonal real imag float32 float64 float16 int8 int16 int32 int64 uint8 uint16 uint32 uint64 float_ complex64 complex128 bool_ real_if_close frombuffer
 lib stride_tricks sliding_window_view as_strided array trim_zeros nditer matrix asmatrix apply_along_axis""".split())
COPYING = {"array": "copy", "nan_to_num": "copy", "astype": "copy"}     # copy unless copy=False is given
WRITES = {"put": 0, "copyto": 0, "fill_diagonal": 0, "place": 0, "putmask": 0, "shuffle": 0, "put_along_axis": 0, "at": 0, "heapify": 0, "heappush": 0, "heappop": 0, "insort": 0, "setattr": 0}
OUTKW = ("out", "output", "dst", "overwrite_input")
# number of positional arguments from which on the next one is an output array
NIN = dict([(k, 2) for k in "add subtract multiply divide true_divide floor_divide power mod remainder fmod maximum minimum fmax fmin arctan2 hypot logical_and logical_or logical_xor greater less greater_equal less_equal equal not_equal copysign dot matmul float_power".split()]
           + [(k, 1) for k in "sqrt abs absolute fabs sin cos tan exp log log10 log2 log1p expm1 floor ceil rint trunc negative square sign arctan arcsin arccos deg2rad rad2deg radians degrees reciprocal isnan isinf isfinite logical_not invert conjugate conj positive".split()]
           + [("clip", 3), ("gaussian_filter", 3), ("median_filter", 3), ("map_coordinates", 2), ("round", 2), ("around", 2), ("take", 3), ("remap", 4), ("cumsum", 3), ("label", 2)])
PURE_MODULES = ("numpy", "scipy", "skimage", "math", "warnings", "cv2", "time", "os", "itertools", "functools", "collections", "operator", "copy", "random", "numbers", "typing", "timeit")
# methods
M_FRESH = set("""copy astype mean sum min max std var argmin argmax argsort any all nonzero cumsum cumprod round clip dot flatten tolist prod ptp trace item
 conj conjugate repeat take compress searchsorted choose tobytes format join split strip lower upper replace startswith endswith count index isdigit
 encode decode rsplit splitlines zfill title capitalize find rfind lstrip rstrip as_posix exists is_file keys_ is_integer hex""".split())
M_ALIAS = set("reshape ravel squeeze transpose swapaxes view diagonal items keys values get newbyteorder".split())
M_WRITE = set("sort fill append extend insert pop remove clear reverse update resize put itemset setflags setdefault partition add popitem discard appendleft extendleft popleft rotate difference_update intersection_update setfield byteswap __setitem__ __iadd__".split())
M_READ = set("read save create_dataset create_group write".split())       # read from their arguments and write elsewhere (files, streams)
A_FRESH = set("shape ndim dtype size nbytes strides itemsize flags name suffix stem parent pi __name__ centroid".split())
B_ELEM = set("list tuple set frozenset zip enumerate map filter reversed sorted iter dict next deque OrderedDict".split())
B_IMM = set("len int float str bool isinstance range print repr round hash id ord chr type complex format callable hasattr issubclass bin hex super".split())


class FnInfo:
    def __init__(self, mod, name, node, encl=None):
        self.mod, self.name, self.node = mod, name, node
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.result = FRESH
        self.writes = {}          # parameter -> why
        self.callees = set()

    @property
    def dotted(self):
        return self.mod + "." + self.name


class Analysis:
    def __init__(self, root, modules, imm=()):
        self.fns, self.imports = {}, {}
        self.imm = set(imm)                 # parameters that are immutable by precondition
        for m in modules:
            p = os.path.join(root, *m.split(".")) + ".py"
            tree = ast.parse(open(p).read())
            imp = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.Import):
                    for x in n.names:
                        imp[x.asname or x.name.split(".")[0]] = x.name if x.asname else x.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom):
                    for x in n.names:
                        imp[x.asname or x.name] = (n.module or "") + "." + x.name
            self.imports[m] = imp
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.fns[m + "." + n.name] = FnInfo(m, n.name, n)
        changed, rounds = True, 0
        while changed and rounds < 12:
            changed, rounds = False, rounds + 1
            for f in self.fns.values():
                r, w = Fn(self, f).run()
                if r != f.result or w != f.writes:
                    f.result, f.writes = r, w
                    changed = True


class Fn:
    """typing of one function body"""

    def __init__(self, an, f):
        self.an, self.f = an, f
        self.writes, self.ret = {}, []
        self.local_fns = {}
        self.groups = None

    def run(self):
        env = {p: (IMM if p in self.an.imm else AV([p], [p])) for p in self.f.params}
        if self.f.vararg:
            env[self.f.vararg] = AV([], [self.f.vararg])
        if self.f.kwarg:
            env[self.f.kwarg] = AV([], [self.f.kwarg])
        self.body(self.f.node.body, env)
        return (join(*self.ret) if self.ret else FRESH), dict(self.writes)

    # -- statements ------------------------------------------------------------
    def body(self, ss, env):
        for s in ss:
            env = self.stmt(s, env)
        return env

    def merge(self, *envs):
        out = {}
        for k in set().union(*envs):
            out[k] = join(*[e[k] for e in envs if k in e])
        return out

    def write(self, v, node, what):
        for p in v.own:
            self.writes.setdefault(p, "line %d: %s" % (getattr(node, "lineno", 0), what))

    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x.value if isinstance(x, ast.Starred) else x, AV(v.all(), v.elem, v.imm), env, node)
        elif isinstance(t, ast.Subscript):
            o = self.ex(t.value, env)
            self.ex(t.slice, env)
            self.write(o, node, "store into %s" % ast.unparse(t)[:60])
            if not v.imm:
                self.taint(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ex(t.value, env)
            self.write(o, node, "attribute store %s" % ast.unparse(t)[:60])
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, node)

    def taint(self, t, v, env):
        """the object named by t, and every name that may share structure with it, may now contain v"""
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        if isinstance(t, ast.Name):
            for nm in self.group(t.id):
                if nm in env and not env[nm].imm:
                    o = env[nm]
                    env[nm] = AV(o.own, o.elem | v.all())

    def group(self, name):
        """names connected with this one by assignments that copy references"""
        if self.groups is None:
            g = {}

            def find(a):
                while g.setdefault(a, a) != a:
                    a = g[a]
                return a

            def refs(n):
                if isinstance(n, ast.Name):
                    return [n.id]
                if isinstance(n, (ast.Subscript, ast.Attribute, ast.Starred)):
                    return refs(n.value)
                if isinstance(n, (ast.Tuple, ast.List)):
                    return [x for e in n.elts for x in refs(e)]
                if isinstance(n, ast.IfExp):
                    return refs(n.body) + refs(n.orelse)
                if isinstance(n, ast.BoolOp):
                    return [x for e in n.values for x in refs(e)]
                if isinstance(n, ast.Call):
                    return [x for e in n.args for x in refs(e)] if isinstance(n.func, ast.Name) and n.func.id in B_ELEM else []
                return []
            for n in ast.walk(self.f.node):
                pairs = []
                if isinstance(n, ast.Assign):
                    pairs = [(t, n.value) for t in n.targets]
                elif isinstance(n, (ast.For, ast.comprehension)):
                    pairs = [(n.target, n.iter)]
                elif isinstance(n, ast.NamedExpr):
                    pairs = [(n.target, n.value)]
                for t, v in pairs:
                    if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
                        prs = list(zip(t.elts, v.elts))
                    else:
                        prs = [(t, v)]
                    for t1, v1 in prs:
                        r = refs(v1)
                        if not r:
                            continue
                        for a in refs(t1):
                            for b in r:
                                g[find(a)] = find(b)
            self.groups = {}
            for a in list(g):
                self.groups.setdefault(find(a), set()).add(a)
            self.groups = {a: s for s in self.groups.values() for a in s}
        return self.groups.get(name, {name})

    def stmt(self, s, env):
        env = dict(env)
        if isinstance(s, ast.Assign):
            v = self.ex(s.value, env)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + s.value.elts):
                    vs = [self.ex(x, env) for x in s.value.elts]
                    for x, w in zip(t.elts, vs):
                        self.assign(x, w, env, s)
                else:
                    self.assign(t, v, env, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ex(s.value, env), env, s)
        elif isinstance(s, ast.AugAssign):
            v = self.ex(s.value, env)
            if isinstance(s.target, ast.Name):
                o = env.get(s.target.id, FRESH)
                if not o.imm:
                    self.write(o, s, "in-place %s" % ast.unparse(s)[:60])
                env[s.target.id] = AV(o.own, o.elem | (v.all() if not o.imm else E), o.imm and v.imm)
            else:
                self.assign(s.target, v, env, s)
        elif isinstance(s, ast.Return):
            self.ret.append(self.ex(s.value, env) if s.value is not None else IMM)
        elif isinstance(s, ast.Expr):
            self.ex(s.value, env)
        elif isinstance(s, ast.If):
            self.ex(s.test, env)
            a, b = self.refine(s.test, env)
            env = self.merge(self.body(s.body, a), self.body(s.orelse, b))
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                it = self.ex(s.iter, env)
            for _ in range(8):
                e2 = dict(env)
                if isinstance(s, ast.For):
                    it = self.ex(s.iter, e2)
                    self.assign(s.target, self.element(s.iter, it, e2), e2, s)
                else:
                    self.ex(s.test, e2)
                e2 = self.merge(env, self.body(s.body, e2))
                if e2 == env:
                    break
                env = e2
            env = self.merge(env, self.body(s.orelse, env))
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ex(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, s)
            env = self.body(s.body, env)
        elif isinstance(s, ast.Try):
            e1 = self.body(s.body, env)
            es = [self.body(s.orelse, e1)]
            for h in s.handlers:
                es.append(self.body(h.body, self.merge(env, e1)))
            env = self.body(s.finalbody, self.merge(*es))
        elif isinstance(s, ast.FunctionDef):
            self.local_fns[s.name] = s
            tags = frozenset(self.f.params)
            e2 = dict(env)
            for x in s.args.posonlyargs + s.args.args + s.args.kwonlyargs + [y for y in (s.args.vararg, s.args.kwarg) if y]:
                e2[x.arg] = AV(tags, tags)
            n = len(self.ret)
            self.body(s.body, e2)
            r = self.ret[n:]
            del self.ret[n:]
            env[s.name] = FRESH
            self.local_fns[s.name] = join(*r) if r else FRESH
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.write(self.ex(t.value, env), s, "deletion in %s" % ast.unparse(t)[:60])
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.ex(x, env)
        elif isinstance(s, (ast.Pass, ast.Break, ast.Continue, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            pass
        else:
            for p in self.f.params:
                self.writes.setdefault(p, "line %d: statement %s is not typed" % (s.lineno, type(s).__name__))
        return env

    def refine(self, test, env):
        """isinstance(x, int) and the like make x immutable in the true branch"""
        a, b = dict(env), dict(env)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            names = {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(test.args[1]) if isinstance(x, (ast.Name, ast.Attribute))}
            if names and names <= {"int", "float", "str", "bool", "integer", "np", "numpy", "Number", "Real", "floating"}:
                a[test.args[0].id] = IMM
        return a, b

    # -- expressions -------------------------------------------------------------
    def element(self, node, it, env):
        """the value a loop variable takes"""
        if isinstance(node, ast.Call):
            f = node.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm in ("range", "arange", "linspace"):
                return IMM
        return AV(it.all(), it.elem)

    def ex(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            vs = [self.ex(x, env) for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)]
            j = join(*vs) if vs else FRESH
            return AV(j.all(), j.all())
        return m(n, env)

    def e_Constant(self, n, env):
        return IMM

    def e_JoinedStr(self, n, env):
        return IMM

    def e_Name(self, n, env):
        return env.get(n.id, FRESH)

    def e_BinOp(self, n, env):
        l, r = self.ex(n.left, env), self.ex(n.right, env)
        if l.imm and r.imm:
            return IMM
        return AV(E, l.elem | r.elem if isinstance(n.op, (ast.Add, ast.Mult)) else E)

    def e_UnaryOp(self, n, env):
        v = self.ex(n.operand, env)
        return IMM if v.imm or isinstance(n.op, ast.Not) else FRESH

    def e_Compare(self, n, env):
        for x in [n.left] + n.comparators:
            self.ex(x, env)
        return FRESH

    def e_BoolOp(self, n, env):
        return join(*[self.ex(x, env) for x in n.values])

    def e_IfExp(self, n, env):
        self.ex(n.test, env)
        a, b = self.refine(n.test, env)
        return join(self.ex(n.body, a), self.ex(n.orelse, b))

    def e_Tuple(self, n, env):
        vs = [self.ex(x, env) for x in n.elts]
        return AV(E, frozenset().union(*[v.all() for v in vs]))

    e_List = e_Set = e_Tuple

    def e_Starred(self, n, env):
        v = self.ex(n.value, env)
        return AV(v.all(), v.elem)

    def e_Dict(self, n, env):
        vs = [self.ex(x, env) for x in n.keys + n.values if x is not None]
        return AV(E, frozenset().union(*[v.all() for v in vs]))

    def e_Slice(self, n, env):
        for x in (n.lower, n.upper, n.step):
            if x is not None:
                self.ex(x, env)
        return IMM

    def e_Subscript(self, n, env):
        o = self.ex(n.value, env)
        self.ex(n.slice, env)
        if o.imm:
            return IMM
        return AV(o.all(), o.elem)

    def e_Attribute(self, n, env):
        o = self.ex(n.value, env)
        if n.attr in A_FRESH:
            return AV(E, E, n.attr in ("ndim", "size", "dtype"))
        return AV(o.all(), o.elem)

    def comp(self, n, env, elts):
        e2 = dict(env)
        for g in n.generators:
            it = self.ex(g.iter, e2)
            self.assign(g.target, self.element(g.iter, it, e2), e2, n)
            for c in g.ifs:
                self.ex(c, e2)
        vs = [self.ex(x, e2) for x in elts]
        return AV(E, frozenset().union(*[v.all() for v in vs]))

    def e_ListComp(self, n, env):
        return self.comp(n, env, [n.elt])

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, env):
        return self.comp(n, env, [n.key, n.value])

    def e_Lambda(self, n, env):
        e2 = dict(env)
        tags = frozenset(self.f.params)
        for x in n.args.args:
            e2[x.arg] = AV(tags, tags)
        return self.ex(n.body, e2)

    def e_NamedExpr(self, n, env):
        v = self.ex(n.value, env)
        env[n.target.id] = v
        return v

    def dotted(self, f):
        """dotted library / module name of a call target, or None"""
        parts = []
        while isinstance(f, ast.Attribute):
            parts.append(f.attr)
            f = f.value
        if not isinstance(f, ast.Name):
            return None
        imp = self.an.imports[self.f.mod]
        if f.id in imp:
            return ".".join([imp[f.id]] + parts[::-1])
        if not parts:
            return f.id
        return None

    def e_Call(self, n, env):
        args = [self.ex(a, env) for a in n.args]
        kws = {k.arg: self.ex(k.value, env) for k in n.keywords}
        allv = args + list(kws.values())
        every = AV(frozenset().union(*[v.all() for v in allv]), frozenset().union(*[v.all() for v in allv]))
        f = n.func
        nm = self.dotted(f)
        for k, v in kws.items():
            if k in OUTKW and not v.imm:
                self.write(v, n, "%s= argument of %s" % (k, ast.unparse(f)[:40]))
        # functions passed as arguments are called with data reachable from the other arguments
        for a in list(n.args) + [k.value for k in n.keywords]:
            t = self.target(a)
            if t is not None:
                for p in t.writes:
                    if p in t.params:
                        self.write(AV(every.all()), n, "%s may write its argument" % t.name)
        if isinstance(f, ast.Name) and f.id in env and f.id not in self.local_fns and self.dotted(f) == f.id:
            # call of a parameter / local callable
            return AV(every.all() | env[f.id].all(), every.all() | env[f.id].all())
        if isinstance(f, ast.Name) and f.id in self.local_fns:
            r = self.local_fns[f.id]
            return AV(r.own | every.all() if r.own or r.elem else E, r.elem | (every.all() if r.elem else E)) if isinstance(r, AV) else every
        t = self.target(f)
        if t is not None:
            return self.user_call(t, n, args, kws)
        if nm is not None and (isinstance(f, ast.Name) and nm == f.id):
            return self.builtin(nm, n, args, kws, every)
        if nm is not None:
            return self.library(nm, n, args, kws, every)
        if isinstance(f, ast.Attribute):
            o = self.ex(f.value, env)
            if f.attr in M_WRITE:
                self.write(o, n, "method %s.%s" % (ast.unparse(f.value)[:40], f.attr))
                for v in allv:
                    if not v.imm:
                        self.taint(f.value, v, env)
                return AV(o.elem, o.elem)
            if f.attr in COPYING and "copy" in kws:
                return AV(o.all(), o.elem)
            if f.attr in M_FRESH:
                return AV(E, o.elem if f.attr in ("copy", "tolist", "take") else E)
            if f.attr in M_ALIAS:
                return AV(o.all(), o.all())
            if o.imm:                           # methods of immutable objects (paths, strings, numbers) have nothing to write
                return IMM
            if f.attr in M_READ:
                return FRESH
            if o.all():
                self.write(AV(o.own), n, "method %s of a caller's object is not known to be read-only" % f.attr)
            return AV(o.all() | every.all(), o.all() | every.all())
        return every

    def target(self, f):
        """FnInfo of a reference to a function of the library"""
        if not isinstance(f, (ast.Name, ast.Attribute)):
            return None
        nm = self.dotted(f)
        if nm is None:
            return None
        if nm in self.an.fns:
            return self.an.fns[nm]
        if isinstance(f, ast.Name):
            return self.an.fns.get(self.f.mod + "." + nm)
        return None

    def user_call(self, t, n, args, kws):
        self.f.callees.add(t.dotted)
        bind = {}
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
        if star:
            every = join(*(args + list(kws.values()))) if args or kws else FRESH
            bind = {p: AV(every.all(), every.all()) for p in t.params}
        pos = list(t.pos)
        for i, a in enumerate(args):
            if i < len(pos) and not star:
                bind[pos[i]] = a
            elif t.vararg:
                bind[t.vararg] = join(bind.get(t.vararg), AV(a.all(), a.all()))
        for k, v in kws.items():
            if k in t.params:
                bind[k] = v
            elif t.kwarg:
                bind[t.kwarg] = join(bind.get(t.kwarg), AV(v.all(), v.all()))
        for p, why in t.writes.items():
            if p in bind:
                self.write(AV(bind[p].all()), n, "%s writes its parameter %s (%s)" % (t.name, p, why))
        r = t.result
        own, elem = set(), set()
        for p in r.own:
            if p in bind:
                own |= bind[p].all()
        for p in r.elem:
            if p in bind:
                elem |= bind[p].all()
        return AV(own, elem, r.imm)

    def builtin(self, nm, n, args, kws, every):
        if nm in B_IMM:
            return IMM
        if nm in B_ELEM:
            return AV(E, every.all())
        if nm in ("min", "max", "abs", "sum", "pow", "divmod"):
            if all(a.imm for a in args):
                return IMM
            return AV(E if nm in ("abs", "pow", "divmod") else every.all(), every.all() if nm not in ("abs", "pow", "divmod") else E)
        if nm in WRITES and args:
            self.write(args[0], n, "call of " + nm)
        if nm[:1].isupper():                    # exception classes
            return FRESH
        return every

    def library(self, nm, n, args, kws, every):
        root, last = nm.split(".")[0], nm.split(".")[-1]
        if last in WRITES and args:
            self.write(args[WRITES[last]], n, "call of " + nm)
        if last in NIN and len(args) > NIN[last]:
            self.write(args[NIN[last]], n, "positional output argument of %s" % nm)
            return AV(args[NIN[last]].own, args[NIN[last]].elem)
        if last in COPYING and "copy" in kws:
            if last == "nan_to_num" and args:
                self.write(args[0], n, "%s with copy=" % nm)
            return AV(every.all(), every.all())
        if any(k in OUTKW for k in kws):
            o = join(*[v for k, v in kws.items() if k in OUTKW])
            return AV(o.own, o.elem)
        if last == "array":
            return FRESH
        if root in PURE_MODULES:
            if last in B_ELEM or root in ("itertools", "collections", "functools", "copy") and last != "deepcopy":
                return AV(E, every.all())
            if last in ALIAS:
                return AV(args[0].all() if args and last != "broadcast_arrays" else every.all(), args[0].all() if args else every.all())
            return FRESH
        return every
