"""Symbolic executor for the Python subset used by the code under contract.

The program text is the AST parsed from /repo on every run; nothing is dropped
except docstrings, comments and type annotations.  Branches on symbolic
conditions are explored path by path; loops over symbolic ranges are replaced
by a closed form that is checked to be inductive (the step from iteration k to
k+1 is the symbolically executed body)."""
import ast
import os
from fractions import Fraction
from . import terms as tm
from . import smt
from .terms import T, ZERO, ONE, TRUE, FALSE, const, cval, num, and_, or_, not_
from .values import *
from .values import Unsupported, PyRaise, Poison

REPO = os.environ.get("VERIF_REPO", "/repo")


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Infeasible(Exception):
    pass


class Module:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Module(%s)" % self.name


class LibFn:
    """a library function known by qualified name"""

    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_

    def __repr__(self):
        return "LibFn(%s)" % self.name


class UserFn:
    def __init__(self, node, mod, name, closure=None):
        self.node, self.mod, self.name, self.closure = node, mod, name, closure
        self.dvals = {}         # defaults of nested functions: evaluated where the function is defined


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ExcType:
    def __init__(self, name):
        self.name = name


class Opaque:
    """object of an unmodelled type with named attributes"""

    def __init__(self, tag, attrs=None, term=None):
        self.tag, self.attrs, self.term = tag, attrs or {}, term

    def vsubst(self, m):
        return Opaque(self.tag, {k: vsubst(v, m) for k, v in self.attrs.items()},
                      tm.subst(self.term, m) if self.term is not None else None)


def same_value(a, b):
    if isinstance(a, T) or isinstance(b, T) or is_scalar(a) and is_scalar(b):
        return is_scalar(a) and is_scalar(b) and asT(a) is asT(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Opaque):
        return a.tag == b.tag and a.term is b.term and same_value(a.attrs, b.attrs)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bool)) or a is None:
        return a == b
    return a is b


class Star:
    """a starred argument of symbolic length"""

    def __init__(self, lst):
        self.lst = lst


class Slice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def vsubst(self, m):
        from .values import vsubst
        return Slice(*[vsubst(x, m) for x in (self.a, self.b, self.c)])


class Range:
    """0 <= k < n ; element start + k*step"""

    def __init__(self, start, n, step):
        self.start, self.n, self.step = start, n, step


EXC_PARENTS = {"ZeroDivisionError": ["ArithmeticError"], "IndexError": ["LookupError"], "KeyError": ["LookupError"],
               "FileNotFoundError": ["OSError", "IOError"], "IOError": ["OSError"], "ImportError": [],
               "ModuleNotFoundError": ["ImportError"], "LinAlgError": ["ValueError"]}

_modcache = {}


def mark_conditions(tree):
    """and/or whose value is used as a condition only (elsewhere Python returns one of the operands)"""
    def mark(e):
        if isinstance(e, ast.BoolOp):
            e.is_condition = True
            for v in e.values:
                mark(v)
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            mark(e.operand)
    for x in ast.walk(tree):
        if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            mark(x.test)
        elif isinstance(x, ast.comprehension):
            for c in x.ifs:
                mark(c)
        elif isinstance(x, ast.UnaryOp):
            mark(x)


class SrcModule:
    def __init__(self, dotted):
        self.name = dotted
        path = os.path.join(REPO, *dotted.split(".")) + ".py"
        self.path = path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        mark_conditions(self.tree)
        self.env = {}
        self.assigns = []
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.env[n.name] = UserFn(n, self, dotted + "." + n.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.env[a.asname] = Module(a.name)
                    else:
                        self.env[a.name.split(".")[0]] = Module(a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.env[a.asname or a.name] = ("from", n.module, a.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                self.assigns.append(n)
            elif isinstance(n, ast.ClassDef):
                self.env[n.name] = ("class", n)


def load(dotted):
    m = _modcache.get(dotted)
    if m is None:
        m = _modcache[dotted] = SrcModule(dotted)
    return m


def has_source(dotted):
    return os.path.isfile(os.path.join(REPO, *dotted.split(".")) + ".py")


class Frame:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name
        self.vars = {}
        self.parent = None


def assigned_names(body):
    from .loops import assigned
    return assigned(body)[0]


class Interp:
    def __init__(self, lib, summaries=None, facts=(), maxpaths=400):
        self.lib = lib
        self.summaries = summaries or {}
        self.pc = list(facts)
        self.decisions = []      # stack of [script, pos]
        self.frames = []
        self.maxpaths = maxpaths
        self.effects = []        # ordered effect trace (I/O)
        self.safety = []         # (name, pc, goal)
        self.depth = 0
        self.entered = set()
        self.loops = []
        self.ghost = {"fs": Opaque("fs", {})}
        self.factset = set()
        self.variants = []
        self.invs = []        # obligations of loop rules       # (name, whether it is shown to decrease) of the while loops over data
        self.loopks = []         # indices of the symbolic iterations being executed

    def assume_fact(self, b):
        b = tm.tobool(b)
        if b is FALSE:
            raise Infeasible()
        if b is TRUE:
            return
        if b.op == "and":
            for x in b.args[0]:
                self.assume_fact(x)
        elif b not in self.pc:
            self.factset.add(b)
            self.pc.append(b)

    # -- facts and branching ---------------------------------------------------
    def known(self, b, timeout=0.5):
        b = tm.tobool(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in self.pc:
            return True
        smt.QUICK[0] = True
        try:
            return smt.prove(list(self.pc), b, timeout=timeout, depth=1)[0] == "proved"
        finally:
            smt.QUICK[0] = False

    def assume(self, b):
        b = tm.tobool(b)
        if b is FALSE:
            raise Infeasible()
        if b is not TRUE:
            if b.op == "and":
                for x in b.args[0]:
                    self.assume(x)
            else:
                self.pc.append(b)

    def branch(self, b):
        """decide a condition, forking the path when both are possible"""
        if isinstance(b, bool):
            return b
        b = tm.tobool(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if self.known(b):
            return True
        nb = not_(b)
        if self.known(nb):
            return False
        if not self.decisions:
            raise Unsupported("branch outside exploration")
        d = self.decisions[-1]
        if d["pos"] < len(d["script"]):
            c = d["script"][d["pos"]]
        else:
            c = True
            d["todo"].append(d["script"][:d["pos"]] + [False])
            d["script"] = d["script"] + [True]
        d["pos"] += 1
        self.pc.append(b if c else nb)
        return c

    def explore(self, thunk):
        """all paths of thunk(); -> list of (pc_extra, outcome, value, state)"""
        snap = self.snapshot()
        base = len(self.pc)
        eff = list(self.effects)
        todo = [[]]
        out = []
        while todo:
            script = todo.pop()
            self.restore(snap)
            del self.pc[base:]
            self.effects[:] = eff
            d = dict(script=script, pos=0, todo=todo)
            self.decisions.append(d)
            nf = len(self.frames)
            dep = self.depth
            try:
                r = thunk()
                oc = ("normal", r)
            except Ret as e:
                oc = ("return", e.v)
            except Brk:
                oc = ("break", None)
            except Cont:
                oc = ("normal", None)
            except PyRaise as e:
                oc = ("raise", e)
            except Infeasible:
                oc = None
            finally:
                self.decisions.pop()
                del self.frames[nf:]
                self.depth = dep
            if oc is not None:
                yield_state = (list(self.pc[base:]), oc[0], oc[1])
                out.append(yield_state)
                yield yield_state
            if len(out) > self.maxpaths:
                raise Unsupported("too many paths")
        del self.pc[base:]

    # -- heap snapshots ----------------------------------------------------------
    def reach(self):
        seen = {}
        st = []
        for f in self.frames:
            st.extend(f.vars.values())
        st.extend(self.ghost.values())
        while st:
            x = st.pop()
            if isinstance(x, (SArr, SList, dict, Opaque)):
                if id(x) in seen:
                    continue
                seen[id(x)] = x
                if isinstance(x, SList):
                    for s in x.segs:
                        if isinstance(s, list):
                            st.extend(s)
                        elif isinstance(s.val, (SArr, SList, tuple)):
                            pass
                elif isinstance(x, dict):
                    st.extend(x.values())
                elif isinstance(x, Opaque):
                    st.extend(x.attrs.values())
                elif x.base is not None:
                    st.append(x.base)
            elif isinstance(x, tuple):
                st.extend(x)
        return list(seen.values())

    def snapshot(self):
        objs = []
        for x in self.reach():
            if isinstance(x, SArr):
                objs.append((x, (x.shape, x.fn, x.memo, x.stores, x.dt)))
            elif isinstance(x, SList):
                objs.append((x, list(x.segs)))
            elif isinstance(x, dict):
                objs.append((x, dict(x)))
            else:
                objs.append((x, dict(x.attrs)))
        return [dict(f.vars) for f in self.frames], objs

    def restore(self, snap):
        vs, objs = snap
        for f, v in zip(self.frames, vs):
            f.vars.clear()
            f.vars.update(v)
        for x, s in objs:
            if isinstance(x, SArr):
                x.shape, x.fn, x.memo, x.stores, x.dt = s
            elif isinstance(x, SList):
                x.segs = list(s)
            elif isinstance(x, dict):
                x.clear()
                x.update(s)
            else:
                x.attrs = dict(s)

    # -- names ---------------------------------------------------------------------
    def lookup(self, name):
        f = self.frames[-1]
        g = f
        while g is not None:
            if name in g.vars:
                v = g.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported("loop-carried value %s (%s)" % (name, v.why))
                return v
            g = g.parent
        return self.modname(f.mod, name)

    def modname(self, mod, name):
        if name in mod.env:
            v = mod.env[name]
            if isinstance(v, tuple) and v[0] == "from":
                return self.attr_of_module(v[1], v[2])
            return v
        for a in mod.assigns:
            tg = a.targets if isinstance(a, ast.Assign) else [a.target]
            for t in tg:
                if isinstance(t, ast.Name) and t.id == name:
                    fr = Frame(mod, "<module>")
                    self.frames.append(fr)
                    try:
                        return self.ev(a.value)
                    finally:
                        self.frames.pop()
        if name in BUILTIN_EXC:
            return ExcType(name)
        if ("builtins." + name) in self.lib:
            return LibFn("builtins." + name)
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        raise Unsupported("name %s" % name)

    def attr_of_module(self, mod, attr):
        if has_source(mod):
            m = load(mod)
            if attr in m.env or any(True for _ in m.assigns):
                return self.modname(m, attr)
        q = mod + "." + attr
        if has_source(q):
            return Module(q)
        if os.path.isdir(os.path.join(REPO, *q.split("."))):
            return Module(q)
        q = canon(q)
        if q in self.lib.consts:
            return self.lib.consts[q]
        if q in self.lib.modules:
            return Module(q)
        if q.split(".")[-1] in BUILTIN_EXC or q.endswith("Error") or q.endswith("Warning"):
            return ExcType(q.split(".")[-1])
        return LibFn(q)

    # -- calls -----------------------------------------------------------------------
    def call(self, f, args, kw):
        if isinstance(f, UserFn):
            s = self.summaries.get(f.name)
            if s is not None:
                ba = self.bind(f, args, kw)
                self.entered.add("contract:" + f.name)
                return s(self, ba)
            return self.call_user(f, args, kw)
        if isinstance(f, LibFn):
            h = self.lib.get(f.name)
            if h is None:
                raise Unsupported("library function %s" % f.name)
            self.entered.add("lib:" + f.name)
            if f.self_ is not None:
                return h(self, f.self_, *args, **kw)
            return h(self, *args, **kw)
        if isinstance(f, Bound):
            return self.lib.method(self, f.obj, f.name, args, kw)
        if isinstance(f, ExcType):
            return PyRaise(f.name, args[0] if args else "")
        if callable(f) and getattr(f, "_pyvc", False):
            return f(self, *args, **kw)
        raise Unsupported("call of %s" % type(f).__name__)

    def bind(self, f, args, kw):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if any(isinstance(v, Star) for v in args[:len(params)]):
            raise Unsupported("star argument of symbolic length bound to a named parameter")
        for p, v in zip(params, args):
            vals[p] = v
        if len(args) > len(params):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many arguments")
            rest = args[len(params):]
            if any(isinstance(v, Star) for v in rest):
                r = SList([], "tuple")
                for v in rest:
                    if isinstance(v, Star):
                        r.extend_segs(v.lst.segs)
                    else:
                        r.append(v)
                vals[a.vararg.arg] = r
            else:
                vals[a.vararg.arg] = tuple(rest)
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        extra = {}
        for k, v in kw.items():
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    raise PyRaise("TypeError", "duplicate argument")
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise("TypeError", "unexpected keyword %s" % k)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        fr = Frame(f.mod, f.name)
        self.frames.append(fr)
        try:
            nd = len(a.defaults)
            for p, d in zip(params[len(params) - nd:], a.defaults):
                if p not in vals:
                    vals[p] = f.dvals[d] if d in f.dvals else self.ev(d)
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if p.arg not in vals and d is not None:
                    vals[p.arg] = f.dvals[d] if d in f.dvals else self.ev(d)
        finally:
            self.frames.pop()
        for p in params:
            if p not in vals:
                raise PyRaise("TypeError", "missing argument %s" % p)
        return vals

    def call_user(self, f, args, kw):
        if self.depth > 40:
            raise Unsupported("recursion depth")
        vals = self.bind(f, args, kw)
        fr = Frame(f.mod, f.name)
        fr.parent = f.closure
        fr.vars.update(vals)
        self.entered.add(f.name)
        self.frames.append(fr)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            for d in getattr(f.node, "decorator_list", []):
                raise Unsupported("decorator")
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                raise Unsupported("generator")
            self.block(f.node.body)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.frames.pop()

    # -- statements --------------------------------------------------------------------
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s)

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Return(self, s):
        raise Ret(self.ev(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise Brk()

    def s_Continue(self, s):
        raise Cont()

    def s_FunctionDef(self, s):
        self.frames[-1].vars[s.name] = self.nested(UserFn(s, self.frames[-1].mod, self.frames[-1].name + "." + s.name, self.frames[-1]))

    def nested(self, f):
        a = f.node.args
        f.dvals = {d: self.ev(d) for d in list(a.defaults) + list(a.kw_defaults) if d is not None}
        return f

    def s_Import(self, s):
        for a in s.names:
            self.frames[-1].vars[a.asname or a.name.split(".")[0]] = Module(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s):
        for a in s.names:
            self.frames[-1].vars[a.asname or a.name] = self.attr_of_module(s.module, a.name)

    def s_Assert(self, s):
        if not self.truth(self.ev(s.test)):
            raise PyRaise("AssertionError", "")

    def s_Raise(self, s):
        if s.exc is None:
            if not getattr(self, "handling", None):
                raise Unsupported("bare raise")
            raise self.handling[-1]
        e = self.ev(s.exc)
        if isinstance(e, ExcType):
            e = PyRaise(e.name, "")
        if isinstance(e, PyRaise):
            raise e
        raise Unsupported("raise of %r" % (e,))

    def merge_if(self, s, c):
        """conditional assignment of scalars under a large condition: merged as ite instead of forking; False when not of that form"""
        def simple(b):
            for x in b:
                if isinstance(x, ast.Pass):
                    continue
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    continue
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and ast.unparse(x.value.func).split(".")[-1] in ("warn", "print", "warning"):
                    continue
                return False
            return True
        if not (simple(s.body) and simple(s.orelse)):
            return False
        f = self.frames[-1]
        before = dict(f.vars)
        res = []
        base = len(self.pc)
        for body, cond in ((s.body, c), (s.orelse, not_(c))):
            f.vars.clear()
            f.vars.update(before)
            self.pc.append(cond)
            dec, self.decisions = self.decisions, []
            try:
                self.block(body)
                res.append(dict(f.vars))
            except (Unsupported, PyRaise):
                res.append(None)
            finally:
                self.decisions = dec
                del self.pc[base:]
                f.vars.clear()
                f.vars.update(before)
            if res[-1] is None:
                return False
        out = {}
        for k in set(res[0]) | set(res[1]):
            a, b = res[0].get(k, None), res[1].get(k, None)
            if k in res[0] and k in res[1] and (a is b or (type(a) in (str, int, float, bool) and type(a) is type(b) and a == b)):
                out[k] = a
                continue
            if not (k in res[0] and k in res[1]):
                out[k] = Poison("assigned in one branch only")
                continue
            if not (is_scalar(a) and is_scalar(b)):
                return False
            ta, tb = asT(a), asT(b)
            if (ta.sort == "B") != (tb.sort == "B"):
                return False
            if ta.sort == "B":
                out[k] = or_(and_(c, ta), and_(not_(c), tb))
            else:
                out[k] = tm.ite(c, ta, tb)
        f.vars.clear()
        f.vars.update(out)
        return True

    def s_If(self, s):
        c = self.ev(s.test)
        t = self.lib.truth(self, c)
        if isinstance(t, T) and t not in (TRUE, FALSE) and len(tm.subterms(t, bound=True)) > 120 and self.merge_if(s, tm.tobool(t)):
            return
        if self.truth(c):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def s_Try(self, s):
        try:
            self.block(s.body)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None or self.exc_match(e, self.ev(h.type)):
                    if h.name:
                        self.frames[-1].vars[h.name] = Opaque("exception", {"msg": e.msg})
                    self.handling = getattr(self, "handling", [])
                    self.handling.append(e)
                    try:
                        self.block(h.body)
                    except (Ret, Brk, Cont, PyRaise):
                        self.block(s.finalbody)
                        raise
                    finally:
                        self.handling.pop()
                    break
            else:
                self.block(s.finalbody)
                raise
        except (Ret, Brk, Cont):
            self.block(s.finalbody)
            raise
        else:
            self.block(s.orelse)
        self.block(s.finalbody)

    def exc_match(self, e, t):
        if isinstance(t, (tuple,)):
            return any(self.exc_match(e, x) for x in t)
        if isinstance(t, SList):
            return any(self.exc_match(e, x) for x in t.items())
        if isinstance(t, LibFn):
            t = ExcType(t.name.split(".")[-1])
        if not isinstance(t, ExcType):
            raise Unsupported("except clause")
        names = [e.name]
        for n in names:
            names += [p for p in EXC_PARENTS.get(n, []) if p not in names]
        return t.name in names + ["Exception", "BaseException"]

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            v = self.lib.enter(self, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        try:
            self.block(s.body)
        finally:
            pass
        for it in s.items:
            pass

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_Global(self, s):
        raise Unsupported("global")

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id)
            r = self.ev(s.value)
            if isinstance(cur, SList) and isinstance(s.op, ast.Add):
                self.lib.method(self, cur, "extend", [r], {})
                return
            if isinstance(cur, SArr) and cur.ndim > 0:
                v = self.binop(s.op, cur, r)
                self.lib.store_all(self, cur, v)
                return
            self.frames[-1].vars[s.target.id] = self.binop(s.op, cur, r)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value)
            k = self.key(s.target.slice)
            cur = self.lib.getitem(self, o, k)
            v = self.binop(s.op, cur, self.ev(s.value))
            self.lib.setitem(self, o, k, v)
        else:
            raise Unsupported("augmented assignment target")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frames[-1].vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                i = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                its = self.lib.items(self, v)
                for e, x in zip(t.elts[:i], its[:i]):
                    self.assign(e, x)
                r = n - i - 1
                self.assign(t.elts[i].value, SList.of(its[i:len(its) - r]))
                for e, x in zip(t.elts[i + 1:], its[len(its) - r:]):
                    self.assign(e, x)
                return
            its = self.lib.unpack(self, v, n)
            for e, x in zip(t.elts, its):
                self.assign(e, x)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.key(t.slice)
            self.lib.setitem(self, o, k, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.lib.setattr(self, o, t.attr, v)
        else:
            raise Unsupported("assignment target")

    def derived_expr(self, body, nm, names, allow=()):
        """the expression e of the only assignment nm = e in the body, when nothing that e reads is assigned after it (and e does not
        read nm or another variable without a scalar value): then nm == e is an invariant of the body"""
        where = [i for i, st in enumerate(body) if any(isinstance(n, (ast.Name,)) and isinstance(n.ctx, ast.Store) and n.id == nm for n in ast.walk(st))]
        if len(where) != 1:
            return None
        st = body[where[0]]
        if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
            return None
        if any(isinstance(n, (ast.Continue, ast.NamedExpr)) for b in body for n in ast.walk(b)):
            return None
        reads = {n.id for n in ast.walk(st.value) if isinstance(n, ast.Name)}
        later = {n.id for b in body[where[0] + 1:] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if nm in reads or reads & later or any(r in names and r not in allow and not is_scalar(self.frames[-1].vars.get(r)) for r in reads):
            return None
        return st.value

    def while_rule(self, s):
        """loop rule for a while loop over scalars: the body is executed once from an arbitrary state that satisfies the
        lower bounds (value >= initial value) checked to be inductive; the loop ends by the test or by break.  Partial
        correctness: termination is a separate obligation or assumption."""
        from .loops import assigned
        names, muts = assigned(s.body)
        f = self.frames[-1]
        for nm in sorted(muts):
            v = f.vars.get(nm)
            if not (v is None or is_scalar(v)):
                raise Unsupported("while loop changes %s" % nm)
        init = {nm: f.vars[nm] for nm in names if nm in f.vars}
        hv, inv = {}, []
        for nm, v in init.items():
            if isinstance(v, bool) or (isinstance(v, T) and v.sort == "B"):
                hv[nm] = tm.fresh("w_" + nm, "B")
            elif isinstance(v, int) or (isinstance(v, T) and v.sort == "I"):
                hv[nm] = tm.fresh("w_" + nm, "I")
                inv.append(nm)
            elif isinstance(v, float) or isinstance(v, T):
                hv[nm] = tm.fresh("w_" + nm, "R")
            else:
                hv[nm] = Poison("while loop variable " + nm)
        lower = {nm: asT(init[nm]) for nm in inv}
        derived = {}
        for nm in [nm for nm in init if isinstance(hv[nm], Poison)]:
            e = self.derived_expr(s.body, nm, names)
            if e is not None and same_value(self.ev(e), init[nm]):
                derived[nm] = e          # holds at entry, and the body re-establishes it

        def havoc():
            for nm in names:
                if nm in hv:
                    f.vars[nm] = hv[nm]
                else:
                    f.vars.pop(nm, None)
            for nm in inv:
                self.pc.append(tm.le(lower[nm], hv[nm]))
            for nm, e in derived.items():
                f.vars[nm] = self.ev(e)

        neff = len(self.effects)
        while True:
            bad = set()

            def once():
                havoc()
                if not self.truth(self.ev(s.test)):
                    raise Infeasible()
                self.block(s.body)
                return {nm: f.vars.get(nm) for nm in inv}
            for pcx, oc, val in self.explore(once):
                if oc != "normal":
                    continue
                if len(self.effects) != neff:
                    raise Unsupported("I/O effect in a while loop")
                val = val if val is not None else {nm: f.vars.get(nm) for nm in inv}
                for nm in inv:
                    v = val.get(nm)
                    if not is_scalar(v) or not self.known(tm.le(lower[nm], asT(v))):
                        bad.add(nm)
            if not bad:
                break
            inv = [nm for nm in inv if nm not in bad]
        havoc()
        if not self.truth(self.ev(s.test)):
            self.block(s.orelse)
            return
        try:
            self.block(s.body)
        except Brk:
            return
        except Cont:
            pass
        raise Infeasible()

    def s_While(self, s):
        if isinstance(s.test, ast.Constant) and s.test.value and any(isinstance(n, (ast.Break, ast.Return)) for n in ast.walk(s)):
            return self.while_rule(s)
        if any(isinstance(n, ast.Name) and n.id in assigned_names(s.body) for n in ast.walk(s.test)):
            from . import rowsel
            g = rowsel.applies(self, s)
            if g is not None:
                return rowsel.rule(self, s, *g)
        for it in range(200):
            c = self.ev(s.test)
            if isinstance(c, T) and c.sort == "B" and c not in (TRUE, FALSE) and not self.known(c) and not self.known(not_(c)):
                h = getattr(self.lib, "symbolic_while", None)
                if h is not None and h(self, s, it):
                    break
                if it:
                    raise Unsupported("symbolic while loop")
                from . import whiles
                g = whiles.applies(self, s)
                if g is not None:
                    return whiles.rule(self, s, *g)
                return self.while_rule(s)
            if not self.truth(c):
                self.block(s.orelse)
                break
            try:
                self.block(s.body)
            except Brk:
                break
            except Cont:
                continue
        else:
            raise Unsupported("while loop bound")

    def s_For(self, s):
        it = self.lib.iterate(self, self.ev(s.iter))
        # it: list of parts: ('items', [..]) | ('sym', n, fn(k)->item)
        broke = False
        for part in it:
            if part[0] == "items":
                for x in part[1]:
                    self.assign(s.target, x)
                    try:
                        self.block(s.body)
                    except Brk:
                        broke = True
                        break
                    except Cont:
                        continue
            else:
                broke = self.sym_loop(s.target, s.body, part[1], part[2])
            if broke:
                break
        if not broke:
            self.block(s.orelse)

    # -- symbolic loops -----------------------------------------------------------------
    def sym_loop(self, target, body, n, item):
        from .loops import summarise
        return summarise(self, target, body, n, item)

    # -- expressions ------------------------------------------------------------------------
    def truth(self, v):
        return self.branch(self.lib.truth(self, v))

    def key(self, n):
        if isinstance(n, ast.Slice):
            return Slice(*[self.ev(x) if x is not None else None for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return tuple(self.key(x) for x in n.elts)
        return self.ev(n)

    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        if isinstance(n.value, (int, float, str, bool, type(None), bytes)) or n.value is Ellipsis:
            return n.value
        raise Unsupported("constant")

    def e_Name(self, n):
        return self.lookup(n.id)

    def e_Tuple(self, n):
        es = self.elts(n.elts)
        if any(isinstance(e, Star) for e in es):
            r = SList([], "tuple")
            for v in es:
                if isinstance(v, Star):
                    r.extend_segs(v.lst.segs)
                else:
                    r.append(v)
            return r
        return tuple(es)

    def e_List(self, n):
        r = SList([])
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                self.lib.method(self, r, "extend", [v], {})
            else:
                r.append(self.ev(e))
        return r

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out += self.lib.staritems(self, self.ev(e.value))
            else:
                out.append(self.ev(e))
        return out

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v))
            else:
                d[self.ev(k)] = self.ev(v)
        return d

    def e_Set(self, n):
        return self.lib["builtins.set"](self, SList.of([self.ev(e) for e in n.elts]))

    def e_Attribute(self, n):
        o = self.ev(n.value)
        if isinstance(o, Module):
            return self.attr_of_module(o.name, n.attr)
        return self.lib.getattr(self, o, n.attr)

    def e_Subscript(self, n):
        o = self.ev(n.value)
        k = self.key(n.slice)
        return self.lib.getitem(self, o, k)

    def e_Slice(self, n):
        return self.key(n)

    def e_Call(self, n):
        if isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Name):
            f = self.ev(n.func)
        else:
            f = self.ev(n.func)
        args = self.elts(n.args)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if not isinstance(d, dict):
                    raise Unsupported("** of non-dict")
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)

    def e_BinOp(self, n):
        return self.binop(n.op, self.ev(n.left), self.ev(n.right))

    def binop(self, op, a, b):
        return self.lib.binop(self, type(op).__name__, a, b)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        return self.lib.unop(self, type(n.op).__name__, v)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e)
            if i == len(n.values) - 1:
                return v
            t = self.lib.truth(self, v)
            # symbolic conditions without side effects in the rest: stay symbolic
            if isinstance(t, T) and t not in (TRUE, FALSE) and isinstance(v, T):
                snap = None
                rest = n.values[i + 1:]
                cond = getattr(n, "is_condition", False)
                if all(pure(x) for x in rest) and (cond or v.sort == "B"):
                    ts = [t]
                    n0 = len(self.pc)
                    ok = True
                    for x in rest:
                        self.pc.append(ts[-1] if isand else not_(ts[-1]))
                        w = self.ev(x)
                        if not cond and not isinstance(w, bool) and not (isinstance(w, T) and w.sort == "B"):
                            ok = False
                            break
                        ts.append(tm.tobool(self.lib.truth(self, w)))
                    del self.pc[n0:]
                    if ok:
                        return and_(*ts) if isand else or_(*ts)
            if self.branch(t) != isand:
                return v
        return v

    def e_Compare(self, n):
        l = self.ev(n.left)
        res = None
        for op, r in zip(n.ops, n.comparators):
            rv = self.ev(r)
            c = self.lib.compare(self, type(op).__name__, l, rv)
            res = c if res is None else self.lib.land(self, res, c)
            l = rv
        return res

    def e_IfExp(self, n):
        c = self.lib.truth(self, self.ev(n.test))
        if isinstance(c, T) and c not in (TRUE, FALSE) and pure(n.body) and pure(n.orelse):
            try:
                n0 = len(self.pc)
                self.pc.append(c)
                a = self.ev(n.body)
                del self.pc[n0:]
                self.pc.append(not_(c))
                b = self.ev(n.orelse)
                del self.pc[n0:]
                return vite(c, a, b)
            except Unsupported:
                del self.pc[n0:]
        return self.ev(n.body) if self.branch(c) else self.ev(n.orelse)

    def e_Lambda(self, n):
        return self.nested(UserFn(n, self.frames[-1].mod, self.frames[-1].name + ".<lambda>", self.frames[-1]))

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                fs = self.ev(v.format_spec) if v.format_spec is not None else ""
                parts.append(self.lib.format(self, x, fs, v.conversion))
        return self.lib.strcat(self, parts)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Starred(self, n):
        raise Unsupported("starred")

    def comp(self, n, emit):
        """run a comprehension as nested for loops calling emit() statement"""
        def mk(gens):
            g = gens[0]
            if len(gens) > 1:
                inner = mk(gens[1:])
            else:
                inner = [emit]
            for c in reversed(g.ifs):
                inner = [ast.If(test=c, body=inner, orelse=[])]
            f = ast.For(target=g.target, iter=g.iter, body=inner, orelse=[])
            return [ast.fix_missing_locations(ast.copy_location(f, n))]
        fr = self.frames[-1]
        saved = dict(fr.vars)
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        self.block(mk(n.generators))
        for nm in names:
            if nm in saved:
                fr.vars[nm] = saved[nm]
            else:
                fr.vars.pop(nm, None)

    def e_ListComp(self, n):
        fr = self.frames[-1]
        nm = "$comp%d" % len([k for k in fr.vars if k.startswith("$comp")])
        while nm in fr.vars:
            nm += "_"
        fr.vars[nm] = SList([])
        emit = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=nm, ctx=ast.Load()), attr="append", ctx=ast.Load()),
                                 args=[n.elt], keywords=[]))
        self.comp(n, ast.fix_missing_locations(ast.copy_location(emit, n)))
        return fr.vars.pop(nm)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        return self.lib["builtins.set"](self, self.e_ListComp(n))

    def e_DictComp(self, n):
        pairs = ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators)
        v = self.e_ListComp(ast.fix_missing_locations(ast.copy_location(pairs, n)))
        return dict((k, x) for k, x in v.items())


def pure(n):
    """no calls that could raise or mutate: conservative"""
    for x in ast.walk(n):
        if isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)):
            return False
        if isinstance(x, ast.Call):
            f = x.func
            nm = f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else "")
            if nm not in ("abs", "len", "min", "max", "int", "float", "sqrt", "isinstance", "sum", "amax", "amin", "mean", "floor", "ceil", "any", "all", "isfinite", "isnan"):
                return False
    return True


BUILTIN_EXC = {"ValueError", "TypeError", "IndexError", "KeyError", "ZeroDivisionError", "RuntimeError", "Exception",
               "IOError", "OSError", "ImportError", "FileNotFoundError", "AttributeError", "NotImplementedError",
               "ArithmeticError", "AssertionError", "StopIteration", "OptimizeWarning", "RuntimeWarning", "LookupError",
               "ModuleNotFoundError", "Warning", "UserWarning", "BaseException", "FileExistsError", "PermissionError"}

CANON = [("scipy.ndimage.measurements.", "scipy.ndimage."), ("scipy.ndimage.interpolation.", "scipy.ndimage."),
         ("scipy.ndimage.filters.", "scipy.ndimage."), ("numpy.core.", "numpy."), ("numpy.lib.", "numpy.")]


def canon(q):
    for a, b in CANON:
        if q.startswith(a):
            q = b + q[len(a):]
    return q
