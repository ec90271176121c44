"""Assumed contracts of the file system, pathlib, os.path, json, pickle, h5py,
PIL and matplotlib as used by the loaders and savers.

A path is (folder, name); a name is a sequence of constant and opaque parts.
The file system before the call is arbitrary: fs_exists(path) says that
something of that name exists, fs_file(path) that a file does.  Every operation
that creates or truncates a file is recorded, in order, in the effect trace
I.effects as ("write", path, mode) or ("mkdir", path); other operations that
could change files are out of reach.  Files written during the run keep their
content as the sequence of pieces written, so that reading back what was
written is the identity on those pieces."""
import ast
from . import terms as tm
from .terms import T, ZERO, ONE, TRUE, FALSE, const, cval, num, and_, or_, not_
from .values import *
from .values import Unsupported, PyRaise
from .interp import Module, LibFn, UserFn, Bound, ExcType, Opaque, Slice, Infeasible, load
from .nplib import LIB, d, mkcast, DT, dtype_of
from . import nplib
from .lib import Lib

LIB.modules |= {"pathlib", "json", "pickle", "h5py", "PIL", "PIL.Image", "matplotlib", "matplotlib.pyplot", "platform", "collections", "matplotlib.font_manager"}

# -- strings ----------------------------------------------------------------------


def parts_of(x):
    if isinstance(x, str):
        return (x,) if x else ()
    if isinstance(x, Opaque) and x.tag == "str":
        return tuple(x.attrs["parts"])
    raise Unsupported("string expected")


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, Opaque) and p.tag == "str":
            ps = p.attrs["parts"]
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    if len(out) == 1 and isinstance(out[0], Opaque):
        a = out[0]
        return Opaque("str", {"parts": (a,), "truth": True, "low": a.attrs.get("low"), "isatom": bool(a.attrs.get("suffix"))})
    return Opaque("str", {"parts": tuple(out), **({"truth": True} if any(isinstance(p, str) or (isinstance(p, tuple)) for p in out) else {})})


def strterm(x):
    """canonical term of a string"""
    def one(p):
        if isinstance(p, str):
            return T("app", ("str:" + p,), "U")
        if isinstance(p, T):
            return p
        if isinstance(p, tuple) and p[0] == "fmt":
            return T("app", ("fmt:%s" % p[2], asT(p[1])), "U")
        if isinstance(p, tuple) and p[0] == "pathstr":
            return pterm(p[1])
        if isinstance(p, Opaque) and p.tag == "atom":
            return p.term
        raise Unsupported("string part")
    ps = [one(p) for p in parts_of(x)]
    return ps[0] if len(ps) == 1 else T("app", ("cat",) + tuple(ps), "U")


def suffix_atom(name, low=None):
    """a file extension (dot included) different from every string constant of the code; low: what it is in lower case, if such a constant"""
    a = Opaque("atom", {"low": low, "suffix": True}, term=tm.var(name, "U"))
    return Opaque("str", {"parts": (a,), "truth": True, "low": low, "isatom": True})


def name_atom(name):
    """an arbitrary non-empty string without separators"""
    a = Opaque("atom", {}, term=tm.var(name, "U"))
    return Opaque("str", {"parts": (a,), "truth": True})


def consts_of(I):
    """string constants of the module under execution"""
    m = I.frames[-1].mod if I.frames else None
    r = getattr(m, "_strs", None)
    if r is None:
        r = {n.value for n in ast.walk(m.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)} if m else set()
        if m:
            m._strs = r
    return r


def str_eq(I, a, b):
    pa, pb = parts_of(a), parts_of(b)
    if strterm(a) is strterm(b):
        return True
    if len(pa) > len(pb):
        pa, pb, a, b = pb, pa, b, a
    for x, y in ((a, b), (b, a)):
        if isinstance(x, str) and isinstance(y, Opaque) and y.attrs.get("isatom"):
            if x.lower() == y.attrs.get("low"):
                return False if x == x.lower() else unsup("string comparison")
            return False                     # by the case distinction: no constant of the code
    if isinstance(a, str) and a == "" or isinstance(b, str) and b == "":
        return False
    x, y = (pa[0] if pa else ""), (pb[0] if pb else "")
    if isinstance(x, str) and isinstance(y, str):
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return False
    x, y = pa[-1], pb[-1]
    if isinstance(x, str) and isinstance(y, str):
        n = min(len(x), len(y))
        if x[-n:] != y[-n:]:
            return False
    return tm.eq(strterm(a), strterm(b))


def unsup(m):
    raise Unsupported(m)


_old_eq = Lib.opaque_eq


def opaque_eq(self, I, op, a, b):
    if op in ("Eq", "NotEq"):
        ta, tb = getattr(a, "tag", None), getattr(b, "tag", None)
        if (ta == "str" or isinstance(a, str)) and (tb == "str" or isinstance(b, str)):
            r = str_eq(I, a, b)
            if op == "NotEq":
                r = (not r) if isinstance(r, bool) else not_(r)
            return r
        if ta == "dtype" or tb == "dtype":
            try:
                r = dtype_of(a) == dtype_of(b)
            except Unsupported:
                raise
            return r if op == "Eq" else not r
        if ta == "path" and tb == "path":
            r = True if pterm(a) is pterm(b) else tm.eq(pterm(a), pterm(b))
            return r if op == "Eq" else (not r if isinstance(r, bool) else not_(r))
    return _old_eq(self, I, op, a, b)


Lib.opaque_eq = opaque_eq
Lib.strcat = lambda self, I, parts: mkstr([p if isinstance(p, (str, Opaque)) else self.format(I, p, "", -1) for p in parts])


def fmt(self, I, x, spec, conv):
    if not isinstance(spec, str):
        raise Unsupported("format specification")
    if isinstance(x, str) and not spec and conv in (-1, 115):
        return x
    if isinstance(x, Opaque) and x.tag == "str" and not spec and conv in (-1, 115):
        return x
    if isinstance(x, Opaque) and x.tag == "path" and not spec and conv in (-1, 115):
        return Opaque("str", {"parts": (("pathstr", x),), "truth": True})
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return format(x, spec) if conv in (-1, 115) else repr(x)
    if is_scalar(x):
        return Opaque("str", {"parts": (("fmt", asT(x), spec if conv in (-1, 115) else "!r" + spec),), "truth": True})
    return Opaque("str", {"parts": (Opaque("atom", {}, term=tm.fresh("text", "U")),)})


Lib.format = fmt

NUMCHARS = set("0123456789+-.einfa ")


def m_str(name):
    def deco(f):
        LIB.methods[("str", name)] = f
        return f
    return deco


@m_str("lower")
def _lower(I, s):
    if s.attrs.get("isatom"):
        return s.attrs["low"] if s.attrs["low"] is not None else s
    raise Unsupported("str.lower")


@m_str("split")
def _split(I, s, sep=None, maxsplit=-1):
    """split of a text whose opaque parts are printed numbers (they contain no white space and no '=')"""
    if maxsplit != -1 or (sep is not None and (not isinstance(sep, str) or set(sep) & (NUMCHARS - {" "}))):
        raise Unsupported("str.split options")
    toks, cur = [], []
    for p in parts_of(s):
        if isinstance(p, str):
            bits = p.split(sep)
            if sep is None:
                lead, trail = p[:1].isspace(), p[-1:].isspace()
                if not bits:
                    if cur:
                        toks.append(cur)
                    cur = []
                    continue
                for i, b in enumerate(bits):
                    if i > 0 or lead:
                        if cur:
                            toks.append(cur)
                        cur = []
                    cur.append(b)
                if trail:
                    toks.append(cur)
                    cur = []
            else:
                for i, b in enumerate(bits):
                    if i > 0:
                        toks.append(cur)
                        cur = []
                    cur.append(b)
        elif isinstance(p, tuple) and p[0] == "fmt":
            cur.append(p)
        else:
            raise Unsupported("split of an opaque text")
    if cur or sep is not None:
        toks.append(cur)
    return SList.of([mkstr(t) for t in toks])


@m_str("strip")
def _strip(I, s, chars=None):
    ps = list(parts_of(s))
    if chars is not None:
        raise Unsupported("strip")
    if ps and isinstance(ps[0], str):
        ps[0] = ps[0].lstrip()
    if ps and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip()
    return mkstr(ps)


@m_str("partition")
def _partition(I, s, sep):
    t = _split(I, s, sep).items()
    if len(t) != 2:
        raise Unsupported("partition")
    return (t[0], sep, t[1])


@m_str("replace")
def _replace(I, s, a, b):
    return s if any(isinstance(p, Opaque) for p in parts_of(s)) and a == "\\" else unsup("str.replace")


@m_str("endswith")
def _endswith(I, s, x):
    ps = parts_of(s)
    if isinstance(ps[-1], str) and isinstance(x, str) and len(ps[-1]) >= len(x):
        return ps[-1].endswith(x)
    raise Unsupported("endswith")


@m_str("startswith")
def _startswith(I, s, x):
    ps = parts_of(s)
    if isinstance(ps[0], str) and isinstance(x, str) and len(ps[0]) >= len(x):
        return ps[0].startswith(x)
    raise Unsupported("startswith")


def _float_str(I, s):
    ps = parts_of(s)
    if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][0] == "fmt":
        import re
        spec = ps[0][2]
        m = re.fullmatch(r"\.(\d+)([ge])", spec)
        if spec.startswith("!r"):
            raise Unsupported("float of a repr")     # numpy scalars
        if spec == "" or m and int(m.group(1)) >= (17 if m.group(2) == "g" else 16):
            return num(asT(ps[0][1]))            # float(str(x)) == x for a double
        return T("app", ("fmtval:" + ps[0][2], asT(ps[0][1])), "R")
    if any(isinstance(p, str) and not set(p) <= NUMCHARS for p in ps):
        raise PyRaise("ValueError", "could not convert string to float")
    raise Unsupported("float of a text")


LIB.methods[("str", "__float__")] = _float_str

# -- paths ------------------------------------------------------------------------


def mkpath(folder, name):
    """folder: term of sort U; name: string value"""
    return Opaque("path", {"folder": folder, "name_": name, "truth": True})


def pterm(p):
    return T("app", ("path", p.attrs["folder"], strterm(p.attrs["name_"])), "U") if p.attrs.get("name_") is not None else p.attrs["folder"]


def dirpath(t):
    return Opaque("path", {"folder": t, "name_": None, "truth": True})


def split_name(p):
    """(stem, suffix) of the last component"""
    nm = p.attrs["name_"]
    if nm is None:
        raise Unsupported("suffix of a folder")
    ps = list(parts_of(nm))
    if isinstance(ps[-1], Opaque) and ps[-1].attrs.get("suffix"):
        a = ps[-1]
        return mkstr(ps[:-1]), Opaque("str", {"parts": (a,), "truth": True, "low": a.attrs["low"], "isatom": True})
    if isinstance(ps[-1], str) and "." in ps[-1]:
        i = ps[-1].rindex(".")
        if i > 0 or len(ps) > 1:
            if i == len(ps[-1]) - 1:
                raise Unsupported("name with a trailing dot")
            return mkstr(ps[:-1] + [ps[-1][:i]]), ps[-1][i:]
        raise Unsupported("dot file")
    if all(isinstance(x, (tuple, str)) or not x.attrs.get("suffix") for x in ps):
        if any(isinstance(x, Opaque) and x.attrs.get("dots") for x in ps):
            raise Unsupported("suffix of an arbitrary name")
        return nm, ""
    raise Unsupported("suffix")


def to_path(I, x):
    if isinstance(x, Opaque) and x.tag == "path":
        return x
    if isinstance(x, Opaque) and x.tag == "str":
        ps = parts_of(x)
        if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][0] == "pathstr":
            return ps[0][1]
        if ps and isinstance(ps[0], tuple) and ps[0][0] == "pathstr":
            p = ps[0][1]
            rest = list(ps[1:])
            if p.attrs["name_"] is None and isinstance(rest[0], str) and rest[0].startswith("/"):
                rest[0] = rest[0][1:]
                if any(isinstance(r, str) and "/" in r for r in rest):
                    raise Unsupported("path text")
                return mkpath(p.attrs["folder"], mkstr(rest))
            if p.attrs["name_"] is not None and not any(isinstance(r, str) and "/" in r for r in rest):
                return mkpath(p.attrs["folder"], mkstr([p.attrs["name_"]] + rest))
        if ps and all(not (isinstance(p, str) and "/" in p) and not (isinstance(p, tuple) and p[0] == "pathstr") for p in ps):
            return mkpath(tm.var("cwd", "U"), x)
    raise Unsupported("path from %s" % (getattr(x, "tag", type(x).__name__)))


def pstr(p):
    return Opaque("str", {"parts": (("pathstr", p),), "truth": True})


def joinp(I, p, *xs):
    p = to_path(I, p)
    for x in xs:
        if isinstance(x, Opaque) and x.tag == "path":
            raise Unsupported("joining two paths")
        if any(isinstance(q, str) and "/" in q for q in parts_of(x)):
            raise Unsupported("joining a path text")
        p = mkpath(pterm(p) if p.attrs["name_"] is not None else p.attrs["folder"], x)
    return p


@d("pathlib.Path", "pathlib.PurePath", "os.fspath")
def _Path(I, *a):
    return joinp(I, *a)


def path_op(self, I, op, a, b):
    if op != "Div":
        raise Unsupported("path operator")
    return joinp(I, a, b)


Lib.path_op = path_op


def m_path(name):
    def deco(f):
        LIB.methods[("path", name)] = f
        return f
    return deco


for _n in ("resolve", "absolute", "expanduser"):
    LIB.methods[("path", _n)] = lambda I, p, **k: p
for _n in ("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.expanduser"):
    LIB[_n] = lambda I, p, **k: pstr(to_path(I, p))
LIB.methods[("path", "as_posix")] = lambda I, p: pstr(p)
LIB.methods[("path", "__str__")] = lambda I, p: pstr(p)
LIB.attrs[("path", "suffix")] = lambda I, p: split_name(p)[1]
LIB.attrs[("path", "stem")] = lambda I, p: split_name(p)[0]
LIB.attrs[("path", "name")] = lambda I, p: p.attrs["name_"]
LIB.attrs[("path", "parent")] = lambda I, p: dirpath(p.attrs["folder"]) if p.attrs["name_"] is not None else unsup("parent of a folder")

_old_getattr = Lib.getattr


def getattr_(self, I, o, name):
    if isinstance(o, Opaque) and (o.tag, name) in self.attrs:
        return self.attrs[(o.tag, name)](I, o)
    return _old_getattr(self, I, o, name)


Lib.getattr = getattr_


@m_path("with_suffix")
def _with_suffix(I, p, s):
    st, _ = split_name(p)
    if isinstance(s, str) and s and not s.startswith("."):
        raise PyRaise("ValueError", "Invalid suffix")
    return mkpath(p.attrs["folder"], mkstr([st, s]))


@m_path("with_name")
def _with_name(I, p, s):
    return mkpath(p.attrs["folder"], s)


@m_path("with_stem")
def _with_stem(I, p, s):
    return mkpath(p.attrs["folder"], mkstr([s, split_name(p)[1]]))


LIB.methods[("path", "joinpath")] = joinp


def is_path(t):
    return t.op == "app" and t.args[0] == "path"


def psame(a, b):
    """two paths are the same"""
    if a is b:
        return TRUE
    x, y = (a, b) if is_path(a) else (b, a)
    if is_path(x):
        f = x
        while is_path(f):
            f = f.args[1]
            if f is y:
                return FALSE                    # a folder of its own
    return tm.eq(a, b)


def fs_pred(I, which, p):
    p = to_path(I, p)
    t = pterm(p)
    r = T("app", (which, t), "B")
    for e in I.effects:
        if e[0] == "write" and which in ("fs_exists", "fs_file"):
            r = or_(r, psame(e[1], t))
        if e[0] == "mkdir" and which != "fs_file":
            r = or_(r, psame(e[1], t))
    if which != "fs_exists":
        I.assume_fact(tm.implies(r, T("app", ("fs_exists", t), "B") if not I.effects else fs_pred(I, "fs_exists", p)))
    return True if r is TRUE else r


for _n, _w in (("exists", "fs_exists"), ("is_file", "fs_file"), ("is_dir", "fs_dir")):
    LIB.methods[("path", _n)] = (lambda w: lambda I, p, **k: fs_pred(I, w, p))(_w)
for _n, _w in (("os.path.exists", "fs_exists"), ("os.path.isfile", "fs_file"), ("os.path.isdir", "fs_dir"), ("os.path.lexists", "fs_exists")):
    LIB[_n] = (lambda w: lambda I, p: fs_pred(I, w, p))(_w)


@m_path("mkdir")
def _mkdir(I, p, mode=None, parents=False, exist_ok=False):
    if not (parents is True and exist_ok is True):
        raise Unsupported("mkdir that may raise")
    I.effects.append(("mkdir", pterm(p)))


@d("os.makedirs")
def _makedirs(I, p, mode=None, exist_ok=False):
    if exist_ok is not True:
        t = fs_pred(I, "fs_exists", p)
        if I.branch(t):
            raise PyRaise("FileExistsError", "")
    I.effects.append(("mkdir", pterm(to_path(I, p))))


@d("os.path.join")
def _join(I, a, *b):
    return pstr(joinp(I, a, *b))


@d("os.path.splitext")
def _splitext(I, p):
    p = to_path(I, p)
    st, su = split_name(p)
    return (pstr(mkpath(p.attrs["folder"], st)), su)


@d("os.path.dirname")
def _dirname(I, p):
    return pstr(dirpath(to_path(I, p).attrs["folder"]))


@d("os.path.basename")
def _basename(I, p):
    return to_path(I, p).attrs["name_"]


@d("os.path.split")
def _psplit(I, p):
    p = to_path(I, p)
    return (pstr(dirpath(p.attrs["folder"])), p.attrs["name_"])


LIB["platform.system"] = lambda I: "Linux"
LIB.consts["os.sep"] = "/"

# -- files ----------------------------------------------------------------------------


def fs(I):
    f = I.ghost.get("fs")
    if f is None:
        f = I.ghost["fs"] = Opaque("fs", {})
    return f


def store_of(I, p):
    return fs(I).attrs.get(pterm(p))


def new_file(I, p, mode, kind):
    t = pterm(p)
    I.effects.append(("write", t, mode))
    f = Opaque("file", {"path": p, "mode": mode, "content": SList([]), "kind": kind, "truth": True})
    fs(I).attrs[t] = f
    return f


@d("builtins.open")
def _open(I, path, mode="r", *a, **k):
    p = to_path(I, path)
    if not isinstance(mode, str):
        raise Unsupported("open mode")
    m = mode.replace("b", "").replace("t", "")
    if m == "w":
        return new_file(I, p, "w", "text")
    if m == "x":
        if I.branch(fs_pred(I, "fs_exists", p)):
            raise PyRaise("FileExistsError", "")
        return new_file(I, p, "x", "text")
    if m == "r":
        f = store_of(I, p)
        if f is None:
            if I.branch(fs_pred(I, "fs_exists", p)):
                raise Unsupported("content of an arbitrary file")
            raise PyRaise("FileNotFoundError", "")
        return Opaque("file", {"path": p, "mode": "r", "content": f.attrs["content"], "kind": f.attrs["kind"], "truth": True})
    raise Unsupported("open mode %s" % mode)


LIB.methods[("path", "open")] = lambda I, p, mode="r", *a, **k: _open(I, p, mode)


def push(f, piece):
    c = f.attrs["content"]
    if f.attrs["mode"] == "r":
        raise PyRaise("OSError", "not writable")
    last = c.segs[-1][-1] if c.segs and isinstance(c.segs[-1], list) and c.segs[-1] else None
    if last is not None and istext(last) and istext(piece) and not ends_nl(last):
        c.segs[-1] = c.segs[-1][:-1] + [mkstr([last, piece])]
    else:
        c.append(piece)


def istext(x):
    return isinstance(x, str) or (isinstance(x, Opaque) and x.tag == "str")


def ends_nl(x):
    p = parts_of(x)
    return bool(p) and isinstance(p[-1], str) and p[-1].endswith("\n")


def m_file(name):
    def deco(f):
        LIB.methods[("file", name)] = f
        return f
    return deco


@m_file("write")
def _write(I, f, s):
    if not istext(s) and not (isinstance(s, Opaque) and s.tag in ("json", "pickle")):
        raise Unsupported("write of %s" % getattr(s, "tag", type(s).__name__))
    push(f, s)


@m_file("writelines")
def _writelines(I, f, xs):
    s = LIB.seq(I, xs)
    c = f.attrs["content"]
    if c.segs and not all(isinstance(g, list) and g and istext(g[-1]) and ends_nl(g[-1]) for g in c.segs[-1:]):
        raise Unsupported("writelines after a partial line")
    c.extend_segs(s.segs)


for _n in ("close", "flush"):
    LIB.methods[("file", _n)] = lambda I, f: None


def lines_of(content, keep=False):
    """lines of a text file"""
    out, cur = SList([]), []
    for g in content.segs:
        if isinstance(g, list):
            for piece in g:
                if not istext(piece):
                    raise Unsupported("lines of binary content")
                for p in parts_of(piece):
                    if isinstance(p, str):
                        bits = p.split("\n")
                        for i, b in enumerate(bits):
                            if i > 0:
                                out.append(mkstr(cur + (["\n"] if keep else [])))
                                cur = []
                            cur.append(b)
                    else:
                        cur.append(p)
        else:
            if any(x != "" for x in cur):
                raise Unsupported("symbolic number of writes after a partial line")
            cur = []
            if not isinstance(g, Seg) or not istext(g.val):
                raise Unsupported("symbolic text")
            ps = list(parts_of(g.val))
            if not isinstance(ps[-1], str) or not ps[-1].endswith("\n") or sum(p.count("\n") for p in ps if isinstance(p, str)) != 1:
                raise Unsupported("text pieces that are not lines")
            if not keep:
                ps[-1] = ps[-1][:-1]
            out.extend_segs([Seg(g.ks, g.ns, g.cond, mkstr(ps))])
    if any(x != "" for x in cur):
        out.append(mkstr(cur))
    return out


@m_file("read")
def _read(I, f, *a):
    c = f.attrs["content"]
    if c.concrete() and len(c.items()) == 1 and not istext(c.items()[0]):
        return c.items()[0]
    return Opaque("text", {"content": c, "truth": True})


LIB.methods[("file", "readlines")] = lambda I, f: lines_of(f.attrs["content"], keep=True)
LIB.methods[("text", "splitlines")] = lambda I, t, *a: lines_of(t.attrs["content"])


def _tsplit(I, t, sep=None):
    if sep != "\n":
        raise Unsupported("split of a text")
    r = lines_of(t.attrs["content"]).copy()
    r.append("")
    return r


LIB.methods[("text", "split")] = _tsplit
_old_iter = Lib.iterate


def iterate(self, I, v):
    if isinstance(v, Opaque) and v.tag == "file":
        return _old_iter(self, I, lines_of(v.attrs["content"], keep=True))
    if isinstance(v, dict) and TAIL in v:
        return _old_iter(self, I, dict_seq(v, "keys"))
    return _old_iter(self, I, v)


Lib.iterate = iterate

# -- dictionaries with symbolically many entries -------------------------------------------
TAIL = "$tail"


def dict_seq(d_, what):
    f = {"keys": lambda k, v: k, "values": lambda k, v: v, "items": lambda k, v: (k, v)}[what]
    r = SList.of([f(k, v) for k, v in d_.items() if k != TAIL])
    t = d_.get(TAIL)
    if t is not None:
        for g in t.segs:
            if isinstance(g, list):
                for kv in g:
                    r.append(f(*kv))
            else:
                r.segs.append(Seg(g.ks, g.ns, g.cond, f(*g.val)))
    return r


def injective_key(key, k):
    """the key is a different string for every value of k"""
    n = 0
    for p in parts_of(key):
        if isinstance(p, str):
            continue
        if isinstance(p, tuple) and p[0] == "fmt" and p[2] in ("", "d", "02d", "03d", "04d"):
            from .loops import affine
            t = p[1]
            ab = affine(t, k)
            if t.sort == "I" and ab is not None and cval(ab[0]) not in (None, 0):
                n += 1
                continue
        return False
    return n == 1


_old_setitem, _old_getitem, _old_contains = Lib.setitem, Lib.getitem, Lib.contains


def setitem(self, I, o, k, v):
    if isinstance(o, dict) and isinstance(k, Opaque) and k.tag == "str":
        for c in o:
            if c != TAIL and (not isinstance(c, str) or str_eq(I, c, k) is not False):
                raise Unsupported("dictionary key may exist already")
        t = o.setdefault(TAIL, SList([]))
        for g in t.segs:
            if isinstance(g, list) and any(str_eq(I, kk, k) is not False for kk, _ in g):
                raise Unsupported("dictionary key may exist already")
        t.append((k, v))
        return
    if isinstance(o, Opaque) and (o.tag, "__setitem__") in self.methods:
        return self.methods[(o.tag, "__setitem__")](I, o, k, v)
    return _old_setitem(self, I, o, k, v)


def getitem(self, I, o, k):
    if isinstance(o, dict) and isinstance(k, Opaque) and k.tag == "str":
        # a key taken from an iteration over the same dictionary
        t = o.get(TAIL)
        kt = strterm(k)
        if t is not None:
            for g in t.segs:
                if isinstance(g, list):
                    for kk, v in g:
                        if strterm(kk) is kt:
                            return v
                elif isinstance(g, Seg) and g.simple():
                    v = match_seg(g, k)
                    if v is not None:
                        return v
        raise Unsupported("dictionary lookup")
    if isinstance(o, Opaque) and (o.tag, "__getitem__") in self.methods:
        return self.methods[(o.tag, "__getitem__")](I, o, k)
    return _old_getitem(self, I, o, k)


def match_seg(g, k):
    """value of the entry whose key is k, for keys injective in the entry number"""
    kk, v = g.val
    pa, pb = parts_of(kk), parts_of(k)
    if not injective_key(kk, g.ks[0]) or len(pa) != len(pb):
        return None
    sol = None
    for x, y in zip(pa, pb):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return None
            continue
        if x[0] != "fmt" or y[0] != "fmt" or x[2] != y[2]:
            return None
        from .loops import affine
        a, b = affine(x[1], g.ks[0])
        if a is not ONE:
            return None
        sol = y[1] - b
    return vsubst(v, {g.ks[0]: sol})


def contains(self, I, a, b):
    if isinstance(b, Opaque) and (b.tag, "__contains__") in self.methods:
        return self.methods[(b.tag, "__contains__")](I, b, a)
    if isinstance(b, dict) and isinstance(a, Opaque):
        raise Unsupported("membership in a dictionary")
    return _old_contains(self, I, a, b)


Lib.setitem, Lib.getitem, Lib.contains = setitem, getitem, contains
_old_dm = Lib.dict_method


def dict_method(self, I, o, name, args, kw):
    if name in ("keys", "values", "items") and TAIL in o:
        return dict_seq(o, name)
    if name == "setdefault":
        if TAIL in o or not isinstance(args[0], str):
            raise Unsupported("setdefault")
        return o.setdefault(args[0], args[1] if len(args) > 1 else None)
    if TAIL in o:
        raise Unsupported("dict method " + name)
    return _old_dm(self, I, o, name, args, kw)


Lib.dict_method = dict_method

# -- json, pickle ---------------------------------------------------------------------------


def jnorm(I, v, default):
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, T):
        return v
    if isinstance(v, Opaque) and v.tag == "str":
        return v
    if isinstance(v, dict):
        if TAIL in v or not all(isinstance(k, str) for k in v):
            raise Unsupported("json of a symbolic dictionary")
        return {k: jnorm(I, x, default) for k, x in v.items()}
    if isinstance(v, tuple):
        return SList.of([jnorm(I, x, default) for x in v])
    if isinstance(v, SList):
        segs = []
        for g in v.segs:
            if isinstance(g, list):
                segs.append([jnorm(I, x, default) for x in g])
            else:
                if not (isinstance(g.val, T) or is_scalar(g.val)):
                    raise Unsupported("json of a nested symbolic list")
                segs.append(g)
        return SList(segs)
    if isinstance(v, SArr):
        if default is None:
            raise PyRaise("TypeError", "Object of type ndarray is not JSON serializable")
        return jnorm(I, I.call(default, [v], {}), default)
    raise Unsupported("json of %s" % type(v).__name__)


def jcopy(v):
    if isinstance(v, dict):
        return {k: jcopy(x) for k, x in v.items()}
    if isinstance(v, SList):
        return SList([list(map(jcopy, g)) if isinstance(g, list) else g for g in v.segs])
    return v


JOPT = {"indent", "sort_keys", "separators", "ensure_ascii", "default"}


@d("json.dumps")
def _dumps(I, obj, default=None, **k):
    if set(k) - JOPT:
        raise Unsupported("json options")
    return Opaque("json", {"val": jnorm(I, obj, default), "truth": True})


@d("json.dump")
def _dump(I, obj, f, default=None, **k):
    if f.attrs["content"].segs:
        raise Unsupported("json after other content")
    push(f, _dumps(I, obj, default, **k))


@d("json.loads")
def _loads(I, s, **k):
    if isinstance(s, Opaque) and s.tag == "json" and not k:
        return jcopy(s.attrs["val"])
    raise Unsupported("json.loads")


@d("json.load")
def _jload(I, f, **k):
    return _loads(I, _read(I, f), **k)


@d("pickle.dumps")
def _pdumps(I, obj, *a, **k):
    return Opaque("pickle", {"val": obj, "truth": True})


@d("pickle.dump")
def _pdump(I, obj, f, *a, **k):
    if f.attrs["content"].segs:
        raise Unsupported("pickle after other content")
    push(f, _pdumps(I, obj))


@d("pickle.loads")
def _ploads(I, s, **k):
    if isinstance(s, Opaque) and s.tag == "pickle":
        return s.attrs["val"]
    raise Unsupported("pickle.loads")


@d("pickle.load")
def _pload(I, f, **k):
    return _ploads(I, _read(I, f))


# -- h5py -------------------------------------------------------------------------------------


def kterm(k):
    """a key as the tuple of its parts; leading slash does not matter"""
    ps = list(parts_of(k))
    if ps and isinstance(ps[0], str):
        ps[0] = ps[0].lstrip("/")
    return strterm(mkstr(ps)) if mkstr(ps) != "" else strterm("/")


def h5_of(I, p):
    return fs(I).attrs.get(pterm(p))


@d("h5py.File")
def _h5file(I, path, mode="r", **k):
    p = to_path(I, path)
    if not isinstance(mode, str):
        raise Unsupported("h5py mode")
    if mode in ("w", "w-", "x"):
        if mode != "w" and I.branch(fs_pred(I, "fs_exists", p)):
            raise PyRaise("FileExistsError", "")
        t = pterm(p)
        I.effects.append(("write", t, mode))
        f = Opaque("h5", {"path": p, "mode": "w", "items": {}, "prefix": "", "truth": True})
        fs(I).attrs[t] = f
        return f
    if mode == "r":
        f = h5_of(I, p)
        if f is None:
            if I.branch(fs_pred(I, "fs_exists", p)):
                raise Unsupported("content of an arbitrary file")
            raise PyRaise("FileNotFoundError", "")
        if f.tag != "h5":
            raise PyRaise("OSError", "not an HDF file")
        return Opaque("h5", dict(f.attrs, mode="r"))
    raise Unsupported("h5py mode %s" % mode)


def m_h5(*names):
    def deco(f):
        for t in ("h5", "h5group"):
            for n in names:
                LIB.methods[(t, n)] = f
        return f
    return deco


def fullkey(g, k):
    return mkstr([g.attrs["prefix"], k])


@m_h5("create_group", "require_group")
def _grp(I, g, k):
    items = g.attrs["items"]
    if g.attrs["mode"] == "r":
        raise PyRaise("ValueError", "read only")
    return Opaque("h5group", {"prefix": mkstr([fullkey(g, k), "/"]), "items": items, "mode": g.attrs["mode"], "path": g.attrs["path"], "truth": True})


@m_h5("create_dataset")
def _dset(I, g, name, shape=None, dtype=None, data=None, **k):
    if g.attrs["mode"] == "r":
        raise PyRaise("ValueError", "read only")
    if k:
        raise Unsupported("dataset options")
    key = kterm(fullkey(g, name))
    items = g.attrs["items"]
    if key in items:
        raise PyRaise("ValueError", "name already exists")
    if data is not None:
        a = to_arr(data, I)
        if dtype is not None and dtype_of(dtype) != a.dt:
            raise Unsupported("dataset type conversion")
        arr = a.frozen() if a.ndim else a
    else:
        sh = tuple(asT(s) for s in (shape if isinstance(shape, tuple) else shape.items()))
        arr = SArr(sh, lambda idx: ZERO, dtype_of(dtype, "f4") if dtype is not None else "f4")
    items[key] = (fullkey(g, name), arr)
    return dataset(g, key, arr)


def dataset(g, key, arr):
    return Opaque("h5ds", {"arr": arr, "shape": tuple(arr.shape), "ndim": arr.ndim, "dtype": Opaque("dtype", {"dt": arr.dt}), "key": key,
                           "file": g, "truth": True})


LIB.methods[("h5", "close")] = LIB.methods[("h5", "flush")] = lambda I, g: None


@m_h5("__contains__")
def _h5in(I, g, k):
    key = kterm(fullkey(g, k))
    if key in g.attrs["items"]:
        return True
    cl = g.attrs.get("closed")
    if cl is False:                        # an arbitrary file: may hold other things as well
        return T("app", ("h5has", pterm(g.attrs["path"]), key), "B")
    for kk in g.attrs["items"]:
        # another key, or a group on the way to one
        if str_eq(I, mkstr(list(parts_of(g.attrs["items"][kk][0]))), k) is not False:
            raise Unsupported("membership of a key")
    return False


@m_h5("__getitem__")
def _h5get(I, g, k):
    if isinstance(k, (Slice, tuple)):
        raise Unsupported("index of a group")
    key = kterm(fullkey(g, k))
    it = g.attrs["items"].get(key)
    if it is None:
        if g.attrs.get("closed") is False:
            raise Unsupported("unknown object of the file")
        raise PyRaise("KeyError", "no such object")
    return dataset(g, key, it[1])


@m_h5("visititems")
def _visititems(I, g, fn):
    """for the file with one dataset <group>/data: the callback on the group, then on the dataset; the first result that is not None"""
    its = g.attrs["items"]
    if g.attrs.get("closed") is False or len(its) != 1 or g.tag != "h5":
        raise Unsupported("visititems")
    (key, (name, arr)), = its.items()
    ps = list(parts_of(name))
    if not isinstance(ps[-1], str) or "/" not in ps[-1]:
        raise Unsupported("visititems")
    i = ps[-1].rindex("/")
    gname, last = mkstr(ps[:-1] + [ps[-1][:i]]), ps[-1][i + 1:]
    if any(isinstance(p, str) and "/" in p for p in parts_of(gname)) or last != "data":
        raise Unsupported("visititems")
    ds = dataset(g, key, arr)
    grp = Opaque("Group", {"name": mkstr(["/", gname]), "items_": (last, ds), "truth": True})
    r = I.call(fn, [gname, grp], {})
    if r is not None:
        return r
    return I.call(fn, [name, ds], {})


LIB.methods[("Group", "items")] = lambda I, g: SList.of([g.attrs["items_"]])
LIB.methods[("Group", "keys")] = lambda I, g: SList.of([g.attrs["items_"][0]])
LIB.methods[("Group", "__contains__")] = lambda I, g, k: k == g.attrs["items_"][0]
LIB.methods[("Group", "__getitem__")] = lambda I, g, k: g.attrs["items_"][1]


def _dsget(I, o, k):
    """h5py indexing: integers, slices, at most one increasing list of indices; out of range raises IndexError"""
    a = o.attrs["arr"]
    ks = list(k) if isinstance(k, tuple) else [k]
    if ks == [()] or (isinstance(k, tuple) and not k):
        return a
    ks += [Slice(None, None, None)] * (a.ndim - len(ks))
    if len(ks) != a.ndim:
        raise PyRaise("ValueError", "too many indices")
    lists = [i for i, x in enumerate(ks) if isinstance(x, (SList, SArr)) and not is_scalar(x)]
    if len(lists) > 1:
        raise PyRaise("TypeError", "only one indexing list allowed")
    for i, x in enumerate(ks):
        n = a.shape[i]
        if is_scalar(x):
            t = asT(x)
            if not I.branch(and_(tm.le(-n, t), tm.lt(t, n))):
                raise PyRaise("IndexError", "out of range")
            ks[i] = t if I.known(tm.le(ZERO, t)) else tm.ite(tm.lt(t, ZERO), t + n, t)
        elif i in lists:
            v = to_arr(x, I)
            m = v.shape[0]
            inc = tm.forall(m - 1, lambda j: tm.lt(v.get((j,)), v.get((j + 1,))))
            if not I.branch(inc):
                raise PyRaise("TypeError", "Indexing elements must be in increasing order")
            rng = tm.forall(m, lambda j: and_(tm.le(ZERO, v.get((j,))), tm.lt(v.get((j,)), n)))
            if not I.branch(rng):
                raise PyRaise("IndexError", "Fancy indexing out of range")
            ks[i] = v
    if lists:
        i = lists[0]
        v = ks[i].frozen()
        pre = LIB.arr_get(I, a, tuple(ks[:i]) + (Slice(None, None, None),) + tuple(ks[i + 1:]))
        ax = sum(1 for x in ks[:i] if not is_scalar(x))
        fp = pre.frozen()
        sh = list(pre.shape)
        sh[ax] = v.shape[0]
        return SArr(sh, lambda idx: fp.get(tuple(idx[:ax]) + (v.get((idx[ax],)),) + tuple(idx[ax + 1:])), a.dt)
    return LIB.arr_get(I, a, tuple(ks))


LIB.methods[("h5ds", "__getitem__")] = _dsget
_old_to_arr_fns = {}


def _wrap_first(name):
    old = LIB[name]

    def f(I, x=None, *a, **k):
        if isinstance(x, Opaque) and x.tag in ("h5ds", "pil"):
            x = x.attrs["arr"]
        return old(I, x, *a, **k)
    LIB[name] = f


for _n in ("numpy.asarray", "numpy.array", "numpy.float32", "numpy.float64", "numpy.copy"):
    _wrap_first(_n)

# -- PIL ----------------------------------------------------------------------------------------


@d("PIL.Image.open")
def _imopen(I, path, *a, **k):
    p = to_path(I, path)
    f = fs(I).attrs.get(pterm(p))
    if f is None:
        if I.branch(fs_pred(I, "fs_exists", p)):
            raise Unsupported("content of an arbitrary file")
        raise PyRaise("FileNotFoundError", "")
    if f.tag != "image":
        raise PyRaise("OSError", "cannot identify image file")
    return Opaque("pil", {"arr": f.attrs["arr"], "truth": True})


@d("PIL.Image.fromarray")
def _fromarray(I, a, *r, **k):
    a = to_arr(a, I)
    return Opaque("pil", {"arr": a.frozen(), "truth": True})


def _imsave(I, im, path, *a, **k):
    p = to_path(I, path)
    t = pterm(p)
    I.effects.append(("write", t, "w"))
    fs(I).attrs[t] = Opaque("image", {"arr": im.attrs["arr"]})


LIB.methods[("pil", "save")] = _imsave

# -- matplotlib: only savefig touches files ---------------------------------------------------------
PLT = "figure Axes axis plot close rc xlabel ylabel title xlim ylim grid legend subplots tight_layout gca gcf scatter clf cla ioff subplot axes".split()


def _mkplt(n):
    def f(I, *a, **k):
        return Opaque("mpl", {"truth": True})
    return f


for _n in PLT:
    LIB["matplotlib.pyplot." + _n] = _mkplt(_n)
for _n in "set_size_inches set_axis_off add_axes set_title set_xlabel set_ylabel plot axis tight_layout add_subplot scatter update clf set_xlim set_ylim".split():
    LIB.methods[("mpl", _n)] = _mkplt(_n)
LIB.methods[("mpl", "__setitem__")] = lambda I, o, k, v: None
LIB.methods[("mpl", "__getitem__")] = lambda I, o, k: Opaque("mpl", {"truth": True})
LIB.consts["matplotlib.pyplot.rcParams"] = Opaque("mpl", {"truth": True})
LIB.consts["matplotlib.pyplot.rcParamsDefault"] = Opaque("mpl", {"truth": True})
LIB["matplotlib.font_manager.findfont"] = lambda I, *a, **k: Opaque("mpl", {"truth": True})


@d("matplotlib.pyplot.savefig")
def _savefig(I, path, **k):
    I.effects.append(("write", pterm(to_path(I, path)), "w"))


LIB.methods[("mpl", "savefig")] = lambda I, o, path, **k: _savefig(I, path)

# -- isinstance for the objects above ------------------------------------------------------------------
_old_isinst = LIB["builtins.isinstance"]


@d("builtins.isinstance")
def _isinstance(I, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    names = [y.name for y in ts if isinstance(y, LibFn)]
    if isinstance(x, Opaque) and x.tag in ("path", "h5", "h5group", "h5ds", "Group", "file"):
        if len(names) != len(ts):
            raise Unsupported("isinstance type")
        tag = {"path": ("pathlib.Path", "pathlib.PurePath", "os.PathLike"), "h5": ("h5py.File", "h5py.Group"), "h5group": ("h5py.Group",),
               "h5ds": ("h5py.Dataset",), "Group": ("h5py.Group",), "file": ()}[x.tag]
        return any(n in tag for n in names)
    if isinstance(x, Opaque) and x.tag == "str":
        if any(n == "builtins.str" for n in names):
            return True
        return False
    if any(n in ("pathlib.Path", "pathlib.PurePath", "h5py.Group", "h5py.Dataset", "os.PathLike") for n in names):
        rest = tuple(y for y in ts if not (isinstance(y, LibFn) and y.name in ("pathlib.Path", "pathlib.PurePath", "h5py.Group", "h5py.Dataset", "os.PathLike")))
        return _old_isinst(I, x, rest) if rest else False
    ts2 = tuple(y for y in ts if not (isinstance(y, LibFn) and y.name.startswith("numpy.") and y.name.split(".")[-1] in DT))
    if len(ts2) != len(ts):
        return _old_isinst(I, x, ts2) if ts2 else False
    return _old_isinst(I, x, t)
