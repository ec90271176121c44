#!/usr/bin/env python3
"""Conformance of the trusted part: the symbolic executor and its assumed numpy contracts against numpy itself.

Every snippet below is executed symbolically once (arrays of symbolic shape and content) and, for random shapes and contents,
the resulting term is evaluated and compared with what Python and numpy compute.  usage: python3-vt tools/libtest.py [filter]
This is a bounded test of the assumptions, not part of any proof.
"""
import itertools, os, random, sys, tempfile, inspect, warnings
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
D = tempfile.mkdtemp()
os.environ["VERIF_REPO"] = D
warnings.simplefilter("ignore")
os.makedirs(D + "/discorpy")
open(D + "/discorpy/__init__.py", "w").close()
HEAD = "import numpy as np\nimport scipy.ndimage as ndi\nfrom copy import copy, deepcopy\n\n"
# A: n x m floats, a, b: n floats, p: n integers, M: n booleans (a > b), s, t: floats, k: integer in 0..n-1
SN = r'''
A[::-1] | A[:, ::-1] | A[1:, :-1] | A[-1] | A[k] | A[:, 0] | A[k:] | A[:k] | A[::2] | A[1::2, ::3] | a[-k:] if k > 0 else a | A[-1, -1] | A.T | A.T[::-1]
a[p] | A[p] | A[:, p[:2] * 0] | a[a > b] | a[(a > b) & (a < s)] | a[~(a > b)] | a[(a > b) | (b > s)] | A[a > b] | A[np.where(a > b)[0]] | np.where(a > b)[0] | np.where(a > b, a, b) | np.where(a > b, 1, 0)
s or t | s and t | k or 7 | k and s | (s > t) or s | (s > t and t) | 1 if k and s > 0 else 2 | (k or s) * 2 | not (k and s)
a + b | a - s | a * b + s | a / (1 + b * b) | a // 0.7 | a % 0.7 | p // 2 | p % 3 | (p - 3) // 2 | (p - 3) % 4 | -a | abs(a) | a ** 2 | a ** 3 | np.power(a * a, p) | np.abs(a) ** 0.5 | A + a[:, None] | A * A[0] | A - np.mean(A, axis=0) | a[:, None] - b[None, :]
np.clip(a, -1, 1) | np.clip(a, None, s) | np.clip(a, 0, None) | np.clip(k, 1, None) | np.minimum(a, b) | np.maximum(a, s) | min(s, t) | max(s, t, 0.0) | min(len(a), 3)
np.round(a) | np.round(a * 2) / 2 | np.rint(a * 2) | np.floor(a) | np.ceil(a) | np.trunc(a) | np.int32(a) | a.astype(int) | int(s) | round(s) | np.sign(a) | np.fix(a) | np.uint8(np.abs(a) * 3) | np.floor(-a) | np.round(a + 0.5)
np.sum(a) | np.sum(A) | np.sum(A, axis=0) | np.sum(A, axis=1) | A.sum(axis=-1) | np.mean(a) | np.mean(A, axis=1) | np.std(a) | np.var(a) | np.max(a) | np.min(A) | np.amax(A, axis=0) | np.amin(A, axis=1) | np.ptp(a) | np.median(a) | np.argmax(a) | np.argmin(a) | np.prod(a[:2]) | np.max(np.abs(A)) | a.mean() | np.cumsum(a) | np.average(a) | np.dot(a, b) | np.inner(a, b) | np.outer(a, b)
np.sort(a) | np.sort(a)[::-1] | np.argsort(a) | A[a.argsort()] | A[A[:, 0].argsort()] | np.sort(a)[0] | np.diff(a) | np.diff(np.sort(a)) | np.abs(np.diff(a)) | sorted(list(a)) | np.unique(p) | np.count_nonzero(a > b) | np.sum(a > b) | np.any(a > s) | np.all(a > s) | any(a < s) | np.percentile(a, 80)
np.arange(k) | np.arange(1, k + 3) | np.arange(0, len(a), 2) | np.arange(-s * s, s * s + 2.0, 2.0) | np.arange(5, 0, -1) | np.arange(len(a))[::-1] | np.linspace(0, s, 5) | np.linspace(s, t, len(a) + 1) | np.arange(len(a)) - len(a) // 2 | np.linspace(0, s, 4, endpoint=False) | np.arange(0.5, k + 1, 0.25)
np.zeros(len(a)) | np.ones((2, len(a))) | np.zeros_like(A) | np.ones_like(a) * s | np.full(3, s) | np.full_like(A, s) | np.meshgrid(a, b)[0] | np.meshgrid(a, b)[1] | np.meshgrid(np.arange(3), a)[1] | np.indices((2, 3))[0] | np.mgrid[:2, :3][1] | np.ogrid[:2, :3][0] | np.ogrid[-1.5:2, -1:3][1]
np.vstack((a, b)) | np.vstack((A, A[:1])) | np.hstack((a, b)) | np.column_stack((a, b)) | np.concatenate((a, b)) | np.concatenate((A, A), axis=1) | np.stack((a, b), axis=1) | np.stack([a, b]) | np.append(a, s) | np.insert(a, 0, s) | np.insert(p, 0, 0) | np.delete(a, 0) | np.repeat(a, 2) | np.tile(a, 2) | np.flipud(A) | np.fliplr(A) | np.flip(A, axis=1) | np.flip(a)
A.flatten() | np.ravel(A) | A.reshape(-1) | A.T.flatten() | np.reshape(A, (A.shape[1], A.shape[0])) | np.transpose(A) | np.moveaxis(np.stack([A, A + 1]), 0, -1) | np.swapaxes(A, 0, 1) | np.squeeze(A[None]) | np.expand_dims(a, 1) | A.shape[0] + A.shape[1] | np.size(A) | len(A) | A.ndim | np.shape(A) | np.asarray([a, b]) | np.asarray([[s, t], [t, s]]) | np.array([s, 1, t])
np.pad(a, 2, mode="edge") | np.pad(A, ((1, 2), (0, 1)), mode="edge") | np.pad(a, (1, 2), mode="constant") | np.pad(A, 1, mode="constant", constant_values=s) | np.pad(A, 1, mode="edge")[0]
np.sqrt(np.abs(a)) | np.sin(a) ** 2 + np.cos(a) ** 2 | np.tan(np.arctan(a)) | np.deg2rad(a) | np.rad2deg(a) | np.exp(-a * a) | np.hypot(a, b) | np.arctan2(a, b) | np.square(a) | np.polyval([s, t, 1.0], a) | np.poly1d([s, t])(a) | np.reciprocal(1 + a * a)
[x * 2 for x in a] | [x for x in a if x > s] | [i for i, x in enumerate(a) if x > s] | [x + y for x, y in zip(a, b)] | np.asarray([r[0] for r in A if r[0] > s]) | [[x, y] for x in a[:2] for y in b[:2]] | sum([x for x in a]) | max([x for x in a]) | list(range(k, k + 4, 2)) | list(reversed([s, t])) | [np.mean(r) for r in A] | sorted([s, t, 0.5]) | [x if x > 0 else -x for x in a] | [i in (0, 2) for i in range(4)] | len([x for x in a if x > b[0]])
np.asarray(a > b, dtype=np.float32) | np.float64(s) | np.float32(p) | (a > b).astype(int) | np.logical_and(a > b, b > s) | np.logical_not(a > b) | np.not_equal(p, 1) | np.isnan(a) | not (s > t) | s < t < 3 | (1 if s > t else 2) | np.asarray(a)[::-1][0] | bool(k) | s == t | k != 1 | s > t and k > 1 or t > 0
'''
FN = '''
def f_acc(A, a, b, p, s, t, k):
    r = 0.0
    for i in range(len(a)):
        if a[i] > b[i]:
            r += a[i] * i
        else:
            r -= 1
    return r

def f_last(A, a, b, p, s, t, k):
    r = s
    for x in a:
        r = x
    return r

def f_store(A, a, b, p, s, t, k):
    o = np.zeros(len(a) + 1)
    for i in range(len(a)):
        o[i + 1] = a[i] * 2 - b[0]
    o[0] = s
    return o

def f_store2(A, a, b, p, s, t, k):
    o = np.ones((A.shape[0], A.shape[1] + 2))
    o[:, 1:-1] = A
    o[k] = s
    o[0, 0] += t
    return o

def f_mask(A, a, b, p, s, t, k):
    o = np.copy(a)
    o[o > s] = t
    o[0] = 5.0
    return o

def f_aug(A, a, b, p, s, t, k):
    o = np.copy(A)
    o[:, 0] += a
    o *= 2
    o[1:] -= s
    return o

def f_list(A, a, b, p, s, t, k):
    r = []
    for i, row in enumerate(A):
        for x in row:
            r.append(x * i)
    return np.asarray(r)

def f_group(A, a, b, p, s, t, k):
    r = []
    for row in A:
        q = [x for x in row if x > s]
        if len(q) > 1:
            r.append(len(q))
    return r

def f_while(A, a, b, p, s, t, k):
    i = 0
    r = 0
    while i < len(a):
        r = r + a[i]
        i += 2
    return r

def f_geo(A, a, b, p, s, t, k):
    r = 1.0
    for i in range(k + 2):
        r = r * 0.5 + i
    return r

def f_nest(A, a, b, p, s, t, k):
    r = 0
    for i in range(len(a)):
        for j in range(i):
            r += a[j] * b[i]
    return r

def f_fact(A, a, b, p, s, t, k):
    d = {"x": s, "y": t}
    d["z"] = d["x"] + 1
    x, (y, z) = d["z"], (s, t)
    return (x, y, z, [x, *(y, z)], d["y"])

def f_slice(A, a, b, p, s, t, k):
    lo, hi = max(0, k - 1), min(len(a), k + 2)
    return a[lo:hi], A[lo:hi, ::-1], np.mean(a[lo:hi])

def f_try(A, a, b, p, s, t, k):
    try:
        if s > t:
            raise ValueError("x")
        r = 1
    except ValueError:
        r = 2
    return r

def f_early(A, a, b, p, s, t, k):
    for i in range(3):
        if s > i:
            return i
    return -1

def f_alias(A, a, b, p, s, t, k):
    o = np.copy(A)
    v = o[0]
    v[0] = s
    w = o[:, -1].copy()
    w[0] = 77
    return o, w

def f_sortkey(A, a, b, p, s, t, k):
    L = [A[:2], A[1:], A[:1] + s]
    L = sorted(L, key=lambda l: np.mean(l[:, 0]))
    return L[0][0], len(L)

def f_poly(A, a, b, p, s, t, k):
    x = np.arange(len(a))
    return np.polyfit(x, a, 1) if len(a) > 2 else np.zeros(2)

def f_aug(A, a, b, p, s, t, k):
    c = a.copy()
    d = c
    d += 1
    e = c
    e = e + 1
    l = [s]
    m = l
    m += [t]
    l2 = l
    l2 = l2 + [1.0]
    return c, e, len(l), len(l2), l[1]

def f_chain(A, a, b, p, s, t, k):
    return (-1 < s < 1, s < t < 2 < 3, k in (0, 2), k not in [1], s is None, 1 if 0 <= k <= 1 else 2)

def _kw(x, *args, y=2.0, **kw):
    return x + y + sum(args) + kw.get("z", 10.0) + kw.get("w", 0.5)

def f_kw(A, a, b, p, s, t, k):
    return (_kw(s), _kw(s, t), _kw(s, t, 3.0, y=t), _kw(s, z=t), _kw(*[s, t, 1.0], **{"y": 1.0, "w": s}))

def f_closure(A, a, b, p, s, t, k):
    c = [0.0]

    def add(v, by=t):
        c[0] += v * by
        return c[0]
    add(s)
    add(1.0)
    add(2.0, by=s)
    return c[0], (lambda q, r=s: q * r)(t)

def f_forelse(A, a, b, p, s, t, k):
    out = []
    for i in range(5):
        if i == 1:
            continue
        if i > s:
            break
        out.append(i)
    else:
        out.append(100)
    return len(out), sum(out)

def f_assign(A, a, b, p, s, t, k):
    B = np.zeros((4, 5))
    B[1:3, ::2] = s
    B[:, 1] += t
    B[B > 0.5] = 9
    B[0] = np.arange(5)
    B[-1, -2:] = [s, t]
    C = B[1:]
    C[0, 0] = 42
    return B, C

def f_where(A, a, b, p, s, t, k):
    o = np.copy(a)
    o[o < 0] = 0
    o[a > b] *= 2
    q = np.copy(b)
    q[np.where(a > 0)] = s
    return o, q

def f_swap(A, a, b, p, s, t, k):
    x, y = s, t
    x, y = y, x
    if x > y:
        x, y = y, x
    z = [x, y][::-1]
    u, *v = [1, x, y]
    return x, y, z, u, v[-1]

def f_fin(A, a, b, p, s, t, k):
    r = []
    try:
        r.append(1)
        if s > 0:
            raise KeyError("q")
        r.append(2)
    except (ValueError, KeyError):
        r.append(3)
    else:
        r.append(4)
    finally:
        r.append(5)
    return sum(r), len(r)

def f_whilec(A, a, b, p, s, t, k):
    i, q = 0, s
    while i < 4 and q < 3:
        q = q + abs(t)
        i += 1
    return i, q

def f_cond(A, a, b, p, s, t, k):
    r = np.float32(0) if s > 0 else None
    if r is None:
        r = 5.0
    elif not k:
        r = -1.0
    return r + (2 if s > t else 3) * (1 if k else -1)

def f_listops(A, a, b, p, s, t, k):
    l = [1, 2] * 2 + [s]
    l.insert(1, t)
    l.extend([3.0, 4.0])
    q = l.pop()
    l.reverse()
    return l, q, l.index(1), l[-2:], l[::2], len(l)

def f_zip(A, a, b, p, s, t, k):
    r = 0
    for i, (x, y) in enumerate(zip(a, b[::-1]), 2):
        r += i * x - y
    for x in reversed([s, t, 1.0]):
        r = r * 0.5 + x
    return r

def f_dtype(A, a, b, p, s, t, k):
    o = np.zeros(3, dtype=int)
    o[0] = 2.9
    o[1] = -2.9
    f = np.zeros(2)
    f[0] = 7 // 2
    f[1] = 7 / 2
    return o, f, -7 // 2, -7 % 3, int(-2.5), 2 ** -1, 7 % -3

def f_iter2(A, a, b, p, s, t, k):
    x, y = s, t
    for i in range(k):
        x, y = y + i, x * 0.5
    return x, y

def f_iter3(A, a, b, p, s, t, k):
    x, y = s, t
    for i in range(k):
        x, y = x * y * 0.1 + i, x + y
    return x, y

def f_sentinel(A, a, b, p, s, t, k):
    m = -1e9
    q = 0
    for i, x in enumerate(a):
        if x > m:
            m = x
            q = i
    return m, q
'''
tests, src = [], HEAD + FN
for line in SN.strip().splitlines():
    for e in line.replace(" | b > s", " @@ b > s").split(" | "):
        e = e.strip().replace(" @@ ", " | ")
        if "(b > s)" in e or True:
            pass
        tests.append(("e%d" % len(tests), e))
# expressions using | as an operator are written with parentheses only on both sides: re-join pieces
fixed, i = [], 0
while i < len(tests):
    e = tests[i][1]
    while e.count("(") != e.count(")") or e.count("[") != e.count("]"):
        i += 1
        e += " | " + tests[i][1]
    fixed.append(("e%d" % len(fixed), e))
    i += 1
tests = fixed
for nm, e in tests:
    src += "def %s(A, a, b, p, s, t, k):\n    return %s\n\n" % (nm, e)
open(D + "/discorpy/snip.py", "w").write(src)
tests += [(l.split("(")[0][4:], l.split("(")[0][4:]) for l in FN.splitlines() if l.startswith("def f_")]

import numpy as np
from contracts.base import *
from contracts.helpers import *
from pyvc import evalt, smt
from pyvc.values import SArr, SList
ns = {}
exec(compile(src, "snip", "exec"), ns)


def real(v, env):
    if isinstance(v, T):
        return env.ev(v)
    if isinstance(v, SArr):
        sh = [int(env.ev(asT(x))) for x in v.shape]
        o = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh):
            e = v.get(tuple(const(int(q)) for q in ix))
            o[ix] = e if isinstance(e, bool) else env.ev(asT(e))
        return o
    if isinstance(v, SList):
        n, item = as_list(v)
        return [real(item(const(q)), env) for q in range(int(env.ev(asT(n))))]
    if isinstance(v, (tuple, list)):
        return [real(x, env) for x in v]
    if isinstance(v, dict):
        return {q: real(x, env) for q, x in v.items()}
    return v


def terms_of(v):
    """the terms of a result (array elements at a generic index)"""
    if isinstance(v, T):
        return [v]
    if isinstance(v, SArr):
        return [asT(x) for x in v.shape] + terms_of(v.get(tuple(var("ix%d" % q, "I", nn=True) for q in range(v.ndim))))
    if isinstance(v, SList):
        n, item = as_list(v)
        return [asT(n)] + terms_of(item(var("ixl", "I", nn=True)))
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in terms_of(x)]
    if isinstance(v, dict):
        return [t for x in v.values() for t in terms_of(x)]
    return []


def flat(v, out):
    if isinstance(v, np.ndarray):
        out.append(("shape", v.shape))
        for x in v.flat:
            out.append(float(x))
    elif isinstance(v, (tuple, list)):
        if v and all(isinstance(x, (int, float, bool, np.generic)) for x in v):
            return flat(np.asarray([float(x) for x in v]), out)
        for x in v:
            flat(x, out)
    else:
        out.append(float(v))
    return out


def lemmas(ts):
    """the instances of the assumed lemmas the solver is given for these terms, and the congruences: [(name, fact)], [(premise, t, u)]"""
    facts, congs = [], []
    save, cong = dict(smt.AXIOMS), smt.congruence

    def wrap(name, fn):
        def f(t, tr):
            out = list(fn(t, tr))
            facts.extend((name, b) for b in out if not smt.has_bv(b))
            return out
        return f

    def c2(u, t):
        l = cong(u, t)
        if l is not None:
            congs.append((l, u, t))
        return l
    try:
        smt.AXIOMS.update({q: wrap(q, f) for q, f in save.items()})
        smt.congruence = c2
        tr = smt.Trans()
        for t in ts:
            tr.tr(t)
        tr.close()
    finally:
        smt.AXIOMS.update(save)
        smt.congruence = cong
    return facts, congs


SEEN = {}


def skolem(env, ts, holds):
    """holds for the environment extended by some values of the witnesses that occur"""
    vs = sorted({v for t in ts for v in tm.free_vars(t) if v.op == "var" and v.args[0].startswith(("sk!", "w!"))}, key=lambda v: v.args[0])
    if not vs:
        return holds(env)
    for val in itertools.product(range(6), repeat=min(len(vs), 4)):
        e2 = evalt.Env(random.Random(0), {**env.vars, **dict(zip(vs, val + (0,) * len(vs)))}, table=env.table)
        if holds(e2):
            return True
    return False


def lemma_test(e, paths, envs):
    """every lemma instance holds under the evaluation (which agrees with numpy)"""
    ts = []
    for I, hyps, oc, v in paths:
        ts += list(hyps)
        if oc != "raise":
            ts += terms_at(v)
    facts, congs = lemmas(ts[:60])
    n = bad = 0
    skip = {}
    for env in envs[::3]:
        for name, b in facts[:400]:
            try:
                if not skolem(env, [b], lambda E: E.ev(b)):
                    bad += 1
                    print("LEMMA %s fails for %s: %s" % (name, e, str(b)[:300]))
                    break
                n += 1
                SEEN[name] = SEEN.get(name, 0) + 1
            except evalt.Skip as x:
                skip[name] = str(x)
        for l, u, t in congs[:100]:
            try:
                if not skolem(env, [l, u, t], lambda E: not E.ev(l) or abs(E.ev(u) - E.ev(t)) <= 1e-7):
                    bad += 1
                    print("CONGRUENCE fails for %s: %s -> %s = %s" % (e, str(l)[:200], str(u)[:100], str(t)[:100]))
                    break
                n += 1
            except (evalt.Skip, TypeError) as x:
                skip["congruence"] = str(x)
        if bad:
            break
    return n, bad, skip


def terms_at(v):
    """the terms of a result at the first indices"""
    if isinstance(v, T):
        return [v]
    if isinstance(v, SArr):
        out = [asT(x) for x in v.shape]
        for ix in itertools.product(range(2), repeat=v.ndim):
            out += terms_at(v.get(tuple(const(q) for q in ix)))
        return out
    if isinstance(v, SList):
        n, item = as_list(v)
        return [asT(n)] + [t for q in range(2) for t in terms_at(item(const(q)))]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in terms_at(x)]
    if isinstance(v, dict):
        return [t for x in v.values() for t in terms_at(x)]
    return []


def main(pat):
    ok = bad = nl = 0
    lskip = {}
    skipped, unsupported = {}, {}
    n, m = var("n", "I", nn=True), var("m", "I", nn=True)
    kk, s, t = var("k", "I", nn=True), var("s"), var("t")
    args = [farr("A", (n, m)), farr("a", (n,)), farr("b", (n,)), farr("p", (n,), dt="i8"), s, t, kk]
    facts = [ge(n, const(2)), ge(m, const(2)), ge(kk, ZERO), lt(kk, n)]
    for nm, e in tests:
        if pat and pat not in e:
            continue
        S = Section("LT", "lib", "quick")
        try:
            paths = list(S.paths("discorpy.snip." + nm, args, {}, facts))
        except Exception as x:
            unsupported[e] = "%s: %s" % (type(x).__name__, str(x)[:80])
            continue
        if loose([h for _, hy, _, _ in paths for h in hy]) or loose(terms_of([v for _, _, oc, v in paths if oc != "raise"])):
            skipped[e] = "loop abstraction: constrained by its invariant only"
            continue
        good, first, envs = 0, bad, []
        for seed in range(25):
            r = np.random.default_rng(seed)
            N, Mm = int(r.integers(2, 6)), int(r.integers(2, 5))
            # (numpy does not order ties in any documented way: no ties where an order is what is asked for)
            gen = (lambda *sh: r.normal(size=sh) * 2) if seed % 3 or "argsort" in e else (lambda *sh: np.round(r.normal(size=sh) * 4) / 2)
            A, a, b = gen(N, Mm), gen(N), gen(N)
            p = r.integers(0, N, N)
            sv, tv, kv = float(gen(1)[0]), float(gen(1)[0]), int(r.integers(0, N))
            conc = [A, a, b, p, sv, tv, kv]
            try:
                want, exc = ns[nm](*[x.copy() if hasattr(x, "copy") else x for x in conc]), None
            except Exception as x:
                want, exc = None, x
            table = {}
            env = evalt.Env(random.Random(seed), {n: N, m: Mm, kk: kv, s: sv, t: tv}, table=table)
            for f, arr in (("A", A), ("a", a), ("b", b), ("p", p)):
                for ix in np.ndindex(*arr.shape):
                    table[(f, env.key(tuple(int(q) for q in ix)), "I" if f == "p" else "R")] = int(arr[ix]) if f == "p" else float(arr[ix])
            hit = 0
            envs.append(env)
            if bad > first:
                break
            try:
                for I, hyps, oc, v in paths:
                    if not all(env.ev(h) for h in hyps):
                        continue
                    hit += 1
                    if oc == "raise":
                        if exc is None:
                            bad += 1
                            print("MISMATCH %s: symbolic path raises %s, Python returns (seed %d)" % (e, v, seed))
                            break
                        good += 1
                        continue
                    if exc is not None:
                        bad += 1
                        print("MISMATCH %s: Python raises %r (seed %d)" % (e, exc, seed))
                        break
                    g, w = flat(real(v, env), []), flat(want, [])
                    same = len(g) == len(w) and all((x == y) if isinstance(x, tuple) or isinstance(y, tuple) else abs(x - y) <= 1e-7 * (1 + abs(y)) for x, y in zip(g, w))
                    if not same:
                        bad += 1
                        print("MISMATCH %s (seed %d):\n   symbolic %s\n   numpy    %s" % (e, seed, g[:12], w[:12]))
                        break
                    good += 1
                if not hit:
                    bad += 1
                    print("MISMATCH %s: no path matches (seed %d)" % (e, seed))
                    break
            except evalt.Skip as x:
                skipped[e] = str(x)
            except Unsupported as x:
                unsupported[e] = str(x)[:80]
        ok += good > 0
        try:
            ln, lb, ls = lemma_test(e, paths, envs)
        except Exception as x:
            ln, lb, ls = 0, 0, {"lemmas of " + e: "%s: %s" % (type(x).__name__, str(x)[:80])}
        nl += ln
        bad += lb
        lskip.update(ls)
    print("%d of %d snippets agree; %d mismatches; %d not evaluable; %d unsupported" % (ok, len(tests), bad, len(skipped), len(unsupported)))
    print("%d lemma instances hold; not evaluable: %s" % (nl, lskip))
    print("by lemma: %s; never instantiated: %s" % (SEEN, sorted(set(smt.AXIOMS) - set(SEEN))))
    for q in skipped:
        print("   not evaluable:", q, "|", skipped[q])
    for q in unsupported:
        print("   unsupported:", q, "|", unsupported[q])
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1] if len(sys.argv) > 1 else "")
    finally:
        import shutil
        shutil.rmtree(D, ignore_errors=True)
    sys.exit(rc)
