"""metadata written and read back: values, order, number; histories of saves"""
from common import *
import copy
import tempfile
from pathlib import Path
import discorpy.losa.loadersaver as losa

FMT = ["txt", "json", "pkl"]


def cases(seed, tier, hints):
    rng = np.random.default_rng([seed, 20])
    n = 0
    for rep in range(1 if tier == "quick" else 6):
        lens = sorted(set([0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 20, 21, 33, 100, 101, 137] + lit_sizes(3, 1200, ["losa"])))
        for fmt in FMT:
            for m in lens:
                for typ in range(8):
                    n += 1
                    yield dict(kind="roundtrip", fmt=fmt, num=int(m), typ=typ, seed=seed * 100000 + n)
            for j in range(8):
                n += 1
                yield dict(kind="history", fmt=fmt, seed=seed * 100000 + n)
            n += 1
            yield dict(kind="missing", fmt=fmt, seed=seed * 100000 + n)
        for j in range(40):
            n += 1
            yield dict(kind="pickle", seed=seed * 100000 + n)


def value(rng):
    m = int(rng.integers(0, 12))
    if m == 0:
        return float(rng.uniform(-5000, 5000))
    if m == 1:
        return float(rng.normal() * 10.0 ** int(rng.integers(-300, 300)))
    if m == 2:
        return float(rng.integers(-1000, 1000))
    if m == 3:
        return [0.0, -0.0, 1.0, -1.0, 0.1, 1e16, 1e22, 123456789012345678.0, 5e-324, 1.7976931348623157e308, 2.0 ** 53 + 2, 1e-5, 1e-4][int(rng.integers(0, 13))]
    if m == 4:
        return float(np.nextafter(rng.uniform(0, 2), 3))
    return float(rng.normal() * 10.0 ** int(rng.integers(-16, 4)))


def coefs(rng, num, typ):
    v = [value(rng) for _ in range(num)]
    if typ == 0:
        return v
    if typ == 1:
        return tuple(v)
    if typ == 2:
        return np.asarray(v, dtype=np.float64)
    if typ == 3:
        return [np.float64(x) for x in v]
    if typ == 4:
        return np.asarray(rng.normal(size=num) * 10.0 ** rng.integers(-12, 3, size=num), dtype=np.float32)
    if typ == 5:
        return [int(x) for x in rng.integers(-2 ** 53, 2 ** 53, num)]
    if typ == 6:
        return np.asarray(rng.integers(-1000, 1000, num), dtype=["i8", "i4", "u2", "u1"][int(rng.integers(0, 4))])
    t = [float, int, np.float32, np.float64, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64, np.float16]
    return [t[int(rng.integers(0, len(t)))](int(rng.integers(0, 100)) if rng.random() < 0.5 else float(rng.uniform(0, 100))) for _ in range(num)]


def centre(rng):
    t = [float, np.float64, np.float32, int, np.int64, np.int16, float, lambda x: np.array(float(x))][int(rng.integers(0, 8))]
    return t(rng.uniform(-5000, 5000)) if rng.random() < 0.7 or t is not float else value(rng)


def same(a, b, what):
    """b loaded from a"""
    check(isinstance(b, (int, float)), "%s: loaded as %s", what, type(b).__name__)
    if isinstance(a, (np.float32, np.float16)) or (isinstance(a, np.ndarray) and a.dtype in (np.float32, np.float16)):
        check(type(a)(b) == a if not isinstance(a, np.ndarray) else a.dtype.type(b) == a, "%s: saved %r, loaded %r", what, a, b)
    else:
        check(b == (int(a) if isinstance(a, (int, np.integer)) else float(a)), "%s: saved %r, loaded %r", what, a, b)
        check(float(a) != 0 or np.signbit(float(a)) == np.signbit(float(b)) or isinstance(a, int), "%s: sign of zero", what)


def save(fmt, path, x, y, f, **k):
    if fmt == "pkl":
        return losa.save_python_list(path, [x, y, list(f)], **k)
    return getattr(losa, "save_metadata_" + fmt)(path, x, y, f, **k)


def load(fmt, path):
    r = losa.load_python_list(path) if fmt == "pkl" else getattr(losa, "load_metadata_" + fmt)(path)
    check(len(r) == 3, "three values expected")
    return r


def verify(fmt, r, x, y, f):
    if fmt == "pkl":
        check(type(r) is list, "not a list")
        check(eq(r, [x, y, list(f)]), "python list: saved %r, loaded %r", [x, y, list(f)], r)
        return
    a, b, c = r
    same(x, a, "xcenter")
    same(y, b, "ycenter")
    check(isinstance(c, list), "coefficients are a %s", type(c).__name__)
    check(len(c) == len(f), "%d coefficients saved, %d loaded", len(f), len(c))
    for i in range(len(f)):
        same(f[i], c[i], "coefficient %d of %d" % (i, len(f)))


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    return a == b


def path_of(rng, fmt, stem="m"):
    ext = {"txt": [".txt", ".dat", "", ".TXT", ".abc"], "json": [".json", "", ".txt", ".JSON"], "pkl": [".pkl", "", ".dat"]}[fmt]
    p = ["", "sub/", "a/b/"][int(rng.integers(0, 3))] + stem + ext[int(rng.integers(0, len(ext)))]
    return Path(p) if rng.random() < 0.3 else p


def run(case):
    rng = rng_of(case)
    with tempfile.TemporaryDirectory() as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            globals()["run_" + case["kind"]](case, rng)
        finally:
            os.chdir(cwd)


def run_roundtrip(case, rng):
    x, y, f = centre(rng), centre(rng), coefs(rng, case["num"], case["typ"])
    keep = copy.deepcopy((x, y, f))
    p = save(case["fmt"], path_of(rng, case["fmt"]), x, y, f)
    verify(case["fmt"], load(case["fmt"], p), *keep)


def run_history(case, rng):
    """overwriting replaces the old content, not overwriting keeps it; every file gives its own data back"""
    data = {}
    p0 = path_of(rng, case["fmt"])
    for i in range(int(rng.integers(3, 10))):
        x, y, f = centre(rng), centre(rng), coefs(rng, int(rng.integers(0, 14)), int(rng.integers(0, 8)))
        ow = bool(rng.random() < 0.5)
        p = save(case["fmt"], p0, x, y, f, overwrite=ow)
        data[os.path.realpath(str(p))] = (x, y, f)
        for q, v in data.items():
            verify(case["fmt"], load(case["fmt"], q), *v)


def run_missing(case, rng):
    for p in ("none.txt", "sub/none.json", Path("none.pkl")):
        raises(ValueError, load, case["fmt"], p)


def run_pickle(case, rng):
    """arbitrary python lists"""
    def gen(dep):
        m = int(rng.integers(0, 9 if dep else 6))
        if m == 0:
            return value(rng)
        if m == 1:
            return int(rng.integers(-2 ** 62, 2 ** 62))
        if m == 2:
            return ["", "abc", "été\n", "x" * 300][int(rng.integers(0, 4))]
        if m == 3:
            return np.asarray(rng.normal(size=tuple(rng.integers(0, 5, int(rng.integers(0, 4))))), dtype=["f8", "f4"][int(rng.integers(0, 2))])
        if m == 4:
            return [None, True, False, np.float32(1.5), np.int16(3)][int(rng.integers(0, 5))]
        if m == 5:
            return rng.integers(0, 255, (3, 2)).astype("u1")
        if m == 6:
            return tuple(gen(dep - 1) for _ in range(int(rng.integers(0, 4))))
        if m == 7:
            return {("k%d" % i): gen(dep - 1) for i in range(int(rng.integers(0, 4)))}
        return [gen(dep - 1) for _ in range(int(rng.integers(0, 5)))]
    v = [gen(3) for _ in range(int(rng.integers(0, 12)))]
    keep = copy.deepcopy(v)
    p = losa.save_python_list(path_of(rng, "pkl"), v)
    r = losa.load_python_list(p)
    check(eq(r, keep), "python list not loaded as saved: %r", keep)
