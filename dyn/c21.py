"""HDF and image files written and read back against numpy indexing"""
from common import *
import tempfile
from pathlib import Path
import h5py
from PIL import Image
import discorpy.losa.loadersaver as losa

DT = ["f4", "f8", "u1", "u2", "i2", "i4", "i8", "f2", "?"]


def cases(seed, tier, hints):
    n = 0
    for rep in range(1 if tier == "quick" else 6):
        for j in range(60):
            n += 1
            yield dict(kind="hdf", seed=seed * 100000 + n)
        for j in range(90):
            for ax in (0, 1, 2):
                n += 1
                yield dict(kind="index", axis=ax, form=j % 9, seed=seed * 100000 + n)
        for v in lit_sizes(2, 1100, ["losa"]):
            n += 1
            yield dict(kind="index", axis=n % 3, form=n % 9, size=int(v), seed=seed * 100000 + n)
        for j in range(12):
            n += 1
            yield dict(kind="errors", seed=seed * 100000 + n)
        for j in range(14):
            n += 1
            yield dict(kind="listing", seed=seed * 100000 + n)
            yield dict(kind="auto", seed=seed * 100000 + n)
        for j in range(20):
            n += 1
            yield dict(kind="stream", seed=seed * 100000 + n)
        for dt in range(len(DT)):
            for j in range(8):
                n += 1
                yield dict(kind="scaled", dt=DT[dt], form=j, seed=seed * 100000 + n)
        for v in lit_sizes(2, 1100, ["losa"]):
            n += 1
            yield dict(kind="scaled", dt=DT[n % len(DT)], form=n % 8, size=int(v), seed=seed * 100000 + n)
            n += 1
            yield dict(kind="tif", size=int(v), seed=seed * 100000 + n)
        for j in range(40):
            n += 1
            yield dict(kind="tif", seed=seed * 100000 + n)
        for j in range(60):
            n += 1
            yield dict(kind="colour", seed=seed * 100000 + n)


def run(case):
    rng = rng_of(case)
    with tempfile.TemporaryDirectory() as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            globals()["run_" + case["kind"]](case, rng)
        finally:
            os.chdir(cwd)


def array(rng, shape, dt):
    if dt == "?":
        return rng.random(shape) > 0.5
    if dt[0] == "f":
        return (rng.normal(size=shape) * 10.0 ** int(rng.integers(-3, 4))).astype(dt)
    i = np.iinfo(dt)
    lo, hi = max(i.min, -2 ** 24), min(i.max, 2 ** 24)
    return rng.integers(lo, hi, shape, endpoint=True).astype(dt)


def pick_shape(rng, nd, size=None):
    s = [int(x) for x in rng.integers(1, 8, nd)]
    if rng.random() < 0.4:
        s[int(rng.integers(0, nd))] = 1
    if size:
        s[int(rng.integers(0, nd))] = size
    return tuple(s)


def same(a, b, msg):
    check(isinstance(b, np.ndarray), "%s: %s", msg, type(b).__name__)
    check(a.shape == b.shape, "%s: shape %s instead of %s", msg, b.shape, a.shape)
    check(np.array_equal(a, b), "%s: values differ", msg)


KEYS = ["entry", "a", "entry/x/y", "/entry", "exchange", "entry/data", "datadir"]


def run_hdf(case, rng):
    nd = int(rng.integers(2, 4))
    dt = DT[int(rng.integers(0, len(DT)))]
    a = array(rng, pick_shape(rng, nd), dt)
    key = KEYS[int(rng.integers(0, len(KEYS)))]
    src = a if rng.random() < 0.7 else np.asfortranarray(a)
    p = losa.save_hdf_file("f" + ["", ".hdf", ".h5", ".nxs", ".hdf5"][int(rng.integers(0, 5))], src, key_path=key)
    with h5py.File(p, "r") as f:
        check(key + "/data" in f and f[key + "/data"].dtype == a.dtype, "dataset type")
        same(a, f[key + "/data"][()], "stored data")
    exp = a if nd == 2 else np.float32(a)
    same(exp, losa.load_hdf_file(p, key + "/data"), "load_hdf_file")
    same(exp, losa.load_hdf_file(p), "load_hdf_file (key found automatically)")
    o = losa.load_hdf_object(p, key + "/data")
    same(a, o[()], "load_hdf_object")
    o.file.close()
    if nd == 2:
        for ax in (0, 1):
            same(a, losa.load_hdf_file(p, key + "/data", index=0, axis=ax), "2D data")


def run_index(case, rng):
    ax = case["axis"]
    sh = list(pick_shape(rng, 3))
    if case.get("size"):
        sh[ax] = case["size"]
    a = array(rng, tuple(sh), DT[int(rng.integers(0, 7))])
    p = losa.save_hdf_file("f.hdf", a)
    n = sh[ax]
    form = case["form"]
    kw = dict(key_path="entry/data") if rng.random() < 0.5 else {}
    if form in (0, 1):
        i = int(rng.integers(0, n))
        idx = [i, np.int32(i), np.int64(i), np.uint8(i) if i < 256 else i][int(rng.integers(0, 4))]
        r = losa.load_hdf_file(p, index=idx, axis=ax, **kw)
        same(np.float32(np.take(a, i, axis=ax)), r, "index %r axis %d of %s" % (idx, ax, sh))
        return
    if form == 2:
        i = int(rng.integers(-n, 0))
        same(np.float32(np.take(a, i, axis=ax)), losa.load_hdf_file(p, index=i, axis=ax, **kw), "index %d axis %d of %s" % (i, ax, sh))
        return
    if form in (3, 4):
        s = int(rng.integers(0, n))
        e = int(rng.integers(s + 1, n + 1))
        if form == 4:
            e = s + 1
        idx, sel = [s, e], list(range(s, e))
    elif form in (5, 6):
        s = int(rng.integers(0, n))
        e = int(rng.integers(s + 1, n + 1))
        st = int(rng.integers(1, 5))
        idx, sel = [s, e, st], list(range(s, e, st))
    elif form == 7:
        idx = sel = [int(rng.integers(0, n))]
    else:
        if n < 4:
            return
        idx = sel = sorted(int(x) for x in rng.choice(n, int(rng.integers(4, n + 1)), replace=False))
    exp = np.float32(np.take(a, sel, axis=ax))
    if len(sel) == 1:
        exp = np.squeeze(exp, axis=ax)
    if rng.random() < 0.5:
        idx = tuple(idx)
    same(exp, losa.load_hdf_file(p, index=idx, axis=ax, **kw), "index %r axis %d of %s" % (idx, ax, sh))


def run_errors(case, rng):
    a = array(rng, pick_shape(rng, 3), "f4")
    p = losa.save_hdf_file("f.hdf", a)
    ax = int(rng.integers(0, 3))
    n = a.shape[ax]
    k = int(rng.integers(0, 4))
    for f in (losa.load_hdf_file, losa.load_hdf_object):
        for key in ("nokey", "entry/nodata", "data"):
            raises(ValueError, f, p, key)
        raises(ValueError, f, "missing.hdf", "entry/data")
        raises(ValueError, f, Path("no/such.nxs"), "entry/data")
    open("bad.hdf", "wb").write(b"not hdf")
    raises(ValueError, losa.load_hdf_file, "bad.hdf")
    raises(ValueError, losa.load_hdf_object, "bad.hdf", "entry/data")
    raises((IndexError, ValueError, OSError), losa.load_hdf_file, p, index=n + k, axis=ax)
    raises((IndexError, ValueError, OSError), losa.load_hdf_file, p, index=-n - 1 - k, axis=ax)
    raises((IndexError, ValueError, OSError), losa.load_hdf_file, p, index=(0, n + 1 + k), axis=ax)
    raises((IndexError, ValueError, OSError), losa.load_hdf_file, p, index=(n + k, n + k + 1), axis=ax)
    raises((IndexError, ValueError, OSError), losa.load_hdf_file, p, index=[n + k], axis=ax)
    raises(ValueError, losa.load_hdf_file, p, index=(0, 0), axis=ax)
    raises(ValueError, losa.load_hdf_file, p, index=[], axis=ax)
    for sh in ((5,), (2, 2, 2, 2), ()):
        q = losa.save_hdf_file("g.hdf", np.zeros(sh))
        raises(ValueError, losa.load_hdf_file, q)
    with h5py.File("e.hdf", "w") as f:
        f.create_group("only/groups")
    raises(ValueError, losa.load_hdf_file, "e.hdf")
    raises(ValueError, losa.load_image, "missing.tif")
    open("bad.tif", "wb").write(b"not an image")
    raises(ValueError, losa.load_image, "bad.tif")


def run_auto(case, rng):
    """the dataset named data is found among others whose names only resemble it"""
    a = array(rng, pick_shape(rng, int(rng.integers(2, 4))), "f4")
    with h5py.File("f.hdf", "w") as f:
        g = f.create_group("entry")
        for nm in ("adata", "Data", "metadata", "data_0", "dat"):
            if rng.random() < 0.6:
                g[nm] = array(rng, (2, 3), "f4")
        g["data"] = a
        if rng.random() < 0.5:
            f["another_data"] = np.zeros((2, 2), "f4")
    same(a, losa.load_hdf_file("f.hdf"), "dataset found automatically")


def run_listing(case, rng):
    """every dataset is listed with its shape and type; a search returns the listed entries containing the pattern"""
    names = ["entry/data", "entry/angles", "a", "entry/x/image", "image_key", "entry/x/y/z", "scan/meta", "Entry/DATA", "Scan/metadata"]
    k = [int(x) for x in rng.permutation(len(names))[:int(rng.integers(1, len(names) + 1))]]
    data = {names[i]: array(rng, pick_shape(rng, int(rng.integers(1, 4))), DT[int(rng.integers(0, 7))]) for i in k}
    with h5py.File("f.hdf", "w") as f:
        for nm, v in data.items():
            f[nm] = v
        if rng.random() < 0.3:
            f.create_group("emptygroup")
        if rng.random() < 0.3:
            f["scalar"] = 53.0
            data["scalar"] = np.float64(53.0)
    import io
    import contextlib
    disp = bool(rng.random() < 0.5)
    with contextlib.redirect_stdout(io.StringIO()):
        K, S, D = losa.get_hdf_information("f.hdf", display=disp)
    check(len(K) == len(S) == len(D), "lengths of the lists differ")
    for nm, v in data.items():
        hit = [i for i, key in enumerate(K) if key.strip("/") == nm]
        check(hit, "dataset %r not listed: %r", nm, K)
        for i in hit:
            check(S[i] == v.shape and D[i] == v.dtype, "%r listed with shape %r type %r", nm, S[i], D[i])
    for key, s, dd in zip(K, S, D):
        with h5py.File("f.hdf", "r") as f:
            o = f[key]
            if isinstance(o, h5py.Dataset):
                check(s == o.shape and dd == o.dtype, "%r listed with shape %r type %r", key, s, dd)
            else:
                check(s is None and dd is None, "%r is no dataset but listed with a shape", key)
    for pat in ("data", "entry", "x/", "image", "nothing", "a", "", "DATA", "Entry", "IMAGE", "A"):
        with contextlib.redirect_stdout(io.StringIO()):
            k2, s2, d2 = losa.find_hdf_key("f.hdf", pat, display=disp)
        exp = [(a, b, c) for a, b, c in zip(K, S, D) if pat in a]
        check(sorted(map(str, zip(k2, s2, d2))) == sorted(map(str, exp)), "search for %r gives %r, listed %r", pat, k2, [e[0] for e in exp])
    for f in (losa.get_hdf_information, lambda p: losa.find_hdf_key(p, "data")):
        raises(ValueError, f, "missing.hdf")


def run_stream(case, rng):
    sh = pick_shape(rng, int(rng.integers(1, 4)))
    dt = ["float32", "float64", "uint8", "uint16", "int32"][int(rng.integers(0, 5))]
    key = ["entry/data", "q/b", "images", "entry/data/d"][int(rng.integers(0, 4))]
    opts = {}
    meta = {"Angles_1": np.linspace(0, 1, 5), "info/Energy keV": 53, "t/exp": 0.5}
    if rng.random() < 0.7:
        opts = dict(options=meta) if rng.random() < 0.5 else dict(o1={"Angles_1": meta["Angles_1"]}, o2={"info/Energy keV": 53, "t/exp": 0.5})
    s = losa.open_hdf_stream("s.hdf", sh, key_path=key, data_type=dt, **opts)
    check(s.shape == sh and s.dtype == np.dtype(dt), "stream of shape %s type %s", s.shape, s.dtype)
    a = array(rng, sh, np.dtype(dt).str[1:])
    for i in range(sh[0]):
        s[i] = a[i]
    f = s.file
    check(f[key] == s, "stream is not at its key")
    f.close()
    with h5py.File("s.hdf", "r") as f:
        same(a, f[key][()], "streamed data")
        if opts:
            for k, v in meta.items():
                check(np.array_equal(f[k][()], v), "metadata %r", k)
        got = []
        f.visititems(lambda n, o: got.append(n) if isinstance(o, h5py.Dataset) else None)
        check(sorted(got) == sorted([key] + (list(meta) if opts else [])), "datasets in the file: %r", got)
    raises(ValueError, losa.open_hdf_stream, "t.hdf", (2, 2), key_path="entry/data", options={"entry/data/x": 1})


def run_scaled(case, rng):
    dt = case["dt"]
    h, w = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    if case.get("size"):
        h, w = (case["size"], w) if rng.random() < 0.5 else (h, case["size"])
    if h * w < 2:
        w = 3
    f = case["form"]
    if dt == "?":
        a = rng.random((h, w)) > 0.5
    elif dt[0] == "f":
        a = rng.random((h, w)) * [1, 255, 1e-3, 6e4][f % 4] - [0, 0.5, 100, 0][f // 2 % 4]
        a = a.astype(dt)
    else:
        i = np.iinfo(dt)
        lo, hi = [(i.min, i.max), (0, min(i.max, 300)), (max(i.min, -20), 100), (i.min // 2, i.max // 2)][f % 4]
        lo, hi = max(lo, -2 ** 50), min(hi, 2 ** 50)
        a = rng.integers(lo, hi, (h, w), endpoint=True).astype(dt)
        if f >= 4:
            a.flat[0], a.flat[-1] = lo, hi
        elif rng.random() < (0.7 if dt == "u1" else 0.1):
            a = (a % 2).astype(dt)
    ext = [".png", ".bmp"][int(rng.integers(0, 2))]
    keep = a.copy()
    p = losa.save_image("i" + ext, a)
    r = np.array(Image.open(p))
    check(r.dtype == np.uint8 and r.shape == a.shape, "stored as %s %s", r.dtype, r.shape)
    same(r.astype("f4"), losa.load_image(p), "load_image")
    x = keep.astype(np.float64)
    if dt == "u1":
        same(keep, r, "uint8 image")
    elif x.max() > x.min():
        v = 255.0 * (x - x.min()) / (x.max() - x.min())
        # whole part of the scaled value (rounding of the division at whole numbers allowed)
        bad = (np.abs(r - np.floor(v)) > 0) & (np.abs(v - np.round(v)) > 1e-3 * (1 if dt != "f2" else 10))
        check(not bad.any() and np.abs(r - v).max() <= 1.001, "scaled image: %s", (r[bad][:3], v[bad][:3]))
        check(r[x == x.min()].max() == 0 and r[x == x.max()].min() >= 254, "full range not used: %s..%s", r.min(), r.max())
    elif 0 <= x.flat[0] <= 255:
        check((r == int(x.flat[0])).all(), "constant image")


def run_tif(case, rng):
    h, w = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    if case.get("size"):
        h, w = (case["size"], w) if rng.random() < 0.5 else (h, case["size"])
    dt = ["f4", "f8", "u1", "u2", "f4", "i4"][int(rng.integers(0, 6))]
    a = array(rng, (h, w), dt)
    if dt == "i4":
        a = np.clip(a, -2 ** 20, 2 ** 20)
    p = losa.save_image("t" + [".tif", ".tiff"][int(rng.integers(0, 2))], a)
    same(np.float32(a), losa.load_image(p), "tif image of type %s" % dt)
    same(np.float32(a), losa.load_image(Path(p), average=False), "tif image of type %s" % dt)
    if rng.random() < 0.5:
        c = int(rng.integers(2, 5))
        b = array(rng, (h + 5, w + 5, c) if rng.random() < 0.5 else (c, h + 5, w + 5), ["f4", "u1", "u2"][int(rng.integers(0, 3))])
        p = losa.save_image("c.tif", b)
        r = losa.load_image(p)
        e = np.float32(np.mean(b.astype("f8"), axis=int(np.argmin(b.shape))))
        close(r, e, "multichannel tif", tol=1e-5, scale=1 + np.abs(b.astype("f8")).max())


def run_colour(case, rng):
    c = [3, 3, 4, 2][int(rng.integers(0, 4))]
    h, w = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    a = rng.integers(0, 256, (h, w, c)).astype("u1")
    Image.fromarray(a).save("c.png")
    close(losa.load_image("c.png"), a.astype("f8").mean(axis=2), "average of the channels", tol=1e-5)
    close(losa.load_image("c.png", average=True), a.astype("f8").mean(axis=2), "average of the channels", tol=1e-5)
    same(a.astype("f4"), losa.load_image("c.png", average=False), "average=False")
    if c >= 3:
        p = losa.save_image("s.png", a)
        same(a, np.array(Image.open(p)), "colour uint8 image saved")
