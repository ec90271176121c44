"""C21: HDF and image files load back as exactly the requested part of what was saved."""
from .base import *
from pyvc import iolib as io

LEVEL = "proof"
ASSUME = ["h5py: a dataset reads back as written; indexing with an integer, slices and at most one increasing index list selects those positions, out-of-range indices raise",
          "PIL: an image file of the lossless formats reads back the array given to fromarray",
          "conversion between float types is exact in real arithmetic; numpy.min/max are attained bounds; open(), pathlib as in C19",
          "listing and searching of HDF keys (get_hdf_information, find_hdf_key) is checked on concrete files only"]
H, W, N = [var(n, "I", nn=True) for n in "hwn"]
POSF = [ge(H, ONE), ge(W, ONE), ge(N, ONE)]


def where(suf):
    return io.mkpath(var("dir", "U"), io.mkstr([io.name_atom("stem"), suf]))


def hdf(S, key, arr, load, raises=False, save=None):
    """save_hdf_file then load(I, path returned)"""
    fs = S.fn(LOSA + ".save_hdf_file")
    p = where(".hdf")

    def thunk(I):
        kw = {} if key is None else dict(key_path=key)
        r = I.call(fs, [io.pstr(p), arr()], kw)
        return load(I, r)
    S.functions |= {LOSA + ".save_hdf_file"}
    return thunk


def keyof(key):
    return io.mkstr([key if key is not None else "entry", "/data"])


def same(S, nm, hyps, v, shape, want, ix):
    if not isinstance(v, SArr):
        raise Unsupported("result is no array")
    if not S.record(nm + ".dimensions", v.ndim == len(shape), "%d dimensions" % v.ndim):
        return
    S.oblige(nm + ".shape", hyps, and_(*[eq(a, b) for a, b in zip(v.shape, shape)]))
    S.oblige(nm + ".values", hyps + [inr(i, n) for i, n in zip(ix, shape)], eq(num(v.get(tuple(ix))), num(want)))


def sec_whole(S):
    fl, fo = S.fn(LOSA + ".load_hdf_file"), S.fn(LOSA + ".load_hdf_object")
    S.functions |= {LOSA + ".load_hdf_file", LOSA + ".load_hdf_object"}
    ix = idx("i", "j", "k")
    for nd, shape in ((2, (H, W)), (3, (N, H, W))):
        for dt in ("f4", "f8", "u2", "u1", "i4"):
            arr = lambda: farr("vol", shape, dt)
            want = arr().get(tuple(ix[:nd]))
            for kn, key in (("default", None), ("any key", io.name_atom("key"))):
                if key is not None and dt != "f4":
                    continue
                for how in ("key", "auto", "object"):
                    nm = "%s[%dD, %s, %s]" % ("load_hdf_object" if how == "object" else "load_hdf_file", nd, dt, kn + (", found automatically" if how == "auto" else ""))

                    def load(I, p):
                        if how == "object":
                            return LIB.getitem(I, I.call(fo, [p, keyof(key)], {}), ())
                        return I.call(fl, [p] + ([keyof(key)] if how == "key" else []), {})

                    def go():
                        for I, hyps, oc, v in S.run(hdf(S, key, arr, load), facts=POSF):
                            if oc == "raise":
                                S.oblige(nm + ".no_exception[%s]" % v.name, hyps, FALSE)
                                continue
                            same(S, nm, hyps, v, shape, want, ix[:nd])
                    safe(go, nm, S)


def sec_index(axis):
    def run(S):
        fl = S.fn(LOSA + ".load_hdf_file")
        S.functions |= {LOSA + ".load_hdf_file"}
        shape = (N, H, W)
        n = shape[axis]
        arr = lambda: farr("vol", shape, "f4")
        vol = lambda *ix: T("app", ("vol",) + tuple(ix), "R")
        a, b, t = var("a", "I"), var("b", "I"), var("t", "I")
        i, j, k = idx("i", "j", "k")
        rest = [s for q, s in enumerate(shape) if q != axis]

        def pos(x, u, v):
            ix = [u, v]
            ix.insert(axis, x)
            return vol(*ix)

        def go(nm, index, facts, spec):
            def body():
                def load(I, p):
                    return I.call(fl, [p, "entry/data"], dict(index=index, axis=const(axis) if axis else 0))
                got = 0
                for I, hyps, oc, v in S.run(hdf(S, None, arr, load), facts=POSF + facts):
                    if smtinfeasible(hyps):
                        continue
                    got += 1
                    spec(nm, I, hyps, oc, v)
                S.record(nm + ".reached", got > 0, "no path")
            safe(body, nm, S)

        def single(x):
            def spec(nm, I, hyps, oc, v):
                if oc == "raise":
                    S.oblige(nm + ".no_exception[%s]" % v.name, hyps, FALSE)
                    return
                same(S, nm, hyps, v, rest, pos(x, i, j), [i, j])
            return spec

        def several(sel, m):
            def spec(nm, I, hyps, oc, v):
                if oc == "raise":
                    S.oblige(nm + ".no_exception[%s]" % v.name, hyps, FALSE)
                    return
                if v.ndim == 2:
                    S.oblige(nm + ".squeezed_only_if_single", hyps, eq(m, ONE))
                    same(S, nm, hyps, v, rest, pos(sel(ZERO), i, j), [i, j])
                else:
                    S.oblige(nm + ".single_is_squeezed", hyps, ne(m, ONE))
                    sh = list(rest)
                    sh.insert(axis, m)
                    ix = [i, j]
                    ix.insert(axis, k)
                    same(S, nm, hyps, v, sh, pos(sel(k), i, j), ix)
            return spec

        def error(*exc):
            def spec(nm, I, hyps, oc, v):
                S.record(nm + ".raises", oc == "raise" and v.name in exc, "raises %s" % v.name if oc == "raise" else "returns normally")
            return spec
        ax = "axis %d, " % axis
        go("load_hdf_file[%sinteger]" % ax, a, [le(ZERO, a), lt(a, n)], single(a))
        go("load_hdf_file[%snegative integer]" % ax, a, [le(-n, a), lt(a, ZERO)], single(a + n))
        go("load_hdf_file[%sinteger out of range]" % ax, a, [or_(lt(a, -n), le(n, a))], error("IndexError", "ValueError", "OSError"))
        for kind, mk in (("tuple", tuple), ("list", lambda x: SList.of(list(x)))):
            lab = ax + kind + " "
            go("load_hdf_file[%sof start, stop]" % lab, mk((a, b)), [le(ZERO, a), lt(a, b), le(b, n)], several(lambda q: a + q, b - a))
            for st in (1, 2, 3, 5):
                m = floor((b - a + st - 1) / const(st))
                go("load_hdf_file[%sof start, stop, step %d]" % (lab, st), mk((a, b, st)), [le(ZERO, a), lt(a, b), le(b, n)], several(lambda q: a + st * q, m))
            go("load_hdf_file[%sof one]" % lab, mk((a,)), [le(ZERO, a), lt(a, n)], single(a))
            if not (kind == "list" and S.tier == "quick"):
                c = [a, b, t, var("u", "I")]
                sel = lambda q: ite(eq(q, ZERO), c[0], ite(eq(q, ONE), c[1], ite(eq(q, const(2)), c[2], c[3])))
                go("load_hdf_file[%sof four indices]" % lab, mk(c), [le(ZERO, a), lt(a, b), lt(b, t), lt(t, c[3]), lt(c[3], n)], several(sel, const(4)))
            go("load_hdf_file[%sempty selection]" % lab, mk((a, b)), [le(ZERO, a), le(b, a)], error("ValueError"))
            go("load_hdf_file[%sselection out of range]" % lab, mk((a, b)), [le(ZERO, a), lt(a, b), lt(n, b)], error("IndexError", "ValueError", "OSError"))
    return run


def smtinfeasible(hyps):
    return smt.sat(list(hyps)) is False


def sec_errors(S):
    fl, fo = S.fn(LOSA + ".load_hdf_file"), S.fn(LOSA + ".load_hdf_object")
    S.functions |= {LOSA + ".load_hdf_file", LOSA + ".load_hdf_object", LOSA + ".load_image"}
    p = where(io.suffix_atom("other"))
    missing = [not_(T("app", ("fs_exists", io.pterm(p)), "B"))]
    for f in ("load_hdf_file", "load_hdf_object"):
        S.raises("%s[missing file].raises" % f, LOSA + "." + f, [io.pstr(p), "entry/data"], "ValueError", facts=missing)
    S.raises("load_image[missing file].raises", LOSA + ".load_image", [io.pstr(p)], "ValueError", facts=missing)
    arr = lambda: farr("vol", (N, H, W), "f4")
    for f, fn in (("load_hdf_file", fl), ("load_hdf_object", fo)):
        def go():
            for I, hyps, oc, v in S.run(hdf(S, None, arr, lambda I, p: I.call(fn, [p, "nokey"], {})), facts=POSF):
                S.record("%s[missing key].raises" % f, oc == "raise" and v.name == "ValueError", "no ValueError")
        safe(go, f + "[missing key]", S)
    for sh in ((N,), (N, H, W, const(2))):
        def go():
            for I, hyps, oc, v in S.run(hdf(S, None, lambda: farr("vol", sh, "f4"), lambda I, p: I.call(fl, [p, "entry/data"], {})), facts=POSF):
                S.record("load_hdf_file[%d dimensions].raises" % len(sh), oc == "raise" and v.name == "ValueError", "no ValueError")
        safe(go, "load_hdf_file[%d dimensions]" % len(sh), S)


def sec_stream(S):
    """open_hdf_stream: the dataset asked for, and every metadata entry"""
    f = S.fn(LOSA + ".open_hdf_stream")
    S.functions.add(LOSA + ".open_hdf_stream")
    ang = lambda: farr("ang", (N,))
    e = var("energy")
    i = var("i", "I")
    for dt, d in (("float32", "f4"), ("float64", "f8"), ("uint16", "u2")):
        for on, opts in (("none", lambda: {}), ("one group", lambda: dict(options={"entry/Angles_1": ang(), "scan/Energy keV": e})),
                         ("two groups", lambda: dict(o1={"entry/Angles_1": ang()}, o2={"scan/Energy keV": e}))):
            nm = "open_hdf_stream[%s, metadata %s]" % (dt, on)

            def go():
                for I, hyps, oc, v in S.run(lambda I: I.call(f, [io.pstr(where(".hdf")), (N, H, W)], dict(key_path="entry/data", data_type=dt, **opts())), facts=POSF):
                    if oc == "raise":
                        S.oblige(nm + ".no_exception[%s]" % v.name, hyps, FALSE)
                        continue
                    S.record(nm + ".dataset", isinstance(v, Opaque) and v.tag == "h5ds" and v.attrs["key"] is io.kterm("entry/data"), "not the dataset at its key")
                    S.oblige(nm + ".shape", hyps, and_(*([eq(x, y) for x, y in zip(v.attrs["shape"], (N, H, W))] + [TRUE if len(v.attrs["shape"]) == 3 else FALSE])))
                    S.record(nm + ".type", v.attrs["arr"].dt == d, v.attrs["arr"].dt)
                    its = v.attrs["file"].attrs["items"]
                    if on != "none":
                        it = its.get(io.kterm("entry/Angles_1"))
                        if S.record(nm + ".metadata_array", it is not None and it[1].ndim == 1, "entry/Angles_1 is missing"):
                            S.oblige(nm + ".metadata_values", hyps + [inr(i, N)], and_(eq(it[1].shape[0], N), eq(it[1].get((i,)), ang().get((i,)))))
                        it = its.get(io.kterm("scan/Energy keV"))
                        if S.record(nm + ".metadata_number", it is not None and it[1].ndim == 0, "scan/Energy keV is missing"):
                            S.oblige(nm + ".metadata_value", hyps, eq(num(it[1].get(())), e))
                    S.record(nm + ".nothing_else", len(its) == (1 if on == "none" else 3), "%d datasets" % len(its))
            safe(go, nm, S)


def sec_image(S):
    fs, fl = S.fn(LOSA + ".save_image"), S.fn(LOSA + ".load_image")
    S.functions |= {LOSA + ".save_image", LOSA + ".load_image"}
    i, j = idx("i", "j")

    def trip(nm, suf, dt, spec, avg=True):
        arr = lambda: farr("img", (H, W), dt)

        def go():
            a = arr()

            def thunk(I):
                r = I.call(fs, [io.pstr(where(suf)), a], {})
                return I.call(fl, [r], {} if avg else dict(average=False))
            for I, hyps, oc, v in S.run(thunk, facts=POSF):
                if oc == "raise":
                    S.oblige(nm + ".no_exception[%s]" % v.name, hyps, FALSE)
                    continue
                spec(nm, I, hyps, a, v)
        safe(go, nm, S)

    def exact(nm, I, hyps, a, v):
        same(S, nm, hyps, v, (H, W), a.get((i, j)), [i, j])

    def scaled(nm, I, hyps, a, v):
        mn, mx = LIB["numpy.min"](I, a), LIB["numpy.max"](I, a)
        mn, mx = num(asT(mn)), num(asT(mx))
        x = num(a.get((i, j)))
        hy = hyps + [inr(i, H), inr(j, W), le(mn, x), le(x, mx)]
        if not isinstance(v, SArr) or v.ndim != 2:
            raise Unsupported("result is no image")
        S.oblige(nm + ".shape", hyps, and_(eq(v.shape[0], H), eq(v.shape[1], W)))
        y = num(v.get((i, j)))
        S.oblige(nm + ".scaled_over_the_full_range", hy + [lt(mn, mx)], eq(y, floor(const(255) * (x - mn) / (mx - mn))))
        S.oblige(nm + ".constant_image", hy + [eq(mn, mx), le(ZERO, mn), le(mn, const(255))], eq(y, floor(x)))
    for suf in (".tif", ".tiff"):
        for dt in ("f4", "f8", "u1", "u2", "i4"):
            trip("image[%s, %s]" % (suf, dt), suf, dt, exact, avg=dt != "u2")
    for suf in (".png", ".bmp", io.suffix_atom("other")):
        lab = suf if isinstance(suf, str) else "another extension"
        trip("image[%s, u1]" % lab, suf, "u1", exact)
        for dt in ("f4", "f8", "u2", "i4"):
            trip("image[%s, %s]" % (lab, dt), suf, dt, scaled)


def sec_colour(S):
    fl = S.fn(LOSA + ".load_image")
    S.functions.add(LOSA + ".load_image")
    i, j, k = idx("i", "j", "k")
    p = where(".png")
    for c in (2, 3, 4):
        for avg in (True, False):
            nm = "load_image[%d channels, average=%s]" % (c, avg)

            def go():
                a = farr("img", (H, W, const(c)), "u1")

                def thunk(I):
                    io.fs(I).attrs[io.pterm(p)] = Opaque("image", {"arr": a})
                    return I.call(fl, [io.pstr(p)], dict(average=avg))
                for I, hyps, oc, v in S.run(thunk, facts=POSF + [T("app", ("fs_exists", io.pterm(p)), "B"), T("app", ("fs_file", io.pterm(p)), "B")]):
                    if oc == "raise":
                        S.oblige(nm + ".no_exception[%s]" % v.name, hyps, FALSE)
                        continue
                    if avg:
                        want = num(a.get((i, j, ZERO)))
                        for q in range(1, c):
                            want = want + num(a.get((i, j, const(q))))
                        same(S, nm, hyps, v, (H, W), want / const(c), [i, j])
                    else:
                        same(S, nm, hyps, v, (H, W, const(c)), a.get((i, j, k)), [i, j, k])
            safe(go, nm, S)


SECTIONS = [("whole", sec_whole), ("axis0", sec_index(0)), ("axis1", sec_index(1)), ("axis2", sec_index(2)), ("errors", sec_errors), ("stream", sec_stream),
            ("image", sec_image), ("colour", sec_colour)]
