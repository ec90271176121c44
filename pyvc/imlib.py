"""Assumed contracts of the image-analysis library functions: labelling, filters, morphology, Fourier transforms."""
from . import terms as tm
from . import smt
from .terms import T, ZERO, ONE, TRUE, const, cval, num, and_, or_, not_
from .values import SArr, SList, Seg, Unsupported, PyRaise, asT, is_scalar, to_arr, vsubst
from .interp import Slice, Opaque
from .nplib import LIB, d


def opts(k):
    out = []
    for a, v in sorted(k.items()):
        if isinstance(v, Opaque):
            raise Unsupported("option %s" % a)
        if isinstance(v, (SList, SArr)):
            v = to_arr(v).to_term()
        if isinstance(v, tuple):
            v = tuple(cval(asT(x)) if is_scalar(x) else x for x in v)
        out.append((a, v if isinstance(v, T) else repr(v)))
    return out


def image_fn(name, kind="same"):
    """result of the same shape: some function of the image and the options"""
    def f(I, x, *a, **k):
        x = to_arr(x, I)
        o = opts(dict({"arg%d" % i: v for i, v in enumerate(a)}, **k))
        t = x.to_term()
        dt = {"same": x.dt, "bool": "b", "real": "f8"}[kind]
        srt = {"b": "B"}.get(dt, "I" if dt[0] in "iu" else "R")
        flat = tuple(z for p in o for z in p)
        return SArr(x.shape, lambda idx: T("app", (name, t) + flat + tuple(idx), srt), dt)
    return f


LIB["scipy.ndimage.median_filter"] = image_fn("medianf")
LIB["skimage.segmentation.clear_border"] = image_fn("clear_border")
LIB["skimage.morphology.opening"] = image_fn("opening")
LIB["scipy.ndimage.binary_fill_holes"] = image_fn("fillholes", "bool")


@d("skimage.morphology.disk")
def _disk(I, r, **k):
    c = cval(asT(r))
    if c is None or k:
        raise Unsupported("disk")
    n = int(2 * c + 1)
    return SArr((const(n), const(n)), lambda idx: T("app", ("disk", num(int(c))) + tuple(idx), "I"), "u1")


@d("skimage.filters.threshold_otsu")
def _otsu(I, x, **k):
    x = to_arr(x, I)
    return T("app", ("otsu", x.to_term()) + tuple(z for p in opts(k) for z in p), "R")


# -- labelling --------------------------------------------------------------------

@d("scipy.ndimage.label")
def _label(I, x, **k):
    """connected components of the non-zero pixels, numbered 1..n; 0 elsewhere"""
    if k:
        raise Unsupported("label options")
    x = to_arr(x, I)
    if x.ndim != 2:
        raise Unsupported("label dimensions")
    t = binary_term(x)
    L = SArr(x.shape, lambda idx: T("app", ("label", t) + tuple(idx), "I"), "i4")
    L.labels_of = t
    return (L, T("app", ("nlabel", t), "I"))


def binary_term(x):
    """labelling depends only on which pixels are non-zero"""
    fx = x.frozen()
    nz = lambda v: v if v.sort == "B" else tm.ne(v, ZERO)
    return SArr(x.shape, lambda idx: tm.ite(nz(fx.get(idx)), ONE, ZERO), "i8").to_term()


@d("scipy.ndimage.find_objects")
def _objects(I, L, **k):
    """bounding box of each component, in the order of the labels"""
    t = getattr(L, "labels_of", None)
    if t is None or k:
        raise Unsupported("find_objects of something that is not a labelled image")
    j = tm.fresh("k")
    b = lambda w: T("app", ("objbox", t, j, w), "I")
    return SList([Seg([j], [T("app", ("nlabel", t), "I")], TRUE, (Slice(b(0), b(1), None), Slice(b(2), b(3), None)))])


@d("scipy.ndimage.center_of_mass")
def _com(I, x, labels=None, index=None):
    """centroid of the pixels with the given label, weighted by the image"""
    x = to_arr(x, I)
    t = getattr(labels, "labels_of", None)
    if t is None or index is None:
        raise Unsupported("center_of_mass")
    ix = to_arr(index, I).frozen()
    xt = x.to_term()
    j = tm.fresh("k")
    lb = ix.get((j,))
    return SList([Seg([j], [ix.shape[0]], TRUE, (T("app", ("centroid", xt, t, lb, 0), "R"), T("app", ("centroid", xt, t, lb, 1), "R")))])


@d("scipy.ndimage.sum", "scipy.ndimage.sum_labels")
def _lsum(I, x, labels=None, index=None):
    x = to_arr(x, I)
    t = getattr(labels, "labels_of", None)
    if t is None or index is None:
        raise Unsupported("ndimage.sum")
    ix = to_arr(index, I).frozen()
    xt = x.to_term()
    return SArr(ix.shape, lambda idx: T("app", ("labelsum", xt, t, ix.get(idx)), "R"), "f8")


@d("skimage.measure.regionprops")
def _regionprops(I, x, **k):
    """properties of the regions of a label image; the first one of a 0/1 image is its set of ones"""
    x = to_arr(x, I)
    if k:
        raise Unsupported("regionprops options")
    t = x.to_term()
    at = {}
    for a in ("minor_axis_length", "major_axis_length", "axis_minor_length", "axis_major_length"):
        nm = "minor_axis" if "minor" in a else "major_axis"
        at[a] = T("app", (nm, t), "R")
    return SList.of([Opaque("region", at)])


@smt.axiom("nlabel")
def _ax_nlabel(t, tr):
    a = t.args[1]
    return [tm.ge(t, ZERO), tm.le(t, a.args[1] * a.args[2])]


@smt.axiom("label")
def _ax_label(t, tr):
    a, y, x = t.args[1:4]
    h, w = a.args[1], a.args[2]
    n = T("app", ("nlabel", a), "I")
    inside = and_(tm.le(ZERO, y), tm.lt(y, h), tm.le(ZERO, x), tm.lt(x, w))
    b = lambda q: T("app", ("objbox", a, t - 1, q), "I")
    return [and_(tm.le(ZERO, t), tm.le(t, n)),
            tm.implies(inside, tm.iff(tm.eq(t, ZERO), tm.eq(tm.lam_apply(a.args[3], (y, x)), ZERO))),
            tm.implies(and_(inside, tm.ge(t, ONE)), and_(tm.le(b(0), y), tm.lt(y, b(1)), tm.le(b(2), x), tm.lt(x, b(3))))]


@smt.axiom("objbox")
def _ax_objbox(t, tr):
    a, k = t.args[1:3]
    h, w = a.args[1], a.args[2]
    n = T("app", ("nlabel", a), "I")
    b = lambda q: T("app", ("objbox", a, k, q), "I")
    return [tm.implies(and_(tm.le(ZERO, k), tm.lt(k, n)),
                       and_(tm.le(ZERO, b(0)), tm.lt(b(0), b(1)), tm.le(b(1), h), tm.le(ZERO, b(2)), tm.lt(b(2), b(3)), tm.le(b(3), w)))]


# -- Fourier transforms: functions of the whole image; complex values are opaque -----

LIB["scipy.fftpack.fft2"] = image_fn("fft2", "real")
LIB["scipy.fftpack.ifft2"] = image_fn("ifft2", "real")
for _m in ("numpy.fft", "scipy.fft"):
    LIB[_m + ".fft2"] = LIB["scipy.fftpack.fft2"]
    LIB[_m + ".ifft2"] = LIB["scipy.fftpack.ifft2"]

