"""every public function is called on varied inputs; all caller-owned data must be unchanged afterwards"""
import copy
from common import *
from c12 import data
import discorpy.post.postprocessing as post
import discorpy.proc.processing as proc
import discorpy.prep.preprocessing as prep
import discorpy.prep.linepattern as line
import discorpy.util.utility as util
import discorpy.losa.loadersaver as losa
import io, contextlib, tempfile

MODES = ["reflect", "nearest", "constant", "mirror", "wrap"]


class W:
    """a caller's array in some layout: plain, view of a larger buffer, Fortran order, reversed, big-endian copy; keeps the base"""

    def __init__(self, rng, a, dtypes=("f8", "f4"), kinds=5):
        a = np.array(a)
        dt = dtypes[int(rng.integers(0, len(dtypes)))]
        a = a.astype(dt)
        k = int(rng.integers(0, kinds))
        if k == 1 and a.ndim:
            b = np.zeros([s + 4 for s in a.shape], dt)
            v = b[tuple(slice(2, 2 + s) for s in a.shape)]
            v[...] = a
        elif k == 2 and a.ndim:
            b = v = np.asfortranarray(a)
        elif k == 3 and a.ndim:
            b = np.ascontiguousarray(a[::-1])
            v = b[::-1]
        elif k == 4 and a.ndim:
            b = np.repeat(a, 2, axis=-1)
            v = b[..., ::2]
        else:
            b = v = np.ascontiguousarray(a)
        self.v, self.base = v, b


def lines_of(rng, L):
    return [W(rng, l).v for l in L]


def dot_image(rng, binary=True, noise=0.0):
    h, w = int(rng.integers(90, 150)), int(rng.integers(90, 150))
    d, s = int(rng.integers(12, 18)), int(rng.integers(5, 8))
    m = 1 - util.make_dot_pattern(h, w, d, s, 5)
    a = float(rng.uniform(-2, 2))
    import scipy.ndimage as ndi
    m = (ndi.rotate(m, a, reshape=False, order=1) > 0.5).astype(float)
    if not binary:
        m = 1.0 - 0.8 * m + noise * rng.random(m.shape)
    return m, d, s, a


def line_image(rng, chess=False):
    h, w = int(rng.integers(110, 170)), int(rng.integers(110, 170))
    if chess:
        m = util.make_chessboard(h, w, 14, 6)
    else:
        m = util.make_line_pattern(h, w, 14, 3, 4)
    import scipy.ndimage as ndi
    m = ndi.gaussian_filter(np.asarray(m, float), 1.0)
    return m + 0.02 * rng.random(m.shape)


def profile(rng):
    n = int(rng.integers(60, 260))
    x = np.arange(n)
    y = 10 - 3 * np.exp(-((x % 20) - 10.0 - rng.uniform(-1, 1)) ** 2 / 8) + 0.01 * rng.random(n)
    return y


def sc(rng, v):
    return [float(v), np.float32(v), np.float64(v)][int(rng.integers(0, 3))]


def fact(rng, size):
    f = rand_fact(rng, size, int(rng.integers(1, 6)), 0.05)
    return [list(f), tuple(f), np.array(f), np.array(f, np.float32), W(rng, f, ("f8",)).v][int(rng.integers(0, 5))]


def img(rng, nd=2):
    h, w = int(rng.integers(6, 60)), int(rng.integers(6, 60))
    shp = (h, w) if nd == 2 else (h, w, int(rng.choice([1, 3, 4])))
    a = rng.random(shp) * 200
    if rng.random() < 0.25:
        a[rng.random(shp) < 0.2] = 0
    return W(rng, a, ("f8", "f4", "u1", "u2", "i4", "i2", "i8")).v


def pts(rng, n=None):
    n = int(n or rng.integers(5, 60))
    return W(rng, rng.uniform(0, 200, (n, 2)), ("f8", "f4", "i8")).v


def gen(name, rng, bits=0):
    """(args, kwargs) for one call"""
    R = lambda *a: a[int(rng.integers(0, len(a)))]
    if name in ("unwarp_line_forward", "unwarp_line_backward"):
        L = [pts(rng) for _ in range(int(rng.integers(1, 5)))]
        return [L, sc(rng, 100), sc(rng, 90), fact(rng, 200)], {}
    if name in ("unwarp_image_backward", "unwarp_color_image_backward", "unwarp_image_forward", "unwarp_image_backward_cv2"):
        m = img(rng, 2 if name in ("unwarp_image_backward", "unwarp_image_forward") else R(2, 3))
        xc, yc = rand_centre(rng, *m.shape[:2])
        kw = {}
        if name in ("unwarp_image_backward", "unwarp_color_image_backward"):
            kw = dict(order=R(0, 1, 2, 3), mode=R(*MODES))
        if "color" in name or "cv2" in name:
            kw.update(pad=R(False, True, 3, [1, 2, 3, 4], (2, 0, 1, 0)), pad_mode=R("constant", "edge", "reflect"))
        if kw.get("pad") is True:                # a mild model: the pad follows the model
            xc, yc = m.shape[1] / 2.0, m.shape[0] / 2.0
            return [m, xc, yc, [1.0, 1e-4, 1e-6]], kw
        return [m, xc, yc, fact(rng, max(m.shape))], kw
    if name in ("unwarp_slice_backward", "unwarp_chunk_slices_backward"):
        d, h, w = int(rng.integers(1, 5)), int(rng.integers(8, 40)), int(rng.integers(8, 40))
        m = W(rng, rng.random((d, h, w)), ("f8", "f4", "u1", "u2")).v
        xc, yc = rand_centre(rng, h, w)
        if "slice_b" in name:
            return [m, xc, yc, fact(rng, 40), int(rng.integers(0, h))], {}
        a = int(rng.integers(0, h - 1))
        return [m, xc, yc, fact(rng, 40), a, int(rng.integers(a, h))], {}
    if name.startswith("calc_residual"):
        H, V = data(rng, int(rng.integers(3, 8)), int(rng.integers(3, 8)))[:2]
        return [lines_of(rng, H if "hor" in name else V), sc(rng, 50), sc(rng, 60)], {}
    if name == "check_distortion":
        return [W(rng, rng.random((int(rng.integers(3, 50)), 2)) * R(1, 3, 20)).v], {}
    if name == "correct_perspective_line":
        return [[pts(rng) for _ in range(3)], R(list, np.array)([1.1, .02, 3, .01, .9, 2, 1e-4, -1e-4])], {}
    if name == "correct_perspective_image":
        m = img(rng)
        c = R(list, np.array)([1.02, .02, 1, .01, .95, 1, 1e-4, -1e-4])
        kw = dict(order=R(0, 1, 3), mode=R(*MODES))
        if R(0, 1):
            kw["map_index"] = post._generate_perspective_map(m, c) if hasattr(post, "_generate_perspective_map") else None
        return [m, c], kw
    if name in ("find_cod_coarse", "find_cod_bailey", "find_cod_fine", "calc_coef_backward", "calc_coef_forward", "calc_coef_backward_from_forward", "regenerate_grid_points_parabola",
                "regenerate_grid_points_linear", "generate_undistorted_perspective_lines", "generate_source_target_perspective_points", "correct_perspective_effect",
                "find_center_based_vanishing_points", "find_center_based_vanishing_points_iteration"):
        H, V = data(rng, int(rng.integers(5, 9)), int(rng.integers(5, 9)))[:2]
        a = [lines_of(rng, H), lines_of(rng, V)]
        if name == "find_cod_bailey":
            return a, dict(iteration=R(0, 1, 2))
        allp = np.concatenate(H + V)
        c = [sc(rng, np.mean(allp[:, 1])), sc(rng, np.mean(allp[:, 0]))]
        if name == "find_cod_fine":
            return a + c + [float(R(2.0, 3.0))], {}
        if name.startswith("calc_coef"):
            return a + c + [int(R(1, 3, 5))], dict(optimizing=R(True, False), threshold=R(0.3, 0.0))
        if name == "regenerate_grid_points_parabola":
            return a, dict(perspective=R(True, False))
        if name == "regenerate_grid_points_linear":
            if R(0, 1):
                return [W(rng, rng.normal(size=(4, 2))).v, W(rng, rng.normal(size=(3, 2))).v], dict(is_coef=True)
            return a, {}
        if name.startswith("generate"):
            return a, dict(equal_dist=R(True, False), scale=R("mean", "max", "min", 1.2), optimizing=R(True, False))
        if name == "correct_perspective_effect":
            return a + c, dict(method=R("mean", "median", "max", "min"), scale=R("mean", "max", "min"))
        if name.endswith("iteration"):
            return a, dict(iteration=R(0, 1, 2), method=R("mean", "median"))
        return a, {}
    if name == "transform_coef_backward_and_forward":
        rp = None
        if R(0, 1):
            rp = R(lambda x: W(rng, x, ("f8", "f4", "i8")).v, lambda x: [list(q) for q in x])(rng.uniform(-100, 100, (int(rng.integers(20, 60)), 2)))
        return [fact(rng, 200)], dict(mapping=R("backward", "forward"), ref_points=rp)
    if name == "generate_4_source_target_perspective_points":
        p = np.array([[10, 12], [14, 90], [88, 9], [95, 99.0]]) + rng.normal(size=(4, 2))
        p = p[rng.permutation(4)]
        return [R(lambda x: W(rng, x, ("f8", "f4", "i8")).v, lambda x: [list(q) for q in x])(p)], dict(input_order=R("yx", "xy"), equal_dist=R(True, False), scale=R("mean", "max", "min", 1.3))
    if name == "calc_perspective_coefficients":
        a, b = pts(rng, 6), pts(rng, 6)
        if R(0, 1):
            a, b = [list(map(float, q)) for q in a], [list(map(float, q)) for q in b]
        return [a, b], dict(mapping=R("forward", "backward"))
    if name == "update_center":
        return [[pts(rng) for _ in range(3)], sc(rng, 5), sc(rng, 6)], {}
    if name in ("normalization", "normalization_fft"):
        m = W(rng, rng.random((int(rng.integers(30, 90)), int(rng.integers(30, 90)))) * R(1, 100) * (rng.random() > 0.1), ("f8", "f4", "u1", "u2")).v
        return [m], (dict(size=R(3, 11, 51)) if name == "normalization" else dict(sigma=R(5, 10), pad=R(0, 10, 30), mode=R("reflect", "edge", "constant")))
    if name in ("binarization", "get_points_dot_pattern", "calculate_threshold"):
        m, d, s, a = dot_image(rng, binary=R(True, False), noise=R(0, 0.05))
        if R(0, 1):
            m = 1 - m
        w = W(rng, m * 100, ("f8", "f4", "u1", "u2")).v if R(0, 1) else W(rng, m).v
        if name == "calculate_threshold":
            return [w], dict(bgr=R("bright", "dark"), snr=R(1.0, 2.0, 3.0))
        kw = dict(ratio=R(0.3, 0.5, 1.0), thres=R(None, None, 0.5, 30))
        if name == "binarization":
            kw["denoise"] = R(True, False)
        else:
            kw["binarize"] = R(True, False)
        return [w], kw
    if name in ("check_num_dots", "calc_size_distance", "select_dots_based_size", "select_dots_based_ratio", "select_dots_based_distance", "calc_hor_slope", "calc_ver_slope", "group_dots_hor_lines", "group_dots_ver_lines"):
        m, d, s, a = dot_image(rng)
        w = W(rng, m, ("f8", "f4", "u1", "i2", "i4", "b1")).v
        area = np.pi * s * s / 4
        if name == "check_num_dots":
            return [w], {}
        if name == "select_dots_based_size":
            return [w, area], dict(ratio=R(0.05, 0.3, 1.0))
        if name == "select_dots_based_distance":
            return [w, d], dict(ratio=R(0.02, 0.3, 0.9))
        if name.startswith("group"):
            dc = np.tan(np.deg2rad(a))
            return [w, sc(rng, dc if "hor" in name else -dc), sc(rng, d)], dict(ratio=R(0.1, 0.3), num_dot_miss=R(1, 6), accepted_ratio=R(0.3, 0.65))
        return [w], dict(ratio=R(0.3, 0.6))
    if name.startswith("remove_residual"):
        H, V = data(rng, 6, 7)[:2]
        return [lines_of(rng, H if "hor" in name else V), sc(rng, 0.01), R(0.05, 0.5, 2.5)], {}
    if name == "make_parabola_mask":
        return [60, 70], dict(hor_margin=R((5, 6), [3, 4], 5), ver_margin=R((5, 6), [3, 4], 5), hor_curviness=R(0.1, 0.3), rotate=R(0.0, 3.0))
    if name == "remove_points_using_parabola_mask":
        return [R(lambda x: x, lambda x: [list(map(float, q)) for q in x])(pts(rng)), 180, 190], dict(hor_margin=R((5, 6), [3, 4], 5), ver_margin=R((5, 6), [3, 4], 5), rotate=R(0.0, 3.0))
    if name == "rotate_points":
        return [pts(rng), sc(rng, 3.3)], dict(degree_unit=R(True, False))
    if name == "remove_subset_points":
        p = pts(rng)
        return [W(rng, p[:3], (p.dtype.str,)).v, p], {}
    if name.startswith("group_dots") and name.endswith("polyfit"):
        n, m, d = int(rng.integers(4, 8)), int(rng.integers(5, 9)), 12.0
        y, x = np.mgrid[:n, :m] * d + 20
        p = np.stack([y.ravel() + 0.01 * x.ravel(), x.ravel() - 0.01 * y.ravel()], 1) + rng.normal(size=(n * m, 2)) * 0.1
        p = p[rng.permutation(len(p))]
        return [W(rng, p).v, sc(rng, 0.01 if "hor" in name else -0.01), d], dict(ratio=R(0.1, 0.2), num_dot_miss=R(2, 3), order=R(1, 2))
    if name == "locate_subpixel_point":
        v = rng.normal(size=int(rng.integers(3, 9)))
        return [R(W(rng, v, ("f8", "f4", "i8")).v, list(v))], dict(option=R("min", "max"))
    if name in ("select_good_peaks", "sliding_window_slope", "get_local_extrema_points"):
        y = profile(rng)
        v = R(W(rng, y * 50, ("f8", "f4", "u2", "i8")).v, W(rng, y).v)
        if name == "select_good_peaks":
            pk = np.arange(10, len(y) - 12, 20)
            pk = R(W(rng, pk, ("i4", "i8")).v, [int(q) for q in pk], tuple(int(q) for q in pk))
            return [v, pk], dict(radius=R(5, 11, 9), sigma=R(0, 1), use_offset=R(True, False), tol=R(0.1, 0.3))
        if name == "sliding_window_slope":
            return [v], dict(size=R(3, 4, 7), norm=R(True, False))
        kw = dict(option=R("min", "max"), radius=R(3, 7), sensitive=R(0.05, 0.1), denoise=R(True, False), norm=R(True, False), subpixel=R(True, False), select_peaks=R(True, False))
        if R(0, 1):
            kw["tol"] = 0.2
        return [v], kw
    if name == "get_tilted_profile":
        m = img(rng)
        return [m, int(rng.integers(0, min(m.shape))), R(0.0, 3.0, -4.0), R("horizontal", "vertical")], {}
    if name in ("convert_chessboard_to_linepattern",):
        return [W(rng, line_image(rng, True) * R(1, 100), ("f8", "f4", "u1")).v], dict(smooth=R(True, False), bgr=R("bright", "dark"), sigma=R(1, 3))
    if name in ("calc_slope_distance_hor_lines", "calc_slope_distance_ver_lines", "get_cross_points_hor_lines", "get_cross_points_ver_lines"):
        ch, den = bool(bits & 1), bool(bits & 2)
        m = line_image(rng, ch)
        b = ("bright", "dark")[(bits >> 2) & 1]
        if b == "dark" and not ch:
            m = m.max() - m
        w = W(rng, m * R(1, 100), ("f8", "f4")).v
        kw = dict(bgr=b, radius=R(3, 5), sensitive=R(0.05, 0.1), denoise=den, norm=R(True, False), subpixel=R(True, False), chessboard=ch, select_peaks=R(True, False))
        if name.startswith("calc"):
            kw.update(search_range=5.0, ratio=R(0.5, 0.8))
            return [w], kw
        kw.update(ratio=0.3, offset=R(0, 5))
        return [w, 0.0, 14.0], kw
    if name == "make_circle_mask":
        return [9, 1.0], {}
    if name in ("make_dot_pattern", "make_line_pattern", "make_chessboard"):
        return [60, 70], ({} if "chess" in name else dict(margin=R(5, (5, 6), [5, 6])))
    if name == "find_point_to_point":
        p = R(lambda: [float(3), float(4)], lambda: (3.0, 4.0), lambda: W(rng, rng.uniform(0, 90, (2,))).v, lambda: [W(rng, rng.uniform(0, 90, 5)).v, W(rng, rng.uniform(0, 90, 5)).v])()
        return [p, 40.0, 45.0, fact(rng, 100)], dict(output_order=R("xy", "yx"))
    if name == "mapping_cv2":
        m = img(rng, 2)
        if m.dtype.str[1:] not in ("f4", "f8", "u1", "u2", "i2"):
            m = m.astype("f4")
        y, x = np.mgrid[:m.shape[0], :m.shape[1]].astype(np.float32)
        return [m, x, y], {}
    if name in ("save_image", "save_hdf_file", "save_metadata_txt", "save_metadata_json", "save_python_list", "save_plot_image", "save_plot_points", "save_residual_plot", "open_hdf_stream"):
        d = tempfile.mkdtemp(prefix="c22", dir=tempfile.gettempdir())
        if name == "save_image":
            return [d + "/a" + R(".tif", ".png", ".jpg"), W(rng, img(rng, R(2, 2, 2)), ("f4", "u1", "u2", "f8")).v], dict(overwrite=R(True, False))
        if name == "save_hdf_file":
            return [d + "/a.hdf", img(rng, R(2, 3))], dict(overwrite=R(True, False))
        if name.startswith("save_metadata"):
            return [d + "/a", sc(rng, 3.3), sc(rng, 4.4), fact(rng, 50)], dict(overwrite=R(True, False))
        if name == "save_python_list":
            return [d + "/a", [1, [2.0, pts(rng)], {"k": [3]}]], {}
        if name == "save_plot_image":
            return [d + "/a.png", [pts(rng) for _ in range(3)], 100, 120], {}
        if name == "save_plot_points":
            return [d + "/a.png", R(pts(rng, 6), [list(q) for q in pts(rng, 5)]), 100, 120], {}
        if name == "save_residual_plot":
            return [d + "/a.png", W(rng, rng.random((20, 2))).v, 100, 120], {}
        return [d + "/a.hdf", R((3, 4), [3, 4])], dict(options={"entry/angles": pts(rng), "entry/e": 53}, key_path="entry/data")
    return None


SLOW = ("calc_slope_distance_hor_lines", "calc_slope_distance_ver_lines", "get_cross_points_hor_lines", "get_cross_points_ver_lines", "find_cod_fine", "find_center_based_vanishing_points_iteration",
        "save_plot_image", "save_plot_points", "save_residual_plot", "find_center_based_vanishing_points", "group_dots_hor_lines", "group_dots_ver_lines",
        "generate_undistorted_perspective_lines", "generate_source_target_perspective_points")
MODS = [post, proc, prep, line, util, losa]


def public():
    out = []
    for m in MODS:
        for n in dir(m):
            f = getattr(m, n)
            if not n.startswith("_") and callable(f) and getattr(f, "__module__", "") == m.__name__:
                out.append(n)
    return out


def cases(seed, tier, hints):
    names = public()
    for i in range(40 if tier == "quick" else 300):
        for n in names:
            if n in SLOW and i >= ((8 if "_lines" in n else 3) if tier == "quick" else 40):
                continue
            yield dict(kind=n, seed=seed * 1000 + i)


def snap(o, depth=0):
    """deep content of a caller's object, including what lies around a view"""
    if isinstance(o, np.ndarray):
        b = o
        while isinstance(b.base, np.ndarray):
            b = b.base
        return ("a", o.shape, o.strides, o.dtype.str, b.tobytes(), b.shape)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(x) for x in o)
    if isinstance(o, dict):
        return ("d",) + tuple((k, snap(v)) for k, v in o.items())
    if isinstance(o, np.generic):
        return ("g", o.dtype.str, o.tobytes())
    return ("s", repr(o))


def where(b, a, path="argument"):
    if b == a:
        return None
    if isinstance(b, tuple) and isinstance(a, tuple) and len(b) == len(a) and b and b[0] == a[0] and b[0] in ("list", "tuple", "d"):
        for i, (x, y) in enumerate(zip(b[1:], a[1:])):
            if x != y:
                return where(x[1] if b[0] == "d" else x, y[1] if b[0] == "d" else y, path + "[%s]" % (x[0] if b[0] == "d" else i))
    return path


def run(case):
    rng = rng_of(case)
    name = case["kind"]
    f = next((getattr(m, name) for m in MODS if hasattr(m, name)), None)
    g = gen(name, rng, int(case.get("seed", 0)))
    if f is None or g is None:
        return
    args, kw = g
    names = ["argument %d" % i for i in range(len(args))] + list(kw)
    before = [snap(x) for x in args] + [snap(x) for x in kw.values()]
    r = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = f(*args, **kw)
    except Exception:
        pass                                     # what may raise is other properties' business; the frame holds on these paths too
    after = [snap(x) for x in args] + [snap(x) for x in kw.values()]
    if name == "open_hdf_stream" and r is not None:
        r.file.close()
    for n, b, a in zip(names, before, after):
        w = where(b, a, n)
        check(w is None, "%s changed its %s", name, w)
