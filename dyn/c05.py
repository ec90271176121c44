from common import *
import discorpy.post.postprocessing as post
from scipy.ndimage import map_coordinates
from c02 import near, MODES


def cases(seed, tier, hints):
    n = 0
    for i in range(80 if tier == "quick" else 1500):
        yield dict(kind="line", seed=seed * 1000 + i, dt=["f8", "i8", "f4", "list"][i % 4], form=["list", "array", "tuple"][i % 3])
    S = [(1, 1), (1, 9), (9, 1), (20, 31), (64, 64), (33, 12), (2, 33000), (33000, 2)]
    for h in hints:
        S.append((int(min(max(h.get("h", 9), 1), 2000)), int(min(max(h.get("w", 9), 1), 600))))
    S += lit_shapes(["post"])
    for h, w in S:
        n += 1
        yield dict(kind="image", seed=seed * 100 + n, h=h, w=w, order=1, mode="reflect")
    for i in range(60 if tier == "quick" else 1500):
        r = np.random.default_rng([seed, i])
        yield dict(kind=["image", "map"][i % 2], seed=seed * 55 + i, h=int(r.integers(1, 50)), w=int(r.integers(1, 50)), order=int(r.integers(0, 6)), mode=MODES[int(r.integers(0, 8))])
    for k in list(range(0, 13)) + [16, 20, 24, 64]:
        if k != 8:
            yield dict(kind="count", seed=seed, n=k)


def coef(rng, size):
    c = np.array([1, 0, 0, 0, 1, 0, 0, 0], float)
    s = rng.choice([0.0, 0.02, 0.2])
    c[[0, 1, 3, 4]] += rng.normal(size=4) * s
    c[[2, 5]] += rng.normal(size=2) * s * size
    c[[6, 7]] += rng.uniform(-1, 1, 2) * 0.4 * s / size
    return c


def hom(c, x, y):
    d = c[6] * x + c[7] * y + 1
    return (c[0] * x + c[1] * y + c[2]) / d, (c[3] * x + c[4] * y + c[5]) / d


def run(case):
    rng = rng_of(case)
    k = case["kind"]
    if k == "count":
        c = [0.5] * case["n"]
        for cc in (c, np.asarray(c), tuple(c)):
            raises(ValueError, post.correct_perspective_line, [np.ones((3, 2))], cc)
            raises(ValueError, post.correct_perspective_image, np.ones((4, 5)), cc)
        return
    if k == "line":
        c = coef(rng, 100.0)
        cc = dict(list=list(c), array=c, tuple=tuple(c))[case["form"]]
        L = []
        for _ in range(int(rng.integers(0, 5))):
            p = rng.uniform(0, 100, (int(rng.integers(1, 8)), 2))
            p = np.int64(p) if case["dt"] == "i8" else np.float32(p) if case["dt"] == "f4" else p
            L.append(p.tolist() if case["dt"] == "list" else p)
        out = post.correct_perspective_line(L, cc)
        check(len(out) == len(L), "number of lines")
        for a, b in zip(L, out):
            a = np.asarray(a, float)
            xo, yo = hom(c, a[:, 1], a[:, 0])
            close(b, np.stack([yo, xo], 1), "corrected points", 1e-4 if case["dt"] == "f4" else 1e-8, scale=200)
        return
    h, w = case["h"], case["w"]
    c = coef(rng, float(max(h, w)))
    img = rng.uniform(0, 1, (h, w))
    cc = list(c) if rng.random() < 0.5 else c
    if k == "image":
        x, y = np.meshgrid(np.arange(w, dtype=float), np.arange(h, dtype=float))
        px, py = hom(c, x, y)
        px, py = np.clip(px, 0, w - 1), np.clip(py, 0, h - 1)
        kw = {} if case["order"] == 1 and case["mode"] == "reflect" else dict(order=case["order"], mode=case["mode"])
        out = post.correct_perspective_image(img, cc, **kw)
        check(out.shape == img.shape, "shape %s", out.shape)
        near(img, py, px, out, case["order"], case["mode"], "perspective image", 2e-5)
    else:
        py, px = rng.uniform(0, h - 1, (h, w)), rng.uniform(0, w - 1, (h, w))
        mp = [(py.reshape(-1, 1), px.reshape(-1, 1)), np.stack([py.ravel(), px.ravel()]), (py, px), [py.ravel().tolist(), px.ravel().tolist()]][case["seed"] % 4 if case["kind"] == "map" else 0]
        out = post.correct_perspective_image(img, cc, order=case["order"], mode=case["mode"], map_index=mp)
        check(out.shape == img.shape, "shape with a given map")
        near(img, py, px, out, case["order"], case["mode"], "image with a given map", 2e-5)
