from common import *
import discorpy.post.postprocessing as post
from scipy.ndimage import map_coordinates
from c02 import positions


def cases(seed, tier, hints):
    for hnt in hints:
        h, w = int(min(max(hnt.get("h", 20), 1), 2000)), int(min(max(hnt.get("w", 20), 1), 400))
        for i in range(6):
            yield dict(kind="chunk", seed=seed + i, h=h, w=w, d=2, m=int(min(max(hnt.get("m", 3), 1), 8)), start=int(min(max(hnt.get("start", 0), 0), h - 1)), stop=int(min(max(hnt.get("stop", 0), -1), h - 1)))
            yield dict(kind="slice", seed=seed + i, h=h, w=w, d=2, m=3, start=int(min(max(hnt.get("index", 0), 0), h - 1)), stop=0)
    n = 0
    S = [(1, 1), (1, 5), (5, 1), (2, 2), (12, 17), (33, 20), (64, 64)]
    S += lit_shapes(["post"])
    S += [(33000, 4)] + ([(70000, 3), (5, 40000)] if tier != "quick" else [])
    for h, w in S:
        for k in ("slice", "chunk"):
            for start in sorted({0, h - 1, h // 2, max(0, h - 2)}):
                n += 1
                stop = -1 if n % 5 == 0 else min(h - 1, start + [0, 1, 7, h][n % 4])
                if h > 20000:
                    stop = min(h - 1, start + 3)
                yield dict(kind=k, seed=seed * 1000 + n, h=h, w=w, d=1 + n % 3, m=1 + n % 6, start=start, stop=stop)
    for i in range(250 if tier == "quick" else 4000):
        r = np.random.default_rng([seed, i])
        h, w = int(r.integers(1, 50)), int(r.integers(1, 50))
        a = int(r.integers(0, h))
        b = int(r.integers(a, h)) if r.random() < 0.85 else -1
        yield dict(kind=["chunk", "slice"][i % 2], seed=seed * 77 + i, h=h, w=w, d=int(r.integers(1, 4)), m=int(r.integers(1, 8)), start=a, stop=b)
    for h in (1, 5, 20) + tuple(v for v in lit_sizes(2, 300, ["post"])[:10]):
        yield dict(kind="bad", seed=seed, h=int(h), w=6, d=2)


def run(case):
    rng = rng_of(case)
    h, w, d = case["h"], case["w"], case["d"]
    if case["kind"] == "bad":
        vol = rng.uniform(0, 1, (d, h, w))
        f = [1.0, 1e-4]
        for a, b in ((-1, 0), (-2, 0), (h, h), (h + 5, h + 5), (0, h), (0, h + 3), (0, -2), (0, -h - 1), (-h, 0), (h, -1)):
            raises(ValueError, post.unwarp_chunk_slices_backward, vol, 3.0, 3.0, f, a, b)
        for bad in (vol[0], vol[0, 0]):
            raises(ValueError, post.unwarp_chunk_slices_backward, bad, 3.0, 3.0, f, 0, 0)
            raises(ValueError, post.unwarp_slice_backward, bad, 3.0, 3.0, f, 0)
        return
    xc, yc = rand_centre(rng, h, w)
    f = rand_fact(rng, 0.7 * max(h, w), n=case["m"])
    if rng.random() < 0.3:
        f = np.asarray(f)
    vol = rng.uniform(0, 1, (d, h, w))
    if rng.random() < 0.3:
        vol = vol.astype(np.float32)
    a, b = case["start"], case["stop"]
    end = h - 1 if b == -1 else b
    rows = [a] if case["kind"] == "slice" else list(range(a, end + 1))
    if case["kind"] == "slice":
        out = post.unwarp_slice_backward(vol, xc, yc, f, a)
        check(out.shape == (d, w), "slice shape %s for data %s", out.shape, vol.shape)
        out = out[:, None, :]
    else:
        out = post.unwarp_chunk_slices_backward(vol, xc, yc, f, a, b)
        check(out.shape == (d, len(rows), w), "chunk shape %s for rows %d..%d of %s", out.shape, a, end, vol.shape)
    # independent evaluation at the model position
    x, y = np.meshgrid(np.arange(w, dtype=float) - xc, np.asarray(rows, dtype=float) - yc)
    r = np.sqrt(x * x + y * y)
    F = np.zeros_like(r)
    for c in reversed([float(v) for v in f]):
        F = F * r + c
    px, py = np.clip(xc + F * x, 0, w - 1), np.clip(yc + F * y, 0, h - 1)
    tol = 3e-5 + 8e-7 * max(h, w)
    for i in range(d):
        e = map_coordinates(np.asarray(vol[i], float), [py, px], order=1, mode="reflect")
        close(out[i], e, "%s rows %d.. of projection %d (height %d width %d centre %r,%r)" % (case["kind"], a, i, h, w, xc, yc), tol * 4, scale=1.0)
    if h * w <= 4000:
        for i in range(d):
            e = post.unwarp_image_backward(np.asarray(vol[i], float), xc, yc, f)[rows]
            close(out[i], e, "rows of the fully unwarped image", tol * 8, scale=1.0)
