from common import *
import discorpy.post.postprocessing as post


def cases(seed, tier, hints):
    n = 0
    S = [(1, 1), (1, 6), (6, 1), (9, 14), (30, 22), (64, 64), (1, 33000), (70000, 1)]
    for h in hints:
        S.append((int(min(max(h.get("h", 9), 1), 600)), int(min(max(h.get("w", 9), 1), 600))))
    S += lit_shapes(["post"])
    for h, w in S:
        for k in range(4):
            n += 1
            yield dict(kind="fwd", seed=seed * 1000 + n, h=h, w=w, m=1 + n % 6, dt=["f8", "f4", "u1", "i4", "u2"][n % 5])
    for i in range(250 if tier == "quick" else 4000):
        r = np.random.default_rng([seed, i])
        yield dict(kind="fwd", seed=seed * 77 + i, h=int(r.integers(1, 60)), w=int(r.integers(1, 60)), m=int(r.integers(1, 9)), dt=["f8", "f4", "u1", "i4", "u2"][i % 5])


def run(case):
    rng = rng_of(case)
    h, w = case["h"], case["w"]
    xc, yc = rand_centre(rng, h, w)
    f = rand_fact(rng, 0.7 * max(h, w), n=case["m"])
    if rng.random() < 0.3:
        f = np.asarray(f)
    dt = np.dtype({"f8": "f8", "f4": "f4", "u1": "u1", "i4": "i4", "u2": "u2"}[case["dt"]])
    # every source pixel its own value, when the type allows
    n = h * w
    if dt.kind == "f":
        img = (rng.permutation(n) + 1.0).reshape(h, w).astype(dt)
    else:
        img = (1 + rng.permutation(n) % (np.iinfo(dt).max - 1)).reshape(h, w).astype(dt)
    if dt.kind in "fi" and rng.random() < 0.4:
        img = (img * rng.choice([-1, 1] if rng.random() < 0.5 else [-1], img.shape)).astype(dt)
    keep = img.copy()
    out = post.unwarp_image_forward(img, xc, yc, f)
    check(out.shape == (h, w), "shape %s", out.shape)
    check(out.dtype == dt, "type %s for %s", out.dtype, dt)
    x, y = np.meshgrid(np.arange(w, dtype=float) - xc, np.arange(h, dtype=float) - yc)
    r = np.sqrt(x * x + y * y)
    F = np.zeros_like(r)
    for c in reversed([float(v) for v in f]):
        F = F * r + c
    px, py = np.clip(xc + F * x, 0, w - 1), np.clip(yc + F * y, 0, h - 1)
    eps = 1e-6 * (1 + max(h, w))
    # sure sources (position well inside a pixel) and possible ones
    cand, sure = {}, {}
    lo_y, hi_y, lo_x, hi_x = np.rint(py - eps), np.rint(py + eps), np.rint(px - eps), np.rint(px + eps)
    for i in range(h):
        for j in range(w):
            ys, xs = {int(lo_y[i, j]), int(hi_y[i, j])}, {int(lo_x[i, j]), int(hi_x[i, j])}
            for a in ys:
                for b in xs:
                    a2, b2 = min(max(a, 0), h - 1), min(max(b, 0), w - 1)
                    cand.setdefault((a2, b2), set()).add(img[i, j])
                    if len(ys) == 1 and len(xs) == 1:
                        sure[(a2, b2)] = 1
    for i in range(h):
        for j in range(w):
            v = out[i, j]
            c = cand.get((i, j), set())
            if v == 0:
                check((i, j) not in sure, "pixel (%d,%d) is 0 although a source pixel maps to it", i, j)
            else:
                check(v in c, "pixel (%d,%d) has value %r which is not a source pixel mapped to it", i, j, float(v))
    check(np.array_equal(img, keep), "input changed")
