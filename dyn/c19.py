"""savers in scratch folders with every kind of pre-existing content; the whole tree is compared before and after"""
from common import *
import re
import tempfile
from pathlib import Path
import discorpy.losa.loadersaver as losa

IMG = [".tif", ".tiff", ".png", ".jpg", ".bmp", ".TIF", ".PNG"]
PLOT = [".png", ".jpg", ".svg", ".pdf", ".PNG"]
HDF = [".hdf", ".h5", ".nxs", ".hdf5", ".HDF", ".H5"]
SAVERS = {
    # name: (extensions accepted as given, default extension, replaces an extension that is not accepted)
    "save_image": (IMG, None, False),
    "save_plot_image": (PLOT, ".png", False),
    "save_residual_plot": (PLOT, ".png", False),
    "save_plot_points": (PLOT, ".png", False),
    "save_hdf_file": (HDF, ".hdf", True),
    "open_hdf_stream": (HDF, ".hdf", True),
    "save_metadata_txt": ([".txt", ".dat", ".TXT"], ".txt", True),
    "save_metadata_json": ([".json", ".JSON"], ".json", True),
    "save_python_list": ([".pkl", ".PKL"], ".pkl", True),
}
SLOW = {"save_plot_image", "save_residual_plot", "save_plot_points"}
STEMS = ["result", "a b", "scan_0001", "x.y", "r_0000", "été", "v1.0.2", "_", "file-1", "12", "A" * 60]


def call(name, path, overwrite, tag):
    a = np.arange(12.0).reshape(3, 4) + tag
    pts = np.array([[2.0, 3.0], [5.0, 6.0], [8.0, 1.0 + tag % 5]])
    f = getattr(losa, name)
    kw = {} if overwrite is None else dict(overwrite=overwrite)
    if name == "save_image":
        return f(path, np.float32(a) if str(path).lower().endswith(("tif", "tiff")) else a, **kw)
    if name == "save_plot_image":
        return f(path, [pts], 20, 30, dpi=10, **kw)
    if name == "save_residual_plot":
        return f(path, pts, 40, 50, dpi=10, **kw)
    if name == "save_plot_points":
        return f(path, pts, 20, 30, dpi=10, **kw)
    if name == "save_hdf_file":
        return f(path, a, **kw)
    if name == "open_hdf_stream":
        d = f(path, (2, 3), **kw)
        d[:] = tag
        p = d.file.filename
        d.file.close()
        return p
    if name in ("save_metadata_txt", "save_metadata_json"):
        return f(path, 1.0 + tag, 2.0, [1.0, 2.0 * tag], **kw)
    return f(path, [1, 2, tag], **kw)


def cases(seed, tier, hints):
    rng = np.random.default_rng([seed, 19])
    n = 0
    reps = 1 if tier == "quick" else 4
    for rep in range(reps):
        for s in SAVERS:
            for ow in (False, True, None):
                k = (3 if s in SLOW else 9)
                for j in range(k):
                    n += 1
                    yield dict(kind="save", saver=s, overwrite=ow, seed=seed * 100000 + n, style=j)
            n += 1
            yield dict(kind="folders", saver=s, seed=seed * 100000 + n)
            for j in range(2 if s in SLOW else 4):
                n += 1
                yield dict(kind="history", saver=s, seed=seed * 100000 + n)
        for s in ("save_image", "save_plot_image", "save_residual_plot", "save_plot_points"):
            for ow in (False, True):
                n += 1
                yield dict(kind="unwritable", saver=s, overwrite=ow, seed=seed * 100000 + n)
        for j in range(12):
            n += 1
            yield dict(kind="create_file_name", seed=seed * 100000 + n)
        lits = [v for v in lit_sizes(3, 1200, ["losa"])]
        for v in lits + [9, 10, 11, 99, 100, 101, 1000]:
            n += 1
            yield dict(kind="many", num=int(v), seed=seed * 100000 + n, saver="save_python_list")
        yield dict(kind="many", num=10001, seed=seed * 100000 + n + 1, saver="save_metadata_txt")


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d)] = "dir"
        for x in fs:
            p = os.path.join(r, x)
            if os.path.islink(p):
                out[os.path.relpath(p, d)] = ("link", os.readlink(p), open(p, "rb").read() if os.path.exists(p) else None)
            else:
                st = os.stat(p)
                out[os.path.relpath(p, d)] = (open(p, "rb").read(), st.st_mtime_ns, st.st_ino)
    return out


def expected(name, stem, ext):
    acc, dflt, repl = SAVERS[name]
    p = Path(stem + ext)
    suf = p.suffix
    if repl:
        if suf.lower() not in [e.lower() for e in acc]:
            p = p.with_suffix(dflt)
    elif not suf and dflt:
        p = p.with_suffix(dflt)
    return p.name


def compare(before, after, d, want, overwrite, returned):
    """want: expected relative path"""
    stem, suf = os.path.splitext(want)
    new = [p for p in after if p not in before]
    newf = [p for p in new if after[p] != "dir"]
    newd = [p for p in new if after[p] == "dir"]
    parents = {str(x) for x in Path(want).parents}
    for x in newd:
        check(x in parents, "a folder %r was created that the path %r does not need", x, want)
    gone = [p for p in before if p not in after]
    check(not gone, "disappeared: %s", gone)
    changed = [p for p in before if before[p] != after[p]]
    rel = os.path.relpath(os.path.realpath(str(returned)), os.path.realpath(d))
    if overwrite:
        check(all(p == want for p in changed), "overwriting %r changed %r", want, changed)
        check(newf in ([], [want]), "overwriting %r created %r", want, newf)
        check(changed == [want] or newf == [want], "nothing written to %r", want)
        check(rel == want, "returned %r, written %r", rel, want)
    else:
        check(not changed, "overwrite disabled, but %r was changed", changed)
        check(len(newf) == 1, "overwrite disabled: new files %r", newf)
        got = newf[0]
        check(rel == got, "returned %r, written %r", rel, got)
        if want not in before:
            check(got == want, "wrote %r, requested %r (which did not exist)", got, want)
        else:
            check(os.path.dirname(got) == os.path.dirname(want), "wrote %r, not next to %r", got, want)
            s2, e2 = os.path.splitext(got)
            check(e2 == suf and s2.startswith(stem), "wrote %r for %r", got, want)
            check(re.fullmatch(r"_\d+", s2[len(stem):]) is not None, "wrote %r: not a numbered name of %r", got, want)


def populate(rng, d, folder, want, level):
    """pre-existing files: the target, its numbered variants with gaps, neighbours"""
    f = Path(d) / folder
    f.mkdir(parents=True, exist_ok=True)
    stem, suf = os.path.splitext(want)
    names = []
    if level >= 1:
        names.append(want)
    if level >= 2:
        k = int(rng.integers(1, 13))
        names += ["%s_%04d%s" % (stem, i, suf) for i in range(k)]
        if rng.random() < 0.4:
            names.remove(names[int(rng.integers(1, len(names)))])
    if level >= 3:
        names += [stem, stem + ".bak", stem + suf + ".old", "other" + suf, stem + "_1" + suf, stem + "0000" + suf]
    for nm in names:
        p = f / nm
        if not p.exists():
            p.write_bytes(b"precious " + nm.encode() + bytes(rng.integers(0, 256, 20, dtype=np.uint8)))


def run(case):
    rng = rng_of(case)
    with tempfile.TemporaryDirectory() as d0:
        d = os.path.realpath(d0)
        work = os.path.join(d, "w")
        os.mkdir(work)
        cwd = os.getcwd()
        os.chdir(work)
        try:
            globals()["run_" + case["kind"]](case, rng, work)
        finally:
            os.chdir(cwd)


def pick(case, rng):
    name = case["saver"]
    acc, dflt, repl = SAVERS[name]
    style = case.get("style", 0)
    stem = STEMS[int(rng.integers(0, len(STEMS)))]
    ext = acc[int(rng.integers(0, len(acc)))]
    if dflt and style % 3 == 1:
        ext = ""
        if not repl:
            stem = stem.replace(".", "_")
    if repl and style % 3 == 2:
        ext = [".v1", ".dat2", ".tar.gz", ".hd", ".log"][int(rng.integers(0, 5))]
    return name, stem, ext


def mkpath(rng, work, folder, fname):
    p = os.path.join(folder, fname) if folder else fname
    m = int(rng.integers(0, 4))
    if m == 0:
        return p
    if m == 1:
        return os.path.join(work, p)
    if m == 2:
        return Path(p)
    return Path(work) / p


def run_save(case, rng, work):
    name, stem, ext = pick(case, rng)
    want = expected(name, stem, ext)
    folder = ["", "sub", "a/b/c", "dir.v1/x", "../w/q"][int(rng.integers(0, 5))]
    level = int(rng.integers(0, 4)) if case["style"] > 1 else 2
    fold = os.path.normpath(folder) if folder and not folder.startswith("..") else ("q" if folder else "")
    if level or rng.random() < 0.5:
        populate(rng, work, fold or ".", want, level)
    if ext != os.path.splitext(want)[1] and rng.random() < 0.7 and os.path.isdir(os.path.join(work, fold)):
        raw = os.path.join(work, fold, stem + ext)           # a file of the name as given
        if not os.path.exists(raw):
            open(raw, "wb").write(b"raw")
    before = tree(work)
    r = call(name, mkpath(rng, work, folder, stem + ext), case["overwrite"], int(rng.integers(1, 50)))
    compare(before, tree(work), work, os.path.normpath(os.path.join(fold, want)), case["overwrite"] in (True, None), r)
    check(os.path.isfile(str(r)), "%r is not a file", r)


def run_unwritable(case, rng, work):
    """a format that cannot be written raises ValueError and leaves existing files alone"""
    populate(rng, work, ".", "u.xyz", 2)
    before = tree(work)
    raises(ValueError, call, case["saver"], "u.xyz", case["overwrite"], 1)
    after = tree(work)
    check({p: v for p, v in after.items() if p in before} == before, "a failed save changed existing files")


def run_history(case, rng, work):
    """repeated saves, mixed with saves to related names: nothing is ever lost"""
    name, stem, ext = pick(dict(case, style=int(rng.integers(0, 3))), rng)
    stems = [stem, stem + "_0000", stem + "_0001", stem + "_0000_0000"]
    for i in range(int(rng.integers(4, 9 if name in SLOW else 16))):
        s = stems[0] if rng.random() < 0.7 else stems[int(rng.integers(0, len(stems)))]
        before = tree(work)
        r = call(name, mkpath(rng, work, "", s + ext), False, i)
        compare(before, tree(work), work, expected(name, s, ext), False, r)


def run_folders(case, rng, work):
    """names taken by folders are not free either"""
    name = case["saver"]
    ext = SAVERS[name][0][0]
    k = int(rng.integers(1, 4))
    names = ["q" + ext] + ["q_%04d%s" % (i, ext) for i in range(k)]
    for i, nm in enumerate(names):
        if i == 0 or rng.random() < 0.7 or i == 1:
            os.mkdir(nm)
        else:
            open(nm, "wb").close()
    before = tree(work)
    r = call(name, mkpath(rng, work, "", "q" + ext), False, 1)
    r = getattr(getattr(r, "file", None), "filename", None) or r
    after = tree(work)
    check({p: v for p, v in after.items() if p in before} == before, "existing files or folders changed")
    new = sorted(set(after) - set(before))
    check(len(new) == 1 and os.path.isfile(new[0]) and new[0].startswith("q_") and new[0].endswith(ext), "a fresh numbered file was not written: %s", new)


def run_many(case, rng, work):
    name = case["saver"]
    acc = SAVERS[name][0][0]
    for i in range(case["num"]):
        open("m_%04d%s" % (i, acc), "wb").close()
    open("m" + acc, "wb").write(b"x")
    r = call(name, "m" + acc, False, 1)
    check(os.path.basename(str(r)) not in {"m_%04d%s" % (i, acc) for i in range(case["num"])} | {"m" + acc}, "returned the existing name %s", r)
    check(os.path.getsize("m" + acc) == 1 and all(os.path.getsize("m_%04d%s" % (i, acc)) == 0 for i in range(case["num"])), "an existing file was overwritten")
    check(os.path.isfile(str(r)) and os.path.getsize(str(r)) > 0, "nothing written")
    check(len(os.listdir(".")) == case["num"] + 2, "number of files")


def run_create_file_name(case, rng, work):
    ext = ["", ".tif", ".a", ".TXT"][int(rng.integers(0, 4))]
    stem = STEMS[int(rng.integers(0, len(STEMS)))]
    if rng.random() < 0.4:
        os.makedirs("f/" + stem + "_0000" + ext)             # a folder of a numbered name
    populate(rng, work, "f", stem + ext, int(rng.integers(0, 4)))
    if rng.random() < 0.3 and not os.path.exists("f/" + stem + ext):
        os.mkdir("f/" + stem + ext)                          # a folder of that name
    before = tree(work)
    r = private(losa, "_create_file_name")(os.path.join("f", stem + ext))
    check(tree(work) == before, "_create_file_name changed files")
    check(not os.path.exists(r), "_create_file_name returned the existing %r", r)
    check(os.path.dirname(r) == "f", "other folder: %r", r)
    if not os.path.exists(os.path.join("f", stem + ext)):
        check(os.path.normpath(r) == os.path.join("f", stem + ext), "a free name was not used: %r", r)
