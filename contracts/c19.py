"""C19: with overwriting disabled no saver touches an existing file; with it enabled exactly the requested file is written."""
from .base import *
from pyvc import iolib as io

LEVEL = "proof"
ASSUME = ["The operating system: exists/is_file report the state of the file system, opening for writing creates or truncates exactly the named file, "
          "mkdir creates that folder (and its parents) only, and nothing else writes to the folder during the call (contracts of pathlib, os.path, open, h5py.File, PIL save, savefig).",
          "resolve() and abspath() give the same file (no symbolic link to another name in the path).",
          "The path is treated on Linux rules (the Windows branch of __get_path is not taken)."]

HDF, TXT, JSON, PKL = (".hdf", ".h5", ".nxs", ".hdf5"), (".txt", ".dat"), (".json",), (".pkl",)


def data(nm):
    h, w, n = var("h", "I", nn=True), var("w", "I", nn=True), var("n", "I", nn=True)
    if nm == "save_image":
        return [farr("img", (h + 1, w + 1), "f4")]
    if nm == "save_plot_image":
        return [lines("pt")[0], h + 1, w + 1]
    if nm == "save_residual_plot":
        return [farr("res", (n, const(2))), h + 1, w + 1]
    if nm == "save_plot_points":
        return [farr("pts", (n, const(2))), h + 1, w + 1]
    if nm == "save_hdf_file":
        return [farr("vol", (n, h, w), "f4")]
    if nm == "open_hdf_stream":
        return [(n, h, w)]
    if nm in ("save_metadata_txt", "save_metadata_json"):
        return [var("xc"), var("yc"), factor(n)[0]]
    return [flist("item", n)]


# saver -> (accepted suffixes, default or None when every suffix is kept)
SAVERS = {
    "save_image": ((".tif", ".png", ".jpg"), None),
    "save_plot_image": ((".png", ".jpg"), ".png"),
    "save_residual_plot": ((".png", ".jpg"), ".png"),
    "save_plot_points": ((".png", ".jpg"), ".png"),
    "save_hdf_file": (HDF, ".hdf"),
    "open_hdf_stream": (HDF, ".hdf"),
    "save_metadata_txt": (TXT, ".txt"),
    "save_metadata_json": (JSON, ".json"),
    "save_python_list": (PKL, ".pkl"),
}
KEEPS = {"save_image", "save_plot_image", "save_residual_plot", "save_plot_points"}


def cases(nm):
    """(label, suffix of the request, suffix of the file)"""
    acc, default = SAVERS[nm]
    for s in acc:
        yield s, s, s
    if nm not in KEEPS:
        up = io.suffix_atom("SUF", low=acc[0])
        yield "upper-case " + acc[0], up, up
    if default:
        yield "no extension", "", default
    oth = io.suffix_atom("other")
    yield "another extension", oth, (oth if nm in KEEPS else default)


def exists_axiom(t):
    return implies(T("app", ("fs_file", t), "B"), T("app", ("fs_exists", t), "B"))


def written(I):
    return [e[1] for e in I.effects if e[0] == "write"]


def target(v):
    if isinstance(v, Opaque) and v.tag == "h5ds":
        return io.pterm(v.attrs["file"].attrs["path"])
    return io.pterm(v if isinstance(v, Opaque) and v.tag == "path" else io.to_path(None, v))


def numbered(w, d, suf):
    """w is <folder of the request>/<stem>_<number><suffix>"""
    if not (io.is_path(w) and w.args[1] is d):
        return None
    nm = w.args[2]
    fm = [a for a in nm.args[1:] if isinstance(a, T) and a.op == "app" and str(a.args[0]).startswith("fmt:")] if nm.op == "app" and nm.args[0] == "cat" else []
    if len(fm) != 1:
        return None
    n = fm[0]
    ref = io.strterm(io.mkstr([io.name_atom("stem"), "_", ("fmt", n.args[1], str(n.args[0])[4:]), suf]))
    return True if ref is nm else None


def one(S, nm, label, req, suf, as_path):
    d, stem = var("dir", "U"), io.name_atom("stem")
    p = io.mkpath(d, io.mkstr([stem, req]))
    want = io.pterm(io.mkpath(d, io.mkstr([stem, suf])))
    arg = p if as_path else io.pstr(p)
    for ow in (False, True):
        tag = "%s[%s, %s, overwrite=%s]" % (nm, label, "Path" if as_path else "str", ow)
        ret = 0
        for I, hyps, oc, v in S.paths(LOSA + "." + nm, [arg] + data(nm), dict(overwrite=ow)):
            ws = written(I)
            if oc == "return":
                ret += 1
            for t in ws:
                if not ow:
                    S.oblige(tag + ".existing_file_untouched", hyps + [exists_axiom(t)], not_(T("app", ("fs_file", t), "B")))
                    if t is want or numbered(t, d, suf):
                        S.record(tag + ".name_next_to_the_request", True)
                    else:
                        S.typed(tag + ".name_next_to_the_request", False, tm.show(t)[:300])
                else:
                    S.oblige(tag + ".writes_the_requested_path", hyps, io.psame(t, want))
            for e in I.effects:
                if e[0] == "mkdir":
                    S.oblige(tag + ".creates_only_the_folder", hyps, io.psame(e[1], d))
                elif e[0] != "write":
                    raise Unsupported("effect %s" % e[0])
            if oc == "return":
                S.record(tag + ".one_file", bool(ws) and all(t is ws[0] for t in ws), "writes %s" % ", ".join(tm.show(t)[:80] for t in ws))
                if ws:
                    S.oblige(tag + ".returns_the_path_written", hyps, io.psame(target(v), ws[-1]))
        S.record(tag + ".returns", ret > 0, "no path returns")


def sec_saver(nm):
    def run(S):
        for label, req, suf in cases(nm):
            for as_path in (False, True):
                safe(lambda: one(S, nm, label, req, suf, as_path), "%s[%s]" % (nm, label), S)
    return run


def sec_again(S):
    """two saves to one name give two files"""
    def two(nm, suf):
        d, stem = var("dir", "U"), io.name_atom("stem")
        p = io.mkpath(d, io.mkstr([stem, suf]))
        f = S.fn(LOSA + "." + nm)

        def thunk(I):
            I.call(f, [io.pstr(p)] + data(nm), dict(overwrite=False))
            n = len(written(I))
            I.call(f, [io.pstr(p)] + data(nm), dict(overwrite=False))
            return n
        S.functions.add(LOSA + "." + nm)
        for I, hyps, oc, n in S.run(thunk):
            if oc != "return":
                continue
            ws = written(I)
            for a in ws[:n]:
                for b in ws[n:]:
                    S.oblige("%s.second_save_is_another_file" % nm, hyps, not_(io.psame(a, b)))
    for nm, (acc, default) in SAVERS.items():
        safe(lambda: two(nm, acc[0]), nm + ".twice", S)


def sec_name(S):
    """contract of _create_file_name: the request itself if nothing of that name exists, else a free numbered name"""
    d, stem = var("dir", "U"), io.name_atom("stem")
    for label, suf in ((".txt", ".txt"), ("any extension", io.suffix_atom("other")), ("no extension", "")):
        p = io.mkpath(d, io.mkstr([stem, suf]))
        t = io.pterm(p)
        ex = lambda x: T("app", ("fs_exists", x), "B")
        tag = "_create_file_name[%s]" % label
        for I, hyps, oc, v in S.paths(LOSA + "._create_file_name", [io.pstr(p)]):
            if oc == "raise":
                S.oblige(tag + ".no_exception", hyps, FALSE)
                continue
            w = target(v)
            S.oblige(tag + ".free", hyps, not_(ex(w)))
            S.oblige(tag + ".request_kept_when_free", hyps, implies(not_(ex(t)), io.psame(w, t)))
            S.record(tag + ".writes_nothing", not I.effects, str(I.effects)[:200])


def folder(S):
    """contract of _create_folder: creates at most the folder of a file, or the folder named when there is no extension"""
    d, stem = var("dir", "U"), io.name_atom("stem")
    for label, suf in ((".txt", ".txt"), ("any extension", io.suffix_atom("other")), ("no extension", "")):
        p = io.mkpath(d, io.mkstr([stem, suf]))
        want = d if label != "no extension" else io.pterm(p)
        for I, hyps, oc, v in S.paths(LOSA + "._create_folder", [io.pstr(p)]):
            tag = "_create_folder[%s]" % label
            for e in I.effects:
                S.oblige(tag + ".creates_only_the_folder", hyps, io.psame(e[1], want) if e[0] == "mkdir" else FALSE)
            if oc == "return":
                S.oblige(tag + ".folder_exists_after", hyps, TRUE if any(e[1] is want for e in I.effects) else T("app", ("fs_exists", want), "B"))


SECTIONS = [(nm, sec_saver(nm)) for nm in SAVERS] + [("again", sec_again), ("create_file_name", sec_name), ("create_folder", folder)]
