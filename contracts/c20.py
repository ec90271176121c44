"""C20: saved calibration metadata loads back to the same centre and coefficients."""
from .base import *
from pyvc import iolib as io

LEVEL = "proof"
ASSUME = ["float(str(x)) == x for a double, and float(x) == x (CPython's shortest representation of doubles)",
          "json.load(json.dump(v)) gives back numbers, text, lists and dictionaries unchanged (repr of doubles), pickle gives back the object",
          "a file reads back as what was written to it; open(), pathlib as in C19"]


def value(I, v, i=None):
    return asT(v)


def trip(S, nm, save, load, suf, xc, yc, coef, n, fact, ow, fnames=None):
    d, stem = var("dir", "U"), io.name_atom("stem")
    p = io.mkpath(d, io.mkstr([stem, suf]))
    fs, fl = S.fn(LOSA + "." + save), S.fn(LOSA + "." + load)
    S.functions |= {LOSA + "." + save, LOSA + "." + load}
    i = var("i", "I")

    def thunk(I):
        r = I.call(fs, [io.pstr(p), xc, yc, coef()], dict(overwrite=ow))
        return I.call(fl, [r], {})
    ret = 0
    for I, hyps, oc, v in S.run(thunk, facts=[inr(i, n)]):
        if oc == "raise":
            S.oblige(nm + ".no_exception[%s]" % v.name, hyps, FALSE)
            continue
        ret += 1
        if not isinstance(v, tuple) or len(v) != 3:
            S.record(nm + ".three_results", False, str(type(v)))
            continue
        S.oblige(nm + ".xcenter", hyps, eq(num(asT(v[0])), num(asT(xc))))
        S.oblige(nm + ".ycenter", hyps, eq(num(asT(v[1])), num(asT(yc))))
        ln, item = as_list(v[2])
        S.oblige(nm + ".number_of_coefficients", hyps, eq(ln, n))
        if n is not ZERO:
            S.oblige(nm + ".coefficient", hyps, eq(num(asT(item(i))), fact(i)))
    S.record(nm + ".returns", ret > 0, "no path returns")


def sec_meta(kind):
    save, load, sufs = {"txt": ("save_metadata_txt", "load_metadata_txt", (".txt", ".dat", "", io.suffix_atom("other"), io.suffix_atom("SUF", low=".txt"))),
                        "json": ("save_metadata_json", "load_metadata_json", (".json", "", io.suffix_atom("other"), io.suffix_atom("SUF", low=".json")))}[kind]

    def run(S):
        m = var("m", "I", nn=True)
        fact = factor(m)[2]
        for ow in (True, False):
            for suf in sufs:
                lab = suf if isinstance(suf, str) else ("upper case" if suf.attrs["low"] else "other")
                for cn, coef, n in (("list", lambda: factor(m)[0], m), ("array", lambda: factor(m)[1], m), ("empty", lambda: SList([]), ZERO),
                                    ("tuple", lambda: tuple(fact(const(j)) for j in range(3)), const(3))):
                    for xn, xc, yc in (("real", var("xc"), var("yc")), ("int", var("xi", "I"), var("yi", "I"))):
                        if cn in ("empty", "tuple") and (xn == "int" or ow is False):
                            continue
                        nm = "%s[%s, %s, %s centre, overwrite=%s]" % (kind, lab or "none", cn, xn, ow)
                        safe(lambda: trip(S, nm, save, load, suf, xc, yc, coef, n, fact, ow), nm, S)
    return run


def sec_list(S):
    save, load = "save_python_list", "load_python_list"
    m = var("m", "I", nn=True)
    i = var("i", "I")
    d, stem = var("dir", "U"), io.name_atom("stem")
    fs, fl = S.fn(LOSA + "." + save), S.fn(LOSA + "." + load)
    S.functions |= {LOSA + "." + save, LOSA + "." + load}
    L, pt, ln = lines("pt")
    for ow in (True, False):
        for suf in (".pkl", "", io.suffix_atom("other"), io.suffix_atom("SUF", low=".pkl")):
            p = io.mkpath(d, io.mkstr([stem, suf]))
            nm = "list[%s, overwrite=%s]" % (suf if isinstance(suf, str) else "atom", ow)

            def thunk(I):
                r = I.call(fs, [io.pstr(p), factor(m)[0]], dict(overwrite=ow))
                return I.call(fl, [r], {})
            for I, hyps, oc, v in S.run(thunk, facts=[inr(i, m)]):
                if oc == "raise":
                    S.oblige(nm + ".no_exception[%s]" % v.name, hyps, FALSE)
                    continue
                n, item = as_list(v)
                S.oblige(nm + ".length", hyps, eq(n, m))
                S.oblige(nm + ".item", hyps, eq(num(asT(item(i))), factor(m)[2](i)))


def sec_missing(S):
    d, stem = var("dir", "U"), io.name_atom("stem")
    for load in ("load_metadata_txt", "load_metadata_json", "load_python_list"):
        for as_path in (False, True):
            p = io.mkpath(d, io.mkstr([stem, io.suffix_atom("other")]))
            S.raises("%s[missing file, %s].raises" % (load, "Path" if as_path else "str"), LOSA + "." + load, [p if as_path else io.pstr(p)], "ValueError",
                     facts=[not_(T("app", ("fs_exists", io.pterm(p)), "B"))])


def rounding(f):
    def run(S):
        tm.ROUND32 = True       # no hidden loss of precision: a conversion to float32 is not the identity
        try:
            f(S)
        finally:
            tm.ROUND32 = False
    return run


SECTIONS = [(n, rounding(f)) for n, f in (("txt", sec_meta("txt")), ("json", sec_meta("json")), ("list", sec_list), ("missing", sec_missing))]
