"""C22: library calls assign nothing that the caller owns.

The obligation of every function is its frame condition, discharged by the ownership typing of
pyvc/owner.py on /repo's current source: a store may only go to memory that no parameter may share,
callers are checked against the callees' frame contracts.  Functions that other properties bring
under the executor have their frames proved there a second time, path by path."""
import os
from .base import *
from pyvc.owner import Analysis

LEVEL = "proof"
ASSUME = ["numpy, scipy, skimage, h5py, PIL, matplotlib and cv2 functions write only into their documented output arguments (out=, output=, dst=, third argument of a binary ufunc, ...), and share memory with an argument only where pyvc/owner.py lists them as aliasing",
          "file_path, key_path and path are strings or Path objects, and cam_obj is a camera object: none of them is an array, list or dictionary"]
MODULES = [POST, PROC, PREP, LINE, UTIL, LOSA]
REPO = os.environ.get("VERIF_REPO", "/repo")


def section(mod):
    def run(S):
        an = Analysis(REPO, MODULES, imm=("file_path", "key_path", "path", "cam_obj"))
        fs = [f for f in an.fns.values() if f.mod == mod]
        if not fs:
            raise Unsupported("no function in " + mod)
        for f in fs:
            S.functions.add(f.dotted)
            S.typed("%s.assigns_nothing_of_the_caller" % f.name, not f.writes, "; ".join("%s: %s" % x for x in sorted(f.writes.items())))
            for c in f.callees:
                S.contracts_used.add(c)
    return run


SECTIONS = [(m.split(".")[1] if m != LINE else "line", section(m)) for m in MODULES]
