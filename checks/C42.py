"""C42: Plan 9 regular expressions (prog/libregexp9)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def body(c):
    fs = ["regexp9." + x for x in "regcomp regcomplit regcompnl regexec rregexec regsub rregsub".split()]
    exe = lib_driver("regex", [os.path.join(REPO, "prog/libregexp9/regexp9.c")], fs, "regex.c")
    for p in ("patterns", "classes", "trees", "sizes", "subst"):
        c.harness(p, exe, shards=NCPU, timeout=850, extra_env={"VP_PART": p})


if __name__ == "__main__":
    main("C42", body, ["expressions the notation doesn't settle (classes with descending or empty ranges) are only required not to crash; which of several possible group assignments is chosen is free"])
