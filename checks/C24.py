"""C24: command line options (opt)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def body(c):
    fs = ["opt." + f for f in "str opt_int flag size opt_float nargs parse usage summary addcmd dispatch".split()]
    exe = lib_driver("opt", ["opt"], fs, "opt.c")
    c.harness("opt", exe, shards=7, timeout=850)


if __name__ == "__main__":
    main("C24", body, ["numbers given to options fit their types; a float argument that starts with a number is taken as that number"])
