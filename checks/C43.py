"""C43: the LC-3 emulator (prog/emu)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def body(c):
    exe = lib_driver("lc3", [os.path.join(REPO, "prog/emu/lc3.c")], ["lc3.run"], "lc3.c")
    for p in ("instructions", "values", "io"):
        c.harness(p, exe, shards=NCPU, timeout=850, extra_env={"VP_PART": p})


if __name__ == "__main__":
    main("C43", body, ["traps other than 20 to 25, JSRR R7, characters over 127 at IN and reading past the end of the input are not settled; programs that don't end are not run"])
