"""C21: sequence containers (vec, buffer, llist, strbuilder) against arrays."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def body(c):
    fs = ["vec." + f for f in "new free push alloc index len".split()] + ["buffer." + f for f in "new free size write read".split()] + \
        ["llist." + f for f in "new append remove next".split()] + ["ll_data"] + \
        ["strbuilder." + f for f in "new free clear addc adds addf str_raw str_len str_unpack".split()]
    exe = lib_driver("seqs", ["clip/vec", "clip/buffer", "clip/llist", "strbuilder"], fs, "seqs.c",
                     pre="void *ll_data(llist.t *p) { return p->data; }\n")
    c.harness("seqs", exe, shards=NCPU, timeout=850)


if __name__ == "__main__":
    main("C21", body, ["allocations succeed, except in the fault part for strbuilder where each one fails in turn"])
