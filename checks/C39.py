"""C39: statistics, random numbers, tables and Fourier transforms."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def body(c):
    fs = (["stats." + x for x in "newseries freeseries add count min max sum avg sd percentile median normalize sample_from_distribution".split()]
          + ["table." + x for x in "new pushval print free".split()] + ["rnd." + x for x in "seed intn u".split()]
          + ["complex." + x for x in "sum diff mul scale abs abs2 make".split()] + ["fft.kiss_fft_alloc", "fft.kiss_fft"])
    exe = lib_driver("stats", ["stats", "table", "rnd", "math/complex", "fft"], fs, "stats.c")
    for p in ("series", "random", "tables", "transforms"):
        c.harness(p, exe, shards=NCPU, timeout=850, extra_env={"VP_PART": p})


if __name__ == "__main__":
    main("C39", body, ["at least one value in a series that is asked for averages and percentiles, two for the deviation; frequencies not all zero; the multidimensional real transform is outside the property"])
