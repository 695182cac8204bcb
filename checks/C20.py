"""C20: associative containers (map, map2, stringtable) against an association list."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def body(c):
    fs = ["map." + f for f in "new free set get has size sets gets hass iter next itkey itval end".split()] + \
        ["map2." + f for f in "new free set get".split()] + ["stringtable." + f for f in "new free set get".split()]
    exe = lib_driver("maps", ["clip/map", "clip/map2", "clip/stringtable"], fs, "maps.c")
    c.harness("maps", exe, shards=NCPU, timeout=850)


if __name__ == "__main__":
    main("C20", body, ["memory allocation succeeds", "map values are at most 8 bytes, as map.new demands",
                       "the map is not modified while it is iterated over"])
