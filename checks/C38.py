"""C38: images and the formats they are written in."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def body(c):
    fs = ["image." + x for x in "new free set get getpixel fill clear blend apply explode paste mix from_hsl from_hsv mapcolor colormap_image testimage white gray".split()] + ["bmp.write", "ppm.writeimg", "png.write"]
    exe = lib_driver("image", ["image", "formats/bmp", "formats/ppm", "formats/png"], fs, "image.c")
    for p in ("ops", "colours", "files"):
        c.harness(p, exe, shards=NCPU, timeout=850, extra_env={"VP_PART": p})


if __name__ == "__main__":
    main("C38", body, ["channel values in 0..255; paste positions not negative; at least one pixel; hue in 0..360 degrees; colours after rounding within one step of the exact value"])
