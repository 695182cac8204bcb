"""C36: UTF-8, runes and their strings."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

# The module's tables are those of Unicode 1; these alphabets have not changed since, but for the code points listed.
LATER = {0xb5, 0x130, 0x17f, 0x3c2, 0x400, 0x40d, 0x450, 0x45d, 0x149}
RANGES = [(0, 0x180), (0x391, 0x3ca), (0x401, 0x460), (0x531, 0x557), (0x561, 0x587), (0x1e00, 0x1e96), (0xff21, 0xff3b), (0xff41, 0xff5b)]


def body(c):
    t = sub("utf_table") + "/t"
    with open(t, "w") as f:
        for a, b in RANGES:
            for k in range(a, b):
                if k in LATER: continue
                ch = chr(k); lo, up = ch.lower(), ch.upper()
                f.write("%x %x %x %d\n" % (k, ord(lo) if len(lo) == 1 else k, ord(up) if len(up) == 1 else k, ch.isalpha()))
    fs = """get_rune runetochar runelen runenlen fullrune runecount utfnlen utfrune utfrrune utfutf utfecpy runestrcat runestrchr runestrrchr runestrecpy runestrstr runestrdup runestrncat
    runestrncmp runestrcmp runestrcpy runestrncpy tolowerrune toupperrune totitlerune islowerrune isalpharune istitlerune isspacerune""".split()
    exe = lib_driver("utf", ["utf"], ["utf." + f for f in fs], "utf.c")
    c.harness("utf", exe, shards=NCPU, timeout=850, extra_env={"VP_TABLE": t, "VP_TABLES": os.path.join(VERIF, "checks", "C36.tables"), **({"VP_DUMP": os.environ["VP_DUMP"]} if "VP_DUMP" in os.environ else {})})


if __name__ == "__main__":
    main("C36", body, ["surrogates may be read as themselves or as errors", "cases are compared with Unicode for alphabets that have not changed since Unicode 1"])
