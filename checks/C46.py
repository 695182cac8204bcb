"""C46: the CHIP-8 emulator and disassembler (prog/emu)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def body(c):
    exe = lib_driver("chip8", [os.path.join(REPO, "prog/emu/chip8.c")], ["chip8.run", "chip8.disas"], "chip8.c", wrap=("nanosleep", "usleep", "clock_nanosleep"))
    for p in ("instructions", "memory", "arithmetic", "sprites", "calls", "devices", "disassembler"):
        c.harness(p, exe, shards=NCPU, timeout=850, extra_env={"VP_PART": p})


if __name__ == "__main__":
    main("C46", body, ["words that are no instruction, waiting for a key (not implemented), keys and digits over 15 and addresses over FFF are not settled: the emulator must only not crash on them", "the emulator's sleep after each instruction returns at once"])
