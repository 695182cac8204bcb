"""C27: MD5 and SHA-1."""
import os, sys, hashlib, itertools
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
sha1.digest_t *s_new() { return calloc!(1, sizeof(sha1.digest_t)); }
"""


def messages(th):
    for n in range(0, 700 if th else 330):                      # every length around the block boundaries
        for p in (lambda i: 0x61 + i % 26, lambda i: 0, lambda i: 0xFF, lambda i: (i * 151 + 7) & 255):
            yield bytes(p(i) for i in range(n))
    for n in range(0, 9 if th else 7):                          # every message over a few bytes
        for t in itertools.product(b"\x00a\x80\xff", repeat=n):
            yield bytes(t)
    for n in (1, 55, 56, 63, 64, 65, 119, 128):                 # every bit of every position alone
        for k in range(n * 8):
            m = bytearray(n); m[k // 8] = 1 << (k % 8)
            yield bytes(m)
    for b in range(256):                                        # every byte value, alone and repeated
        for n in (1, 2, 64):
            yield bytes([b]) * n
    for k in range(2, 40 if th else 16):                        # long messages around multiples of blocks and pages
        for d in (-9, -8, -1, 0, 1):
            yield bytes((i * 7 + k) & 255 for i in range(64 * k * 8 + d))
    for n in (4095, 4096, 4097, 65535, 65536, 100001):
        yield bytes((i * 31 + (i >> 8)) & 255 for i in range(n))


def body(c):
    exe = lib_driver("crypt", ["crypt/md5", "crypt/sha1"],
                     ["md5.md5_str", "md5.md5_buf", "md5.md5_eq", "md5.md5_print", "md5.md5_sprint", "s_new", "sha1.reset", "sha1.format", "sha1.as_bytes", "sha1.add", "sha1.end"],
                     "crypt.c", pre=PRE)
    t = sub("crypt") + "/table"
    with open(t, "w") as f:
        for m in messages(c.thorough):
            f.write("%s %s %s\n" % (m.hex(), hashlib.md5(m).hexdigest(), hashlib.sha1(m).hexdigest()))
    big = ((2 << 30) if c.thorough else (512 << 20)) + 77      # the length in bits needs more than 32 bits
    blk = bytes((i * 31 + (i >> 8)) & 255 for i in range(1 << 20))
    ref = []
    for h in (hashlib.md5(), hashlib.sha1()):
        for i in range(big >> 20):
            h.update(blk)
        h.update(blk[:big & 0xfffff])
        ref.append(h.hexdigest())
    c.harness("digests", exe, shards=NCPU, timeout=850, extra_env={"VP_TABLE": t, "VP_BIG": "%d %s %s" % (big, *ref)})


if __name__ == "__main__":
    main("C27", body, ["reference digests are computed by Python's hashlib"])
