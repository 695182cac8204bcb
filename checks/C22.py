"""C22: byte and bit streams, integer encodings, memory streams, hex and URL encoding, line reading."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
size_t rd_pos(reader.t *r) { return r->pos; }
size_t wr_n(writer.t *w) { return w->nwritten; }
int bit_order(int i) { if (i == 0) return bits.STRAIGHT; return bits.REVERSED; }
"""


def body(c):
    def q(m, fs): return [m + "." + f for f in fs.split()]
    fs = q("reader", "string static_buffer file fd new read skip free") + q("writer", "static_buffer file fd new write writebyte free") + \
        ["rd_pos", "wr_n", "bit_order"] + \
        q("bits", "newreader closereader read1 readn newwriter closewriter write1 write getbits_lsfirst getbits_msfirst") + \
        q("endian", "read1 read2le read2be read3le read4be read4le write1 write2le write4be write4le") + q("hex", "writebyte write") + ["urlencode.write"] + \
        q("mem", "memopen memclose rewind reset memtell memputc memgetc memwrite memprintf memread newwriter") + q("linereader", "new read line free") + \
        q("bytereader", "newreader freereader ended readc peekc read16 read32")
    exe = lib_driver("streams", ["reader", "writer", "bits", "enc/endian", "enc/hex", "enc/urlencode", "mem", "linereader", "bytereader"], fs, "streams.c", pre=PRE)
    c.harness("streams", exe, shards=NCPU, timeout=850)


if __name__ == "__main__":
    main("C22", body, ["allocations succeed; lines contain no zero bytes (a line is handed out as a C string)"])
