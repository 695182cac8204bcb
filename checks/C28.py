"""C28: LZW and Huffman coding."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
int straight() { return bits.STRAIGHT; }
"""


def body(c):
    fs = """reader.new reader.free writer.new writer.free bits.newreader bits.closereader straight lzw.compress lzw.newdecoder lzw.freedecoder
    lzw.decodeinto lzw.decode huffman.buildtree huffman.treefrom huffman.freetree huffman.newreader huffman.read huffman.closereader
    huffman.newwriter huffman.write huffman.closewriter huffman.printcodes""".split()
    exe = lib_driver("compress", ["bits", "reader", "writer", "compress/lzw", "compress/huffman"], fs, "compress.c", pre=PRE)
    c.harness("lzw", exe, shards=NCPU, timeout=850, extra_env={"VP_PART": "lzw"})
    c.harness("huffman", exe, shards=NCPU, timeout=850, extra_env={"VP_PART": "huffman"})


if __name__ == "__main__":
    main("C28", body, ["symbols of a message are below the alphabet size given to the coder", "a Huffman text is encoded with the tree built from it; the reader knows the number of symbols"])
