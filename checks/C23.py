"""C23: text primitives: strings, tokenizer, error messages."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
error.t *er_new() { error.t *e = calloc!(1, sizeof(error.t)); return e; }
bool er_isset(error.t *e) { return e->set; }
char *er_msg(error.t *e) { return e->msg; }
"""


def body(c):
    def q(m, fs): return [m + "." + f for f in fs.split()]
    fs = q("strings", "newstr newsubstr trim rtrim split casecmp starts_with starts_with_i ends_with eq allupper fmt_bytes ascii_digit num_from_ascii") + \
        ["error.set", "er_new", "er_isset", "er_msg", "reader.new", "reader.free"] + \
        q("tokenizer", "from_str file new free peek more tail get buf_skip_set buf_skip buf_read_set spaces hspaces id num skip_literal literal_follows posstr buf_skip_until read_until")
    exe = lib_driver("text", ["strings", "tokenizer", "error", "reader"], fs, "text.c", pre=PRE)
    c.harness("text", exe, shards=NCPU, timeout=850)


if __name__ == "__main__":
    main("C23", body, ["texts contain no zero bytes", "a literal longer than the lookahead (100 characters) may stop the program"])
