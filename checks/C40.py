"""C40: WAV files and sound clips."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
void r_get(wav.reader_t *r, double *o) { sound.samplef_t s = wav.read_samplef(r); o[0] = s.left; o[1] = s.right; }
uint32_t r_info(wav.reader_t *r, int i) {
    if (i == 0) return r->wav.format;
    if (i == 1) return r->wav.channels;
    if (i == 2) return r->wav.frequency;
    return r->wav.bits_per_sample;
}
void c_push(sound.clip_t *c, double l, r) { sound.samplef_t s = {}; s.left = l; s.right = r; sound.push_sample(c, s); }
size_t c_n(sound.clip_t *c) { return c->nsamples; }
uint32_t c_freq(sound.clip_t *c) { return c->freq; }
void c_get(sound.clip_t *c, size_t i, double *o) { o[0] = c->samples[i].left; o[1] = c->samples[i].right; }
"""


def body(c):
    fs = "wav.open_writer wav.write_sample wav.close_writer wav.open_reader wav.more wav.close_reader wav.loadfile r_get r_info sound.newclip sound.freeclip sound.normalize sound.transpose c_push c_n c_freq c_get".split()
    exe = lib_driver("wav", ["formats/wav", "sound"], fs, "wav.c", pre=PRE)
    for p in ("read", "broken", "write", "clips"):
        c.harness(p, exe, shards=NCPU, timeout=850, extra_env={"VP_PART": p})


if __name__ == "__main__":
    main("C40", body, ["values written are between -1 and 1; a broken file that is accepted may give any samples, but not more than it has bytes"])
