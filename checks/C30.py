"""C30: CSV, conf, cue sheets, SRT and WebVTT."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
csv.writer_t *c_writer(FILE *f) { csv.writer_t *w = calloc!(1, sizeof(csv.writer_t)); w->f = f; return w; }
char *f_key(conf.reader_t *r) { return r->key; }
char *f_val(conf.reader_t *r) { return r->val; }
cue.cue_t *q_parse(const char *s, char *msg) { cue.err_t err = {}; cue.cue_t *c = cue.parse(s, &err); msg[0] = 0; if (err.set) snprintf(msg, 300, "%s", err.msg); return c; }
char *q_title(cue.track_t *t) { return t->title; }
srt.reader_t *s_new() { return calloc!(1, sizeof(srt.reader_t)); }
srt.block_t *s_blk() { return calloc!(1, sizeof(srt.block_t)); }
int s_index(srt.block_t *b) { return b->index; }
char *s_range(srt.block_t *b) { return b->range; }
char *s_text(srt.block_t *b) { return b->text; }
int64_t s_begin(srt.block_t *b) { return time.dur_us(&b->begin); }
int64_t s_end(srt.block_t *b) { return time.dur_us(&b->end); }
int64_t s_pos(const char *s) { time.duration_t d = srt.parsepos(s); return time.dur_us(&d); }
char *v_range(vtt.reader_t *r) { return r->timerange; }
char *v_text(vtt.reader_t *r) { return r->text; }
"""


def body(c):
    fs = """csv.newreader csv.freereader csv.readval csv.nextline csv.val csv.writeval c_writer conf.new conf.next conf.free f_key f_val q_parse cue.cue_free cue.cue_track
    cue.cue_ntracks cue.pos_us q_title s_new s_blk srt.readblock srt.printblock s_index s_range s_text s_begin s_end s_pos vtt.reader vtt.read vtt.err vtt.freereader v_range v_text""".split()
    exe = lib_driver("formats", ["formats/csv", "formats/conf", "formats/cue", "formats/srt", "formats/vtt", "time"], fs, "formats.c", pre=PRE)
    for p in ("csv", "conf", "cue", "srt", "vtt"):
        c.harness(p, exe, shards=NCPU, timeout=850, extra_env={"VP_PART": p})


if __name__ == "__main__":
    main("C30", body, ["CSV lines may end in any sequence of CR and LF, empty lines are skipped, text around a quoted value is unspecified",
                       "spaces around a conf value may be kept or dropped; cue sheets use the commands REM, PERFORMER, TITLE, FILE, TRACK and INDEX 00/01 with quoted titles",
                       "malformed files are read or refused safely"])
