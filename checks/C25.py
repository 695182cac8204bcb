"""C25: time and durations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
bool d_fmt(int64_t us, char *buf, size_t n, const char *f) { time.duration_t d = time.newdur(us, time.US); return time.dur_fmt(&d, buf, n, f); }
bool d_parse(const char *s, int64_t *us) { time.duration_t d = {}; error.t err = {}; bool ok = time.parse_duration(s, &d, &err); if (!ok && !err.set) panic("no error"); *us = time.dur_us(&d); return ok; }
int64_t d_add(int64_t a, int64_t b) { time.duration_t x = time.newdur(a, time.US); time.duration_t y = time.newdur(b, time.US); time.duration_t r = time.dur_add(x, y); return time.dur_us(&r); }
int64_t d_new(int64_t a, int u) { time.duration_t x = time.newdur(a, u); return time.dur_us(&x); }
int64_t d_set(int64_t a, int u) { time.duration_t x = {}; time.dur_set(&x, a, u); return time.dur_us(&x); }
int unit(int k) { if (k == 0) return time.US; if (k == 1) return time.MS; if (k == 2) return time.SECONDS; return time.MINUTES; }
void put(time.iso_t r, int *o) { o[0] = r.Y; o[1] = r.M; o[2] = r.D; o[3] = r.h; o[4] = r.m; o[5] = r.s; o[6] = r.ms; o[7] = r.zh; o[8] = r.zm; }
time.iso_t get(int *o) { time.iso_t r = { .Y = o[0], .M = o[1], .D = o[2], .h = o[3], .m = o[4], .s = o[5], .ms = o[6], .zh = o[7], .zm = o[8] }; return r; }
void t_unix(int64_t s, int *o) { put(time.fromunix(s), o); }
void t_parse(const char *s, int *o) { put(time.parse_iso(s), o); }
bool t_fmt(int *o, char *b, size_t n) { return time.fmt_iso_iso(get(o), b, n); }
int64_t t_sub(int *a, int *b) { return time.sub(get(a), get(b)); }
void t_local(int *a) { time.iso_t r = get(a); time.iso_tolocal(&r); put(r, a); }
bool t_sleep(int64_t us) { return time.sleep(us); }
void t_now(int *a) { put(time.now(), a); }
"""


def body(c):
    fs = "d_fmt d_parse d_add d_new d_set unit t_unix t_parse t_fmt t_sub t_local t_now t_sleep".split()
    exe = lib_driver("times", ["time", "error"], fs, "times.c", pre=PRE)
    c.harness("times", exe, shards=NCPU, timeout=850)


if __name__ == "__main__":
    main("C25", body, ["durations are not negative; zones are written as Z or +hh:mm"])
