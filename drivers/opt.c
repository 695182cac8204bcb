// opt: every argument vector up to a length over a token set, against a model of the documented syntax.
#include "vp.h"
FN(void, o_str, "", (const char *, const char *, char **)) FN(void, o_int, "", (const char *, const char *, int *)) FN(void, o_flag, "", (const char *, const char *, bool *)) FN(void, o_size, "", (const char *, const char *, size_t *)) FN(void, o_float, "", (const char *, const char *, float *)) FN(void, o_nargs, "", (size_t, const char *)) FN(char **, o_parse, "", (int, char **)) FN(int, o_usage, "", (void)) FN(void, o_summary, "", (const char *)) FN(void, o_addcmd, "", (const char *, int (*)(int, char **))) FN(int, o_dispatch, "", (int, char **))
static char *vs; static int vi; static size_t vz; static float vf; static bool vp_, vq, vh; static int mode; // nargs: -1 unset
static char *TOK[] = { "-s", "-i", "-z", "-f", "-p", "-q", "-pq", "-px", "-ps", "-h", "-", "--", "x", "10", "-5", "3.5", "", "-x", "-qqp", "007" };
enum { NT = sizeof TOK / sizeof *TOK };
typedef struct { char *s; int i; size_t z; float f; bool p, q, h; int fail, rest; } model;
static bool isint(const char *s) { if (*s == '-') s++; if (!*s) return false; for (; *s; s++) if (!isdigit(*s)) return false; return true; }
static bool *mflag(model *m, char c) { return c == 'p' ? &m->p : c == 'q' ? &m->q : c == 'h' && mode == 9 ? &m->h : 0; }
static void interp(char **v, model *m) {
  int k = 1; m->fail = 0;
  while (v[k]) { char *a = v[k]; if (a[0] != '-' || !a[1]) break;
    if (strlen(a) > 2) { for (char *c = a + 1; *c; c++) { bool *b = mflag(m, *c); if (!b) { m->fail = 1; return; } *b = true; } k++; continue; }
    char c = a[1]; bool *b = mflag(m, c); if (b) { *b = true; k++; continue; }
    if (!strchr("sizf", c)) { m->fail = 1; return; }
    char *x = v[k + 1]; if (!x) { m->fail = 1; return; }
    if (c == 's') m->s = x;
    else if (c == 'i') { if (!isint(x)) { m->fail = 1; return; } m->i = atoi(x); }
    else if (c == 'z') { if (!isint(x) || *x == '-') { m->fail = 1; return; } m->z = strtoul(x, 0, 10); }
    else { char *e; float f = strtof(x, &e); if (e == x) { m->fail = 1; return; } m->f = f; }
    k += 2; }
  m->rest = k; int n = 0; while (v[k + n]) n++;
  if (mode >= 0 && mode < 9 && n != mode) m->fail = 1;
}
static void run(long seq, int depth) {
  char *v[16]; char d[200] = ""; v[0] = "prog"; for (int i = 0; i < depth; i++, seq /= NT) { v[i + 1] = TOK[seq % NT]; sprintf(d + strlen(d), "[%s]", v[i + 1]); } v[depth + 1] = 0;
  vp_case("opt mode=%d args=%s", mode, d);
  model m = { "def", 7, 8, 1.5f }; interp(v, &m);
  vs = "def"; vi = 7; vz = 8; vf = 1.5f; vp_ = vq = vh = false; char **r = 0; vp_exitcode = 0;
  int p = VP_TRY(r = o_parse(depth + 1, v)); vp_states++; vp_traces++; vp_trans += depth;
  if (p != m.fail) { vp_viol("optfail", p ? "refused" : "accepted"); return; }
  if (p) { if (vp_exitcode == 0) vp_viol("optstatus", "refused with exit status 0"); return; }
  if (strcmp(vs, m.s) || vi != m.i || vz != m.z || vf != m.f || vp_ != m.p || vq != m.q || vh != m.h) vp_viol("optval", "values s=%s i=%d z=%zu f=%g p=%d q=%d, expected s=%s i=%d z=%zu f=%g p=%d q=%d", vs, vi, vz, vf, vp_, vq, m.s, m.i, m.z, m.f, m.p, m.q);
  if (r != v + m.rest) vp_viol("optrest", "positional arguments start at %d, expected %d", (int)(r - v), m.rest);
}
// every kind of value, as text and as number
static void values(void) {
  static char *VAL[] = { "0", "1", "-1", "-0", "00", "-00", "-05", "2147483647", "-2147483648", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "+5", "5x", "x5", " 5", "5 ", "", "-", "--", "1e3", "0x10", "12345678901", "1.5", "-1.5", ".5", "1e-3", "-p", "-s", "a value with spaces", "\xc3\xa9" };
  for (int o = 0; o < 4; o++) for (int a = 0; a < sizeof VAL / sizeof *VAL; a++) for (int w = 0; w < 3; w++) { char *v[8] = { "prog", (char *[]){ "-s", "-i", "-z", "-f" }[o], VAL[a], w > 0 ? "-p" : 0, w > 1 ? "rest" : 0, 0 }; int n = 3 + w; vp_case("opt mode=%d %s [%s] and %d more", mode, v[1], VAL[a], w); if (o == 1 && (strlen(VAL[a]) > 11 || strtol(VAL[a], 0, 10) != (int)strtol(VAL[a], 0, 10))) continue;
    model m = { "def", 7, 8, 1.5f }; interp(v, &m); vs = "def"; vi = 7; vz = 8; vf = 1.5f; vp_ = vq = vh = false; char **r = 0; vp_exitcode = 0; int p = VP_TRY(r = o_parse(n, v)); vp_states++; vp_traces++; vp_trans++;
    if (p != m.fail) { vp_viol("optfail", p ? "refused" : "accepted"); continue; } if (p) { if (vp_exitcode == 0) vp_viol("optstatus", "refused with exit status 0"); continue; }
    if (strcmp(vs, m.s) || vi != m.i || vz != m.z || vf != m.f || vp_ != m.p || vq != m.q || vh != m.h || r != v + m.rest) vp_viol("optval", "values s=%s i=%d z=%zu f=%g p=%d q=%d, expected s=%s i=%d z=%zu f=%g p=%d q=%d", vs, vi, vz, vf, vp_, vq, m.s, m.i, m.z, m.f, m.p, m.q); } }
// as many options as there can be, in both cases of letters
static int c9(int n, char **v);
static void wide(void) {
  static char L[] = "aAbBcCdDeEfFgGiIjJkKlLmMnNoOpP01"; static bool fl[32]; static int in[32]; static size_t sz[32]; static char *st[32]; static float ft[32]; static char nm[32][2]; 
  for (int i = 0; i < 32; i++) { nm[i][0] = L[i]; switch (i % 5) { case 0: o_flag(nm[i], "x", &fl[i]); break; case 1: o_int(nm[i], "x", &in[i]); break; case 2: o_size(nm[i], "x", &sz[i]); break; case 3: o_str(nm[i], "x", &st[i]); break; default: o_float(nm[i], "x", &ft[i]); } }
  static bool more; if (!VP_TRY(o_flag("z", "x", &more))) vp_viol("optmany", "a 33rd option is accepted"); o_usage();
  for (int i = 0; i < 256; i++) for (int j = -1; j < 32; j++) { if (!i) continue; char f1[3] = { '-', i }, f2[3] = { '-', j < 0 ? 'a' : L[j] }; char *v[6] = { "prog", f1 }; int n = 2, k1 = -1; for (int k = 0; k < 32; k++) if (L[k] == i) k1 = k; if (i == 'h' || (i == '-' )) continue; if (k1 < 0 || k1 % 5) v[n++] = "11"; int known = n; if (j >= 0) { v[n++] = f2; if (j % 5) v[n++] = "22"; } v[n] = 0; vp_case("many options: -%s %s then -%c", vp_show(f1 + 1, 1), k1 < 0 || k1 % 5 ? "11" : "", j < 0 ? ' ' : L[j]); for (int k = 0; k < 32; k++) { fl[k] = 0; in[k] = 0; sz[k] = 0; st[k] = ""; ft[k] = 0; } char **r = 0; int p = VP_TRY(r = o_parse(n, v)); vp_states++; vp_traces++; vp_trans++; (void)known;
    if (p != (k1 < 0)) { vp_viol("optmany", p ? "refused" : "accepted"); continue; } if (p) continue; if (*r) { vp_viol("optmany", "something is left"); continue; } for (int k = 0; k < 32; k++) { int e = k == j ? (k % 5 ? 22 : 1) : k == k1 ? (k % 5 ? 11 : 1) : 0; int g = k % 5 == 0 ? fl[k] : k % 5 == 1 ? in[k] : k % 5 == 2 ? (int)sz[k] : k % 5 == 3 ? atoi(st[k]) : (int)ft[k]; if (g != e) { vp_viol("optmany", "-%c is %d instead of %d", L[k], g, e); break; } } }
  for (int m = 1; m < 128; m++) { char g[10] = "-"; for (int b = 0; b < 7; b++) if (m >> b & 1) { g[strlen(g) + 1] = 0; g[strlen(g)] = L[b * 5]; } for (int k = 0; k < 32; k++) fl[k] = 0; char *v[] = { "prog", g, 0 }; vp_case("many options: %s", g); vp_states++; if (VP_TRY(o_parse(2, v))) { vp_viol("optmany", "refused"); continue; } for (int b = 0; b < 7; b++) if (fl[b * 5] != (m >> b & 1)) { vp_viol("optmany", "-%c", L[b * 5]); break; } }
  static char cn[10][4]; int acc = 0; for (int i = 0; i < 10; i++) { sprintf(cn[i], "c%d", i); if (VP_TRY(o_addcmd(cn[i], c9))) break; acc++; } if (acc < 10) vp_viol("optmany", "only %d subcommands", acc); for (int i = 0; i < 10; i++) { char *v[] = { "prog", cn[i], 0 }; int r = 0; vp_case("subcommand %d", i); vp_states++; if (VP_TRY(r = o_dispatch(2, v)) || r != 100 + i) vp_viol("optmany", "status %d", r); } if (!VP_TRY(o_addcmd("more", c9))) { char *v[] = { "prog", "more", 0 }; int r = 0; if (VP_TRY(r = o_dispatch(2, v)) || r != 100 + 'o' - '0') vp_viol("optmany", "an eleventh subcommand gives %d", r); }
}
static int c9(int n, char **v) { return n == 1 ? 100 + v[0][1] - '0' : 0; }
static int called, cargc; static char **cargv;
static int c0(int n, char **v) { called = 0; cargc = n; cargv = v; return 40; }
static int c1(int n, char **v) { called = 1; cargc = n; cargv = v; return 41; }
static int c2(int n, char **v) { called = 2; cargc = n; cargv = v; return 0; }
void vp_body(void) {
  BIND(o_str, "opt.str"); BIND(o_int, "opt.opt_int"); BIND(o_flag, "opt.flag"); BIND(o_size, "opt.size"); BIND(o_float, "opt.opt_float"); BIND(o_nargs, "opt.nargs"); BIND(o_parse, "opt.parse"); BIND(o_usage, "opt.usage"); BIND(o_summary, "opt.summary"); BIND(o_addcmd, "opt.addcmd"); BIND(o_dispatch, "opt.dispatch");
  vp_quiet(1); mode = vp_shard % 6 == 0 ? -1 : vp_shard % 6 == 5 ? 9 : vp_shard % 6 - 1; // -1 0 1 2 3 9
  if (vp_shard == 6) { wide(); return; }
  vs = "def";
  o_str("s", "a string", &vs); o_int("i", "an int", &vi); o_size("z", "a size", &vz); o_float("f", "a float", &vf); o_flag("p", "flag p", &vp_); o_flag("q", "flag q", &vq); if (mode == 9) o_flag("h", "flag h", &vh);
  if (mode >= 0 && mode < 9) o_nargs(mode, mode == 2 ? "" : "things"); o_summary("text"); if (o_usage() != 1) vp_viol("usage", "usage");
  for (int d = 0; d <= (vp_thorough ? 5 : 4); d++) { long t = 1; for (int i = 0; i < d; i++) t *= NT; for (long s = 0; s < t; s++) { run(s, d); if (!(s & 4095)) vp_tick(); } }
  values();
  o_addcmd("a", c0); o_addcmd("ab", c1); o_addcmd("b", c2); static char *W[] = { "a", "ab", "b", "c", "", "-x", "abc" };
  for (int i = 0; i < 7; i++) for (int n = 0; n < 3; n++) { char *v[] = { "prog", W[i], n > 0 ? "x" : 0, n > 1 ? "y" : 0, 0 }; vp_case("dispatch %s %d", W[i], n); called = -1; int r = -1; VP_TRY(r = o_dispatch(n + 2, v)); vp_states++; vp_trans++;
    int w = i < 3 ? i : -1; if (called != w) vp_viol("dispatch", "command %d called, expected %d", called, w); else if (w < 0 ? r == 0 : r != (w == 0 ? 40 : w == 1 ? 41 : 0)) vp_viol("dispstatus", "status %d", r); else if (w >= 0 && (cargc != n + 1 || cargv != v + 1)) vp_viol("dispargs", "argc %d", cargc); }
  { char *v[] = { "prog", 0 }; called = -1; if (o_dispatch(1, v) == 0 || called >= 0) vp_viol("dispnone", "no subcommand"); }
  vp_sample("all argument vectors up to %d of %d tokens, 6 settings of nargs/-h; subcommand dispatch", vp_thorough ? 5 : 4, NT);
}
