// Line formats: CSV, conf, cue sheets, SRT and WebVTT subtitles.
#include "vp.h"
FN(void *, c_new, "", (void)) FN(void, c_free, "", (void *)) FN(bool, c_read, "", (void *)) FN(bool, c_next, "", (void *)) FN(const char *, c_val, "", (void *)) FN(void, c_write, "", (void *, const char *)) FN(void *, c_writer, "", (FILE *))
FN(void *, f_new, "", (FILE *)) FN(bool, f_next, "", (void *)) FN(void, f_free, "", (void *)) FN(const char *, f_key, "", (void *)) FN(const char *, f_val, "", (void *))
FN(void *, q_parse, "", (const char *, char *)) FN(void, q_free, "", (void *)) FN(void *, q_track, "", (void *, int)) FN(int, q_n, "", (void *)) FN(int64_t, q_us, "", (void *)) FN(const char *, q_title, "", (void *))
FN(void *, s_new, "", (void)) FN(void *, s_blk, "", (void)) FN(bool, s_read, "", (void *, void *)) FN(void, s_print, "", (void *)) FN(int, s_index, "", (void *)) FN(const char *, s_range, "", (void *)) FN(const char *, s_text, "", (void *)) FN(int64_t, s_begin, "", (void *)) FN(int64_t, s_end, "", (void *)) FN(int64_t, s_pos, "", (const char *))
FN(void *, v_new, "", (FILE *)) FN(bool, v_read, "", (void *)) FN(char *, v_err, "", (void *)) FN(void, v_free, "", (void *)) FN(const char *, v_range, "", (void *)) FN(const char *, v_text, "", (void *))

static FILE *mem(const void *p, size_t n) { if (n == 0) return fopen("/dev/null", "r"); return fmemopen((void *)p, n, "r"); }
typedef struct { char *p; size_t n; } blob;
static char T[1 << 17]; static size_t tn;
static void add(const char *fmt, ...) { va_list a; va_start(a, fmt); tn += vsnprintf(T + tn, sizeof T - tn, fmt, a); va_end(a); if (tn >= sizeof T) { fprintf(stderr, "T too small\n"); abort(); } }
static void fill(char *d, int n, char c) { memset(d, c, n); d[n] = 0; }

// ---- CSV
#define MC 600
static char *cell[64][MC]; static int ncell[64], nrow;
static char cbuf[1 << 18]; static size_t cbn;
static char *keep(const char *s, size_t n) { char *d = cbuf + cbn; memcpy(d, s, n); d[n] = 0; cbn += n + 1; return d; }
// RFC 4180 with any sequence of CR and LF as a line end; 0: unspecified
static int csv_model(const char *t, size_t n) {
  nrow = 0; cbn = 0; size_t i = 0; static char b[1 << 17];
  while (i < n) {
    if (t[i] == '\n' || t[i] == '\r') { i++; continue; }
    int r = nrow++; ncell[r] = 0;
    while (1) {
      size_t k = 0;
      if (i < n && t[i] == '"') { i++; while (1) { if (i == n) return 0; if (t[i] == '"') { if (i + 1 < n && t[i + 1] == '"') { b[k++] = '"'; i += 2; continue; } i++; break; } b[k++] = t[i++]; } if (i < n && !strchr(",\r\n", t[i])) return 0; }
      else while (i < n && !strchr(",\r\n", t[i])) { if (t[i] == '"') return 0; b[k++] = t[i++]; }
      cell[r][ncell[r]++] = keep(b, k);
      if (i < n && t[i] == ',') { i++; continue; }
      break; } }
  return 1; }
static void csv_check(const char *t, size_t n, int take, int ok) { // take: how many values of a line are read, -1: all
  vp_mark(); FILE *f = mem(t, n), *old = stdin; void *volatile r = 0; volatile int row = 0, bad = 0; volatile int more = 1; stdin = f; vp_states++;
  if (VP_TRY(r = c_new())) { stdin = old; fclose(f); vp_viol("csv-new", "newreader ends the program"); return; }
  int p = VP_TRY(while (more) { int k = 0, any = 0; while (k < (take < 0 ? 1 << 30 : take) && c_read(r)) { any = 1; if (ok && !bad) { if (row >= nrow || k >= ncell[row]) { bad = 1; vp_viol("csv-extra", "an extra value %s in line %d", vp_show(c_val(r), strlen(c_val(r))), row); } else if (strcmp(c_val(r), cell[row][k])) { bad = 1; vp_viol("csv-value", "value %d of line %d is %s, expected %s", k, row, vp_show(c_val(r), strlen(c_val(r))), vp_show(cell[row][k], strlen(cell[row][k]))); } } k++; vp_trans++; }
    if (ok && !bad && any && take < 0 && k != ncell[row]) { bad = 1; vp_viol("csv-count", "%d values in line %d, expected %d", k, row, ncell[row]); } if (any) row++; more = c_next(r); });
  stdin = old; vp_traces++;
  if (p) { fclose(f); if (ok) vp_viol("csv-panic", "reading ends the program"); return; } // unspecified texts may end it
  if (ok && !bad && take != 0 && row != nrow) vp_viol("csv-rows", "%d lines, expected %d", row, nrow);
  c_free(r); fclose(f); long l = vp_leaked(); if (l) vp_viol("leak", "csv: %ld blocks not released", l); }
static void csv_rt(void) { // the table in cell[][] through the writer
  char *out = 0; size_t on = 0; FILE *f = open_memstream(&out, &on); void *w = c_writer(f);
  for (int r = 0; r < nrow; r++) { for (int k = 0; k < ncell[r]; k++) c_write(w, cell[r][k]); c_write(w, NULL); } free(w); fflush(f); fclose(f);
  static char *want[64][MC]; int wn[64], wr = nrow; for (int r = 0; r < nrow; r++) { wn[r] = ncell[r]; for (int k = 0; k < ncell[r]; k++) want[r][k] = strdup(cell[r][k]); }
  // for any other reader
  if (!csv_model(out, on)) vp_viol("csv-write", "written text is malformed: %s", vp_show(out, on)); else { int bad = nrow != wr; for (int r = 0; r < wr && !bad; r++) { if (ncell[r] != wn[r]) bad = 1; for (int k = 0; k < wn[r] && !bad; k++) if (strcmp(cell[r][k], want[r][k])) bad = 1; } if (bad) vp_viol("csv-write", "written text %s means another table", vp_show(out, on)); else csv_check(out, on, -1, 1); }
  for (int r = 0; r < wr; r++) for (int k = 0; k < wn[r]; k++) free(want[r][k]); free(out); }
static void csv(void) {
  long job = 0; static const char A[] = "a,\"\n\r"; int N = vp_thorough ? 9 : 7;
  for (int n = 0; n <= N; n++) { long t = 1; for (int i = 0; i < n; i++) t *= 5; for (long v = 0; v < t; v++) { if (!MINE(job++)) continue; if (v % 4096 < 8) vp_tick(); char s[16]; long x = v; for (int i = 0; i < n; i++, x /= 5) s[i] = A[x % 5]; s[n] = 0; vp_case("csv text %s", vp_show(s, n)); int ok = csv_model(s, n); if (job / vp_nshards % 9001 == 5 && ok) vp_sample("csv %s: %d lines", vp_show(s, n), nrow); csv_check(s, n, -1, ok); if (n < 7) { csv_check(s, n, 0, ok); csv_check(s, n, 1, ok); } } }
  static const char *V[] = { "", "a", ",", "\"", "\n", "\r\n", "\xff", "\"\"", "a,\"b\"\nc", " x ", "\\\"", "0" }; int nv = 12;
  for (int rows = 1; rows <= 2; rows++) for (int cols = 1; cols <= 2; cols++) { long t = 1; for (int i = 0; i < rows * cols; i++) t *= nv; for (long v = 0; v < t; v++) { if (!MINE(job++)) continue; if (v % 512 < 8) vp_tick(); vp_case("csv table %dx%d %ld", rows, cols, v); long x = v; nrow = rows; for (int r = 0; r < rows; r++) { ncell[r] = cols; for (int k = 0; k < cols; k++, x /= nv) cell[r][k] = (char *)V[x % nv]; } csv_rt(); } }
  for (int c = 1; c < 256; c++) { if (!MINE(job++)) continue; char s[4] = { 'x', c, 'y', 0 }, s1[2] = { c, 0 }; vp_case("csv byte %d", c); nrow = 1; ncell[0] = 2; cell[0][0] = s; cell[0][1] = s1; csv_rt(); if (c != '"' && c != ',' && c != '\n' && c != '\r') { char u[8] = { c, ',', 'a', c, 'b', '\n', c, 0 }; csv_model(u, 7); csv_check(u, 7, -1, 1); } }
  for (int q = 0; q < 2; q++) for (int L = 0; L < 5000; L += L >= 90 && L < 4000 ? 97 : L > 4200 ? 333 : 1) { if (!MINE(job++)) continue; vp_tick(); vp_case("csv value of %d bytes, quoted %d", L, q); static char s[6000], u[13000]; fill(s, L, 'k'); int n = sprintf(u, q ? "a,\"%s\"\"\",b\n\"%s\",c\n" : "a,%s,b\n%sz,c\n", s, s); int ok = csv_model(u, n); csv_check(u, n, -1, ok); }
  { vp_case("csv long"); static char s[9001], u[20000]; fill(s, 9000, 'k'); int n = sprintf(u, "\"%s\",b\n%s,c\n", s, s); csv_model(u, n); csv_check(u, n, -1, 1); }
  for (int q = 0; q < 8; q++) { if (!MINE(job++)) continue; vp_tick(); int L = (int[]){ 8191, 8192, 8193, 16384, 16385, 20000, 32769, 60000 }[q]; vp_case("csv value of %d bytes", L); static char s[60001], u[130000]; fill(s, L, 'k'); int n = sprintf(u, "a,%s\n\"%s\",c\n", s, s); csv_model(u, n); csv_check(u, n, -1, 1); nrow = 1; ncell[0] = 2; cell[0][0] = "x"; cell[0][1] = s; csv_rt(); }
  for (int k = 1; k < 60; k++) { if (!MINE(job++)) continue; vp_case("csv line of %d values with quotes", k); nrow = 2; for (int r = 0; r < 2; r++) { ncell[r] = k; for (int i = 0; i < k; i++) cell[r][i] = i % 3 == 0 ? "q\"q" : i % 3 == 1 ? "c,c" : "n\nn\""; } csv_rt(); }
  for (int k = 1; k < 300; k += 7) { if (!MINE(job++)) continue; vp_case("csv line of %d values", k); nrow = 2; for (int r = 0; r < 2; r++) { ncell[r] = k; for (int i = 0; i < k; i++) cell[r][i] = i % 2 ? "v" : ""; } csv_rt(); }
}

// ---- conf
static int conf_model(const char *t, size_t n, char keys[][128], char vals[][256], int *err) { // pairs, then err if a line is bad; -1 unspecified
  int c = 0; size_t i = 0; *err = 0; 
  while (i < n) { size_t j = i; while (j < n && t[j] != '\n') j++; size_t e = i; while (e < j && t[e] != '#') e++; size_t b = i; i = j + 1; while (b < e && isspace((uint8_t)t[b])) b++; if (b == e) continue;
    size_t te = e; while (te > b && isspace((uint8_t)t[te - 1])) te--;
    size_t k = b; while (k < e && t[k] != '=' && t[k] != ' ') k++; if (k == b) return -1;
    for (size_t z = b; z < k; z++) if (isspace((uint8_t)t[z])) return -1;
    if (k == e) { *err = 1; return c; } size_t v = k; while (v < e && (t[v] == '=' || t[v] == ' ')) v++; if (v >= te) { for (size_t z = k; z < e; z++) if (t[z] != '=' && t[z] != ' ') return -1; *err = 1; return c; }
    if (isspace((uint8_t)t[v])) return -1;
    snprintf(keys[c], 128, "%.*s", (int)(k - b), t + b); snprintf(vals[c], 256, "%.*s", (int)(te - v), t + v); c++; }
  return c; }
static char K[40][128], V[40][256];
static void conf_check(const char *t, size_t n) {
  int err, c = conf_model(t, n, K, V, &err); FILE *f = mem(t, n); vp_mark(); void *r = f_new(f); volatile int i = 0, bad = 0; vp_states++; vp_traces++;
  int p = VP_TRY(while (f_next(r)) { vp_trans++; if (c < 0 || bad) { i++; if (i > 1000) break; continue; } if (i >= c) { bad = 1; vp_viol("conf-extra", "an extra pair %s = %s", f_key(r), f_val(r)); } else { char v[256]; snprintf(v, 256, "%s", f_val(r)); size_t k = strlen(v); while (k && isspace((uint8_t)v[k - 1])) v[--k] = 0; if (strcmp(f_key(r), K[i]) || strcmp(v, V[i])) { bad = 1; vp_viol("conf-pair", "pair %d is %s = %s, expected %s = %s", i, vp_show(f_key(r), strlen(f_key(r))), vp_show(v, k), vp_show(K[i], strlen(K[i])), vp_show(V[i], strlen(V[i]))); } } i++; });
  if (c >= 0 && !bad) { if (i < c) vp_viol("conf-lost", "%d pairs, expected %d", i, c); if (p != err) vp_viol("conf-err", err ? "a line without a value is accepted" : "reading ends the program"); if (p && err && vp_exitcode == 0) vp_viol("conf-exit", "a bad line gives exit status 0"); }
  f_free(r); fclose(f); if (vp_leaked()) vp_viol("leak", "conf: blocks not released"); }
static void conf(void) {
  long job = 0; static const char A[] = "ab= #\n"; int N = vp_thorough ? 9 : 7;
  for (int n = 0; n <= N; n++) { long t = 1; for (int i = 0; i < n; i++) t *= 6; for (long v = 0; v < t; v++) { if (!MINE(job++)) continue; if (v % 4096 < 8) vp_tick(); char s[16]; long x = v; for (int i = 0; i < n; i++, x /= 6) s[i] = A[x % 6]; s[n] = 0; vp_case("conf text %s", vp_show(s, n)); conf_check(s, n); } }
  static const char *L[] = { "", "a = 1", "a=1", "key   =  some value", "b = 2 # comment", "# comment = x", "   c = d = e", "\tx = y", "a = 1\r", "   ", "k = \xff\xfe", "# \xff", "k \"quoted value\"", "k==v", "#", "path = /usr/local/x.y:z" }; int nl = 16;
  for (int n = 1; n <= 3; n++) { long t = 1; for (int i = 0; i < n; i++) t *= nl; for (long v = 0; v < 2 * t; v++) { if (!MINE(job++)) continue; if (v % 512 < 8) vp_tick(); tn = 0; long x = v / 2; for (int i = 0; i < n; i++, x /= nl) add(i + 1 < n || v % 2 ? "%s\n" : "%s", L[x % nl]); vp_case("conf lines %s", vp_show(T, tn)); conf_check(T, tn); } }
  for (int c = 1; c < 256; c++) { if (c == '#' || c == '=' || c == '\n' || isspace(c)) continue; if (!MINE(job++)) continue; tn = 0; vp_case("conf byte %d", c); add("k%c = v%cw\nn = %c\nz = 1\n", c, c, c); conf_check(T, tn); }
  // lengths: exact or a reported failure
  for (int kl = 1; kl < 140; kl += kl > 90 && kl < 110 ? 1 : 13) for (int vl = 1; vl < 300; vl += vl > 190 && vl < 260 ? 1 : 17) { if (!MINE(job++)) continue; vp_tick(); char k[200], v[400]; fill(k, kl, 'k'); fill(v, vl, 'v'); tn = 0; add("%s=%s\nz = 1\n", k, v); vp_case("conf key of %d, value of %d bytes", kl, vl); vp_states++; FILE *f = mem(T, tn); void *r = f_new(f); volatile int ok = 0; int p = VP_TRY(ok = f_next(r)); vp_trans++;
      if (kl < 100 && vl < 200 && kl + vl < 254 && p) vp_viol("conf-long", "reading ends the program"); if (!p && (!ok || strcmp(f_key(r), k) || strcmp(f_val(r), v))) vp_viol("conf-long", "the pair is %s = %s", f_key(r), f_val(r)); if (!p) { p = VP_TRY(ok = f_next(r)); if (p || !ok || strcmp(f_key(r), "z") || strcmp(f_val(r), "1")) vp_viol("conf-long", "the next pair is lost"); } f_free(r); fclose(f); }
}

// ---- cue
static char qt[128][512]; static int64_t qp[128]; static int qn;
static void cue_check(int wantfail) {
  T[tn] = 0; char msg[300] = { 0 }; vp_mark(); char *s = vp_raw(tn + 1); memcpy(s, T, tn + 1); void *volatile c = 0; int p = VP_TRY(c = q_parse(s, msg)); vp_states++; vp_trans++; vp_traces++;
  if (p) { free(s); if (!wantfail) vp_viol("cue-panic", "parsing ends the program"); return; }
  if (!c) { free(s); if (!wantfail) vp_viol("cue-refused", "refused: %s", msg); if (!msg[0]) vp_viol("cue-err", "empty error"); if (vp_leaked()) vp_viol("leak", "cue: blocks not released after an error"); return; }
  if (wantfail == 1) vp_viol("cue-accepted", "accepted");
  if (!wantfail) { if (q_n(c) != qn) vp_viol("cue-count", "%d tracks, expected %d", q_n(c), qn); else for (int i = 0; i < qn; i++) { void *t = q_track(c, i); if (strcmp(q_title(t), qt[i])) vp_viol("cue-title", "title of track %d is %s, expected %s", i, vp_show(q_title(t), strlen(q_title(t))), vp_show(qt[i], strlen(qt[i]))); int64_t d = q_us(t) - qp[i]; if (d < -1 || d > 1) vp_viol("cue-pos", "position of track %d is %ld us, expected %ld", i, (long)q_us(t), (long)qp[i]); }
    if (q_track(c, -1) || q_track(c, qn)) vp_viol("cue-range", "a track outside of the list"); }
  q_free(c); free(s); if (vp_leaked()) vp_viol("leak", "cue: blocks not released"); }
static int64_t cus(int m, int s, int f) { return (int64_t)(m * 60 + s) * 1000000 + (int64_t)f * 1000000 / 75; }
static void cue(void) {
  long job = 0; static const char *TT[] = { "", "a", "A b/c: d", "\xd0\x9f'", "TRACK 02 AUDIO", "  x  " };
  // layout: header lines x tracks x line ends x indentation x titles before/after other lines
  for (int h = 0; h < 16; h++) for (int nt = 0; nt <= 3; nt++) for (int crlf = 0; crlf < 2; crlf++) for (int ind = 0; ind < 3; ind++) for (int last = 0; last < 3; last++) for (int lay = 0; lay < 12; lay++) { if (!MINE(job++)) continue; if (job % 512 < 8) vp_tick();
    const char *e = crlf ? "\r\n" : "\n", *in = ind == 0 ? "" : ind == 1 ? "  " : "\t"; tn = 0; qn = nt;
    if (h & 1) add("REM GENRE \"x\" y%s", e); if (h & 2) add("PERFORMER \"Some One\"%s", e); if (h & 4) add("TITLE \"The album\"%s", e); if (h & 8) add("FILE \"a b.mp3\" MP3%s", e);
    for (int i = 0; i < nt; i++) { int m = i * 61, s = (i * 17 + lay) % 60, f = (i * 37 + h * 5) % 75; strcpy(qt[i], TT[(i + lay) % 6]); qp[i] = cus(m, s, f); int order = lay % 6;
      add("%sTRACK %02d AUDIO%s", in, i + 1, e); if (lay >= 6) add("%s%sREM x%s", in, in, e); 
      if (order < 3) add("%s%sTITLE \"%s\"%s", in, in, qt[i], e); if (order % 3 == 1) add("%s%sPERFORMER \"P\"%s", in, in, e); if (order % 3 == 2) add("%s%sINDEX 00 %02d:%02d:%02d%s", in, in, m, s ? s - 1 : 0, 3, e);
      if (order >= 3) { add("%s%sINDEX 01 %02d:%02d:%02d%s", in, in, m, s, f, e); add("%s%sTITLE \"%s\"%s", in, in, qt[i], e); } else add("%s%sINDEX 01 %02d:%02d:%02d%s", in, in, m, s, f, e); }
    if (last == 1 && tn >= strlen(e)) tn -= strlen(e); if (last == 2) add("%s", e); T[tn] = 0;
    vp_case("cue sheet %s", vp_show(T, tn)); if (job / vp_nshards % 501 == 3) vp_sample("cue %s", vp_show(T, tn)); cue_check(0); }
  for (int m = 0; m < (vp_thorough ? 200 : 110); m += vp_thorough ? 1 : 9) for (int s = 0; s < 60; s++) for (int f = 0; f < 75; f++) { if (!MINE(job++)) continue; if (f == 0) vp_tick(); tn = 0; qn = 1; strcpy(qt[0], "t"); qp[0] = cus(m, s, f); add("TRACK 01 AUDIO\nTITLE \"t\"\nINDEX 01 %02d:%02d:%02d\n", m, s, f); vp_case("cue position %d:%d:%d", m, s, f); cue_check(0); }
  for (int L = 0; L < 330; L++) { if (!MINE(job++)) continue; vp_tick(); char t[400]; fill(t, L, 't'); tn = 0; qn = 2; strcpy(qt[0], t); strcpy(qt[1], "u"); qp[0] = 0; qp[1] = cus(1, 2, 3); add("TITLE \"%s\"\nPERFORMER \"%.99s\"\nFILE \"%.99s\" MP3\nTRACK 01 AUDIO\nTITLE \"%s\"\nINDEX 01 00:00:00\nTRACK 02 AUDIO\nTITLE \"u\"\nINDEX 01 01:02:03\n", t, t, t, t); vp_case("cue title of %d bytes", L); cue_check(L < 300 ? 0 : 2);
    tn = 0; add("REM %s\nFILE \"%s\" MP3\nTRACK 01 %s\nINDEX 01 %*s00:00:01\n", t, t, t, L, ""); vp_case("cue lines of %d bytes", L); cue_check(2); }
  for (int n = 90; n < 106; n++) { if (!MINE(job++)) continue; vp_tick(); tn = 0; qn = n; for (int i = 0; i < n; i++) { sprintf(qt[i], "t%d", i); qp[i] = cus(i, 1, i % 75); add("TRACK %02d AUDIO\nTITLE \"t%d\"\nINDEX 01 %02d:01:%02d\n", i + 1, i, i, i % 75); } vp_case("cue with %d tracks", n); cue_check(n <= 100 ? 0 : 1); }
  static const char *B[] = { "INDEX 01 00:00:00\n", "FOO bar\n", "TITLE x\n", "TITLE \"x\n", "TRACK x AUDIO\n", "TRACK 01 AUDIO\nINDEX 01 00:00\n", "TRACK 01 AUDIO\nINDEX x\n", "FILE x\n", "TRACK 01 AUDIO\nINDEX 01\n", "TITLE" }; for (int i = 0; i < 10; i++) for (int cut = 0; cut < 30; cut++) { if (!MINE(job++)) continue; tn = 0; add("%s", B[i]); if (cut && cut < tn) T[tn = cut] = 0; vp_case("cue malformed %s", vp_show(T, tn)); cue_check(cut && cut < strlen(B[i]) ? 2 : 1); }
}

// ---- srt
typedef struct { int idx; int64_t b, e; char text[6000]; char range[64]; } sb; static sb SB[64]; static int sn;
static void stamp(char *d, int64_t ms) { sprintf(d, "%02d:%02d:%02d,%03d", (int)(ms / 3600000), (int)(ms / 60000 % 60), (int)(ms / 1000 % 60), (int)(ms % 1000)); }
static void trimmed(char *s) { size_t n = strlen(s); while (n && isspace((uint8_t)s[n - 1])) s[--n] = 0; size_t k = 0; while (isspace((uint8_t)s[k])) k++; memmove(s, s + k, n - k + 1); }
static void srt_check(int strict) {
  FILE *f = mem(T, tn), *old = stdin; void *r = s_new(), *b = s_blk(); volatile int i = 0, bad = 0; stdin = f; vp_states++; vp_traces++; vp_mark();
  char *out = 0; size_t on = 0; FILE *of = open_memstream(&out, &on), *oo = stdout;
  int p = VP_TRY(while (s_read(r, b)) { vp_trans++; if (!strict || bad) { if (i++ > 1000) break; continue; } if (i >= sn) { bad = 1; vp_viol("srt-extra", "an extra block %d %s", s_index(b), s_text(b)); break; } sb *m = &SB[i]; if (s_index(b) != m->idx) { bad = 1; vp_viol("srt-index", "index of block %d is %d, expected %d", i, s_index(b), m->idx); } else if (strcmp(s_text(b), m->text)) { bad = 1; vp_viol("srt-text", "text of block %d is %s, expected %s", i, vp_show(s_text(b), strlen(s_text(b))), vp_show(m->text, strlen(m->text))); } else if (s_begin(b) != m->b * 1000 || s_end(b) != m->e * 1000) { bad = 1; vp_viol("srt-pos", "block %d is at %ld..%ld us, expected %ld..%ld ms", i, (long)s_begin(b), (long)s_end(b), (long)m->b, (long)m->e); } else if (strcmp(s_range(b), m->range)) { bad = 1; vp_viol("srt-range", "range is %s", s_range(b)); } stdout = of; s_print(b); stdout = oo; i++; });
  stdin = old; stdout = oo; fclose(f); fclose(of);
  if (strict && !bad) { if (p) { if (strict == 1) vp_viol("srt-panic", "reading ends the program"); } else if (i != sn) vp_viol("srt-count", "%d blocks, expected %d", i, sn); else { static char w[1 << 16]; size_t wn = 0; for (int k = 0; k < sn; k++) { char t1[80], t2[80]; stamp(t1, SB[k].b); stamp(t2, SB[k].e); wn += sprintf(w + wn, "%d\n%s --> %s\n%s\n\n", SB[k].idx, t1, t2, SB[k].text); } if (wn != on || memcmp(w, out, on)) vp_viol("srt-print", "printed as %s, expected %s", vp_show(out, on), vp_show(w, wn)); } }
  free(out); free(r); free(b); }
static void srt(void) {
  long job = 0; static const char *LN[] = { "a", "1", "12", "x y", "<i>b</i>", "7 ", "\xd0\x9f\xff", "00:00:01,000 --> 00:00:02,000" }; int nl = 8;
  // one block: up to two/three text lines; two blocks; line ends; final newline(s)
  for (int nb = 1; nb <= 2; nb++) for (int n1 = 0; n1 <= (nb == 1 ? 3 : 2); n1++) for (int n2 = 0; n2 <= (nb == 2 ? 2 : 0); n2++) { long t = 1; for (int i = 0; i < n1 + n2; i++) t *= nl; for (long v = 0; v < t; v++) for (int var = 0; var < 8; var++) { if (!MINE(job++)) continue; if (v % 512 < 8) vp_tick(); const char *e = var & 1 ? "\r\n" : "\n"; tn = 0; sn = nb; long x = v;
    for (int k = 0; k < nb; k++) { sb *m = &SB[k]; m->idx = v % 5 == 4 ? k : k + 1; m->b = 1000 * (v % 7) + k; m->e = m->b + 3599999 * (v % 3); m->text[0] = 0; char t1[40], t2[40]; stamp(t1, m->b); stamp(t2, m->e); sprintf(m->range, "%s --> %s", t1, t2); add("%d%s%s%s", m->idx, e, m->range, e); int n = k ? n2 : n1; for (int i = 0; i < n; i++, x /= nl) { const char *l = LN[x % nl]; strcat(m->text, l); strcat(m->text, "\n"); add("%s%s", l, e); } trimmed(m->text); if (k + 1 < nb || var & 2) add("%s", e); if (k + 1 < nb && (var & 4)) add("%s", e); }
    if (!(var & 2) && (var & 4) && n1 + n2 && (nb == 1 || n2)) tn -= strlen(e); T[tn] = 0; vp_case("srt %s", vp_show(T, tn)); if (job / vp_nshards % 3001 == 3) vp_sample("srt %s", vp_show(T, tn)); srt_check(1); } }
  for (int n = 0; n < 60; n++) { if (!MINE(job++)) continue; tn = 0; sn = n; for (int k = 0; k < n; k++) { sb *m = &SB[k]; m->idx = k + 95; m->b = k * 61001; m->e = m->b + 999; char t1[40], t2[40]; stamp(t1, m->b); stamp(t2, m->e); sprintf(m->range, "%s --> %s", t1, t2); sprintf(m->text, "text %d\n%d", k, k); add("%d\n%s\n%s\n\n", m->idx, m->range, m->text); } vp_case("srt with %d blocks", n); srt_check(1); }
  for (int k = 0; k < 40; k++) { if (!MINE(job++)) continue; tn = 0; sn = 1; sb *m = &SB[0]; m->idx = k < 12 ? (int[]){ 0, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65536, 1000000, 2147483647 }[k] : k * 977; m->b = 1000; m->e = 2000; strcpy(m->range, "00:00:01,000 --> 00:00:02,000"); strcpy(m->text, "t"); add("%d\n%s\nt\n\n", m->idx, m->range); vp_case("srt index %d", m->idx); srt_check(1); }
  // time stamps
  for (int64_t ms = 0; ms < 360000000; ms += vp_thorough ? 9973 : 99991) { if (!MINE(job++)) continue; if (job % 1024 < 8) vp_tick(); for (int k = 0; k < 2; k++) { int64_t q = k ? (ms / 1000) * 1000 + (job % 3 == 0 ? 0 : 999) : ms; char t[40]; stamp(t, q); vp_case("srt position %s", t); int64_t g = -1; if (VP_TRY(g = s_pos(t)) || g != q * 1000) vp_viol("srt-parsepos", "parsed as %ld us, expected %ld ms", (long)g, (long)q); vp_states++; vp_trans++; } }
  for (int h = 0; h < 1200; h += 13) { char t[40]; int64_t q = h * 3600000LL + 59 * 60000 + 59 * 1000 + 7; stamp(t, q); vp_case("srt position %s", t); int64_t g = -1; if (VP_TRY(g = s_pos(t)) || g != q * 1000) vp_viol("srt-parsepos", "parsed as %ld us, expected %ld ms", (long)g, (long)q); }
  // sizes: exact or a reported failure
  for (int L = 1; L < 5000; L += L < 960 ? 53 : L < 1010 ? 1 : L < 4090 ? 211 : L < 4105 ? 1 : 97) { if (!MINE(job++)) continue; vp_tick(); static char t[6000]; fill(t, L, 't'); tn = 0; sn = 1; SB[0].idx = 1; SB[0].b = 1000; SB[0].e = 2000; snprintf(SB[0].text, 6000, "%s", t); strcpy(SB[0].range, "00:00:01,000 --> 00:00:02,000"); add("1\n%s\n%s\n\n", SB[0].range, t); vp_case("srt text of %d bytes", L); srt_check(L < 990 ? 1 : 2); 
    tn = 0; add("1\n%s\nx\n\n", t); vp_case("srt range of %d bytes", L); srt_check(0); tn = 0; add("1\n00:00:01,000%s --> 00:00:02,000\nx\n\n", t); srt_check(0); tn = 0; add("%s\n%s\nx\n\n", t, SB[0].range); srt_check(0); }
  static const char *B[] = { "", "\n", "\n\n", "1", "1\n", "1\nx\n", "x\ny\nz\n", "1\n00:00:01,000 --> \nx\n", "1\n--> 00:00:01,000\n", "1\n\n2\n\n", "\r\n" }; for (int i = 0; i < 11; i++) { tn = 0; sn = 0; add("%s", B[i]); vp_case("srt malformed %s", vp_show(T, tn)); srt_check(i == 0); }
}

// ---- vtt
typedef struct { char range[64], text[1 << 15]; } vb; static vb VB[40]; static int vn;
static void notags(char *s) { char *d = s; int t = 0; for (; *s; s++) { if (t) { if (*s == '>') t = 0; } else if (*s == '<') t = 1; else *d++ = *s; } *d = 0; }
static void vtt_check(int strict) {
  FILE *f = mem(T, tn); vp_mark(); void *volatile r = 0; volatile int i = 0, bad = 0; vp_states++; vp_traces++;
  int p = VP_TRY(r = v_new(f); while (v_read(r)) { vp_trans++; if (!strict || bad) { if (i++ > 1000) break; continue; } if (i >= vn) { bad = 1; vp_viol("vtt-extra", "an extra subtitle %s", v_text(r)); break; } if (strcmp(v_range(r), VB[i].range)) { bad = 1; vp_viol("vtt-range", "range of %d is '%s', expected '%s'", i, v_range(r), VB[i].range); } else if (strcmp(v_text(r), VB[i].text)) { bad = 1; vp_viol("vtt-text", "text of %d is %.600s, expected %.600s", i, vp_show(v_text(r), strlen(v_text(r))), vp_show(VB[i].text, strlen(VB[i].text))); } i++; });
  if (p) { fclose(f); vp_viol("vtt-panic", "reading ends the program"); return; }
  if (strict == 1 && !bad) { if (v_err(r)) vp_viol("vtt-err", "error: %s", v_err(r)); if (i != vn) vp_viol("vtt-count", "%d subtitles, expected %d", i, vn); }
  if (strict == 2 && (!v_err(r) || !v_err(r)[0])) vp_viol("vtt-noerr", "no error is reported");
  v_free(r); fclose(f); if (vp_leaked()) vp_viol("leak", "vtt: blocks not released"); }
static void vtt(void) {
  long job = 0; static const char *LN[] = { "a", "<c.x>b</c> c", "x y ", "<i>", "12", "1 < 2 > 3", "-->" }; int nl = 7; static const char *ST[] = { "", " align:start position:0%", " line:0" };
  for (int nb = 0; nb <= 2; nb++) for (int n1 = 0; n1 <= (nb == 0 ? 0 : nb == 1 ? 3 : 2); n1++) for (int n2 = 0; n2 <= (nb == 2 ? 2 : 0); n2++) { long t = 1; for (int i = 0; i < n1 + n2; i++) t *= nl; for (long v = 0; v < t; v++) for (int var = 0; var < 24; var++) { if (!MINE(job++)) continue; if (v % 512 < 8) vp_tick(); const char *e = var & 1 ? "\r\n" : "\n"; tn = 0; vn = nb; long x = v; add("WEBVTT%s", e); if (v % 3) add("Kind: captions%s", e); if (v % 3 == 2) add("Language: en%s", e); add("%s", e);
    for (int k = 0; k < nb; k++) { vb *m = &VB[k]; m->text[0] = 0; sprintf(m->range, "%02d:%02d:%02d.%03d --> %02d:%02d:%02d.%03d", k, (int)(v % 60), k + 8, (int)(v % 1000), 99, 59, 59, 999); add("%s%s%s", m->range, ST[var / 8], e); int n = k ? n2 : n1; for (int i = 0; i < n; i++, x /= nl) { add("%s%s", LN[x % nl], e); char l[64]; strcpy(l, LN[x % nl]); notags(l); strcat(m->text, l); strcat(m->text, "\n"); } trimmed(m->text); if (k + 1 < nb || var & 2) add("%s", e); if (k + 1 < nb && (var & 4)) add("%s", e); }
    if (!(var & 2) && (var & 4) && n1 + n2 && (nb == 1 || n2)) tn -= strlen(e); T[tn] = 0; vp_case("vtt %s", vp_show(T, tn)); if (job / vp_nshards % 5001 == 3) vp_sample("vtt %s", vp_show(T, tn)); vtt_check(1); } }
  for (int n = 0; n < 40; n++) { if (!MINE(job++)) continue; tn = 0; vn = n; add("WEBVTT\n\n"); for (int k = 0; k < n; k++) { sprintf(VB[k].range, "00:00:%02d.000 --> 00:01:%02d.500", k, k); sprintf(VB[k].text, "text %d\nx", k); add("%s\n%s\n\n", VB[k].range, VB[k].text); } vp_case("vtt with %d", n); vtt_check(1); }
  for (int L = 1; L < 4094; L += L < 420 ? 1 : 97) for (int lines = 1; lines <= 3; lines++) { if (!MINE(job++)) continue; vp_tick(); static char t[6000]; fill(t, L, 't'); tn = 0; vn = 2; add("WEBVTT\n\n00:00:01.000 --> 00:00:02.000\n"); strcpy(VB[0].range, "00:00:01.000 --> 00:00:02.000"); VB[0].text[0] = 0; for (int i = 0; i < lines; i++) { add("%s\n", t); if (i) strcat(VB[0].text, "\n"); strcat(VB[0].text, t); } strcpy(VB[1].range, "00:00:02.000 --> 00:00:03.000"); strcpy(VB[1].text, "u"); add("\n%s\nu\n", VB[1].range); vp_case("vtt %d lines of %d bytes", lines, L); vtt_check(1); }
  for (int L = 4090; L < 9000; L += 61) { if (!MINE(job++)) continue; static char t[9100]; fill(t, L, 't'); tn = 0; add("WEBVTT\n\n00:00:01.000 --> 00:00:02.000 %s\n%s\n\n%s\n", t, t, t); vp_case("vtt lines of %d bytes", L); vtt_check(0); }
  static const char *B[] = { "", "WEBVT\n\n", "x", "WEBVTT\nfoo\n\n", "WEBVTT\n\nx\n", "WEBVTT\n\n00:00:01.000 -> 00:00:02.000\nx\n\n", "WEBVTT\n\n0:00:01.000 --> 00:00:02.000\nx\n\n", "WEBVTT\n\n00:00:01.000 --> \n", "WEBVTT\n\n00:00:01.000 --> 00:00:02.00\nx\n", "WEBVTT\n\n00:00:01.000\n" }; for (int i = 0; i < 10; i++) { tn = 0; add("%s", B[i]); vp_case("vtt malformed %s", vp_show(T, tn)); vtt_check(2); }
  // every change of one byte of a cue line (changed, removed, doubled, text before the arrow): accepted only when it still has the form of a cue line
  static const char Q[] = "01:23:45.678 --> 12:34:56.789", CH[] = "09:.- >x,\t"; for (int i = 0; i < 29; i++) for (int c = 0; c < 13; c++) { if (!MINE(job++)) continue; char q[80]; strcpy(q, Q); if (c < 10) q[i] = CH[c]; else if (c == 10) memmove(q + i, q + i + 1, 40); else if (c == 11) { memmove(q + i + 1, Q + i, 30 - i); } else { memmove(q + i + 3, Q + i, 30 - i); memcpy(q + i, "abc", 3); }
    int ok = 1; for (int k = 0; k < 29 && ok; k++) ok = Q[k] >= '0' && Q[k] <= '9' ? q[k] >= '0' && q[k] <= '9' : q[k] == Q[k]; tn = 0; add("WEBVTT\n\n%s\nx\n\n", q); vp_case("vtt cue line %s", vp_show(q, strlen(q))); if (!ok) { vtt_check(2); continue; } vn = 1; snprintf(VB[0].range, 30, "%s", q); strcpy(VB[0].text, "x"); vtt_check(1); }
  static const char *B2[] = { "00:00:01.000 abc 00:00:02.000 --> ", "00:00:01.000 abc 00:00:02.000 --> 00:00:03.000", "00:00:01.000  --> 00:00:02.000", "00:00:01.000---> 00:00:02.000", "00:00:01.000 -->  00:00:02.000" }; for (int i = 0; i < 5; i++) { tn = 0; add("WEBVTT\n\n%s\nx\n\n", B2[i]); vp_case("vtt cue line %s", B2[i]); vtt_check(2); }
  static const char W[] = "WEBVTT\n\n00:00:01.000 --> 00:00:02.000 a:b\nx<b>y\n\n00:00:01.000 --> 00:00:02.000\nz\n"; for (int cut = 0; cut < sizeof W; cut++) for (int c = 0; c < 8; c++) { if (!MINE(job++)) continue; tn = 0; add("%s", W); if (c == 0) tn = cut < tn ? cut : tn; else if (cut < tn) T[cut] = "\n<> :-\xff0"[c - 1]; vp_case("vtt changed %s", vp_show(T, tn)); vtt_check(0); }
}

void vp_body(void) {
  BIND(c_new, "csv.newreader"); BIND(c_free, "csv.freereader"); BIND(c_read, "csv.readval"); BIND(c_next, "csv.nextline"); BIND(c_val, "csv.val"); BIND(c_write, "csv.writeval"); BIND(c_writer, "c_writer");
  BIND(f_new, "conf.new"); BIND(f_next, "conf.next"); BIND(f_free, "conf.free"); BIND(f_key, "f_key"); BIND(f_val, "f_val");
  BIND(q_parse, "q_parse"); BIND(q_free, "cue.cue_free"); BIND(q_track, "cue.cue_track"); BIND(q_n, "cue.cue_ntracks"); BIND(q_us, "cue.pos_us"); BIND(q_title, "q_title");
  BIND(s_new, "s_new"); BIND(s_blk, "s_blk"); BIND(s_read, "srt.readblock"); BIND(s_print, "srt.printblock"); BIND(s_index, "s_index"); BIND(s_range, "s_range"); BIND(s_text, "s_text"); BIND(s_begin, "s_begin"); BIND(s_end, "s_end"); BIND(s_pos, "s_pos");
  BIND(v_new, "vtt.reader"); BIND(v_read, "vtt.read"); BIND(v_err, "vtt.err"); BIND(v_free, "vtt.freereader"); BIND(v_range, "v_range"); BIND(v_text, "v_text");
  const char *p = getenv("VP_PART"); if (!strcmp(p, "csv")) csv(); if (!strcmp(p, "conf")) conf(); if (!strcmp(p, "cue")) cue(); if (!strcmp(p, "srt")) srt(); if (!strcmp(p, "vtt")) vtt();
}
