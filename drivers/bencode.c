#define _GNU_SOURCE
// Bencode reader and writer, torrent files.
#include "vp.h"
FN(void *, r_new, "", (const char *, size_t)) FN(void, r_free, "", (void *)) FN(bool, r_more, "", (void *)) FN(int, r_type, "", (void *)) FN(size_t, r_pos, "", (void *)) FN(void, r_enter, "", (void *)) FN(void, r_leave, "", (void *)) FN(size_t, r_key, "", (void *, uint8_t *, size_t)) FN(int, r_strsize, "", (void *)) FN(size_t, r_buf, "", (void *, uint8_t *, size_t)) FN(int64_t, r_num, "", (void *)) FN(bool, r_skip, "", (void *))
FN(void *, w_tobuf, "", (uint8_t *, size_t)) FN(void *, w_tofile, "", (FILE *)) FN(void, w_free, "", (void *)) FN(bool, w_begin, "", (void *, int)) FN(bool, w_end, "", (void *)) FN(size_t, w_pos, "", (void *)) FN(bool, w_num, "", (void *, int64_t)) FN(bool, w_buf, "", (void *, const uint8_t *, size_t))
FN(void *, t_parse, "", (const char *, size_t)) FN(void *, t_from, "", (const char *)) FN(void, t_free, "", (void *)) FN(void, t_hash, "", (void *, size_t, uint8_t *)) FN(size_t, t_total, "", (void *)) FN(size_t, t_np, "", (void *)) FN(size_t, t_last, "", (void *)) FN(bool, t_write, "", (FILE *, void *)) FN(const char *, t_str, "", (void *, int)) FN(long, t_int, "", (void *, int)) FN(const char *, t_fpath, "", (void *, int)) FN(size_t, t_flen, "", (void *, int)) FN(void *, t_make, "", (size_t, size_t, uint8_t *, const char *, const char *, const char *, const char *, int))
static int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
// model: dump of the value at *i, 0 on failure
static char D[1 << 18]; static size_t dn;
static int mstr(const uint8_t *t, size_t n, size_t *i, size_t *b, size_t *len) { size_t v = 0; size_t j = *i; if (j >= n || !isdigit(t[j])) return 0; while (j < n && isdigit(t[j])) { v = v * 10 + t[j++] - '0'; if (v > 1 << 20) return 0; } if (j >= n || t[j] != ':') return 0; j++; if (n - j < v) return 0; *b = j; *len = v; *i = j + v; return 1; }
static void dstr(const uint8_t *p, size_t n) { dn += sprintf(D + dn, "s"); for (size_t k = 0; k < n; k++) dn += sprintf(D + dn, "%02x", p[k]); D[dn++] = ';'; D[dn] = 0; }
static int maxd;
static int model(const uint8_t *t, size_t n, size_t *i, int d) {
  size_t b, l; if (d > maxd) maxd = d; if (*i >= n) return 0;
  if (t[*i] == 'i') { size_t j = *i + 1; int neg = 0; if (j < n && t[j] == '-') { neg = 1; j++; } if (j >= n || !isdigit(t[j])) return 0; int64_t v = 0; while (j < n && isdigit(t[j])) { if (__builtin_mul_overflow(v, 10, &v) || __builtin_add_overflow(v, t[j] - '0', &v)) return 0; j++; } if (j >= n || t[j] != 'e') return 0; dn += sprintf(D + dn, "i%ld;", (long)(neg ? -v : v)); *i = j + 1; return 1; }
  if (t[*i] == 'l') { D[dn++] = 'l'; (*i)++; while (*i < n && t[*i] != 'e') if (!model(t, n, i, d + 1)) return 0; if (*i >= n) return 0; (*i)++; D[dn++] = 'e'; D[dn] = 0; return 1; }
  if (t[*i] == 'd') { D[dn++] = 'd'; (*i)++; while (*i < n && t[*i] != 'e') { if (!mstr(t, n, i, &b, &l)) return 0; dstr(t + b, l); if (!model(t, n, i, d + 1)) return 0; } if (*i >= n) return 0; (*i)++; D[dn++] = 'e'; D[dn] = 0; return 1; }
  if (!mstr(t, n, i, &b, &l)) return 0; dstr(t + b, l); return 1; }
static char G[1 << 22]; static size_t gn;
static void walk(void *r) {
  int t = r_type(r); vp_trans++;
  if (t == 'i') gn += sprintf(G + gn, "i%ld;", (long)r_num(r));
  else if (t == 's') { int n = r_strsize(r); if (n < 0) { gn += sprintf(G + gn, "?%d", n); return; } uint8_t *b = vp_raw(n + 1); size_t k = r_buf(r, b, n); if (k != n) vp_viol("len", "readbuf gives %zu, strsize %d", k, n); gn += sprintf(G + gn, "s"); for (size_t z = 0; z < k; z++) gn += sprintf(G + gn, "%02x", b[z]); G[gn++] = ';'; free(b); }
  else if (t == 'l') { G[gn++] = 'l'; r_enter(r); while (r_more(r)) walk(r); r_leave(r); G[gn++] = 'e'; }
  else if (t == 'd') { G[gn++] = 'd'; r_enter(r); while (r_more(r)) { static uint8_t kb[4096]; size_t k = r_key(r, kb, sizeof kb); gn += sprintf(G + gn, "s"); for (size_t z = 0; z < k; z++) gn += sprintf(G + gn, "%02x", kb[z]); G[gn++] = ';'; walk(r); } r_leave(r); G[gn++] = 'e'; }
  else gn += sprintf(G + gn, "?"); G[gn] = 0; }
static void rd(const uint8_t *t, size_t n) { // every way through the text: read all; skip all
  dn = 0; D[0] = 0; maxd = 0; size_t i = 0; int ok = 1; size_t ends[64]; int ne = 0; while (i < n) { if (!model(t, n, &i, 1)) { ok = 0; break; } if (ne < 64) ends[ne++] = i; }
  char *ex = malloc(n ? n : 1); memcpy(ex, t, n); vp_states++; vp_traces++;
  void *volatile r = r_new(ex, n); gn = 0; G[0] = 0; volatile int k = 0;
  int p = VP_TRY(while (r_more(r)) { walk(r); if (ok && k < ne && r_pos(r) != ends[k]) vp_viol("pos", "position %zu after value %d, expected %zu", r_pos(r), k, ends[k]); k++; });
  if (maxd > 9) { r_free(r); free(ex); return; } // depth limit
  if (ok && p) vp_viol("refused", "a valid text is refused"); if (!ok && !p && !(n && memmem(t, n, "-0", 2))) vp_viol("accepted", "read as %.200s", G); if (ok && !p) { if (strcmp(G, D)) vp_viol("value", "read as %.300s, expected %.300s", G, D); if (r_type(r) != 0) vp_viol("eoftype", "type at the end is %d", r_type(r)); }
  r_free(r); r = r_new(ex, n); k = 0;
  p = VP_TRY(while (r_more(r)) { if (!r_skip(r)) vp_viol("skip", "skip gives false before the end"); if (ok && k < ne && r_pos(r) != ends[k]) vp_viol("skippos", "position %zu after skipping value %d, expected %zu", r_pos(r), k, ends[k]); k++; }; if (r_skip(r)) vp_viol("skip", "skip gives true at the end"));
  if (ok && p) vp_viol("skiprefused", "a valid text can't be skipped"); if (!ok && !p) { size_t z; z = 0; } 
  r_free(r); free(ex); }
static int enc(long v, uint8_t *o, int size, int depth) { // writer-made trees, see wr
  return 0; }
// trees: enumerated as a sequence of writer calls; code: 0 num 1 buf 2 begin l 3 begin d 4 end
static const int64_t NUM[] = { 0, 7, -1, 10, 99, 100, -2147483648LL, 2147483648LL, INT64_MAX, INT64_MIN + 1 };
static const char *STR[] = { "", "a", "e", "i1e", "12345678901", "\xff\0:" };
static uint8_t WB[4096]; static size_t wbn;
static void m_num(int64_t v) { wbn += sprintf((char *)WB + wbn, "i%lde", (long)v); }
static void m_buf(const char *s, size_t n) { wbn += sprintf((char *)WB + wbn, "%zu:", n); memcpy(WB + wbn, s, n); wbn += n; }
typedef struct { int op, arg; } call; static call C[16]; static int cn;
static bool play(void *w, int upto) { bool ok = true; for (int i = 0; i < upto && ok; i++) { call c = C[i]; if (c.op == 0) ok = w_num(w, NUM[c.arg]); else if (c.op == 1) ok = w_buf(w, (const uint8_t *)STR[c.arg], c.arg == 5 ? 3 : strlen(STR[c.arg])); else if (c.op == 4) ok = w_end(w); else ok = w_begin(w, c.op == 2 ? 'l' : 'd'); vp_trans++; } return ok; }
static void tree_done(void) {
  wbn = 0; for (int i = 0; i < cn; i++) { call c = C[i]; if (c.op == 0) m_num(NUM[c.arg]); else if (c.op == 1) m_buf(STR[c.arg], c.arg == 5 ? 3 : strlen(STR[c.arg])); else WB[wbn++] = c.op == 4 ? 'e' : c.op == 2 ? 'l' : 'd'; }
  vp_case("bencode writer %s", vp_show(WB, wbn)); vp_states++; vp_traces++; vp_mark(); long lk0 = 0;
  uint8_t *b = malloc(wbn); void *w = w_tobuf(b, wbn); if (!play(w, cn)) vp_viol("wfull", "doesn't fit into its exact size"); else if (w_pos(w) != wbn || memcmp(b, WB, wbn)) vp_viol("write", "written as %s", vp_show(b, w_pos(w) < wbn ? w_pos(w) : wbn)); w_free(w); free(b);
  for (size_t s = 0; s < wbn; s++) { b = malloc(s ? s : 1); w = w_tobuf(b, s); if (play(w, cn)) vp_viol("wshort", "a buffer of %zu bytes is enough for %zu", s, wbn); else if (w_pos(w) > s || memcmp(b, WB, w_pos(w))) vp_viol("wshort", "a short buffer of %zu bytes has other bytes", s); w_free(w); free(b); }
  char *mb = 0; size_t mn = 0; FILE *f = open_memstream(&mb, &mn); w = w_tofile(f); bool ok = play(w, cn); fclose(f); if (!ok || mn != wbn || memcmp(mb, WB, mn) || w_pos(w) != wbn) vp_viol("wfile", "written to a file as %s", vp_show(mb, mn)); w_free(w); free(mb);
  rd(WB, wbn); }
static long tjob; 
static void gen(int budget, int depth, int *st, int sp, int wantkey) { // st: stack of 'l','d'
  if (sp == 0 && cn > 0) { if (MINE(tjob++)) { if (tjob % 256 < 8) vp_tick(); tree_done(); } return; }
  if (budget <= 0 && sp == 0) return;
  if (sp && (st[sp - 1] == 'l' || wantkey)) { C[cn++] = (call){ 4, 0 }; gen(budget, depth, st, sp - 1, sp >= 2 && st[sp - 2] == 'd'); cn--; }
  if (budget <= 0) return;
  if (sp && st[sp - 1] == 'd' && wantkey) { for (int a = 0; a < 6; a += 2) { C[cn++] = (call){ 1, a + (a == 4) }; gen(budget - 1, depth, st, sp, 0); cn--; } return; }
  int nk = sp && st[sp - 1] == 'd';
  for (int a = 0; a < (cn < 2 ? 10 : 3); a++) { C[cn++] = (call){ 0, a }; gen(budget - 1, depth, st, sp, nk); cn--; }
  for (int a = 0; a < (cn < 2 ? 6 : 2); a++) { C[cn++] = (call){ 1, a + (cn > 2 ? 3 * a : 0) }; gen(budget - 1, depth, st, sp, nk); cn--; }
  for (int t = 0; t < 2; t++) { st[sp] = t ? 'd' : 'l'; C[cn++] = (call){ t ? 3 : 2, 0 }; gen(budget - 1, depth, st, sp + 1, t); cn--; } }
static void part_bencode(void) {
  static const uint8_t A[] = "ilde:1-a0\xff"; int N = vp_thorough ? 7 : 6; long job = 0; uint8_t s[64];
  for (int n = 0; n <= N; n++) { long t = 1; for (int i = 0; i < n; i++) t *= 10; for (long v = 0; v < t; v++) { if (!MINE(job++)) continue; if (v % 4096 < 8) vp_tick(); long x = v; for (int i = 0; i < n; i++, x /= 10) s[i] = A[x % 10]; vp_case("bencode text %s", vp_show(s, n)); rd(s, n); } }
  for (int k = 0; k < 20 * 5 + 63 * 5 + 120; k++) { if (!MINE(job++)) continue; uint64_t b = 1; if (k < 100) for (int i = 0; i < k / 5; i++) b *= 10; else if (k < 415) b <<= (k - 100) / 5; else { uint64_t x = k * 0x9e3779b97f4a7c15ULL; b = (x ^ x >> 29) >> (1 + (k - 415) / 2); } b += k % 5 - 2; if ((int64_t)b < 0 && b != -1ULL && b != -2ULL) continue; for (int sg = 0; sg < 2; sg++) { int64_t v = sg ? -(int64_t)b : (int64_t)b; vp_case("bencode number %ld", (long)v); vp_states++; wbn = 0; m_num(v); uint8_t o[64]; void *w = w_tobuf(o, 64); if (!w_num(w, v) || w_pos(w) != wbn || memcmp(o, WB, wbn)) vp_viol("wnum", "written as %s", vp_show(o, w_pos(w))); w_free(w); rd(WB, wbn); } }
  int st[16]; gen(vp_thorough ? 6 : 5, 0, st, 0, 0); vp_sample("writer call sequences: %ld trees", tjob);
  static const char *B[] = { "i9223372036854775807e", "i-9223372036854775807e", "i9223372036854775808e", "i99999999999999999999e", "i2147483648e", "4294967296:a", "2147483648:a", "99999999999999999999999:a", "5:abcd", "d1:ai4294967296ee", "-1:a", "l-1:e", "i-e", "ie", "i--1e", "i 1e", "1 :a", "d3:abe", "d1:ae", "di1e1:ae", "i1", "l", "d", "li1e", "d1:a", "e", "llllllllleeeeeeeee", "lllllllllllleeeeeeeeeeee", "i2147483647e", "10:0123456789" };
  for (int i = 0; i < 30; i++) { vp_case("bencode text %s", B[i]); int k = strlen(B[i]); if (i == 0 || i == 1) { } rd((const uint8_t *)B[i], k); for (int c = 0; c < k; c++) rd((const uint8_t *)B[i], c); }
  for (int L = 0; L < 1200; L += L < 130 ? 1 : 37) { static uint8_t t[3000]; int n = sprintf((char *)t, "d%d:", L); memset(t + n, 'k', L); n += L; n += sprintf((char *)t + n, "%d:", L); memset(t + n, 0xff, L); n += L; t[n++] = 'e'; vp_case("bencode string of %d bytes", L); rd(t, n); 
    uint8_t *b = malloc(L + 1), *small = malloc(L ? L : 1); n = sprintf((char *)t, "%d:", L); memset(t + n, 'k', L); void *r = r_new((char *)t, n + L); size_t g = 0; if (VP_TRY(g = r_buf(r, b, L + 1)) || g != L || b[L] || (L && b[L - 1] != 'k')) vp_viol("buf", "readbuf"); r_free(r); if (L) { r = r_new((char *)t, n + L); if (!VP_TRY(r_buf(r, small, L - 1))) vp_viol("bufsmall", "a string of %d bytes is read into %d", L, L - 1); r_free(r); } r = r_new((char *)t, n + L); if (VP_TRY(g = r_buf(r, NULL, 0)) || g != L || r_pos(r) != n + L) vp_viol("bufnull", "readbuf without a buffer"); r_free(r); free(b); free(small); }
}
// torrents: "hexdata kind dump"
static long room, took; static ssize_t wlim(void *c, const char *b, size_t n) { if (room < 0 || (long)n > room) { room = -1; return 0; } room -= n; took += n; return n; }
static void part_torrent(void) {
  FILE *f = fopen(getenv("VP_TABLE"), "r"); static char line[1 << 23], m[1 << 22]; long job = 0;
  while (fgets(line, sizeof line, f)) { if (!MINE(job++)) continue; vp_tick(); char *sp = strchr(line, ' '); size_t n = (sp - line) / 2; char *d = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) d[i] = hexv(line[2 * i]) * 16 + hexv(line[2 * i + 1]); sp[3 + strcspn(sp + 3, "\n")] = 0; char kind = sp[1]; const char *want = sp + 3; vp_case("torrent %s", vp_show(d, n)); vp_states++; vp_trans++; vp_traces++;
    vp_mark(); void *volatile t = 0; int p = VP_TRY(t = t_parse(d, n)); 
    if (p) { if (kind == 'V') vp_viol("trefused", "a valid torrent is refused"); free(d); continue; }
    if (kind == 'I') vp_viol("taccepted", "a broken torrent is accepted"); 
    if (kind == 'V' || kind == 'E') { gn = 0; for (int i = 0; i < 6; i++) { const char *s = t_str(t, i); for (; *s; s++) gn += sprintf(G + gn, "%02x", (uint8_t)*s); G[gn++] = ','; } for (int i = 0; i < 5; i++) gn += sprintf(G + gn, "%ld,", t_int(t, i)); gn += sprintf(G + gn, "%zu,%zu,%zu,", t_total(t), t_np(t), t_last(t)); for (int i = 0; i < t_int(t, 4); i++) { const char *s = t_fpath(t, i); for (; *s; s++) gn += sprintf(G + gn, "%02x", (uint8_t)*s); gn += sprintf(G + gn, ":%zu,", t_flen(t, i)); } for (size_t i = 0; i < t_np(t); i++) { uint8_t h[20]; t_hash(t, i, h); for (int k = 0; k < 20; k++) gn += sprintf(G + gn, "%02x", h[k]); } G[gn] = 0;
      if (strcmp(G, want)) vp_viol("torrent", "parsed as %.400s, expected %.400s", G, want); if (job / vp_nshards % 40 == 1) vp_sample("torrent %.100s", want); }
    t_free(t); free(d); long l = vp_leaked(); if (l) vp_viol("leak", "torrent: %ld blocks not released", l); }
  fclose(f);
  // written files come back
  for (size_t pl = 1; pl <= 9; pl++) for (size_t len = 0; len <= 40; len++) { if (!MINE(job++)) continue; vp_tick(); size_t np = (len + pl - 1) / pl; uint8_t *pc = calloc(np + 1, 20); for (size_t i = 0; i < np * 20; i++) pc[i] = i * 7 + len; vp_case("torrent of %zu bytes in pieces of %zu", len, pl); vp_states++; vp_traces++; void *t = t_make(len, pl, pc, "http://a/b", len % 3 ? "me" : "", "a comment \xd0\x9f", "file.bin", 1700000000 + (int)len);
    char *mb = 0; size_t mn = 0; FILE *o = open_memstream(&mb, &mn); bool ok = false; vp_mark(); if (VP_TRY(ok = t_write(o, t)) || !ok) vp_viol("twrite", "writefile fails"); if (vp_leaked()) vp_viol("leak", "writefile: blocks not released"); fclose(o); void *volatile q = 0; size_t i = 0; dn = 0; if (!model((uint8_t *)mb, mn, &i, 1) || i != mn) vp_viol("twrite", "writefile writes %s", vp_show(mb, mn)); else if (VP_TRY(q = t_parse(mb, mn))) vp_viol("tround", "what was written is refused"); else { for (int k = 0; k < 4; k++) if (strcmp(t_str(t, k), t_str(q, k))) vp_viol("tround", "field %d comes back as %s, expected %s", k, t_str(q, k), t_str(t, k)); for (int k = 0; k < 3; k++) if (t_int(t, k) != t_int(q, k)) vp_viol("tround", "number %d comes back as %ld, expected %ld", k, t_int(q, k), t_int(t, k)); if (t_np(q) != np || t_total(q) != len) vp_viol("tround", "%zu pieces of %zu bytes", t_np(q), t_total(q)); if (np && t_last(q) != len - (np - 1) * pl) vp_viol("tlast", "last piece of %zu bytes", t_last(q)); for (size_t k = 0; k < np; k++) { uint8_t h[20]; t_hash(q, k, h); if (memcmp(h, pc + 20 * k, 20)) vp_viol("tround", "hash of piece %zu", k); }
      char fn[64]; sprintf(fn, "t.%d.torrent", vp_shard); FILE *g = fopen(fn, "wb"); fwrite(mb, 1, mn, g); fclose(g); vp_mark(); void *z = t_from(fn); if (!z || strcmp(t_str(z, 4), t_str(q, 4)) || strcmp(t_str(z, 3), t_str(q, 3))) vp_viol("tfile", "from_file gives another torrent"); if (z) t_free(z); if (vp_leaked()) vp_viol("leak", "from_file: blocks not released"); remove(fn); t_free(q); }
    free(mb); t_free(t); }
  // every place where writing can fail
  for (long lim = 0; lim < 400; lim++) { if (!MINE(job++)) continue; uint8_t *pc = calloc(4, 20); void *t = t_make(10, 3, pc, "http://a/b", "me", "c", "n", 5); vp_case("torrent written to a file that takes %ld bytes", lim); vp_states++; vp_traces++; room = lim; took = 0; FILE *o = fopencookie(0, "w", (cookie_io_functions_t){ .write = wlim }); setvbuf(o, 0, _IONBF, 0); bool ok = false; vp_mark(); if (VP_TRY(ok = t_write(o, t))) vp_viol("twrite", "writefile ends the program"); else if (ok != (room >= 0)) vp_viol("twrite", "writefile says %d, the file took %ld bytes", ok, took); if (vp_leaked()) vp_viol("leak", "writefile: blocks not released"); fclose(o); t_free(t); }
  if (vp_shard == 0) { vp_case("from_file of a missing file"); if (t_from("no/such/file")) vp_viol("tfile", "from_file of a missing file"); }
}
void vp_body(void) {
  BIND(r_new, "bencode.newreader"); BIND(r_free, "bencode.freereader"); BIND(r_more, "bencode.more"); BIND(r_type, "bencode.type"); BIND(r_pos, "bencode.pos"); BIND(r_enter, "bencode.enter"); BIND(r_leave, "bencode.leave"); BIND(r_key, "bencode.key"); BIND(r_strsize, "bencode.strsize"); BIND(r_buf, "bencode.readbuf"); BIND(r_num, "r_num"); BIND(r_skip, "bencode.skip");
  BIND(w_tobuf, "bencode_writer.tobuf"); BIND(w_tofile, "bencode_writer.tofile"); BIND(w_free, "bencode_writer.free"); BIND(w_begin, "bencode_writer.begin"); BIND(w_end, "bencode_writer.end"); BIND(w_pos, "bencode_writer.pos"); BIND(w_num, "w_num"); BIND(w_buf, "bencode_writer.buf");
  BIND(t_parse, "torrent.parse"); BIND(t_from, "torrent.from_file"); BIND(t_free, "torrent.free"); BIND(t_hash, "torrent.piecehash"); BIND(t_total, "torrent.totalsize"); BIND(t_np, "torrent.npieces"); BIND(t_last, "torrent.lastlen"); BIND(t_write, "torrent.writefile"); BIND(t_str, "t_str"); BIND(t_int, "t_int"); BIND(t_fpath, "t_fpath"); BIND(t_flen, "t_flen"); BIND(t_make, "t_make");
  vp_quiet(1);
  const char *p = getenv("VP_PART"); if (!strcmp(p, "bencode")) part_bencode(); else part_torrent();
}
