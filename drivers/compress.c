// LZW and Huffman coding.
#include "vp.h"
FN(void *, r_new, "", (void *, int (*)(void *, uint8_t *, size_t), void (*)(void *))) FN(void, r_free, "", (void *)) FN(void *, w_new, "", (void *, int (*)(void *, const uint8_t *, size_t), void (*)(void *))) FN(void, w_free, "", (void *))
FN(void *, br_new, "", (void *, int)) FN(void, br_close, "", (void *)) FN(int, straight, "", (void))
FN(void, lz_comp, "", (void *, size_t, void *)) FN(void *, lz_new, "", (void *, size_t)) FN(void, lz_free, "", (void *)) FN(void, lz_into, "", (void *, void *)) FN(int, lz_dec, "", (void *, uint8_t *))
FN(void *, h_build, "", (const char *)) FN(void *, h_from, "", (uint8_t *, size_t, uint8_t *)) FN(void, h_freetree, "", (void *)) FN(void *, h_r, "", (void *, void *)) FN(int, h_read, "", (void *)) FN(void, h_rclose, "", (void *)) FN(void *, h_w, "", (void *, void *)) FN(bool, h_write, "", (void *, uint8_t)) FN(void, h_wclose, "", (void *)) FN(void, h_codes, "", (void *)) FN(void, h_tree, "", (void *))
typedef struct { const uint8_t *p; size_t n, pos, chunk; } src_t;
static int src_read(void *c, uint8_t *b, size_t n) { src_t *s = c; if (s->pos >= s->n) return -1; if (n > s->chunk) n = s->chunk; if (n > s->n - s->pos) n = s->n - s->pos; memcpy(b, s->p + s->pos, n); s->pos += n; return n; }
typedef struct { uint8_t *b; size_t n, cap, lim; } sink_t;
static int sink_write(void *c, const uint8_t *d, size_t n) { sink_t *s = c; if (s->lim && s->n + n > s->lim) return -1; if (s->n + n > s->cap) { size_t c2 = (s->n + n) * 2 + 256; uint8_t *q = vp_raw(c2); memcpy(q, s->b, s->n); free(s->b); s->b = q; s->cap = c2; } memcpy(s->b + s->n, d, n); s->n += n; return n; }
static void leak(const char *w) { long l = vp_leaked(); if (l) vp_viol("leak", "%s: %ld blocks not released", w, l); }
static size_t HUGE_CHUNK = 1 << 30;
// decodes; 0 ok, 1 panicked
static int lz_back(const uint8_t *p, size_t n, size_t alpha, size_t chunk, sink_t *out, size_t lim) {
  src_t s = { p, n, 0, chunk }; out->lim = lim; int bad; void *volatile r = r_new(&s, src_read, NULL), *volatile w = w_new(out, sink_write, NULL), *volatile d = 0;
  bad = VP_TRY(d = lz_new(r, alpha); lz_into(d, w)); if (d) lz_free(d); r_free(r); w_free(w); return bad; }
static int lz_fwd(const uint8_t *p, size_t n, size_t alpha, size_t chunk, sink_t *out) {
  src_t s = { p, n, 0, chunk }; out->lim = 0; void *volatile r = r_new(&s, src_read, NULL), *volatile w = w_new(out, sink_write, NULL); int bad = VP_TRY(lz_comp(r, alpha, w)); r_free(r); w_free(w); return bad; }
static sink_t A, B, C2;
static int roundtrip(const uint8_t *m, size_t n, size_t alpha, int full) {
  vp_mark(); A.n = B.n = 0; vp_states++; vp_traces++; vp_trans += n;
  if (lz_fwd(m, n, alpha, HUGE_CHUNK, &A)) { vp_viol("lzcomp", "compression fails"); return 0; }
  if (lz_back(A.b, A.n, alpha, HUGE_CHUNK, &B, 0)) { vp_viol("lzdec", "decompression fails"); return 0; }
  if (B.n != n || memcmp(B.b, m, n)) { size_t i = 0; while (i < n && i < B.n && B.b[i] == m[i]) i++; vp_viol("lz", "%zu bytes come back as %zu, different from byte %zu", n, B.n, i); return 0; }
  leak("lzw");
  if (full) for (size_t ch = 1; ch <= 7; ch += ch == 1 ? 1 : 5) { vp_mark(); C2.n = 0; if (lz_fwd(m, n, alpha, ch, &C2) || C2.n != A.n || memcmp(C2.b, A.b, A.n)) vp_viol("lzchunk", "the result depends on the sizes of the reads (%zu)", ch);
      B.n = 0; if (lz_back(A.b, A.n, alpha, ch, &B, 0) || B.n != n || memcmp(B.b, m, n)) vp_viol("lzchunkr", "decompression depends on the sizes of the reads (%zu)", ch); leak("lzw"); vp_trans += 2; }
  return 1; }
static void step(const uint8_t *m, size_t n, size_t alpha) { // decode() piece by piece
  src_t s = { A.b, A.n, 0, 1 }; void *r = r_new(&s, src_read, NULL), *d = lz_new(r, alpha); size_t pos = 0; static uint8_t buf[4096 + 16];
  for (;;) { memset(buf + 4096, 0x77, 16); int k = lz_dec(d, buf); vp_trans++; if (k == 0) break; if (k < 0 || k > 4096 || pos + k > n || memcmp(buf, m + pos, k) || buf[4096] != 0x77) { vp_viol("lzstep", "decode gives %d bytes at %zu of %zu", k, pos, n); pos = n; break; } pos += k; }
  if (pos != n) vp_viol("lzstep", "decode ends at %zu of %zu", pos, n); lz_free(d); r_free(r); }
static void hostile(const uint8_t *p, size_t n, size_t alpha, int must) { // must: 1: has to be refused
  uint8_t *ex = vp_raw(n + 1); memcpy(ex, p, n); B.n = 0; int bad = lz_back(ex, n, alpha, HUGE_CHUNK, &B, 1 << 20); vp_states++; vp_trans++; if (must && !bad) vp_viol("lztrunc", "a truncated stream is taken for a complete one"); free(ex); }
static long job;
static void lzw(void) {
  static uint8_t m[70000];
  int L[] = { 0, 0, vp_thorough ? 16 : 12, vp_thorough ? 10 : 8, vp_thorough ? 8 : 6 };
  for (int a = 2; a <= 4; a++) for (int n = 0; n <= L[a]; n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= a;
    for (long v = 0; v < tot; v++) { if (!MINE(job++)) continue; vp_tick(); long x = v; for (int i = 0; i < n; i++, x /= a) m[i] = x % a; vp_case("lzw alphabet %d, message %s", a, vp_show(m, n)); if (roundtrip(m, n, a, v % 16 == 0) && v % 8 == 0) step(m, n, a); } }
  for (int a = 1; a <= 256; a++) for (int n = 0; n <= (vp_thorough ? 140 : 40); n++) { if (!MINE(job++)) continue; vp_tick();
    for (int pat = 0; pat < 4; pat++) { for (int i = 0; i < n; i++) m[i] = pat == 0 ? i % a : pat == 1 ? a - 1 : pat == 2 ? (i * i * 7 + i * 3 + 1) % a : (i % 3 ? i % a : 0); vp_case("lzw alphabet %d, length %d, pattern %d", a, n, pat); roundtrip(m, n, a, 0); } }
  static const int AS[] = { 1, 2, 3, 4, 6, 7, 8, 15, 16, 31, 32, 62, 63, 64, 127, 128, 200, 254, 255, 256 };
  for (int k = 0; k < 20; k++) for (int n = 41; n <= (vp_thorough ? 2300 : 1100); n++) { if (!MINE(job++)) continue; vp_tick(); int a = AS[k]; unsigned x = 12345;
    int pat = n % 2; for (int i = 0; i < n; i++) { x = x * 1103515245 + 12345; m[i] = pat ? (x >> 16) % a : a - 1; } if (!vp_thorough && n > 300 && n % 3) continue; vp_case("lzw alphabet %d, length %d, lcg %d", a, n, pat); roundtrip(m, n, a, n % 97 == 0); }
  // around the overflow of the dictionary: the last symbols arrive at every point near it
  for (int k = 0; k < 5; k++) { static const int OA[] = { 256, 255, 64, 17, 3 }; int a = OA[k]; unsigned x = 777; static uint8_t big[70000]; for (int i = 0; i < 70000; i++) { x = x * 1664525 + 1013904223; big[i] = (x >> 15) % a; }
    // lengths at which the n-th code ends, found by counting codes with a plain reference coder
    static int ends[70001]; int nc = 0, pos = 0; { static int nxt[4100][256]; int sz = a + 2; for (int i = 0; i < 4100; i++) for (int j = 0; j < 256; j++) nxt[i][j] = -1;
      while (pos < 70000) { int c = big[pos++]; while (pos < 70000 && nxt[c][big[pos]] >= 0) c = nxt[c][big[pos++]]; ends[nc++] = pos; if (pos < 70000 && sz < 4096) nxt[c][big[pos]] = sz++; } }
    int full = 4096 - a - 2; 
    for (int d = vp_thorough ? -40 : -6; d <= (vp_thorough ? 40 : 6); d++) for (int e = -1; e <= 1; e++) { if (!MINE(job++)) continue; vp_tick(); int i = full + d; if (i < 0 || i >= nc) continue; int n = ends[i] + e; if (n < 0 || n > 70000) continue; vp_case("lzw alphabet %d, %d symbols around code %d of %d", a, n, i, full); if (roundtrip(big, n, a, 0)) step(big, n, a); }
    for (int n = 12000; n < 70000; n += vp_thorough ? 4001 : 15001) { if (!MINE(job++)) continue; vp_tick(); vp_case("lzw alphabet %d, %d lcg symbols", a, n); roundtrip(big, n, a, 0); vp_tick(); } }
  // runs: words grow by one symbol with every code
  for (int n = 100; n <= 70000; n += n < 600 ? 1 : n < 6000 ? 97 : 9001) { if (!MINE(job++)) continue; vp_tick(); memset(m, 9, n); vp_case("lzw run of %d", n); roundtrip(m, n, 256, 0); }
  for (int k = 0; k < (vp_thorough ? 4 : 1); k++) { if (!MINE(job++)) continue; alarm(300); static const size_t RN[] = { 7500000, 7362000, 8600000, 7369999 }; size_t n = RN[k]; uint8_t *big = vp_raw(n); memset(big, 0, n); vp_case("lzw run of %zu", n); roundtrip(big, n, k == 2 ? 1 : 256, 0); free(big); vp_tick(); }
  // truncated, corrupted and arbitrary streams
  for (int a = 2; a <= 256; a = a == 2 ? 4 : a == 4 ? 16 : a * 16) for (int n = 0; n <= 24; n += 3) for (int pat = 0; pat < 2; pat++) { if (!MINE(job++)) continue; vp_tick(); for (int i = 0; i < n; i++) m[i] = pat ? 1 : (i * 5) % a; A.n = 0; if (lz_fwd(m, n, a, HUGE_CHUNK, &A)) continue; static uint8_t z[400]; size_t zn = A.n; memcpy(z, A.b, zn);
      for (size_t t = 0; t < zn; t++) { vp_case("lzw alphabet %d length %d cut to %zu of %zu bytes", a, n, t, zn); hostile(z, t, a, 1); }
      for (size_t b = 0; b < zn * 8; b++) { vp_case("lzw alphabet %d length %d bit %zu changed", a, n, b); z[b / 8] ^= 1 << b % 8; hostile(z, zn, a, 0); z[b / 8] ^= 1 << b % 8; } }
  for (int a = 1; a <= 256; a = a == 1 ? 2 : a == 2 ? 5 : a == 5 ? 256 : 257) for (long v = 0; v < 65536; v += a == 256 ? 3 : 1) { if (v % 64 == 0 ? !MINE(job++) : !MINE(job - 1)) continue; if (v % 1024 == 0) vp_tick(); uint8_t z[6] = { v, v >> 8, v, v >> 8, 0xFF, v >> 4 }; vp_case("lzw alphabet %d, stream %02x %02x ...", a, z[0], z[1]); hostile(z, 2 + v % 5, a, 0); }
}
// ---- Huffman
static long optimal(const size_t *cnt) { size_t q[256]; int n = 0; for (int i = 0; i < 256; i++) if (cnt[i]) q[n++] = cnt[i]; if (n == 1) return q[0]; long cost = 0;
  while (n > 1) { for (int k = 0; k < 2; k++) { int m = k; for (int i = k + 1; i < n; i++) if (q[i] < q[m]) m = i; size_t t = q[k]; q[k] = q[m]; q[m] = t; } q[0] += q[1]; cost += q[0]; q[1] = q[n - 1]; n--; } return cost; }
static void bitsof(const uint8_t *b, int n, char *o) { for (int i = 0; i < n; i++) o[i] = '0' + (b[i / 8] >> (7 - i % 8) & 1); o[n] = 0; }
static void huff_text(const char *s, size_t n, int codes) {
  vp_mark(); vp_states++; vp_traces++; vp_trans += n; void *t = 0;
  if (VP_TRY(t = h_build(s))) { vp_viol("hbuild", "building a tree fails"); return; }
  A.n = 0; A.lim = 0; void *volatile w = w_new(&A, sink_write, NULL), *volatile hw = 0; int ok = 1;
  if (VP_TRY(hw = h_w(t, w); for (size_t i = 0; i < n; i++) ok &= h_write(hw, s[i]); h_wclose(hw)) || !ok) { vp_viol("hwrite", "writing fails"); return; }
  size_t cnt[256] = { 0 }; for (size_t i = 0; i < n; i++) cnt[(uint8_t)s[i]]++; long best = n ? optimal(cnt) : 0;
  if ((long)A.n != (best + 7) / 8) vp_viol("hopt", "%zu bytes written, the optimal code takes %ld bits", A.n, best);
  src_t src = { A.b, A.n, 0, 1 }; void *r = r_new(&src, src_read, NULL), *br = br_new(r, straight()), *hr = h_r(t, br); size_t i = 0;
  for (; i < n; i++) { int c = -2; if (VP_TRY(c = h_read(hr)) || c != (uint8_t)s[i]) { vp_viol("huff", "symbol %zu of %zu reads as %d, expected %d", i, n, c, (uint8_t)s[i]); break; } }
  if (n == 0 && h_read(hr) != EOF) vp_viol("hempty", "an empty stream isn't ended");
  h_rclose(hr); br_close(br); r_free(r); w_free(w);
  if (codes && n) { // every symbol's code on its own, and the printed table
    static char code[256][300]; memset(code, 0, sizeof code); long tot = 0; int sy = 0;
    for (int c = 1; c < 256; c++) if (cnt[c]) { sy++; A.n = 0; w = w_new(&A, sink_write, NULL); hw = h_w(t, w); for (int k = 0; k < 8; k++) h_write(hw, c); h_wclose(hw); w_free(w); bitsof(A.b, A.n, code[c]); A.n <= 255 ? code[c][A.n] = 0 : 0; tot += A.n * cnt[c]; }
    if (tot != best) vp_viol("hcodes", "the codes take %ld bits, expected %ld", tot, best);
    if (sy > 1) for (int a = 1; a < 256; a++) if (cnt[a]) for (int b = 1; b < 256; b++) if (b != a && cnt[b] && !strncmp(code[a], code[b], strlen(code[a]))) { vp_viol("hprefix", "code of %d (%s) starts the code of %d (%s)", a, code[a], b, code[b]); a = 256; break; }
    fflush(stdout); FILE *f = tmpfile(); int o = dup(1); dup2(fileno(f), 1); int bad = VP_TRY(h_codes(t)); fflush(stdout); dup2(o, 1); close(o); rewind(f); char line[600]; int ln = 0;
    if (bad) vp_viol("hprint", "printcodes fails");
    else { while (fgets(line, sizeof line, f)) { ln++; int c = -1; char *tab = strchr(line, '\t'); if (!tab) { vp_viol("hprint", "line without a tab"); break; } if (line[0] == '\'') c = (uint8_t)line[1]; else sscanf(line, "0x%x", &c); tab[strcspn(tab, "\n")] = 0; if (c < 0 || c > 255 || !cnt[c] || (sy > 1 && strcmp(tab + 1, code[c]))) { vp_viol("hprint", "printcodes: %d as %s, written as %s", c, tab + 1, c >= 0 && c < 256 ? code[c] : "?"); break; } }
      if (ln != sy && sy > 1) vp_viol("hprint", "printcodes prints %d codes of %d", ln, sy); }
    fclose(f); }
  h_freetree(t); leak("huffman tree"); }
static void canon(const uint8_t *lc, int nl, int valid) {
  uint8_t ex[16], vals[256]; uint8_t *lcp = vp_raw(nl); memcpy(lcp, lc, nl); for (int i = 0; i < 256; i++) vals[i] = 255 - i * 7; vp_mark(); vp_states++; (void)ex;
  int tot = 0; for (int i = 0; i < nl; i++) tot += lc[i]; void *volatile t = 0; int bad = VP_TRY(t = h_from(lcp, nl, vals)); vp_trans++;
  if (!valid) { if (!bad) vp_viol("hover", "an impossible set of lengths is accepted"); free(lcp); return; }
  if (bad) { vp_viol("hfrom", "treefrom fails"); free(lcp); return; }
  long code = 0; int k = 0; for (int l = 1; l <= nl; l++, code <<= 1) for (int j = 0; j < lc[l - 1]; j++, k++, code++) {
      char want[40]; for (int i = 0; i < l; i++) want[i] = '0' + (code >> (l - 1 - i) & 1); want[l] = 0; uint8_t b[4] = { 0 }; for (int i = 0; i < l; i++) if (want[i] == '1') b[i / 8] |= 0x80 >> i % 8;
      src_t src = { b, (l + 7) / 8, 0, 1 }; void *r = r_new(&src, src_read, NULL), *br = br_new(r, straight()), *hr = h_r(t, br); int c = -2; if (VP_TRY(c = h_read(hr)) || c != vals[k]) vp_viol("hcanon", "code %s reads as %d, expected %d", want, c, vals[k]); h_rclose(hr); br_close(br); r_free(r); vp_trans++;
      if (tot <= 40) { A.n = 0; void *volatile w = w_new(&A, sink_write, NULL), *volatile hw = 0; if (VP_TRY(hw = h_w(t, w); h_write(hw, vals[k]); h_wclose(hw))) vp_viol("hcanonw", "writing with a canonical tree fails"); else { char got[300]; bitsof(A.b, A.n * 8, got); got[l] = 0; if (A.n != (l + 7) / 8 || strcmp(got, want)) vp_viol("hcanonw", "code of value %d is %s, expected %s", k, got, want); } w_free(w); } }
  // codes that aren't in the tree are refused
  if (tot && code < (1L << nl) && nl <= 16) { uint8_t b[4] = { 0xFF, 0xFF, 0xFF, 0xFF }; src_t src = { b, 4, 0, 1 }; void *r = r_new(&src, src_read, NULL), *br = br_new(r, straight()), *hr = h_r(t, br); int c = -2; int kraft = 1; { long s = 0; for (int i = 0; i < nl; i++) s += (long)lc[i] << (nl - 1 - i); kraft = s < (1L << nl); if (kraft && !VP_TRY(c = h_read(hr)) && c != EOF) vp_viol("hbad", "a code that isn't in the tree reads as %d", c); } h_rclose(hr); br_close(br); r_free(r); }
  h_freetree(t); leak("treefrom"); free(lcp); vp_traces++; }
static void huff(void) {
  static char s[400000];
  int L = vp_thorough ? 8 : 6; for (int n = 0; n <= L; n++) for (long v = 0; v < 1L << 2 * n; v++) { if (!MINE(job++)) continue; if (v % 256 < 8) vp_tick(); for (int i = 0; i < n; i++) s[i] = "a\xff\x01 "[v >> 2 * i & 3]; s[n] = 0; vp_case("huffman text %s", vp_show(s, n)); huff_text(s, n, v % 4 == 0); }
  int M = vp_thorough ? 7 : 5; for (int v = 0; v < M * M * M * M * M; v++) { if (!MINE(job++)) continue; vp_tick(); int n = 0, x = v, c[5]; for (int k = 0; k < 5; k++, x /= M) { c[k] = x % M; for (int j = 0; j < c[k]; j++) s[n++] = 'A' + k * 3; } s[n] = 0; vp_case("huffman counts %d %d %d %d %d", c[0], c[1], c[2], c[3], c[4]); huff_text(s, n, 1); }
  for (int k = 1; k <= (vp_thorough ? 26 : 22); k++) { if (!MINE(job++)) continue; vp_tick(); size_t n = 0; int a = 1, b = 1; for (int i = 0; i < k; i++) { for (int j = 0; j < a; j++) s[n++] = 'A' + i; int t = a + b; a = b; b = t; } s[n] = 0; vp_case("huffman: %d symbols with Fibonacci counts", k); huff_text(s, n, 1); }
  for (int k = 1; k <= 255; k++) for (int pat = 0; pat < 3; pat++) { if (!MINE(job++)) continue; vp_tick(); size_t n = 0; for (int i = 1; i <= k; i++) for (int j = 0; j < (pat == 0 ? 1 : pat == 1 ? 1 + i % 5 : 1 + i * i / 300); j++) s[n++] = i * 37 % 255 + 1; s[n] = 0; vp_case("huffman: %d symbols, pattern %d", k, pat); huff_text(s, n, k < 40 || k % 16 == 0 || k == 255); }
  // canonical trees: every set of length counts up to length 4 (5 in thorough), then deep ones
  int NL = vp_thorough ? 5 : 4; for (int nl = 1; nl <= NL; nl++) { int lc[6] = { 0 }; for (;;) { long sum = 0; for (int i = 0; i < nl; i++) sum += (long)lc[i] << (nl - 1 - i);
      if (MINE(job++)) { vp_tick(); uint8_t l8[6]; for (int i = 0; i < nl; i++) l8[i] = lc[i]; vp_case("canonical lengths %d %d %d %d %d of %d", lc[0], lc[1], lc[2], lc[3], lc[4], nl); canon(l8, nl, sum <= 1L << nl); }
      int i = 0; while (i < nl) { int mx = (2 << i) + 1; if (nl == 5 && i == 4) mx = 33; if (++lc[i] <= (i < 3 ? mx : i == 3 ? 9 : 6)) break; lc[i++] = 0; } if (i == nl) break; } }
  for (int k = 0; k < 16; k++) for (int j = 0; j < 4; j++) { if (!MINE(job++)) continue; vp_tick(); uint8_t lc[16] = { 0 }; if (j == 0) for (int i = 0; i <= k; i++) lc[i] = 1; else if (j == 1) lc[k] = k >= 8 ? 255 : k == 7 ? 255 : 1 << k; else if (j == 2) { lc[15] = 100; lc[k < 15 ? k : 14] += 1; } else { lc[7] = 120; lc[k > 7 ? k : 8] += 135; } vp_case("canonical deep %d/%d", k, j); long sum = 0; for (int i = 0; i < 16; i++) sum += (long)lc[i] << (15 - i); canon(lc, 16, sum <= 65536); }
  // long codes: trees of a single chain, the codes of 1, 2, ... D, D bits, written and read back
  for (int D = 1; D <= 200; D++) { if (!MINE(job++)) continue; vp_tick(); uint8_t lc[256] = { 0 }, vals[256]; for (int i = 0; i < D; i++) lc[i] = 1; lc[D - 1] = 2; for (int i = 0; i < 256; i++) vals[i] = i * 7 + 3; vp_mark(); vp_case("huffman: codes of 1 to %d bits", D); vp_states++; vp_traces++; void *volatile t = 0, *volatile hw = 0; if (VP_TRY(t = h_from(lc, D, vals))) { vp_viol("hlong", "treefrom fails"); continue; } A.n = 0; void *volatile w = w_new(&A, sink_write, NULL); if (VP_TRY(hw = h_w(t, w); for (int i = 0; i <= D; i++) h_write(hw, vals[i]); h_wclose(hw))) { vp_viol("hlong", "writing fails"); continue; } w_free(w);
    long bit = 0; int bad = 0; for (int i = 0; i <= D && !bad; i++) { int l = i < D ? i + 1 : D; for (int j = 0; j < l; j++, bit++) if ((A.b[bit / 8] >> (7 - bit % 8) & 1) != (i == D || j < i)) { vp_viol("hlong", "bit %d of the code of value %d of %d", j, i, D); bad = 1; break; } } if (A.n != (bit + 7) / 8) vp_viol("hlong", "%zu bytes instead of %ld", (size_t)A.n, (bit + 7) / 8);
    src_t src = { A.b, A.n, 0, 7 }; void *r = r_new(&src, src_read, NULL), *br = br_new(r, straight()), *hr = h_r(t, br); for (int i = 0; i <= D; i++) { int c = -2; if (VP_TRY(c = h_read(hr)) || c != vals[i]) { vp_viol("hlong", "value %d of %d reads as %d", i, D, c); break; } } h_rclose(hr); br_close(br); r_free(r); h_freetree(t); leak("long codes"); }
  { static const uint8_t dc[16] = { 0, 1, 5, 1, 1, 1, 1, 1, 1 }, ac[16] = { 0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 125 }; if (MINE(job++)) { vp_case("JPEG tables"); canon(dc, 16, 1); canon(ac, 16, 1); } }
  for (int cap = 0; cap < 4; cap++) { if (!MINE(job++)) continue; vp_case("huffman: output of %d bytes", cap); void *t = h_build("aaaabbbcd"); uint8_t o[8]; A.n = 0; A.lim = cap ? cap : 1; if (!cap) A.n = 1; void *volatile w = w_new(&A, sink_write, NULL), *volatile hw = h_w(t, w); int ok = 1; if (!VP_TRY(for (int i = 0; i < 40; i++) ok &= h_write(hw, 'd')) && ok) vp_viol("hroom", "writing past the end of the output succeeds"); (void)VP_TRY(h_wclose(hw)); w_free(w); h_freetree(t); A.lim = 0; (void)o; }
}
void vp_body(void) {
#define B2(i, n) BIND(i, n);
  B2(r_new, "reader.new") B2(r_free, "reader.free") B2(w_new, "writer.new") B2(w_free, "writer.free") B2(br_new, "bits.newreader") B2(br_close, "bits.closereader") B2(straight, "straight")
  B2(lz_comp, "lzw.compress") B2(lz_new, "lzw.newdecoder") B2(lz_free, "lzw.freedecoder") B2(lz_into, "lzw.decodeinto") B2(lz_dec, "lzw.decode")
  B2(h_build, "huffman.buildtree") B2(h_from, "huffman.treefrom") B2(h_freetree, "huffman.freetree") B2(h_r, "huffman.newreader") B2(h_read, "huffman.read") B2(h_rclose, "huffman.closereader") B2(h_w, "huffman.newwriter") B2(h_write, "huffman.write") B2(h_wclose, "huffman.closewriter") B2(h_codes, "huffman.printcodes")
  char *p = getenv("VP_PART"); if (!strcmp(p, "lzw")) lzw(); else huff();
}
