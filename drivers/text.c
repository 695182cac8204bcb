// strings, tokenizer, error
#include "vp.h"
FN(char *, s_newstr, "", (const char *, ...)) FN(char *, s_sub, "", (const char *, int, int)) FN(void, s_trim, "", (char *)) FN(void, s_rtrim, "", (char *, const char *)) FN(size_t, s_split, "", (const char *, const char *, char **, size_t))
FN(bool, s_casecmp, "", (const char *, const char *)) FN(bool, s_sw, "", (const char *, const char *)) FN(bool, s_swi, "", (const char *, const char *)) FN(bool, s_ew, "", (const char *, const char *)) FN(bool, s_eq, "", (const char *, const char *)) FN(bool, s_up, "", (const char *)) FN(void, s_fmtb, "", (size_t, char *, size_t)) FN(char, s_dig, "", (int)) FN(int, s_num, "", (int))
FN(void, e_set, "", (void *, const char *, ...)) FN(void *, e_new, "", (void)) FN(bool, e_isset, "", (void *)) FN(const char *, e_msg, "", (void *))
FN(void *, t_str, "", (const char *)) FN(void *, t_file, "", (FILE *)) FN(void *, t_new, "", (void *)) FN(void, t_free, "", (void *)) FN(int, t_peek, "", (void *)) FN(bool, t_more, "", (void *)) FN(void, t_tail, "", (void *, char *, size_t)) FN(int, t_get, "", (void *)) FN(void, t_skipset, "", (void *, const char *)) FN(bool, t_skip, "", (void *, char)) FN(char *, t_readset, "", (void *, const char *)) FN(bool, t_spaces, "", (void *)) FN(void, t_hspaces, "", (void *)) FN(bool, t_id, "", (void *, char *, size_t)) FN(bool, t_num, "", (void *, char *, size_t)) FN(bool, t_skiplit, "", (void *, const char *)) FN(bool, t_litf, "", (void *, const char *)) FN(const char *, t_pos, "", (void *)) FN(char *, t_until, "", (void *, const char *)) FN(bool, t_ru, "", (void *, char, char *, size_t))
FN(void *, r_new, "", (void *, int (*)(void *, uint8_t *, size_t), void (*)(void *))) FN(void, r_free, "", (void *))
typedef struct { const char *p; size_t n, pos, chunk; } src_t;
static int src_read(void *c, uint8_t *b, size_t n) { src_t *s = c; if (s->pos >= s->n) return -1; if (n > s->chunk) n = s->chunk; if (n > s->n - s->pos) n = s->n - s->pos; memcpy(b, s->p + s->pos, n); s->pos += n; return n; }

static char *xs(const char *s) { size_t n = strlen(s) + 1; char *p = vp_raw(n); memcpy(p, s, n); return p; } // exact heap copy
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static void pair(const char *a0, const char *b0) {
  char *a = xs(a0), *b = xs(b0); size_t n = strlen(a), m = strlen(b); vp_case("strings %s / %s", vp_show(a, n), vp_show(b, m));
  bool eqi = n == m, swi = n >= m; for (size_t i = 0; i < n && i < m; i++) if (up(a[i]) != up(b[i])) { eqi = swi = false; }
  if (s_casecmp(a, b) != eqi) vp_viol("casecmp", "casecmp"); if (s_swi(a, b) != swi) vp_viol("starts_with_i", "starts_with_i");
  if (s_sw(a, b) != (n >= m && !memcmp(a, b, m))) vp_viol("starts_with", "starts_with"); if (s_ew(a, b) != (n >= m && !memcmp(a + n - m, b, m))) vp_viol("ends_with", "ends_with = %d", s_ew(a, b));
  if (s_eq(a, b) != !strcmp(a, b)) vp_viol("eq", "eq");
  bool au = true; for (size_t i = 0; i < n; i++) if (a[i] >= 'a' && a[i] <= 'z') au = false; if (s_up(a) != au) vp_viol("allupper", "allupper");
  free(a); free(b); vp_states++; vp_traces++; vp_trans += 6;
}
static void trims(const char *s0) {
  size_t n = strlen(s0), l = 0, r = n; vp_case("trim %s", vp_show(s0, n)); while (l < n && strchr(" \t\r\n", s0[l])) l++; while (r > l && strchr(" \t\r\n", s0[r - 1])) r--;
  char *s = xs(s0); s_trim(s); if (strlen(s) != r - l || memcmp(s, s0 + l, r - l)) vp_viol("trim", "trim gives %s", vp_show(s, strlen(s))); free(s);
  static const char *SET[] = { "b", " \n", "ab ", "" }; for (int k = 0; k < 4; k++) { r = n; while (r > 0 && strchr(SET[k], s0[r - 1])) r--; s = xs(s0); s_rtrim(s, SET[k]); if (strlen(s) != r || memcmp(s, s0, r)) vp_viol("rtrim", "rtrim(%s) gives %s", SET[k], vp_show(s, strlen(s))); free(s); }
  for (int i = 0; i <= n; i++) for (int j = i; j <= n; j++) { s = s_sub(s0, i, j); if (strlen(s) != j - i || memcmp(s, s0 + i, j - i)) vp_viol("newsubstr", "newsubstr(%d,%d)", i, j); free(s); }
  s = s_newstr("<%s|%d>", s0, (int)n); char e[64]; sprintf(e, "<%s|%d>", s0, (int)n); if (strcmp(s, e)) vp_viol("newstr", "newstr"); free(s);
  vp_states++; vp_traces++; vp_trans += 6;
}
static void splits(const char *s0) {
  static const char *SEP[] = { ",", ",,", "ab", "aa" };
  for (int k = 0; k < 4; k++) for (size_t rs = 0; rs <= 6; rs++) {
    vp_mark(); vp_case("split %s by %s into %zu", s0, SEP[k], rs); char **res = vp_raw(sizeof(char *) * rs + 1); char *a = xs(s0); size_t c = s_split(SEP[k], a, res, rs); free(a);
    char want[16][32]; size_t w = 0; const char *p = s0; while (w < rs) { const char *q = w == rs - 1 ? 0 : strstr(p, SEP[k]); if (!q) { strcpy(want[w++], p); break; } memcpy(want[w], p, q - p); want[w++][q - p] = 0; p = q + strlen(SEP[k]); }
    if (c != w) vp_viol("splitn", "%zu parts, expected %zu", c, w); else for (size_t i = 0; i < w; i++) { if (strcmp(res[i], want[i])) vp_viol("split", "part %zu is %s, expected %s", i, res[i], want[i]); }
    for (size_t i = 0; i < c && i < rs; i++) free(res[i]); free(res); if (vp_leaked()) vp_viol("leak", "split leaks"); vp_states++; vp_traces++; vp_trans++; }
}
static void fmtb(size_t b) {
  char o[64], o2[64]; vp_case("fmt_bytes %zu", b); s_fmtb(b, o, 64); double v; char u[8] = ""; if (sscanf(o, "%lf %7s", &v, u) != 2) { vp_viol("fmtbytes", "gives %s", o); return; }
  double m = !strcmp(u, "B") ? 1 : !strcmp(u, "KB") ? 1024 : !strcmp(u, "MB") ? 1048576 : !strcmp(u, "GB") ? 1073741824 : 0;
  if (!m || fabs(v * m - b) > m * 0.0051 || (m == 1 ? v > 1024 : v < 1) || (m < 1073741824 && v > 1024.001)) vp_viol("fmtbytes", "%zu bytes are %s", b, o);
  char sm[4] = "zzz"; s_fmtb(b, sm, 3); if (sm[2] != 0 || memcmp(sm, o, 2)) vp_viol("fmtroom", "short buffer"); vp_states++; vp_trans++;
}
// ---- tokenizer
enum { NOPS = 24 };
static const char *LIT[] = { "a", "a1", " \n", "-a1" }; static const char *SETS[] = { "a1", " \n", "" };
static int mpos; static char mstr[64]; static size_t mlen; static int mrow, mcol;
static void adv(int n) { while (n-- && mpos < mlen) { if (mstr[mpos++] == '\n') { mrow++; mcol = 0; } else mcol++; } }
static int cur(void) { return mpos < mlen ? (unsigned char)mstr[mpos] : -1; }
static int at(int i) { return mpos + i < mlen ? (unsigned char)mstr[mpos + i] : -1; }
static int step(void *t, int o) { // returns 0 to stop the sequence
  char b[32], e[64]; vp_trans++;
#define BAD(...) do { vp_viol("tok", __VA_ARGS__); return 0; } while (0)
  switch (o) {
  case 0: if (t_peek(t) != cur()) BAD("peek"); break;
  case 1: { int c = cur(); int g = t_get(t); if (g != c) BAD("get gives %d, expected %d", g, c); adv(1); break; }
  case 2: if (t_more(t) != (cur() >= 0)) BAD("more"); break;
  case 3: { int n = 0; while (at(n) >= 0 && isspace(at(n))) n++; if (t_spaces(t) != (n > 0)) BAD("spaces"); adv(n); break; }
  case 4: { int n = 0; while (at(n) == ' ' || at(n) == '\t') n++; t_hspaces(t); adv(n); break; }
  case 5: case 6: { char c = o == 5 ? 'a' : '\n'; bool w = cur() == c; if (t_skip(t, c) != w) BAD("buf_skip"); adv(w); break; }
  case 7: case 8: case 9: { const char *s = SETS[o - 7]; int n = 0; while (at(n) > 0 && strchr(s, at(n))) n++; char *g = t_readset(t, s); if (strlen(g) != n || memcmp(g, mstr + mpos, n)) BAD("buf_read_set gives %s", g); free(g); adv(n); break; }
  case 10: { int n = 0; while (at(n) > 0 && strchr(" \n-", at(n))) n++; t_skipset(t, " \n-"); adv(n); break; }
  case 11: case 12: case 13: { size_t sz = o == 11 ? 20 : o == 12 ? 2 : 3; int n = 0; bool w = isalpha(cur()) || cur() == '_'; while (w && at(n) >= 0 && (isalnum(at(n)) || at(n) == '_')) n++; memset(b, 'Z', 32); bool g = t_id(t, b, sz); if (g != w) BAD("id gives %d", g);
      if (w) { int k = n < sz - 1 ? n : sz - 1; memcpy(e, mstr + mpos, k); e[k] = 0; if (strcmp(b, e) || b[k + 1] != 'Z') BAD("id gives %s, expected %s", b, e); } adv(n); break; }
  case 14: case 15: { size_t sz = o == 14 ? 30 : 4; int n = 0; bool w = true; if (at(n) == '-') n++; if (!isdigit(at(n))) w = false; else { while (isdigit(at(n))) n++; if (at(n) == '.') { n++; if (!isdigit(at(n))) w = false; while (isdigit(at(n))) n++; } if (w && (at(n) == 'e' || at(n) == 'E')) { n++; if (at(n) == '+' || at(n) == '-') n++; if (!isdigit(at(n))) w = false; while (isdigit(at(n))) n++; } }
      memset(b, 'Z', 32); bool g = t_num(t, b, sz); for (int i = sz; i < 32; i++) if (b[i] != 'Z') BAD("num writes past the buffer");
      if (w && n >= sz) { if (g) BAD("num fits %d characters in %zu", n, sz); return 0; } if (g != w) BAD("num gives %d", g); if (!w) return 0; memcpy(e, mstr + mpos, n); e[n] = 0; if (strcmp(b, e)) BAD("num gives %s, expected %s", b, e); adv(n); break; }
  case 16: case 17: { const char *l = LIT[(o - 16) * 2 + 1]; int n = strlen(l); bool w = mlen - mpos >= n && !memcmp(mstr + mpos, l, n); if (t_skiplit(t, l) != w) BAD("skip_literal(%s)", l); if (w) adv(n); break; }
  case 18: { for (int i = 0; i < 4; i++) { int n = strlen(LIT[i]); bool w = mlen - mpos >= n && !memcmp(mstr + mpos, LIT[i], n); if (t_litf(t, LIT[i]) != w) BAD("literal_follows(%s)", LIT[i]); } break; }
  case 19: { sprintf(e, "%d:%d", mrow + 1, mcol + 1); if (strcmp(t_pos(t), e)) BAD("posstr %s, expected %s", t_pos(t), e); break; }
  case 20: { const char *l = "a1"; int n = 0; while (at(n) >= 0 && !(at(n) == 'a' && at(n + 1) == '1')) n++; char *g = t_until(t, l); if (strlen(g) != n || memcmp(g, mstr + mpos, n)) BAD("buf_skip_until gives %s", g); free(g); adv(n); break; }
  case 21: case 22: { size_t sz = o == 21 ? 20 : 3; int n = 0; while (at(n) >= 0 && at(n) != '\n') n++; bool w = n <= sz - 1; memset(b, 'Z', 32); bool g = t_ru(t, '\n', b, sz); if (g != w) BAD("read_until gives %d", g); for (int i = sz; i < 32; i++) if (b[i] != 'Z') BAD("read_until writes past the buffer");
      if (w) { memcpy(e, mstr + mpos, n); e[n] = 0; if (strcmp(b, e)) BAD("read_until gives %s, expected %s", b, e); adv(n); } else { if (memcmp(b, mstr + mpos, sz - 1)) BAD("read_until data"); adv(sz - 1); } break; }
  case 23: { memset(b, 'Z', 32); t_tail(t, b, 4); int n = mlen - mpos < 3 ? mlen - mpos : 3; if (memcmp(b, mstr + mpos, n) || b[n] != 0 || b[4] != 'Z') BAD("tail"); break; }
  }
  return 1;
}
static FILE *tmp;
static void tok(const char *s, int seq, int depth, int kind) {
  vp_mark(); mlen = strlen(s); memcpy(mstr, s, mlen + 1); mpos = mrow = mcol = 0; vp_case("tokenizer input=%s ops=%d/%d reader=%d", vp_show(s, mlen), seq, depth, kind);
  char *x = xs(s); src_t src = { x, mlen, 0, kind }; void *r = 0, *t; if (kind == 0) t = t_str(x); else if (kind < 9) { r = r_new(&src, src_read, NULL); t = t_new(r); } else { rewind(tmp); if (ftruncate(fileno(tmp), 0)) {} fwrite(s, 1, mlen, tmp); fflush(tmp); rewind(tmp); t = t_file(tmp); }
  int i; for (i = 0; i < depth; i++, seq /= NOPS) if (!step(t, seq % NOPS)) break;
  if (i == depth) { if (cur() >= 0) step(t, 19); while (cur() >= 0) if (!step(t, 1)) break; if (cur() < 0) { step(t, 1); step(t, 0); step(t, 2); step(t, 19); } }
  t_free(t); if (r) r_free(r); free(x); if (vp_leaked() && i == depth) vp_viol("leak", "tokenizer leaks"); vp_states++; vp_traces++;
}
static void longs(void) {
  for (int n = 990; n <= 200000; n = n < 1010 ? n + 1 : n < 9990 ? 9990 : n < 10010 ? n + 1 : n < 70000 ? n + 20000 : n + 70000) { vp_tick(); char *s = vp_raw(n + 3); memset(s, 'a', n); strcpy(s + n, "1\n"); vp_case("tokenizer %d characters", n);
    void *t = t_str(s); char *g = t_readset(t, "a"); if (strlen(g) != n) vp_viol("toklong", "buf_read_set gives %zu", strlen(g)); free(g); if (t_get(t) != '1') vp_viol("toklong", "position after buf_read_set"); t_free(t);
    t = t_str(s); g = t_until(t, "1\n"); if (strlen(g) != n) vp_viol("toklong", "buf_skip_until gives %zu", strlen(g)); free(g); char p[32]; sprintf(p, "1:%d", n + 1); if (strcmp(t_pos(t), p)) vp_viol("tokpos", "posstr %s", t_pos(t)); t_free(t);
    memset(s, '\n', n); t = t_str(s); for (int i = 0; i < n; i++) t_get(t); sprintf(p, "%d:1", n + 1); if (strcmp(t_pos(t), p)) vp_viol("tokpos", "posstr %s, expected %s", t_pos(t), p); t_free(t);
    char *q = s_newstr("%s%s", s, "x"); if (strlen(q) != n + 3) vp_viol("newstrlong", "newstr of %d characters", n); free(q);
    free(s); vp_states++; }
}
// sizes: every function with texts of many lengths
static void sizes(int n) { vp_tick(); vp_case("texts of %d characters", n); vp_states++; vp_traces++; char *s = vp_raw(2 * n + 40), *g;
  for (int i = 0; i < n; i++) s[i] = " \t\r\n"[i % 4]; strcpy(s + n, "a b"); for (int i = 0; i < n; i++) s[n + 3 + i] = " \n\t\r"[i % 4]; s[2 * n + 3] = 0; g = xs(s); s_trim(g); if (strcmp(g, "a b")) vp_viol("trimlong", "trim gives %zu characters", strlen(g)); free(g);
  g = xs(s); s_rtrim(g, " \t\r\n"); if (strlen(g) != n + 3) vp_viol("trimlong", "rtrim gives %zu characters", strlen(g)); free(g);
  for (int i = 0; i < n; i++) s[i] = 'A' + i * 7 % 26; strcpy(s + n, "Z"); char *a = xs(s), *b = xs(s); b[n] = 'Y'; for (int i = 0; i < n; i++) if (i % 3) b[i] |= 32; char *l = xs(b); l[n] = 'z'; b[n] = 'Y'; char *pre = xs(s); pre[n] = 0; char *dif = xs(s); dif[n] = 'Y';
  if (!s_casecmp(a, l) || s_casecmp(a, b)) vp_viol("long", "casecmp"); if (!s_eq(a, s) || s_eq(a, dif) || s_eq(a, pre)) vp_viol("long", "eq"); if (!s_sw(a, pre) || !s_sw(a, s) || s_sw(a, dif) || s_sw(pre, a)) vp_viol("long", "starts_with"); if (!s_swi(a, l) || s_swi(a, b)) vp_viol("long", "starts_with_i"); if (!s_up(a)) vp_viol("long", "allupper"); a[n] = 'z'; if (s_up(a)) vp_viol("long", "allupper with a last small letter"); a[n] = 'Z'; dif[n] = 'Z'; if (n) dif[0] = '-'; if (!s_ew(a, s) || (n && s_ew(a, dif)) || (n && !s_ew(a, s + 1))) vp_viol("long", "ends_with");
  for (int i = 0; i < 6; i++) { int p = (int[]){ 0, 1, n / 2, n - 1, n, n > 70 ? 65 : 0 }[i]; if (p < 0 || p > n) continue; g = s_sub(s, p, n + 1); if (strcmp(g, s + p)) vp_viol("long", "newsubstr from %d", p); free(g); g = s_sub(s, 0, p); if (strlen(g) != p || memcmp(g, s, p)) vp_viol("long", "newsubstr to %d", p); free(g); } g = s_newstr("%s,%s", s, l); if (strlen(g) != 2 * n + 3) vp_viol("long", "newstr"); free(g); free(a); free(b); free(l); free(pre); free(dif);
  if (n <= 600) { for (int i = 0; i < n; i++) { s[2 * i] = 'a' + i % 26; s[2 * i + 1] = ','; } s[2 * n] = 0; for (int rs = n < 2 ? 1 : n - 1; rs <= n + 3; rs++) { char **res = vp_raw(sizeof(char *) * rs); size_t c = s_split(",", s, res, rs), w = rs < n + 1 ? rs : n + 1; if (c != w) vp_viol("long", "%zu parts instead of %zu", c, w); else for (int i = 0; i < c; i++) { char e[2] = { i < n ? 'a' + i % 26 : 0 }; if (i == rs - 1 ? strcmp(res[i], s + 2 * i) : strcmp(res[i], e)) { vp_viol("long", "part %d", i); break; } } for (int i = 0; i < c && i < rs; i++) free(res[i]); free(res); }
    memset(s, 'x', n); strcpy(s + n, "||end"); char **res = vp_raw(sizeof(char *) * 4); size_t c = s_split("||", s, res, 4); if (c != 2 || strlen(res[0]) != n || strcmp(res[1], "end")) vp_viol("long", "split of a long part"); for (int i = 0; i < c; i++) free(res[i]); free(res); }
  // tokens
  for (int k = 0; k < 3; k++) { memset(s, k == 0 ? 'i' : k == 1 ? '4' : ' ', n); strcpy(s + n, k == 2 ? "x" : "+x"); if (!n) break; void *t = t_str(s); for (int bs = n > 2 ? n - 2 : 1; k < 2 && bs <= n + 2; bs++) { t_free(t); t = t_str(s); char *buf = vp_raw(bs); bool r = k == 0 ? t_id(t, buf, bs) : t_num(t, buf, bs); if (k == 0 ? (!r || strlen(buf) != (bs - 1 < n ? bs - 1 : n)) : (r != (bs > n) || (r && strlen(buf) != n))) vp_viol("long", "%s in a buffer of %d", k ? "num" : "id", bs); else if ((k == 0 || r) && t_get(t) != '+') vp_viol("long", "position after %s", k ? "num" : "id"); free(buf); } if (k == 2) { t_spaces(t); if (t_get(t) != 'x') vp_viol("long", "spaces"); t_free(t); t = t_str(s); t_hspaces(t); if (t_get(t) != 'x') vp_viol("long", "hspaces"); t_free(t); t = t_str(s); t_skipset(t, "\t "); if (t_get(t) != 'x') vp_viol("long", "buf_skip_set"); t_free(t); t = t_str(s); for (int bs = n > 2 ? n - 1 : 1; bs <= n + 2; bs++) { t_free(t); t = t_str(s); char *buf = vp_raw(bs); bool r = t_ru(t, 'x', buf, bs); if (r != (bs > n) || (r && (strlen(buf) != n || t_get(t) != 'x'))) vp_viol("long", "read_until in a buffer of %d", bs); free(buf); } } t_free(t); }
  if (n >= 1 && n <= 100) for (int off = 0; off <= 130; off += off < 3 ? 1 : 9) for (int kind = 0; kind < 3; kind++) { char *x = vp_raw(400); for (int i = 0; i < 399; i++) x[i] = 'A' + (i * 11 + i / 26) % 50; x[399] = 0; src_t src = { x, 399, 0, kind * 37 + 1 }; void *r = kind ? r_new(&src, src_read, NULL) : 0, *t = kind ? t_new(r) : t_str(x); int bad = 0; for (int i = 0; i < off; i++) bad |= t_get(t) != (unsigned char)x[i]; char buf[130], lit[130]; t_tail(t, buf, n); if (strncmp(buf, x + off, n - 1) || strlen(buf) != n - 1) vp_viol("tail", "tail of %d at %d: %s", n, off, buf); memcpy(lit, x + off, n); lit[n] = 0; if (!t_litf(t, lit)) vp_viol("lit", "literal of %d at %d isn't seen", n, off); lit[n - 1] ^= 1; if (t_litf(t, lit) || t_skiplit(t, lit)) vp_viol("lit", "a wrong literal of %d at %d is seen", n, off); lit[n - 1] ^= 1; if (n % 2) { if (!t_skiplit(t, lit)) vp_viol("lit", "skip_literal of %d at %d", n, off); } else bad |= t_get(t) != (unsigned char)x[off]; for (int i = off + (n % 2 ? n : 1); i < 399; i++) bad |= t_get(t) != (unsigned char)x[i]; if (bad || t_get(t) != -1) vp_viol("lit", "characters after a lookahead of %d at %d", n, off); t_free(t); if (r) r_free(r); free(x); vp_trans += 6; }
  if (n > 100 && n < 300) { memset(s, 'q', n); s[n] = 0; char *x = vp_raw(1000), *buf = vp_raw(n + 1); memset(x, 'q', 999); x[999] = 0; void *t = t_str(x); t_tail(t, buf, n); size_t m = strlen(buf); if (m > n - 1 || m < 99 || strspn(buf, "q") != m) vp_viol("tail", "tail of %d gives %zu", n, m); int res = 0; if (!VP_TRY(res = t_litf(t, s)) && !res) vp_viol("lit", "a literal of %d isn't seen", n); int c = 0; while (t_get(t) == 'q') c++; if (c != 999) vp_viol("lit", "%d characters after a long tail", c); t_free(t); free(x); free(buf); }
  free(s); }
static void zeros(void) { for (int m = 0; m < 729; m++) for (int chunk = 1; chunk < 4; chunk++) { char b[6]; int x = m; for (int i = 0; i < 6; i++, x /= 3) b[i] = "\0a\n"[x % 3]; src_t src = { b, 6, 0, chunk }; void *r = r_new(&src, src_read, NULL), *t = t_new(r); vp_case("bytes %s", vp_show(b, 6)); vp_states++; vp_traces++; for (int i = 0; i < 6; i++) if (!t_more(t) || t_peek(t) != b[i] || !t_more(t) || t_get(t) != b[i]) { vp_viol("zero", "byte %d", i); break; } if (t_more(t) || t_get(t) != -1) vp_viol("zero", "more after the end"); t_free(t); r_free(r); } }
void vp_body(void) {
  BIND(s_newstr, "strings.newstr"); BIND(s_sub, "strings.newsubstr"); BIND(s_trim, "strings.trim"); BIND(s_rtrim, "strings.rtrim"); BIND(s_split, "strings.split"); BIND(s_casecmp, "strings.casecmp"); BIND(s_sw, "strings.starts_with"); BIND(s_swi, "strings.starts_with_i"); BIND(s_ew, "strings.ends_with"); BIND(s_eq, "strings.eq"); BIND(s_up, "strings.allupper"); BIND(s_fmtb, "strings.fmt_bytes"); BIND(s_dig, "strings.ascii_digit"); BIND(s_num, "strings.num_from_ascii");
  BIND(e_set, "error.set"); BIND(e_new, "er_new"); BIND(e_isset, "er_isset"); BIND(e_msg, "er_msg");
  BIND(t_str, "tokenizer.from_str"); BIND(t_file, "tokenizer.file"); BIND(t_new, "tokenizer.new"); BIND(t_free, "tokenizer.free"); BIND(t_peek, "tokenizer.peek"); BIND(t_more, "tokenizer.more"); BIND(t_tail, "tokenizer.tail"); BIND(t_get, "tokenizer.get"); BIND(t_skipset, "tokenizer.buf_skip_set"); BIND(t_skip, "tokenizer.buf_skip"); BIND(t_readset, "tokenizer.buf_read_set"); BIND(t_spaces, "tokenizer.spaces"); BIND(t_hspaces, "tokenizer.hspaces"); BIND(t_id, "tokenizer.id"); BIND(t_num, "tokenizer.num"); BIND(t_skiplit, "tokenizer.skip_literal"); BIND(t_litf, "tokenizer.literal_follows"); BIND(t_pos, "tokenizer.posstr"); BIND(t_until, "tokenizer.buf_skip_until"); BIND(t_ru, "tokenizer.read_until");
  BIND(r_new, "reader.new"); BIND(r_free, "reader.free");
  tmp = tmpfile(); long job = 0; static char S[400][8]; int ns = 0;
  for (int n = 0; n <= 4; n++) { int t = 1; for (int i = 0; i < n; i++) t *= 4; for (int s = 0; s < t; s++) { int x = s; for (int i = 0; i < n; i++, x /= 4) S[ns][i] = "abA["[x % 4]; ns++; } }
  for (int i = 0; i < ns; i++) if (MINE(job++)) { for (int j = 0; j < ns; j++) pair(S[i], S[j]); vp_tick(); }
  for (int a = 1; a < 256; a++) if (MINE(job++)) for (int b = 1; b < 256; b++) { char x[2] = { a }, y[2] = { b }; pair(x, y); vp_tick(); }
  for (int n = 0; n <= (vp_thorough ? 8 : 7); n++) { int t = 1; for (int i = 0; i < n; i++) t *= 5; for (int s = 0; s < t; s++) if (MINE(job++)) { char b[10] = ""; int x = s; for (int i = 0; i < n; i++, x /= 5) b[i] = " \tab\n"[x % 5]; trims(b); if (!(s & 1023)) vp_tick(); } }
  for (int n = 0; n <= (vp_thorough ? 9 : 8); n++) { int t = 1; for (int i = 0; i < n; i++) t *= 3; for (int s = 0; s < t; s++) if (MINE(job++)) { char b[12] = ""; int x = s; for (int i = 0; i < n; i++, x /= 3) b[i] = "ab,"[x % 3]; splits(b); if (!(s & 255)) vp_tick(); } }
  for (int sh = 0; sh < 42; sh++) for (int d = -3; d <= 3; d++) for (int k = 1; k < 12; k++) fmtb(((size_t)k << sh) + d > ((size_t)1 << 50) ? 7 : ((size_t)k << sh) + d);
  for (size_t i = 0; i < 300000; i++) if (MINE(i)) { fmtb(i); fmtb(i * 977 + i * i * 131); if (!(i & 4095)) vp_tick(); }
  if (MINE(0)) { vp_quiet(1); for (int i = -300; i < 600; i++) { vp_case("ascii_digit %d", i); char g = 0; int p = VP_TRY(g = s_dig(i)); if (p != (i < 0 || i > 9) || (!p && g != '0' + i)) vp_viol("asciidigit", "ascii_digit"); if (i >= -1 && i < 256 && s_num(i) != (i >= '0' && i <= '9' ? i - '0' : -1)) vp_viol("numascii", "num_from_ascii"); vp_states++; }
    for (int n = 0; n < 300; n++) { char b[310]; memset(b, 'm', n); b[n] = 0; void *e = e_new(); vp_case("error message of %d", n); if (e_isset(e)) vp_viol("err", "set at start"); e_set(e, "%s", b); const char *m = e_msg(e); if (!e_isset(e) || strlen(m) != (n < 99 ? n : 99) || strncmp(m, b, strlen(m))) vp_viol("err", "message of %zu characters", strlen(m)); free(e); vp_states++; }
    if (s_split(",", NULL, (char **)tmp, 3) != 0) vp_viol("splitnull", "split of null"); longs(); vp_quiet(0); }
  vp_quiet(1); for (int n = 0; n <= 600; n++) if (MINE(job++)) sizes(n); for (int k = 0; k < 8; k++) if (MINE(job++)) sizes((int[]){ 999, 1000, 1024, 4095, 4096, 65535, 65536, 70001 }[k]); vp_quiet(0);
  if (MINE(job++)) zeros();
  static const char AL[] = "a1 \n-.e";
  for (int n = 0; n <= (vp_thorough ? 6 : 5); n++) { int t = 1; for (int i = 0; i < n; i++) t *= 7; for (int s = 0; s < t; s++) if (MINE(job++)) { char b[10] = ""; int x = s; for (int i = 0; i < n; i++, x /= 7) b[i] = AL[x % 7];
      int d = n <= 3 ? 3 : n <= 4 || vp_thorough ? 2 : 2; if (n == 6) d = 1; int q = 1; for (int i = 0; i < d; i++) q *= NOPS; vp_tick();
      for (int o = 0; o < q; o++) tok(b, o, d, 0);
      int q2 = n <= 4 ? NOPS * NOPS : NOPS; for (int o = 0; o < q2; o++) { tok(b, o, n <= 4 ? 2 : 1, 1); if (n >= 3) tok(b, o, n <= 4 ? 2 : 1, 2); if (n <= 3 && o < NOPS) tok(b, o, 1, 9); } vp_tick(); } }
  // numbers with long parts
  static const char *NUM[] = { "12.5e+10x", "-0.001e-7", "1e5", "1E+5.5", "123456789.123456789", "--1", "-a", "1.e5", "1e", "1e+", "0x1F", "-", "+1", "1..2", "9e9e9", "007", "a_b1-", "_x", "_", "1_", "a1a1a1a1a1a1", "\xe9t\xe9", "\xff\xff" };
  for (int i = 0; i < sizeof NUM / sizeof *NUM; i++) for (int o = 0; o < NOPS * NOPS; o++) if (MINE(job++)) { tok(NUM[i], o, 2, 0); tok(NUM[i], o, 2, 1); tok(NUM[i], o, 2, 3); }
  vp_sample("tokenizer: all inputs up to %d characters over 'a1 \\n-.e' x all sequences of 24 operations x string/chunked/file readers", vp_thorough ? 6 : 5);
}
