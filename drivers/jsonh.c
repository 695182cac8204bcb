// JSON: lines "hextext kind dump" (kind V: valid with that value, I: not JSON, D: anything safe).
#include "vp.h"
FN(void *, j_parse, "", (const char *, char *, bool *)) FN(void, j_free, "", (void *)) FN(void *, j_clone, "", (void *)) FN(bool, j_put, "", (void *, const char *, void *)) FN(int, j_type, "", (void *)) FN(size_t, j_len, "", (void *)) FN(const char *, j_key, "", (void *, size_t)) FN(void *, j_val, "", (void *, size_t)) FN(void *, j_get, "", (void *, const char *)) FN(const char *, j_str, "", (void *)) FN(double, j_num, "", (void *)) FN(char *, j_format, "", (void *)) FN(void, j_formatwr, "", (void *, void *)) FN(void, j_ws, "", (FILE *, const char *)) FN(int, tcode, "", (int))
FN(void *, w_new, "", (void *, int (*)(void *, const uint8_t *, size_t), void (*)(void *))) FN(void, w_free, "", (void *))
static int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static char D[1 << 20]; static size_t dn;
static void ds(const char *s) { while (s && *s && dn < sizeof D - 64) dn += sprintf(D + dn, "%02x", (uint8_t)*s++); }
static int depth;
static void dump(void *v) {
  int t = j_type(v); if (dn > sizeof D - 1000) return;
  if (t == tcode(0)) { D[dn++] = 'n'; if (j_str(v) || j_num(v) != 0 || j_get(v, "a") || j_val(v, 0) || j_key(v, 0)) vp_viol("getters", "getters give something for null"); }
  else if (t == tcode(1)) { size_t n = j_len(v); D[dn++] = '['; for (size_t i = 0; i < n; i++) { if (i) D[dn++] = ','; dump(j_val(v, i)); } D[dn++] = ']'; if (j_val(v, n) || j_val(v, n + 20) || j_key(v, 0) || j_str(v) || j_get(v, "a")) vp_viol("getters", "getters give something outside of an array"); }
  else if (t == tcode(2)) { size_t n = j_len(v); D[dn++] = '{'; for (size_t i = 0; i < n; i++) { if (i) D[dn++] = ','; const char *k = j_key(v, i); ds(k); D[dn++] = '='; dump(j_val(v, i)); if (j_get(v, k) != j_val(v, i)) vp_viol("get", "get(%s) isn't the value at its position", k); } D[dn++] = '}'; if (j_key(v, n) || j_val(v, n) || j_get(v, "no such key") || j_str(v) || j_num(v) != 0) vp_viol("getters", "getters give something outside of an object"); }
  else if (t == tcode(3)) { D[dn++] = 's'; ds(j_str(v)); if (j_num(v) != 0 || j_get(v, "a") || j_val(v, 0)) vp_viol("getters", "getters give something for a string"); }
  else if (t == tcode(4)) { dn += sprintf(D + dn, "%.17g", j_num(v)); if (j_str(v) || j_get(v, "a") || j_val(v, 0)) vp_viol("getters", "getters give something for a number"); }
  else if (t == tcode(5)) { char *s = j_format(v); D[dn++] = s ? *s : '?'; free(s); }
  else D[dn++] = '?';
  D[dn] = 0; }
static char *dumped(void *v) { dn = 0; D[0] = 0; dump(v); char *q = vp_raw(dn + 1); memcpy(q, D, dn + 1); return q; }
static FILE *outf;
static uint8_t wb[1 << 19]; static size_t wn, wchunk;
static int sink(void *c, const uint8_t *d, size_t n) { if (wchunk && n > wchunk) n = wchunk; if (wn + n > sizeof wb) return -1; memcpy(wb + wn, d, n); wn += n; return n; }
static void one(const char *text, size_t n, char kind, const char *want, long job) {
  char *ex = vp_raw(n + 1); memcpy(ex, text, n + 1); char msg[300] = { 0 }; bool set = false; vp_mark(); vp_states++; vp_trans++;
  void *volatile v = 0; if (VP_TRY(v = j_parse(ex, msg, &set))) { vp_viol("panic", "parse ends the program"); return; }
  if (memcmp(ex, text, n + 1)) vp_viol("input", "the text is changed"); free(ex);
  if (!!v == set) vp_viol("err", "value %s, error %s", v ? "given" : "not given", set ? "set" : "not set");
  if (set && !msg[0]) vp_viol("errmsg", "empty error message");
  if (kind == 'V' && !v) vp_viol("refused", "valid JSON is refused: %s", msg);
  if (kind == 'I' && v) vp_viol("accepted", "this isn't JSON");
  if (v) {
    char *d = dumped(v); vp_traces++; if (kind == 'L' && !strstr(d, "efbfbd") && !strstr(d, "eda") && !strstr(d, "edb")) vp_viol("half", "half of a surrogate pair is read as %.300s", d);
    if (kind == 'V' && strcmp(d, want)) vp_viol("value", "parsed as %.300s, expected %.300s", d, want);
    char *f = 0; if (kind == 'V') { if (VP_TRY(f = j_format(v)) || !f) vp_viol("format", "format fails"); else { 
      fprintf(outf, "%s ", want); for (char *p = f; *p; p++) fprintf(outf, "%02x", (uint8_t)*p); fputc('\n', outf);
      void *b = j_parse(f, msg, &set); if (!b) vp_viol("reparse", "the formatted text %s is refused: %s", vp_show(f, strlen(f)), msg); else { char *d2 = dumped(b); if (strcmp(d, d2)) vp_viol("roundtrip", "comes back from %s as %.300s, expected %.300s", vp_show(f, strlen(f)), d2, d); free(d2); j_free(b); }
      for (wchunk = 0; wchunk < 6; wchunk += 5) { wn = 0; void *w = w_new(0, sink, NULL); if (VP_TRY(j_formatwr(w, v)) || wn != strlen(f) || memcmp(wb, f, wn)) vp_viol("formatwr", "formatwr writes %s", vp_show(wb, wn)); w_free(w); }
      free(f); vp_trans += 3; }
      void *c = 0; if (VP_TRY(c = j_clone(v))) vp_viol("clone", "clone ends the program"); else if (job % 3 == 0) { j_free(v); v = 0; char *d2 = dumped(c); if (strcmp(d, d2)) vp_viol("clone", "the copy is %.300s, expected %.300s", d2, d); free(d2); j_free(c); } else { j_free(c); char *d2 = dumped(v); if (strcmp(d, d2)) vp_viol("clone", "the original changes with its copy"); free(d2); } vp_trans += 2; }
    free(d); if (v) j_free(v); }
  long l = vp_leaked(); if (l) vp_viol("leak", "%ld blocks not released", l); }
// objects: every sequence of puts
static void puts_run(long seq, int nd) {
  static const char *K[] = { "a", "b", "", "c\"\\\n", "a" }, *V[] = { "1", "null", "\"x\"", "[1,{}]" }; char msg[300]; bool set; vp_mark(); vp_case("puts %ld", seq); void *o = j_parse(seq % 2 ? "{\"b\":0}" : "{}", msg, &set); const char *mk[40]; int mv[40], n = 0; if (seq % 2) { mk[n] = "b"; mv[n++] = -1; } long x = seq / 2;
  for (int i = 0; i < nd; i++, x /= 16) { int k = x % 4, vi = x / 4 % 4; void *v = j_parse(V[vi], msg, &set); if (!j_put(o, K[k], v)) vp_viol("put", "put fails"); int j = 0; while (j < n && strcmp(mk[j], K[k])) j++; if (j == n) mk[n++] = K[k]; mv[j] = vi; vp_trans++;
    if (j_len(o) != n) vp_viol("putlen", "%zu entries, expected %d", j_len(o), n); void *g = j_get(o, K[k]); if (g != v) vp_viol("putget", "get doesn't give what was put"); }
  for (int j = 0; j < n; j++) { void *g = j_get(o, mk[j]); char *d = g ? dumped(g) : 0, *e; if (mv[j] < 0) e = dumped(g); else { void *q = j_parse(V[mv[j]], msg, &set); e = dumped(q); j_free(q); } if (!d || strcmp(d, e)) vp_viol("putval", "value of %s is %s, expected %s", mk[j], d, e); free(d); free(e); if (!j_key(o, j) || strcmp(j_key(o, j), mk[j])) vp_viol("putorder", "key %d is %s, expected %s", j, j_key(o, j), mk[j]); }
  char *f = j_format(o); void *b = f ? j_parse(f, msg, &set) : 0; if (!b) vp_viol("putfmt", "formatted object %s is refused", f); else { char *d = dumped(o), *d2 = dumped(b); if (strcmp(d, d2)) vp_viol("putfmt", "object comes back as %s, expected %s", d2, d); free(d); free(d2); j_free(b); } free(f); j_free(o); vp_states++; vp_traces++;
  long l = vp_leaked(); if (l) vp_viol("leak", "puts: %ld blocks not released", l); }
static void wstr(const char *s, size_t n) { // write_string gives a JSON string
  FILE *f = tmpfile(); j_ws(f, s); long k = ftell(f); char b[4096]; rewind(f); if (k > 4000) k = 4000; k = fread(b, 1, k, f); b[k] = 0; fclose(f); char msg[300]; bool set; vp_states++; vp_trans++;
  fprintf(outf, "s"); for (size_t i = 0; i < n; i++) fprintf(outf, "%02x", (uint8_t)s[i]); fputc(' ', outf); for (int i = 0; i < k; i++) fprintf(outf, "%02x", (uint8_t)b[i]); fputc('\n', outf);
  void *v = j_parse(b, msg, &set); if (!v || !j_str(v) || strcmp(j_str(v), s)) vp_viol("wstr", "write_string of %s gives %s", vp_show(s, n), vp_show(b, k)); if (v) j_free(v); }
void vp_body(void) {
  BIND(j_parse, "j_parse"); BIND(j_free, "json.json_free"); BIND(j_clone, "json.clone"); BIND(j_put, "json.json_put"); BIND(j_type, "json.type"); BIND(j_len, "json.len"); BIND(j_key, "json.key"); BIND(j_val, "json.val"); BIND(j_get, "json.get"); BIND(j_str, "json.strval"); BIND(j_num, "json.numval"); BIND(j_format, "json.format"); BIND(j_formatwr, "json.formatwr"); BIND(j_ws, "json.write_string"); BIND(tcode, "tcode"); BIND(w_new, "writer.new"); BIND(w_free, "writer.free");
  char on[64]; snprintf(on, 64, "out.%d", vp_shard); outf = fopen(on, "w");
  FILE *f = fopen(getenv("VP_TABLE"), "r"); static char line[1 << 20]; static char m[1 << 19]; long job = 0;
  while (fgets(line, sizeof line, f)) { if (!MINE(job++)) continue; if (job % 512 < vp_nshards) vp_tick(); char *sp = strchr(line, ' '); size_t n = (sp - line) / 2; for (size_t i = 0; i < n; i++) m[i] = hexv(line[2 * i]) * 16 + hexv(line[2 * i + 1]); m[n] = 0; sp[3 + strcspn(sp + 3, "\n")] = 0;
    vp_case("text %s", vp_show(m, n)); if (job / vp_nshards % 3001 == 7) vp_sample("%s -> %c %.80s", vp_show(m, n), sp[1], sp + 3); one(m, n, sp[1], sp + 3, job / vp_nshards); }
  fclose(f);
  for (int d = 1; d <= (vp_thorough ? 4 : 3); d++) for (long s = 0; s < 2L << 4 * d; s++) { if (!MINE(job++)) continue; if (s % 256 < 8) vp_tick(); puts_run(s, d); }
  for (int k = 0; k < 40; k += 1) { if (!MINE(job++)) continue; char msg[300]; bool set; vp_case("object of %d keys", k); vp_mark(); void *o = j_parse("{}", msg, &set); for (int i = 0; i < k; i++) { char kb[20]; sprintf(kb, "k%d", i); j_put(o, kb, j_parse("7", msg, &set)); } for (int i = 0; i < k; i++) { char kb[20]; sprintf(kb, "k%d", i); if (j_num(j_get(o, kb)) != 7 || strcmp(j_key(o, i), kb)) vp_viol("many", "key %s lost", kb); } if (j_len(o) != k) vp_viol("many", "length"); j_free(o); void *q = j_parse("[1]", msg, &set); if (j_put(q, "a", NULL) || j_put(NULL, "a", NULL)) vp_viol("putno", "put into something that isn't an object"); j_free(q); if (vp_leaked()) vp_viol("leak", "many"); vp_states++; }
  static const char SC[] = "a\"\\/\n\t\r\b\f\x01\x1f\x7f"; for (int n = 0; n <= 3; n++) { long t = 1; for (int i = 0; i < n; i++) t *= 12; for (long v = 0; v < t; v++) { if (!MINE(job++)) continue; if (v % 64 < 8) vp_tick(); char s[8]; long x = v; for (int i = 0; i < n; i++, x /= 12) s[i] = SC[x % 12]; s[n] = 0; vp_case("write_string %s", vp_show(s, n)); wstr(s, n); } }
  for (int c = 1; c < 256; c++) { if (!MINE(job++)) continue; char s[4] = { 'x', c, 'y', 0 }; if (c >= 128) continue; vp_case("write_string %d", c); wstr(s, 3); }
  fclose(outf);
}
