// Digests against a table made by an independent implementation: lines "hexmessage md5 sha1".
#include "vp.h"
#include <pthread.h>
#include <fcntl.h>
FN(bool, md5_str, "", (const char *, uint32_t *)) FN(bool, md5_buf, "", (const char *, size_t, uint32_t *)) FN(bool, md5_eq, "", (uint32_t *, uint32_t *)) FN(void, md5_print, "", (uint32_t *)) FN(void, md5_sprint, "", (uint32_t *, char *))
FN(void *, s_new, "", (void)) FN(void, s_reset, "", (void *)) FN(bool, s_fmt, "", (void *, char *, size_t)) FN(void, s_bytes, "", (void *, uint8_t *)) FN(bool, s_add, "", (void *, char)) FN(bool, s_end, "", (void *))
static int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static int tmpfd;
static void md5_case(const uint8_t *m, size_t n, const char *want, long job) {
  uint8_t *ex = vp_raw(n ? n : 1); memcpy(ex, m, n); uint32_t d[4], d2[4]; char b[40]; vp_mark();
  memset(b, 'Z', 40);
  if (!md5_buf((char *)ex, n, d)) { vp_viol("md5fail", "md5_buf fails"); return; }
  if (memcmp(ex, m, n)) vp_viol("md5in", "the message is changed");
  md5_sprint(d, b); if (b[32] != 0 || b[33] != 'Z' || memcmp(b, want, 32)) vp_viol("md5", "md5 %.32s, expected %.32s", b, want);
  uint8_t ref[16]; for (int i = 0; i < 16; i++) { ref[i] = hexv(want[2 * i]) * 16 + hexv(want[2 * i + 1]); if ((d[i / 4] >> 8 * (i % 4) & 255) != ref[i]) { vp_viol("md5w", "word %d of the sum", i / 4); break; } }
  if (!memchr(m, 0, n)) { char *s = vp_raw(n + 1); memcpy(s, m, n); s[n] = 0; memset(d2, 0, 16); if (!md5_str(s, d2) || memcmp(d, d2, 16)) vp_viol("md5str", "md5_str differs from md5_buf"); free(s); vp_trans++; }
  memcpy(d2, d, 16); if (!md5_eq(d, d2)) vp_viol("md5eq", "a sum is not equal to itself");
  if (job % 16 == 0) for (int i = 0; i < 128; i++) { d2[i / 32] ^= 1u << i % 32; if (md5_eq(d, d2)) vp_viol("md5neq", "sums that differ in bit %d are equal", i); d2[i / 32] ^= 1u << i % 32; }
  if (job % 64 == 0) { fflush(stdout); int o = dup(1); if (ftruncate(tmpfd, 0)) {} lseek(tmpfd, 0, 0); dup2(tmpfd, 1); md5_print(d); fflush(stdout); dup2(o, 1); close(o); char pb[64] = { 0 }; lseek(tmpfd, 0, 0); int k = read(tmpfd, pb, 63); if (k != 32 || memcmp(pb, want, 32)) vp_viol("md5print", "md5_print prints %s", vp_show(pb, k)); }
  long l = vp_leaked(); if (l) vp_viol("leak", "md5: %ld blocks not released", l);
  free(ex); vp_states++; vp_traces++; vp_trans += 3;
}
static void sha_case(void *h, const uint8_t *m, size_t n, const char *want, long job) {
  char b[64]; uint8_t raw[24], ref[20]; s_reset(h); for (int i = 0; i < job % 140; i++) s_add(h, (char)(i * 3)); s_reset(h); // a message that is given up leaves nothing behind
  for (size_t i = 0; i < n; i++) if (!s_add(h, (char)m[i])) { vp_viol("shaadd", "add fails at byte %zu", i); return; }
  if (!s_end(h)) { vp_viol("shaend", "end fails"); return; }
  memset(raw, 0x5A, 24); s_bytes(h, raw); for (int i = 0; i < 20; i++) ref[i] = hexv(want[2 * i]) * 16 + hexv(want[2 * i + 1]);
  if (memcmp(raw, ref, 20)) vp_viol("sha1", "sha1 %s, expected %.40s", vp_show(raw, 20), want); if (raw[20] != 0x5A) vp_viol("shaover", "as_bytes writes more than 20 bytes");
  for (int sz = 0; sz <= 48; sz++) { if (job % 16 && sz != 41 && sz != 48) continue; memset(b, 'Z', 64); bool ok = s_fmt(h, b, sz); vp_trans++;
    for (int i = sz; i < 64; i++) if (b[i] != 'Z') { vp_viol("shafmtover", "format writes past %d bytes", sz); break; }
    if (sz >= 41 && !ok) vp_viol("shafmt", "format into %d bytes fails", sz); if (sz < 40 && ok) vp_viol("shafmt", "format into %d bytes succeeds", sz);
    if (ok && sz >= 41 && (memcmp(b, want, 40) || b[40])) vp_viol("shafmt", "format gives %s", vp_show(b, 42)); }
  // a finished digest accepts nothing and keeps its value
  if (s_add(h, 'x') || s_end(h)) vp_viol("shafin", "a finished digest accepts more"); memset(raw, 0, 20); s_bytes(h, raw); if (memcmp(raw, ref, 20)) vp_viol("shafin", "a finished digest changes");
  vp_states++; vp_traces++; vp_trans += n + 5;
}
static void *ticker(void *x) { for (int i = 0; i < 300; i++) { vp_tick(); sleep(1); } return x; } // a single long call
void vp_body(void) {
  BIND(md5_str, "md5.md5_str"); BIND(md5_buf, "md5.md5_buf"); BIND(md5_eq, "md5.md5_eq"); BIND(md5_print, "md5.md5_print"); BIND(md5_sprint, "md5.md5_sprint");
  BIND(s_new, "s_new"); BIND(s_reset, "sha1.reset"); BIND(s_fmt, "sha1.format"); BIND(s_bytes, "sha1.as_bytes"); BIND(s_add, "sha1.add"); BIND(s_end, "sha1.end");
  tmpfd = fileno(tmpfile());
  FILE *f = fopen(getenv("VP_TABLE"), "r"); static char line[400000]; static uint8_t m[200000]; long job = 0; void *h = s_new();
  while (fgets(line, sizeof line, f)) { if (!MINE(job++)) continue; vp_tick();
    char *sp = strchr(line, ' '); size_t n = (sp - line) / 2; for (size_t i = 0; i < n; i++) m[i] = hexv(line[2 * i]) * 16 + hexv(line[2 * i + 1]);
    vp_case("digest of %zu bytes: %s", n, vp_show(m, n > 80 ? 80 : n)); if (job < 40) vp_sample("%zu bytes %s -> %.60s", n, vp_show(m, n > 20 ? 20 : n), sp + 1);
    md5_case(m, n, sp + 1, job / vp_nshards); sha_case(h, m, n, sp + 34, job / vp_nshards); }
  // messages whose length in bits needs more than 32 bits, of a repeated megabyte
  for (int k = 0; getenv("VP_BIG") && k < 2; k++) if (vp_shard == k) { long tot = atol(getenv("VP_BIG")); char *w = strchr(getenv("VP_BIG"), ' ') + 1; vp_case("digest of %ld bytes", tot); vp_states++; vp_traces++; static uint8_t blk[1 << 20]; for (long i = 0; i < 1 << 20; i++) blk[i] = i * 31 + (i >> 8);
    if (k == 0) { s_reset(h); for (long i = 0; i < tot; i++) { if (!(i & 0xfffff)) vp_tick(); if (!s_add(h, (char)blk[i & 0xfffff])) { vp_viol("shaadd", "add fails at byte %ld", i); break; } } char b[64] = ""; s_end(h); s_fmt(h, b, 64); if (strncmp(b, w + 33, 40)) vp_viol("sha1", "sha1 %s, expected %.40s", b, w + 33); }
    else { char *all = vp_raw(tot); for (long i = 0; i < tot; i += 1 << 20) memcpy(all + i, blk, tot - i < 1 << 20 ? tot - i : 1 << 20); uint32_t d[4]; char b[64] = ""; pthread_t th; pthread_create(&th, 0, ticker, 0); md5_buf(all, tot, d); vp_tick(); md5_sprint(d, b); if (strncmp(b, w, 32)) vp_viol("md5", "md5 %s, expected %.32s", b, w); } }
}
