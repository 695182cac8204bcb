// Sequence containers: every operation sequence up to a depth against array models.
#include "vp.h"
FN(void *, v_new, "", (size_t)) FN(void, v_free, "", (void *)) FN(void, v_push, "", (void *, void *)) FN(void *, v_alloc, "", (void *)) FN(void *, v_index, "", (void *, size_t)) FN(size_t, v_len, "", (void *))
FN(void *, b_new, "", (void)) FN(void, b_free, "", (void *)) FN(size_t, b_size, "", (void *)) FN(bool, b_write, "", (void *, char *, size_t)) FN(size_t, b_read, "", (void *, char *, size_t))
FN(void *, l_new, "", (void)) FN(void, l_append, "", (void *, void *)) FN(void, l_remove, "", (void *, void *)) FN(void *, l_next, "", (void *)) FN(void *, l_data, "", (void *))
FN(void *, s_new, "", (void)) FN(void, s_free, "", (void *)) FN(void, s_clear, "", (void *)) FN(bool, s_addc, "", (void *, int)) FN(bool, s_adds, "", (void *, const char *)) FN(bool, s_addf, "", (void *, const char *, ...)) FN(char *, s_raw, "", (void *)) FN(size_t, s_len, "", (void *)) FN(char *, s_unpack, "", (void *))

static void leakcheck(const char *w) { long l = vp_leaked(); if (l) vp_viol("leak", "%s: %ld blocks not released", w, l); }
#define GUARD() do { vp_armed = 1; if (setjmp(vp_jb)) { vp_armed = 0; vp_viol("panic", "panics"); return; } } while (0)

static void vec_run(size_t is, int P, int bits, int depth) {
  static unsigned char m[200000]; vp_mark(); GUARD();
  vp_case("vec itemsize=%zu prefill=%d ops=%x depth=%d", is, P, bits, depth);
  void *v = v_new(is); unsigned char *it = vp_raw(is + 1);
  if (v_len(v) != 0) vp_viol("veclen", "a new vec has length %zu", v_len(v));
  for (int i = 0; i < P + depth; i++) {
    bool alloc = i >= P ? bits >> (i - P) & 1 : i % 3 == 2; unsigned char *q = m + is * i;
    for (size_t j = 0; j < is; j++) q[j] = i * 31 + j * 7 + 1;
    if (alloc) { unsigned char *p = v_alloc(v); for (size_t j = 0; j < is; j++) if (p[j]) { vp_viol("veczero", "a new entry isn't zero"); break; }
      if (p != v_index(v, i)) vp_viol("vecaddr", "alloc doesn't return the address of the last entry"); memcpy(p, q, is); }
    else { unsigned char *x = vp_raw(is ? is : 1); memcpy(x, q, is); v_push(v, x); memset(x, 0x77, is); free(x); }
    vp_trans++;
    if (v_len(v) != i + 1) vp_viol("veclen", "length %zu after %d additions", v_len(v), i + 1);
    if (i >= P - 1) for (int k = 0; k <= i; k++) if (memcmp(v_index(v, k), m + is * k, is)) { vp_viol("vecitem", "item %d of %d changed", k, i + 1); break; }
  }
  free(it); v_free(v); vp_armed = 0; leakcheck("vec"); vp_states++; vp_traces++;
}

static const size_t BW[] = { 1, 2, 3, 7, 0 }, BR[] = { 1, 2, 3, 5, 9, 0 };
static void buf_run(long seq, int depth) {
  static unsigned char q[4096]; size_t h = 0, t = 0; unsigned char c = 1; vp_mark(); GUARD();
  char d[100] = ""; long s = seq; for (int i = 0; i < depth; i++, s /= 11) { int o = s % 11; sprintf(d + strlen(d), "%c%zu ", o < 5 ? 'w' : 'r', o < 5 ? BW[o] : BR[o - 5]); }
  vp_case("buffer %s", d);
  void *b = b_new(); s = seq;
  for (int i = 0; i < depth; i++, s /= 11) {
    int o = s % 11; vp_trans++;
    if (o < 5) { size_t n = BW[o]; char *x = vp_raw(n ? n : 1); for (size_t j = 0; j < n; j++) q[t++] = x[j] = c++; bool ok = b_write(b, x, n); if (n && !ok) vp_viol("bufwrite", "write fails"); memset(x, 0x55, n); free(x); }
    else { size_t n = BR[o - 5], e = t - h < n ? t - h : n; char *x = vp_raw(n ? n : 1); memset(x, 0x66, n); size_t r = b_read(b, x, n);
      if (r != e) vp_viol("bufread", "read(%zu) returns %zu, expected %zu", n, r, e);
      else if (memcmp(x, q + h, e)) vp_viol("bufdata", "read(%zu) gives wrong bytes", n);
      else for (size_t j = e; j < n; j++) if (x[j] != 0x66) { vp_viol("bufover", "read writes past the bytes it returns"); break; }
      h += e; free(x); }
    if (b_size(b) != t - h) vp_viol("bufsize", "size %zu, expected %zu", b_size(b), t - h);
  }
  b_free(b); vp_armed = 0; leakcheck("buffer"); vp_states++; vp_traces++;
}

static void ll_run(long seq, int depth) {
  static int obj[3]; int m[32], n = 0; vp_mark(); GUARD();
  char d[100] = ""; long s = seq; for (int i = 0; i < depth; i++, s /= 7) { int o = s % 7; sprintf(d + strlen(d), "%c%d ", o < 3 ? '+' : o < 6 ? '-' : '0', o % 3); }
  vp_case("llist %s", d);
  void *l = l_new(); s = seq;
  for (int i = 0; i < depth; i++, s /= 7) {
    int o = s % 7; vp_trans++;
    if (o < 3) { l_append(l, &obj[o]); m[n++] = o; }
    else if (o < 6) { l_remove(l, &obj[o - 3]); for (int k = 0; k < n; k++) if (m[k] == o - 3) { memmove(m + k, m + k + 1, sizeof(int) * (n - k - 1)); n--; break; } }
    else l_append(l, NULL);
    int k = 0; for (void *p = l_next(l); p; p = l_next(p), k++) { if (k >= n) { k = -1; break; } if (l_data(p) != &obj[m[k]]) vp_viol("lldata", "item %d is not the one expected", k); }
    if (k != n) vp_viol("lllen", "list has %d items, expected %d", k, n);
  }
  vp_armed = 0;
  long live = vp_leaked(); if (live != n + 1) vp_viol("llleak", "%ld blocks held for %d items", live, n);
  for (void *p = l; p;) { void *q = l_next(p); free(p); p = q; }
  vp_states++; vp_traces++;
}

static char big[5000];
static const int SL[] = { 0, 1, 14, 15, 16, 17, 40 }; static const int FL[] = { 0, 20, 998, 999, 1000, 2100 };
enum { NSB = 3 + 7 + 6 + 1 };
static int sb_op(void *b, int o, unsigned char *m, size_t *n, char tag) {
  int r;
  if (o < 3) { int ch = "x\xff\0"[o]; r = s_addc(b, ch); m[(*n)++] = ch; }
  else if (o < 10) { int k = SL[o - 3]; char *x = vp_raw(k + 1); memset(x, tag, k); if (k) x[k - 1] = '%'; x[k] = 0; memcpy(m + *n, x, k); *n += k; r = s_adds(b, x); free(x); }
  else if (o < 16) { int k = FL[o - 10]; memset(big, tag, k); big[k] = 0; r = s_addf(b, "%s<%d>", big, k); *n += sprintf((char *)m + *n, "%s<%d>", big, k); }
  else { s_clear(b); *n = 0; r = 1; }
  vp_trans++;
  return r;
}
static bool sb_same(void *b, unsigned char *m, size_t n) { char *r = s_raw(b); return r && s_len(b) == n && !memcmp(r, m, n) && r[n] == 0; }
static void sb_run(long seq, int depth) {
  static unsigned char m[20000]; size_t n = 0; vp_mark(); GUARD(); vp_case("strbuilder ops=%ld depth=%d", seq, depth);
  void *b = s_new(); long s = seq; if (!sb_same(b, m, 0)) vp_viol("sbempty", "a new builder isn't an empty string");
  for (int i = 0; i < depth; i++, s /= NSB) {
    if (!sb_op(b, s % NSB, m, &n, 'a' + i)) vp_viol("sbfail", "operation fails");
    if (!sb_same(b, m, n)) vp_viol("sbdata", "wrong contents after operation %ld: %s (%zu), expected %s (%zu)", s % NSB, s_raw(b) ? vp_show(s_raw(b), s_len(b)) : "NULL", s_len(b), vp_show(m, n), n);
  }
  if (seq & 1) { char *u = s_unpack(b); if (!u || memcmp(u, m, n) || u[n]) vp_viol("sbunpack", "unpack gives other contents"); free(u); } else s_free(b);
  vp_armed = 0; leakcheck("strbuilder"); vp_states++; vp_traces++;
}
// every position of a failing allocation
static void sb_fault(long seq, int depth) {
  static unsigned char m[20000];
  for (int f = 1; f < 30; f++) {
    size_t n = 0; int failed = 0; vp_case("strbuilder ops=%ld depth=%d, allocation %d fails", seq, depth, f);
    vp_failat = 0; void *b = s_new(); vp_failat = f; long s = seq; int pan = 0;
    for (int i = 0; i < depth && !pan; i++, s /= NSB) {
      size_t before = n; int r = 0; vp_armed = 1; if (setjmp(vp_jb) == 0) r = sb_op(b, s % NSB, m, &n, 'a' + i); else pan = 1; vp_armed = 0;
      if (pan) break;
      if (!r) { failed = 1; break; }
      if (!sb_same(b, m, n)) { vp_viol("sbfault", "an operation reported success but the contents are wrong"); break; }
    }
    int hit = vp_failat == 0; vp_failat = 0;
    if (failed) { size_t l = s_len(b); if (l > n || memcmp(s_raw(b), m, l) || s_raw(b)[l]) vp_viol("sbfaultdata", "contents damaged by a failed operation"); }
    else if (hit && !pan && failed == 0 && 0) ;
    s_free(b); vp_states++; vp_traces++;
    if (!hit) break;
  }
}
void vp_body(void) {
  BIND(v_new, "vec.new"); BIND(v_free, "vec.free"); BIND(v_push, "vec.push"); BIND(v_alloc, "vec.alloc"); BIND(v_index, "vec.index"); BIND(v_len, "vec.len");
  BIND(b_new, "buffer.new"); BIND(b_free, "buffer.free"); BIND(b_size, "buffer.size"); BIND(b_write, "buffer.write"); BIND(b_read, "buffer.read");
  BIND(l_new, "llist.new"); BIND(l_append, "llist.append"); BIND(l_remove, "llist.remove"); BIND(l_next, "llist.next"); BIND(l_data, "ll_data");
  BIND(s_new, "strbuilder.new"); BIND(s_free, "strbuilder.free"); BIND(s_clear, "strbuilder.clear"); BIND(s_addc, "strbuilder.addc"); BIND(s_adds, "strbuilder.adds"); BIND(s_addf, "strbuilder.addf"); BIND(s_raw, "strbuilder.str_raw"); BIND(s_len, "strbuilder.str_len"); BIND(s_unpack, "strbuilder.str_unpack");
  long job = 0; vp_quiet(1);
  static const size_t is[] = { 1, 2, 3, 4, 8, 13, 24, 100 };
  for (int k = 0; k < 8; k++) for (int P = 0; P <= (vp_thorough ? 600 : 300); P++) { if (!MINE(job++)) continue; vp_tick(); int d = P < 70 ? 4 : 2; for (int b = 0; b < 1 << d; b++) vec_run(is[k], P, b, d); }
  for (int d = 1; d <= (vp_thorough ? 7 : 6); d++) { long t = 1; for (int i = 0; i < d; i++) t *= 11; for (long s = 0; s < t; s++) if (MINE(s)) { buf_run(s, d); if (!(s & 4095)) vp_tick(); } if (d < 6) vp_tick(); }
  for (int d = 1; d <= (vp_thorough ? 8 : 7); d++) { long t = 1; for (int i = 0; i < d; i++) t *= 7; for (long s = 0; s < t; s++) if (MINE(s)) { ll_run(s, d); if (!(s & 4095)) vp_tick(); } }
  for (int d = 0; d <= (vp_thorough ? 5 : 4); d++) { long t = 1; for (int i = 0; i < d; i++) t *= NSB; for (long s = 0; s < t; s++) if (MINE(s)) { sb_run(s, d); if (!(s & 1023)) vp_tick(); } }
  for (int d = 1; d <= 3; d++) { long t = 1; for (int i = 0; i < d; i++) t *= NSB; for (long s = 0; s < t; s++) if (MINE(s)) { sb_fault(s, d); if (!(s & 255)) vp_tick(); } }
  vp_sample("buffer: all sequences of 5 write and 6 read sizes; llist: all append/remove sequences of 3 items; strbuilder: 17 operations, with every allocation failing in turn");
}
