// Byte and bit streams, integer encodings, memory streams, line reading.
#include "vp.h"
FN(void *, r_string, "", (const char *)) FN(void *, r_buf, "", (const void *, size_t)) FN(void *, r_file, "", (FILE *)) FN(void *, r_fd, "", (int)) FN(void *, r_new, "", (void *, int (*)(void *, uint8_t *, size_t), void (*)(void *)))
FN(int, r_read, "", (void *, void *, size_t)) FN(void, r_skip, "", (void *, size_t)) FN(void, r_free, "", (void *)) FN(size_t, r_pos, "", (void *))
FN(void *, w_buf, "", (void *, size_t)) FN(void *, w_file, "", (FILE *)) FN(void *, w_fd, "", (int)) FN(void *, w_new, "", (void *, int (*)(void *, const uint8_t *, size_t), void (*)(void *))) FN(int, w_write, "", (void *, const void *, size_t)) FN(int, w_byte, "", (void *, uint8_t)) FN(void, w_free, "", (void *)) FN(size_t, w_n, "", (void *))
FN(void *, br_new, "", (void *, int)) FN(void, br_close, "", (void *)) FN(int, br_1, "", (void *)) FN(int, br_n, "", (void *, int)) FN(void *, bw_new, "", (void *, int)) FN(bool, bw_close, "", (void *)) FN(bool, bw_1, "", (void *, uint8_t)) FN(bool, bw_bits, "", (void *, uint8_t *, size_t)) FN(void, getls, "", (uint8_t, uint8_t *)) FN(void, getms, "", (uint8_t, uint8_t *)) FN(int, order, "", (int))
FN(int, e_r1, "", (void *, uint8_t *)) FN(int, e_r2le, "", (void *, uint16_t *)) FN(bool, e_r2be, "", (void *, uint16_t *)) FN(int, e_r3le, "", (void *, uint32_t *)) FN(int, e_r4be, "", (void *, uint32_t *)) FN(int, e_r4le, "", (void *, uint32_t *))
FN(int, e_w1, "", (void *, char)) FN(int, e_w2le, "", (void *, uint32_t)) FN(int, e_w4be, "", (void *, uint32_t)) FN(int, e_w4le, "", (void *, uint32_t))
FN(char *, h_byte, "", (uint8_t, char *)) FN(int, h_write, "", (void *, const void *, size_t)) FN(int, u_write, "", (void *, const void *, size_t))
FN(void *, m_open, "", (void)) FN(void, m_close, "", (void *)) FN(void, m_rewind, "", (void *)) FN(void, m_reset, "", (void *)) FN(size_t, m_tell, "", (void *)) FN(int, m_putc, "", (int, void *)) FN(int, m_getc, "", (void *)) FN(size_t, m_write, "", (void *, const char *, size_t)) FN(int, m_printf, "", (void *, const char *, ...)) FN(size_t, m_read, "", (void *, char *, size_t)) FN(void *, m_writer, "", (void *))
FN(void *, l_new, "", (FILE *)) FN(bool, l_read, "", (void *)) FN(char *, l_line, "", (void *)) FN(void, l_free, "", (void *))
FN(void *, y_new, "", (const char *)) FN(void, y_free, "", (void *)) FN(bool, y_ended, "", (void *)) FN(int, y_readc, "", (void *)) FN(int, y_peekc, "", (void *)) FN(uint16_t, y_16, "", (void *)) FN(uint32_t, y_32, "", (void *))

static void leak(const char *w) { long l = vp_leaked(); if (l) vp_viol("leak", "%s: %ld blocks not released", w, l); }
static FILE *tmp; static void fill(const void *p, size_t n) { rewind(tmp); if (ftruncate(fileno(tmp), 0)) {} fwrite(p, 1, n, tmp); fflush(tmp); rewind(tmp); }
// a reader that delivers at most `chunk` bytes per call
typedef struct { const uint8_t *p; size_t n, pos, chunk; } src_t;
static int src_read(void *c, uint8_t *b, size_t n) { src_t *s = c; if (s->pos >= s->n) return -1; if (n > s->chunk) n = s->chunk; if (n > s->n - s->pos) n = s->n - s->pos; memcpy(b, s->p + s->pos, n); s->pos += n; return n; }
typedef struct { uint8_t b[256]; size_t n, cap; } sink_t;
static int sink_write(void *c, const uint8_t *d, size_t n) { sink_t *s = c; if (s->n >= s->cap) return -1; if (n > s->cap - s->n) n = s->cap - s->n; memcpy(s->b + s->n, d, n); s->n += n; return n; }

static void bits_run(unsigned v, int n) { // the low n bits of v, bit n-1 first
  for (int ord = 0; ord < 2; ord++) {
    uint8_t want[8] = { 0 }, got[8]; int nb = (n + 7) / 8; vp_mark(); vp_case("bits %x/%d order=%d", v, n, ord);
    for (int i = 0; i < n; i++) if (v >> (n - 1 - i) & 1) want[i / 8] |= ord == 0 ? 0x80 >> i % 8 : 1 << i % 8;
    for (int bulk = 0; bulk < 2; bulk++) {
      memset(got, 0xAA, 8); void *w = w_buf(got, nb), *b = bw_new(w, order(ord));
      bool ok = true;
      if (bulk) { uint8_t bb[32]; for (int i = 0; i < n; i++) bb[i] = v >> (n - 1 - i) & 1; ok = bw_bits(b, bb, n); }
      else for (int i = 0; i < n; i++) { uint8_t x = v >> (n - 1 - i) & 1; if (!bw_1(b, x && (n & 1) ? 255 : x)) ok = false; }
      if (!bw_close(b)) ok = false;
      if (!ok) vp_viol("bitwfail", "writing fails"); else if (memcmp(got, want, nb)) vp_viol("bitw", "written %s, expected %s", vp_show(got, nb), vp_show(want, nb));
      if (w_n(w) != nb) vp_viol("nwritten", "nwritten %zu, expected %d", w_n(w), nb);
      w_free(w); vp_trans += n;
    }
    uint8_t *ex = vp_raw(nb + 1); memcpy(ex, want, nb);
    src_t s = { ex, nb, 0, 1 }; int kinds = n <= 12 ? 3 : 1; if (n > 14 && (v & 7) == 0) kinds = 2;
    for (int k = 0; k < kinds; k++) {
      s.pos = 0; void *r; if (k == 1) { fill(ex, nb); r = r_file(tmp); } else r = k == 0 ? r_buf(ex, nb) : r_new(&s, src_read, NULL);
      if (k == 1 && n > 10 && (v & 31)) { r_free(r); continue; }
      void *b = br_new(r, order(ord));
      for (int i = 0; i < nb * 8 + 2; i++) { int e = i >= nb * 8 ? -1 : i < n ? (int)(v >> (n - 1 - i) & 1) : 0; int g = br_1(b); vp_trans++;
        if (g != e) { vp_viol("bitr", "bit %d reads as %d, expected %d (reader %d)", i, g, e, k); break; } }
      br_close(b); r_free(r); vp_traces++;
    }
    // readn: every split of the sequence in two, then past the end
    for (int a = 0; a <= nb * 8 && n <= 13; a++) {
      void *r = r_buf(ex, nb), *b = br_new(r, order(ord)); unsigned full = v << (nb * 8 - n); int rest = nb * 8 - a;
      int g1 = br_n(b, a), g2 = br_n(b, rest), g3 = br_n(b, 1); int e1 = full >> rest, e2 = full & ((1u << rest) - 1);
      if (g1 != e1 || g2 != e2 || g3 != -1) vp_viol("bitn", "readn(%d),readn(%d),readn(1) = %d %d %d, expected %d %d -1", a, rest, g1, g2, g3, e1, e2);
      br_close(b); r_free(r); r = r_buf(ex, nb); b = br_new(r, order(ord)); br_n(b, a); if (br_n(b, rest + 1) != -1) vp_viol("bitshort", "readn of more bits than there are"); br_close(b); r_free(r); vp_trans += 5; }
    // no room
    for (int cap = 0; cap < nb; cap++) { void *w = w_buf(got, cap), *b = bw_new(w, order(ord)); int bad = 0; for (int i = 0; i < n; i++) if (!bw_1(b, v >> (n - 1 - i) & 1)) { bad = 1; if (i < cap * 8) vp_viol("bitroom", "write1 fails with room left"); break; }
      bool c = bw_close(b); if (c) vp_viol("bitclose", "close reports success though %d of %d bytes fit", cap, nb); if (bad && w_n(w) != cap) vp_viol("bitcap", "wrong number of bytes written"); w_free(w); }
    free(ex); leak("bits"); vp_states++;
  }
}
static void endian_run(uint32_t v) {
  uint8_t b[8]; vp_case("endian %08x", v);
  struct { int (*w)(void *, uint32_t); int n, be; } W[] = { { e_w2le, 2, 0 }, { e_w4be, 4, 1 }, { e_w4le, 4, 0 } };
  for (int k = 0; k < 3; k++) { uint8_t e[4]; for (int i = 0; i < W[k].n; i++) e[i] = v >> 8 * (W[k].be ? W[k].n - 1 - i : i);
    memset(b, 0x11, 8); void *w = w_buf(b, 8); int r = W[k].w(w, v); if (r != W[k].n || memcmp(b, e, W[k].n) || b[W[k].n] != 0x11) vp_viol("endw", "writer %d: %d, %s", k, r, vp_show(b, 4)); w_free(w); vp_trans++; }
  { void *w = w_buf(b, 8); if (e_w1(w, (char)v) != 1 || b[0] != (uint8_t)v) vp_viol("endw1", "write1"); w_free(w); }
  for (int i = 0; i < 4; i++) b[i] = v >> (24 - 8 * i);
  uint8_t v1; uint16_t h; uint32_t x; void *r;
#define RD(call, len, want, val) do { r = r_buf(b, 4); if ((call) != len || (val) != (want)) vp_viol("endr", #call); if (r_pos(r) != (len)) vp_viol("endpos", #call " position"); r_free(r); vp_trans++; } while (0)
  RD(e_r1(r, &v1), 1, b[0], v1); RD(e_r2le(r, &h), 2, b[0] | b[1] << 8, h); RD(e_r3le(r, &x), 3, b[0] | b[1] << 8 | b[2] << 16, x);
  RD(e_r4be(r, &x), 4, v, x); RD(e_r4le(r, &x), 4, (uint32_t)b[0] | b[1] << 8 | b[2] << 16 | (uint32_t)b[3] << 24, x);
  r = r_buf(b, 4); if (!e_r2be(r, &h) || h != (b[0] << 8 | b[1]) || r_pos(r) != 2) vp_viol("endr", "read2be"); r_free(r);
  vp_states++; vp_traces++;
}
static void endian_short(void) {
  uint8_t b[4] = { 1, 2, 3, 4 }, v1; uint16_t h; uint32_t x;
  for (int n = 0; n < 4; n++) { vp_case("endian short %d", n); void *r;
#define SH(call, need) r = r_buf(b, n); if (n < need && (call)) vp_viol("endshort", #call " succeeds on %d bytes", n); r_free(r);
    SH(e_r1(r, &v1) == 1, 1) SH(e_r2le(r, &h) == 2, 2) SH(e_r2be(r, &h), 2) SH(e_r3le(r, &x) == 3, 3) SH(e_r4be(r, &x) == 4, 4) SH(e_r4le(r, &x) == 4, 4) vp_states++; }
  for (int cap = 0; cap < 4; cap++) { uint8_t o[8]; vp_case("endian room %d", cap); void *w;
#define SW(call, need) w = w_buf(o, cap); if (((call) == need) != (cap >= need)) vp_viol("endroom", #call " with %d bytes of room", cap); w_free(w);
    SW(e_w1(w, 1), 1) SW(e_w2le(w, 1), 2) SW(e_w4le(w, 1), 4) SW(e_w4be(w, 1), 4) vp_states++; }
}
// reader/writer: all sequences of sizes, over every kind of stream
static void rw_run(int seq, int depth) {
  uint8_t data[80]; for (int i = 0; i < 80; i++) data[i] = 200 + i * 3;
  static const int SZ[] = { 0, 1, 2, 5, 9 };
  for (int kind = 0; kind < 4; kind++) for (int len = 0; len <= 12; len += 3) {
    vp_mark(); vp_case("reader kind=%d len=%d seq=%d", kind, len, seq);
    uint8_t *ex = vp_raw(len + 1); memcpy(ex, data, len); src_t s = { ex, len, 0, 4 }; void *r; char *str = 0;
    if (kind == 1 || kind == 2) fill(data, len);
    if (kind == 0) r = r_buf(ex, len); else if (kind == 1) r = r_file(tmp); else if (kind == 2) { lseek(fileno(tmp), 0, 0); r = r_fd(fileno(tmp)); } else r = r_new(&s, src_read, NULL);
    size_t pos = 0; int x = seq;
    for (int i = 0; i < depth; i++, x /= 6) { int o = x % 6; uint8_t b[16]; memset(b, 0x33, 16); vp_trans++;
      if (o == 5) { r_skip(r, 2); pos += 2; if (pos > len) pos = len; }
      else { int n = SZ[o], e = len - pos < n ? len - pos : n; if (kind == 3 && e > 4) e = 4; int g = r_read(r, b, n);
        if (e == 0 ? g > 0 : g != e || memcmp(b, data + pos, e)) { vp_viol("read", "read(%d) at %zu gives %d", n, pos, g); break; }
        if (b[e] != 0x33) vp_viol("readover", "read writes past the bytes it returns");
        pos += e; }
      if (r_pos(r) != pos) { vp_viol("pos", "position %zu, expected %zu", r_pos(r), pos); break; } }
    r_free(r); free(ex); leak("reader");
    // writer of the same sizes
    uint8_t out[80]; memset(out, 0, 80); sink_t k = { .cap = len }; void *w; vp_mark(); vp_case("writer kind=%d cap=%d seq=%d", kind, len, seq);
    if (kind == 1 || kind == 2) fill("", 0);
    w = kind == 0 ? w_buf(out, len) : kind == 1 ? w_file(tmp) : kind == 2 ? (lseek(fileno(tmp), 0, 0), w_fd(fileno(tmp))) : w_new(&k, sink_write, NULL);
    int lim = kind == 1 || kind == 2 ? 70 : len; size_t n = 0; x = seq;
    for (int i = 0; i < depth; i++, x /= 6) { int o = x % 6, sz = o == 5 ? 1 : SZ[o]; int e = lim - (int)n < sz ? lim - (int)n : sz; int g = o == 5 ? w_byte(w, data[n]) : w_write(w, data + n, sz); vp_trans++;
      if (e == 0 ? g > 0 : g != e) { vp_viol("write", "write(%d) at %zu of %d gives %d", sz, n, lim, g); break; } n += e;
      if (w_n(w) != n) { vp_viol("nwritten", "nwritten %zu, expected %zu", w_n(w), n); break; } }
    uint8_t back[96] = { 0 }; if (kind == 1 || kind == 2) { fflush(tmp); lseek(fileno(tmp), 0, 0); if (read(fileno(tmp), back, 96) != n) vp_viol("wfile", "file has another length"); } else memcpy(back, kind == 0 ? out : k.b, n);
    if (memcmp(back, data, n)) vp_viol("wdata", "other bytes were written");
    w_free(w); leak("writer"); vp_states += 2; vp_traces += 2;
  }
}
static void mem_run(long seq, int depth) {
  enum { N = 12 }; static unsigned char m[4000]; size_t pos = 0, len = 0; vp_mark(); vp_case("mem ops=%ld depth=%d", seq, depth); char big[200]; unsigned char c = 0xFA;
  void *s = m_open(); long x = seq;
  for (int i = 0; i < depth; i++, x /= N) { int o = x % N; vp_trans++;
    switch (o) {
    case 0: case 1: { int ch = o ? 0xFF : 'a' + i; if (m_putc(ch, s) != ch) vp_viol("memputc", "memputc"); m[pos++] = ch; break; }
    case 2: case 3: case 4: { int n = o == 2 ? 3 : o == 3 ? 31 : 70; for (int j = 0; j < n; j++) big[j] = c++; if (m_write(s, big, n) != n) vp_viol("memwrite", "memwrite"); memcpy(m + pos, big, n); pos += n; break; }
    case 5: { int n = m_printf(s, "%d-%s", 42 + i, "abc"); int e = sprintf(big, "%d-%s", 42 + i, "abc"); if (n != e) vp_viol("memprintf", "memprintf returns %d", n); memcpy(m + pos, big, e); pos += e; break; }
    case 6: { int e = pos < len ? m[pos++] : -1, g = m_getc(s); if (g != e) vp_viol("memgetc", "memgetc gives %d, expected %d", g, e); break; }
    case 7: case 8: { int n = o == 7 ? 4 : 100, e = len - pos < n ? len - pos : n; memset(big, 0x44, 110); int g = m_read(s, big, n); if (g != e || memcmp(big, m + pos, e) || big[e] != 0x44) vp_viol("memread", "memread(%d) gives %d", n, g); pos += e; break; }
    case 9: m_rewind(s); pos = 0; break;
    case 10: m_reset(s); pos = len = 0; break;
    case 11: { void *w = m_writer(s); int g = w_write(w, "xyz", 3); if (g != 3) vp_viol("memwriter", "writer gives %d", g); memcpy(m + pos, "xyz", 3); pos += 3; w_free(w); break; }
    }
    if (pos > len) len = pos;
    if (m_tell(s) != pos) { vp_viol("memtell", "memtell %zu, expected %zu after operation %d", m_tell(s), pos, o); break; } }
  m_rewind(s); static char all[4000]; size_t g = m_read(s, all, 4000); if (g != len || memcmp(all, m, len)) vp_viol("memdata", "contents %zu bytes, expected %zu", g, len);
  m_rewind(s); for (size_t i = 0; i < len; i++) { int ch = m_getc(s); if (ch != m[i]) { vp_viol("memgetc", "memgetc gives %d for byte %d", ch, m[i]); break; } } if (m_getc(s) != -1) vp_viol("memeof", "memgetc at the end");
  m_close(s); leak("mem"); vp_states++; vp_traces++;
}
static void enc_run(const uint8_t *d, int n) {
  char hx[64] = "", ur[64] = ""; for (int i = 0; i < n; i++) sprintf(hx + 2 * i, "%02x", d[i]);
  int ul = 0; int ends[8] = { 0 }; for (int i = 0; i < n; i++) { if (d[i] < 128 && isalnum(d[i])) ur[ul++] = d[i]; else ul += sprintf(ur + ul, "%%%02X", d[i]); ends[i + 1] = ul; }
  uint8_t o[64]; memset(o, 'z', 64); vp_case("encode %s", vp_show(d, n));
  void *w = w_buf(o, 60); int r = h_write(w, d, n); if (r != n || memcmp(o, hx, 2 * n) || o[2 * n] != 'z') vp_viol("hex", "%d %s, expected %s", r, vp_show(o, 2 * n), hx); w_free(w);
  memset(o, 'z', 64); w = w_buf(o, 60); r = u_write(w, d, n); if (r != ul || memcmp(o, ur, ul) || o[ul] != 'z') vp_viol("url", "%d %s, expected %s", r, vp_show(o, ul), ur); w_free(w);
  if (n == 1) { char p[4] = "zzz"; char *e = h_byte(d[0], p); if (e != p + 2 || memcmp(p, hx, 2) || p[2] != 'z') vp_viol("hexbyte", "writebyte"); }
  for (int cap = 0; cap < 2 * n; cap++) { w = w_buf(o, cap); r = h_write(w, d, n); if (r == n) vp_viol("hexroom", "reports all bytes written with room for %d", cap); if (r > cap / 2) vp_viol("hexroom", "reports %d bytes with room for %d", r, cap); w_free(w); }
  for (int cap = 0; cap < ul; cap++) { w = w_buf(o, cap); r = u_write(w, d, n); if (r == ul) vp_viol("urlroom", "reports success with room for %d of %d", cap, ul); w_free(w); }
  vp_states++; vp_traces++; vp_trans += 4;
}
static void lines_run(const char *d, int n) {
  fill(d, n); vp_mark(); vp_case("lines %s", vp_show(d, n > 60 ? 60 : n)); void *l = l_new(tmp); int p = 0;
  while (p < n) { int e = p; while (e < n && d[e] != '\n') e++; if (e < n) e++; vp_trans++;
    if (!l_read(l)) { vp_viol("lineend", "reading stops at byte %d of %d", p, n); break; }
    char *s = l_line(l); if (strlen(s) != e - p || memcmp(s, d + p, e - p)) { vp_viol("line", "line at %d is %s (%zu bytes), expected %d bytes", p, vp_show(s, strlen(s)), strlen(s), e - p); break; } p = e; }
  if (p >= n) for (int i = 0; i < 2; i++) if (l_read(l)) vp_viol("lineeof", "a line after the end");
  l_free(l); leak("linereader"); vp_states++; vp_traces++;
}
static void byter_run(const uint8_t *d, int n, int seq, int depth) {
  char path[64]; sprintf(path, "by%d.bin", vp_shard); FILE *f = fopen(path, "wb"); fwrite(d, 1, n, f); fclose(f); vp_mark(); vp_case("bytereader %s seq=%d", vp_show(d, n), seq);
  void *y = y_new(path); int p = 0; bool eof = false; if (y_ended(y)) vp_viol("byend", "ended before reading");
  for (int i = 0; i < depth; i++, seq /= 4) { vp_trans++;
    switch (seq % 4) {
    case 0: { int e = p < n ? d[p++] : (eof = true, -1), g = y_readc(y); if (g != e) vp_viol("byreadc", "readc gives %d, expected %d", g, e); break; }
    case 1: { int e = p < n ? d[p] : -1, g = y_peekc(y); if (e < 0) eof = true; if (g != e) vp_viol("bypeek", "peekc gives %d, expected %d", g, e); break; }
    case 2: if (n - p >= 2) { int e = d[p] << 8 | d[p + 1]; p += 2; if (y_16(y) != e) vp_viol("by16", "read16"); } break;
    case 3: if (n - p >= 4) { uint32_t e = (uint32_t)d[p] << 24 | d[p + 1] << 16 | d[p + 2] << 8 | d[p + 3]; p += 4; if (y_32(y) != e) vp_viol("by32", "read32"); } break; }
    if (y_ended(y) != eof) { vp_viol("byended", "ended=%d at %d of %d", y_ended(y), p, n); break; } }
  y_free(y); leak("bytereader"); vp_states++; vp_traces++;
}
void vp_body(void) {
  BIND(r_string, "reader.string"); BIND(r_buf, "reader.static_buffer"); BIND(r_file, "reader.file"); BIND(r_fd, "reader.fd"); BIND(r_new, "reader.new"); BIND(r_read, "reader.read"); BIND(r_skip, "reader.skip"); BIND(r_free, "reader.free"); BIND(r_pos, "rd_pos");
  BIND(w_buf, "writer.static_buffer"); BIND(w_file, "writer.file"); BIND(w_fd, "writer.fd"); BIND(w_new, "writer.new"); BIND(w_write, "writer.write"); BIND(w_byte, "writer.writebyte"); BIND(w_free, "writer.free"); BIND(w_n, "wr_n");
  BIND(br_new, "bits.newreader"); BIND(br_close, "bits.closereader"); BIND(br_1, "bits.read1"); BIND(br_n, "bits.readn"); BIND(bw_new, "bits.newwriter"); BIND(bw_close, "bits.closewriter"); BIND(bw_1, "bits.write1"); BIND(bw_bits, "bits.write"); BIND(getls, "bits.getbits_lsfirst"); BIND(getms, "bits.getbits_msfirst"); BIND(order, "bit_order");
  BIND(e_r1, "endian.read1"); BIND(e_r2le, "endian.read2le"); BIND(e_r2be, "endian.read2be"); BIND(e_r3le, "endian.read3le"); BIND(e_r4be, "endian.read4be"); BIND(e_r4le, "endian.read4le"); BIND(e_w1, "endian.write1"); BIND(e_w2le, "endian.write2le"); BIND(e_w4be, "endian.write4be"); BIND(e_w4le, "endian.write4le");
  BIND(h_byte, "hex.writebyte"); BIND(h_write, "hex.write"); BIND(u_write, "urlencode.write");
  BIND(m_open, "mem.memopen"); BIND(m_close, "mem.memclose"); BIND(m_rewind, "mem.rewind"); BIND(m_reset, "mem.reset"); BIND(m_tell, "mem.memtell"); BIND(m_putc, "mem.memputc"); BIND(m_getc, "mem.memgetc"); BIND(m_write, "mem.memwrite"); BIND(m_printf, "mem.memprintf"); BIND(m_read, "mem.memread"); BIND(m_writer, "mem.newwriter");
  BIND(l_new, "linereader.new"); BIND(l_read, "linereader.read"); BIND(l_line, "linereader.line"); BIND(l_free, "linereader.free");
  BIND(y_new, "bytereader.newreader"); BIND(y_free, "bytereader.freereader"); BIND(y_ended, "bytereader.ended"); BIND(y_readc, "bytereader.readc"); BIND(y_peekc, "bytereader.peekc"); BIND(y_16, "bytereader.read16"); BIND(y_32, "bytereader.read32");
  tmp = tmpfile(); setvbuf(tmp, 0, _IOFBF, 65536);
  long job = 0;
  for (int k = 0; k < 2; k++) for (int n = 1; n < 20; n += 6) { FILE *f = k ? fopen(".", "r") : fopen("wonly", "w"); if (!f) continue; uint8_t b[32]; int r = 0; vp_case("reading %d bytes from %s", n, k ? "a directory" : "a stream open for writing"); vp_states++; void *q = r_file(f); if (VP_TRY(r = r_read(q, b, n)) || r > 0 || r == 0) vp_viol("readerr", "read gives %d", r); r_free(q); fclose(f); }
  for (int i = 0; i < 256; i++) { uint8_t a[9], b[9]; vp_case("getbits %d", i); a[8] = b[8] = 9; getls(i, a); getms(i, b); for (int k = 0; k < 8; k++) if (a[k] != (i >> k & 1) || b[k] != (i >> (7 - k) & 1)) vp_viol("getbits", "getbits of %d", i); if (a[8] != 9 || b[8] != 9) vp_viol("getbits", "writes past 8 bits"); vp_states++; }
  for (int n = 0; n <= (vp_thorough ? 19 : 16); n++) for (unsigned v = 0; v < 1u << n; v++) if (MINE(job++)) { bits_run(v, n); if (!(v & 255)) vp_tick(); }
  vp_tick(); endian_short();
  static const uint8_t E[] = { 0, 1, 0x7f, 0x80, 0xfe, 0xff, 0x41, 0x10 };
  for (int i = 0; i < 4096; i++) if (MINE(job++)) endian_run((uint32_t)E[i & 7] << 24 | E[i >> 3 & 7] << 16 | E[i >> 6 & 7] << 8 | E[i >> 9 & 7]);
  for (uint32_t i = 0; i < 65536; i++) if (MINE(job++)) { endian_run(i); endian_run(i << 16); endian_run(i * 65537u); if (!(i & 1023)) vp_tick(); }
  for (int d = 1; d <= (vp_thorough ? 6 : 5); d++) { int t = 1; for (int i = 0; i < d; i++) t *= 6; for (int s = 0; s < t; s++) if (MINE(job++)) { rw_run(s, d); vp_tick(); } }
  for (int d = 1; d <= (vp_thorough ? 6 : 5); d++) { long t = 1; for (int i = 0; i < d; i++) t *= 12; for (long s = 0; s < t; s++) if (MINE(job++)) { mem_run(s, d); if (!(s & 1023)) vp_tick(); } }
  for (int a = 0; a < 256; a++) { uint8_t d[3] = { a }; enc_run(d, 1); if (MINE(a)) for (int b = 0; b < 256; b++) { d[1] = b; d[2] = a ^ b; enc_run(d, 2); enc_run(d, 3); } vp_tick(); }
  enc_run((uint8_t *)"", 0);
  for (int n = 0; n <= (vp_thorough ? 9 : 7); n++) { long t = 1; for (int i = 0; i < n; i++) t *= 4; for (long s = 0; s < t; s++) if (MINE(job++)) { char d[16]; long x = s; for (int i = 0; i < n; i++, x /= 4) d[i] = "a\n\xff\r"[x % 4]; lines_run(d, n); if (!(s & 255)) vp_tick(); } }
  static char big[40000]; for (int a = 4085; a <= 16390; a = a == 4100 ? 8185 : a == 8200 ? 16378 : a + 1) for (int b = 0; b < 4; b++) if (MINE(job++)) { memset(big, 'q', sizeof big); big[a] = '\n'; lines_run(big, b == 0 ? a : b == 1 ? a + 1 : b == 2 ? a + 4 : 2 * a + 10); vp_tick(); }
  for (int d = 1; d <= 5; d++) { int t = 1; for (int i = 0; i < d; i++) t *= 4; for (int s = 0; s < t; s++) if (MINE(job++)) for (int n = 0; n <= 9; n += 3) for (int f = 0; f < 3; f++) { uint8_t b[9]; for (int i = 0; i < 9; i++) b[i] = f == 0 ? 255 - i : f == 1 ? 0x80 + 7 * i : i; byter_run(b, n, s, d); vp_tick(); } }
  vp_sample("all bit strings up to %d bits x 2 orders x readers; 200k integers x 10 codecs; all operation sequences on readers, writers, memory streams", vp_thorough ? 19 : 16);
}
