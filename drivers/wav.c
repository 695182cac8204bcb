// WAV files and sound clips.
#include "vp.h"
FN(void *, w_open, "", (FILE *)) FN(void, w_put, "", (void *, double, double)) FN(void, w_close, "", (void *)) FN(void *, r_open, "", (const char *)) FN(bool, r_more, "", (void *)) FN(void, r_get, "", (void *, double *)) FN(void, r_close, "", (void *)) FN(uint32_t, r_info, "", (void *, int)) FN(void *, loadfile, "", (const char *))
FN(void *, newclip, "", (size_t)) FN(void, freeclip, "", (void *)) FN(void, push, "", (void *, double, double)) FN(void, normalize, "", (void *, double)) FN(void *, transpose, "", (void *, float)) FN(size_t, c_n, "", (void *)) FN(uint32_t, c_freq, "", (void *)) FN(void, c_get, "", (void *, size_t, double *))
static uint8_t *B; static size_t bn, bcap; static char fn[40];
static void need(size_t n) { if (bn + n > bcap) { bcap = (bn + n) * 2; uint8_t *q = vp_raw(bcap); if (bn) memcpy(q, B, bn); if (B) __real_free(B); B = q; } }
static void le(uint64_t v, int n) { need(n); for (int i = 0; i < n; i++) B[bn++] = v >> 8 * i; }
static void bytes(const void *p, size_t n) { need(n); memcpy(B + bn, p, n); bn += n; }
static void fillb(int c, size_t n) { need(n); memset(B + bn, c, n); bn += n; }
static void save(size_t n) { FILE *f = fopen(fn, "wb"); if (n) fwrite(B, 1, n, f); fclose(f); }
static void head(int ch, uint32_t freq, int bits) { bytes("RIFF", 4); le(0x12345678, 4); bytes("WAVEfmt ", 8); le(16, 4); le(1, 2); le(ch, 2); le(freq, 4); le(freq * ch * bits / 8, 4); le(ch * bits / 8, 2); le(bits, 2); }
static const int V16[] = { 0, 1, -1, 32767, -32768, 255, 256, -256, 12345 }; static const int V24[] = { 0, 1, -1, 8388607, -8388608, 65535, 65536, -65536, 1234567 };
// the file holds nf frames of ch channels given by val()
static int val(int bits, int k, int pat) { return bits == 16 ? V16[(k * (pat + 1) + pat) % 9] : V24[(k * (pat + 1) + pat) % 9]; }
static void samples(int bits, int ch, int nf, int pat) { for (int i = 0; i < nf * ch; i++) le((uint32_t)val(bits, i, pat), bits / 8); }
static void readback(int bits, int ch, uint32_t freq, int nf, int pat, int how) { // how 0: frames one by one, 1: loadfile
  vp_states++; vp_traces++; double sc = bits == 16 ? 32767 : 8388607, s[2]; vp_mark(); void *volatile r = 0; volatile int n = 0, bad = 0;
  if (how == 0) { int p = VP_TRY(r = r_open(fn)); if (p || !r) { vp_viol("refused", "a proper file is refused"); return; } if (r_info(r, 0) != 1 || r_info(r, 1) != ch || r_info(r, 2) != freq || r_info(r, 3) != bits) vp_viol("format", "format %u, %u channels, %u Hz, %u bits", r_info(r, 0), r_info(r, 1), r_info(r, 2), r_info(r, 3)); }
  else { int p = VP_TRY(r = loadfile(fn)); if (p || !r) { vp_viol("refused", "a proper file is not loaded"); return; } if (c_freq(r) != freq) vp_viol("format", "the frequency is %u", c_freq(r)); }
  int p = VP_TRY(while (how ? n < c_n(r) : r_more(r)) { vp_trans++; if (n >= nf) { bad = 1; vp_viol("frames", "more than %d frames", nf); break; } if (how) c_get(r, n, s); else r_get(r, s); double a = val(bits, n * ch, pat) / sc, b = ch == 2 ? val(bits, n * ch + 1, pat) / sc : a; if (fabs(s[0] - a) > 1e-9 || fabs(s[1] - b) > 1e-9) { bad = 1; vp_viol("frame", "frame %d is %.9f %.9f, not %.9f %.9f", n, s[0], s[1], a, b); break; } n++; });
  if (p) vp_viol("panic", "reading ends the program"); else if (!bad && n != nf) vp_viol("frames", "%d frames, not %d", n, nf);
  if (how) freeclip(r); else r_close(r); if (vp_leaked()) vp_viol("leak", "blocks not released"); }
static void part_read(void) { long job = 0;
  static const int IL[] = { -1, 0, 1, 2, 3, 12, 999, 1000, 1001, 1002, 4095, 4096, 4097, 8193, 70001 }, PL[] = { -1, 0, 2, 4, 1024, 4094, 4096, 4098, 8192, 20000 }; static const uint32_t FR[] = { 44100, 1, 8000, 0xffffffff };
  int ni = 15, np = 10;
  for (int ch = 1; ch <= 2; ch++) for (int bits = 16; bits <= 24; bits += 8) for (int i1 = 0; i1 < ni; i1++) for (int i2 = 0; i2 < (i1 ? ni : 1); i2++) for (int pd = 0; pd < np; pd++) for (int nf = 0; nf < 6; nf++) for (int dl = 0; dl < 3; dl++) { if (i2 > 4 && pd > 1 && !vp_thorough) continue; if (!MINE(job++)) continue; if (job % 64 < 8) vp_tick(); uint32_t fr = FR[job / vp_nshards % 4]; int pat = job / vp_nshards % 7; 
    bn = 0; head(ch, fr, bits); if (i1) { size_t at = bn + 4; bytes("LIST", 4); le(0, 4); bytes("INFO", 4); for (int k = 0; k < 2; k++) { int L = IL[k ? i2 : i1]; if (L < 0) continue; bytes(k ? "IART" : "INAM", 4); le(L, 4); fillb('v', L); if (L & 1) fillb(0, 1); } uint32_t n = bn - at - 4; memcpy(B + at, &n, 4); } if (PL[pd] >= 0) { bytes("PAD ", 4); le(PL[pd], 4); fillb(0, PL[pd]); }
    bytes("data", 4); uint32_t D = nf * ch * bits / 8; le(dl == 0 ? D : dl == 1 ? 0xffffffff : D, 4); samples(bits, ch, nf, pat); if (dl == 2) { bytes("LIST", 4); le(4, 4); bytes("INFO", 4); } save(bn);
    vp_case("%d channels, %d bits, info %d %d, padding %d, %d frames, length %s", ch, bits, IL[i1], i2 ? IL[i2] : -1, PL[pd], nf, dl == 0 ? "exact" : dl == 1 ? "unknown" : "exact, another chunk follows"); if (vp_nviol > 4) return; if (job / vp_nshards % 900 == 1) vp_sample("%s", vp_casebuf); readback(bits, ch, fr, nf, pat, job / vp_nshards % 2); }
  // every value of a sample
  for (int ch = 1; ch <= 2; ch++) { bn = 0; head(ch, 44100, 16); bytes("data", 4); int lo = 65536 / vp_nshards * vp_shard, hi = vp_shard == vp_nshards - 1 ? 65536 : lo + 65536 / vp_nshards; le((hi - lo) * 4, 4); for (int v = lo; v < hi; v++) { le(v, 2); le(65535 - v, 2); } save(bn); vp_case("all values of 16 bits, %d channels", ch); vp_mark(); void *r = r_open(fn); double s[2]; for (int v = lo; v < hi; v++) for (int k = 0; k < 3 - ch; k++) { vp_states++; r_get(r, s); int a = (int16_t)(k ? 65535 - v : v), b = ch == 1 ? a : (int16_t)(65535 - v); if (fabs(s[0] * 32767 - a) > 1e-6 || fabs(s[1] * 32767 - b) > 1e-6) { vp_viol("value", "%d %d is read as %.8f %.8f", a, b, s[0], s[1]); v = hi; break; } } if (r_more(r)) vp_viol("value", "more than there is"); r_close(r); }
  { int per = 16777216 / vp_nshards, lo = per * vp_shard; bn = 0; head(1, 44100, 24); bytes("data", 4); le(per * 3, 4); for (int v = lo; v < lo + per; v++) le(v, 3); save(bn); vp_case("all values of 24 bits"); void *r = r_open(fn); double s[2]; for (int v = lo; v < lo + per; v++) { if (v % 4096 == 0) vp_tick(); vp_states++; r_get(r, s); int a = v >= 8388608 ? v - 16777216 : v; if (fabs(s[0] * 8388607 - a) > 1e-4 || s[1] != s[0]) { vp_viol("value", "%d is read as %.9f", a, s[0]); break; } } if (r_more(r)) vp_viol("value", "more than there is"); r_close(r); }
  // long files
  static const int N[] = { 65535, 65536, 65537, 131072, 131073, 300001 }; for (int i = 0; i < 6; i++) for (int how = 0; how < 2; how++) { if (!MINE(job++)) continue; vp_tick(); bn = 0; head(2, 44100, 16); bytes("data", 4); le(N[i] * 4, 4); samples(16, 2, N[i], i); save(bn); vp_case("%d frames", N[i]); readback(16, 2, 44100, N[i], i, how); }
  static const int BP[] = { 65534, 65535, 65536, 65537, 70000, 131072, 1000001, 3000000 }; for (int i = 0; i < 8; i++) { if (!MINE(job++)) continue; vp_tick(); bn = 0; head(2, 44100, 16); bytes("PAD ", 4); le(BP[i], 4); fillb(0x55, BP[i]); bytes("data", 4); le(12, 4); samples(16, 2, 3, 1); save(bn); vp_case("padding of %d bytes", BP[i]); readback(16, 2, 44100, 3, 1, i & 1); }
  // formats that are not read are refused
  static const int BF[][4] = { { 0, 2, 16, 16 }, { 2, 2, 16, 16 }, { 3, 2, 16, 16 }, { 0xFFFE, 2, 16, 16 }, { 257, 2, 16, 16 }, { 1, 0, 16, 16 }, { 1, 3, 16, 16 }, { 1, 6, 16, 16 }, { 1, 258, 16, 16 }, { 1, 2, 8, 16 }, { 1, 2, 32, 16 }, { 1, 2, 0, 16 }, { 1, 1, 20, 16 }, { 1, 2, 272, 16 }, { 1, 2, 16, 18 }, { 1, 2, 16, 40 }, { 1, 2, 16, 0 } }; for (int i = 0; i < 17; i++) for (int nf = 0; nf < 2; nf++) { if (!MINE(job++)) continue; bn = 0; bytes("RIFF", 4); le(0x12345678, 4); bytes("WAVEfmt ", 8); le(BF[i][3], 4); le(BF[i][0], 2); le(BF[i][1], 2); le(44100, 4); le(176400, 4); le(4, 2); le(BF[i][2], 2); if (BF[i][3] > 16) fillb(0, BF[i][3] - 16); bytes("data", 4); le(nf * 4, 4); if (nf) le(0, 4); save(bn); vp_case("format %d, %d channels, %d bits, %d bytes of format, %d frames", BF[i][0], BF[i][1], BF[i][2], BF[i][3], nf); vp_states++; void *r = 0; if (!VP_TRY(r = r_open(fn)) && r) { vp_viol("accepted", "is accepted"); r_close(r); } }
  if (vp_shard == 0) { vp_case("a missing file"); if (r_open("no/such/file") || loadfile("no/such/file")) vp_viol("none", "is opened"); } }
// ---- broken files
static void broken(size_t n, int cut, size_t full) { save(n); vp_states++; vp_traces++; for (int how = 0; how < 2; how++) { void *volatile r = 0; volatile long k = 0; double s[2]; int p = VP_TRY(r = how ? loadfile(fn) : r_open(fn); if (r) { if (how) k = c_n(r); else while (r_more(r)) { vp_trans++; r_get(r, s); if (++k > 200000) break; } }); if (p) continue; if (!r) { vp_viol("broken", "no file"); continue; } if (k > (long)n) vp_viol("broken", "%ld frames from %zu bytes", k, n); if (how) freeclip(r); else r_close(r); } }
static void part_broken(void) { long job = 0; for (int lay = 0; lay < 4; lay++) { bn = 0; head(lay % 2 + 1, 44100, lay < 2 ? 16 : 24); if (lay) { bytes("LIST", 4); le(4 + 8 + 3 + 1 + 8 + 2, 4); bytes("INFOINAM", 8); le(3, 4); bytes("abc", 4); bytes("IART", 4); le(2, 4); bytes("xy", 2); } if (lay > 1) { bytes("PAD ", 4); le(6, 4); fillb(0, 6); } bytes("data", 4); le(24, 4); samples(lay < 2 ? 16 : 24, lay % 2 + 1, 24 / (lay < 2 ? 2 : 3) / (lay % 2 + 1), 2); size_t full = bn; static uint8_t keep[400]; memcpy(keep, B, full);
    for (size_t n = 0; n <= full; n++) { if (!MINE(job++)) continue; vp_tick(); vp_case("file layout %d cut to %zu bytes", lay, n); broken(n, 1, full); }
    static const uint8_t C[] = { 0, 1, 2, 3, 7, 8, 16, 127, 128, 254, 255, 'X' }; for (size_t i = 0; i < full; i++) for (int c = 0; c < 12; c++) { if (!MINE(job++)) continue; vp_tick(); memcpy(B, keep, full); B[i] = C[c]; vp_case("file layout %d with byte %zu made %d", lay, i, C[c]); broken(full, 0, full); }
    // every field of 4 bytes set to every extreme
    static const uint32_t E[] = { 0, 1, 3, 4, 5, 7, 8, 11, 12, 13, 999, 1000, 1001, 65536, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffb, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff }; for (size_t i = 0; i + 4 <= full; i++) for (int e = 0; e < 22; e++) { if (!MINE(job++)) continue; vp_tick(); memcpy(B, keep, full); memcpy(B + i, &E[e], 4); vp_case("file layout %d with 4 bytes at %zu made %u", lay, i, E[e]); if (vp_nviol > 4) return; broken(full, 0, full); } } }
// ---- writing
static double X[] = { 0, 1, -1, 0.5, -0.5, 0.25, 1.0 / 32767, -1.0 / 32767, 0.999, -0.00001 };
static void part_write(void) { long job = 0; int nx = vp_thorough ? 10 : 8; static const uint8_t H[] = "RIFF\xff\xff\xff\xffWAVEfmt \x10\0\0\0\1\0\2\0\x44\xac\0\0\x10\xb1\2\0\4\0\x10\0data\xff\xff\xff\xff";
  for (int n = 0; n <= 3; n++) { long t = 1; for (int i = 0; i < 2 * n; i++) t *= nx; for (long k = 0; k < t; k++) { if (n == 3 && k % (vp_thorough ? 7 : 31)) continue; if (!MINE(job++)) continue; if (job % 64 < 8) vp_tick(); double s[8]; long q = k; for (int i = 0; i < 2 * n; i++, q /= nx) s[i] = X[q % nx]; vp_case("%d written frames, combination %ld", n, k); if (vp_nviol > 4) return; vp_states++; vp_traces++; vp_mark(); FILE *f = fopen(fn, "wb"); void *w = w_open(f); for (int i = 0; i < n; i++) { w_put(w, s[2 * i], s[2 * i + 1]); vp_trans++; } w_close(w); fclose(f); if (vp_leaked()) vp_viol("leak", "writer: blocks not released");
    uint8_t o[100]; f = fopen(fn, "rb"); size_t z = fread(o, 1, 100, f); fclose(f); if (z != 44 + 4 * n || memcmp(o, H, 44)) { vp_viol("header", "written as %s", vp_show(o, z)); continue; } 
    void *r = 0; double g[2]; int bad = VP_TRY(r = r_open(fn)); for (int i = 0; i < n && !bad; i++) { if (!r_more(r)) { vp_viol("round", "%d frames instead of %d", i, n); bad = 1; break; } r_get(r, g); if (fabs(g[0] - s[2 * i]) > 1.01 / 32767 || fabs(g[1] - s[2 * i + 1]) > 1.01 / 32767) vp_viol("round", "%f %f comes back as %f %f", s[2 * i], s[2 * i + 1], g[0], g[1]); } if (!bad && r_more(r)) vp_viol("round", "more than %d frames", n); if (r) r_close(r); } }
  // all values: read and written again, the same bytes
  for (int sw = 0; sw < 2; sw++) { int per = 65536 / vp_nshards, lo = per * vp_shard; vp_tick(); bn = 0; head(2, 44100, 16); bytes("data", 4); le(per * 4, 4); for (int v = lo; v < lo + per; v++) { le(sw ? v * 40503 : v, 2); le(sw ? v : 65535 - v, 2); } save(bn); vp_case("all values from %d copied", lo); vp_mark(); void *r = r_open(fn); char fo[50]; sprintf(fo, "o%s", fn); FILE *f = fopen(fo, "wb"); void *w = w_open(f); double g[2]; while (r_more(r)) { vp_states++; r_get(r, g); w_put(w, g[0], g[1]); } w_close(w); fclose(f); r_close(r); if (vp_leaked()) vp_viol("leak", "blocks not released"); uint8_t *o = vp_raw(bn + 100); f = fopen(fo, "rb"); size_t z = fread(o, 1, bn + 100, f); fclose(f); if (z != bn) vp_viol("copy", "%zu bytes instead of %zu", z, bn); else for (size_t i = 44; i < bn; i++) if (o[i] != B[i]) { vp_viol("copy", "sample %zu was %d and is %d", (i - 44) / 2, (int16_t)(B[i & ~1] | B[i | 1] << 8), (int16_t)(o[i & ~1] | o[i | 1] << 8)); break; } __real_free(o); remove(fo); } }
// ---- clips
static void part_clips(void) { long job = 0; static const double Y[] = { 0, 1, -1, 0.5, -0.25, 3 }; 
  static const float R[] = { 0.01f, 0.1f, 0.25f, 0.3f, 1.0f / 3, 0.5f, 0.6f, 0.7f, 0.9f, 0.99f, 1, 1.01f, 1.1f, 1.25f, 4.0f / 3, 1.4142135f, 1.5f, 1.7f, 2, 2.5f, 3, 3.3f, 5, 7, 10, 33.3f, 100 }; int nr = sizeof R / sizeof *R;
  for (int n = 0; n <= 5; n++) { long t = 1; for (int i = 0; i < n; i++) t *= 6; for (long k = 0; k < t; k++) { if (!MINE(job++)) continue; if (job % 64 < 8) vp_tick(); double s[12]; long q = k; for (int i = 0; i < n; i++, q /= 6) { s[2 * i] = Y[q % 6]; s[2 * i + 1] = Y[(q + i + k) % 6]; } vp_case("clip of %d, combination %ld", n, k); if (vp_nviol > 4) return; vp_states++; vp_traces++; vp_mark();
    void *c = newclip(8000 + k); double g[2], mx = 0; for (int i = 0; i < n; i++) push(c, s[2 * i], s[2 * i + 1]); if (c_n(c) != n || c_freq(c) != 8000 + k) vp_viol("clip", "%zu samples, %u Hz", c_n(c), c_freq(c)); for (int i = 0; i < n; i++) { c_get(c, i, g); if (g[0] != s[2 * i] || g[1] != s[2 * i + 1]) vp_viol("clip", "sample %d is %f %f", i, g[0], g[1]); for (int j = 0; j < 2; j++) if (fabs(s[2 * i + j]) > mx) mx = fabs(s[2 * i + j]); }
    for (int ri = 0; ri < nr; ri++) { float r = R[ri]; void *volatile d = 0; vp_trans++; if (VP_TRY(d = transpose(c, r))) { vp_viol("transpose", "by %g panics", r); continue; } double ex = (double)n * r; long m = c_n(d); if (m < (long)floor(ex - 1e-4 * (1 + ex)) || m > (long)floor(ex + 1e-4 * (1 + ex))) vp_viol("transpose", "by %g gives %ld samples, not %g", r, m, ex); if (c_freq(d) != 8000 + k) vp_viol("transpose", "the frequency is %u", c_freq(d));
      for (long i = 0; i < m; i++) { c_get(d, i, g); double t0 = i / (double)r; long a = t0; if (a >= n) a = n - 1; long b = a + 1 < n ? a + 1 : a; double fr = t0 - a; int bad = 0; for (int j = 0; j < 2; j++) { double w = s[2 * a + j] * (1 - fr) + s[2 * b + j] * fr; if (a + 1 < n ? !(fabs(g[j] - w) <= 1e-3) : !(fabs(g[j]) <= fabs(s[2 * a + j]) + 1e-3)) bad = 1; } if (bad) { vp_viol("transpose", "by %g: sample %ld is %f %f", r, i, g[0], g[1]); break; } } freeclip(d); }
    for (int l = 0; l < 3; l++) { double lev = (double[]){ 1, 0.5, 0.001 }[l]; normalize(c, lev); vp_trans++; for (int i = 0; i < n; i++) { c_get(c, i, g); for (int j = 0; j < 2; j++) { double w = mx ? s[2 * i + j] / mx * lev : s[2 * i + j]; if (!(fabs(g[j] - w) < 1e-9)) { vp_viol("normalize", "to %g: sample %d is %f, not %f", lev, i, g[j], w); i = n; break; } } } }
    freeclip(c); if (vp_leaked()) vp_viol("leak", "blocks not released"); } }
  static const long N[] = { 65535, 65536, 65537, 131072, 131073, 1000000, 16777219 }; for (int i = 0; i < 7; i++) { if (!MINE(job++)) continue; vp_case("clip of %ld samples", N[i]); vp_states++; vp_traces++; vp_mark(); void *c = newclip(44100); double g[2]; for (long k = 0; k < N[i]; k++) { if (k % 65536 == 0) vp_tick(); push(c, k, -(double)k); } if (c_n(c) != N[i]) vp_viol("clip", "%zu samples", c_n(c)); for (long k = 0; k < N[i]; k++) { c_get(c, k, g); if (g[0] != k || g[1] != -(double)k) { vp_viol("clip", "sample %ld is %f", k, g[0]); break; } }
    static const float Q[] = { 1, 0.5f, 1.25f }; for (int q = 0; q < (N[i] > 2000000 ? 1 : 3); q++) { vp_tick(); void *volatile d = 0; if (VP_TRY(d = transpose(c, Q[q]))) { vp_viol("transpose", "by %g panics", Q[q]); continue; } long m = c_n(d); if (labs(m - (long)(N[i] * (double)Q[q])) > 1) vp_viol("transpose", "by %g: %ld samples", Q[q], m); for (long k = 0; k < m; k++) { if (k % 65536 == 0) vp_tick(); c_get(d, k, g); double w = k / (double)Q[q]; if (w <= N[i] - 1 && !(fabs(g[0] - w) < 0.2)) { vp_viol("transpose", "by %g: sample %ld is %f, not %f", Q[q], k, g[0], w); break; } } freeclip(d); } freeclip(c); if (vp_leaked()) vp_viol("leak", "blocks not released"); } }
void vp_body(void) {
  BIND(w_open, "wav.open_writer"); BIND(w_put, "wav.write_sample"); BIND(w_close, "wav.close_writer"); BIND(r_open, "wav.open_reader"); BIND(r_more, "wav.more"); BIND(r_get, "r_get"); BIND(r_close, "wav.close_reader"); BIND(r_info, "r_info"); BIND(loadfile, "wav.loadfile");
  BIND(newclip, "sound.newclip"); BIND(freeclip, "sound.freeclip"); BIND(push, "c_push"); BIND(normalize, "sound.normalize"); BIND(transpose, "sound.transpose"); BIND(c_n, "c_n"); BIND(c_freq, "c_freq"); BIND(c_get, "c_get");
  sprintf(fn, "w%d.wav", vp_shard); vp_quiet(1); const char *p = getenv("VP_PART"); if (!strcmp(p, "read")) part_read(); if (!strcmp(p, "broken")) part_broken(); if (!strcmp(p, "write")) part_write(); if (!strcmp(p, "clips")) part_clips(); remove(fn); }
