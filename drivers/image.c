// lib/image against an array of pixels; formats/bmp, ppm and png against independent decoders.
#define _GNU_SOURCE
#include "vp.h"
#include <math.h>
#include <fcntl.h>
typedef struct { int r, g, b, t; } px; typedef struct { int w, h; px *d; } img; typedef struct { int cw; size_t size; px c[20]; } cmap;
FN(img *, inew, "", (int, int)) FN(void, ifree, "", (img *)) FN(void, iset, "", (img *, int, int, px)) FN(px, iget, "", (img *, int, int)) FN(px *, igetp, "", (img *, int, int)) FN(void, ifill, "", (img *, px)) FN(void, iclear, "", (img *)) FN(void, iblend, "", (img *, int, int, px, float)) FN(void, iapply, "", (img *, void (*)(px *))) FN(img *, iexplode, "", (img *, int)) FN(void, ipaste, "", (img *, img *, int, int)) FN(px, imix, "", (px, px, double)) FN(px, ihsl, "", (float, float, float)) FN(px, ihsv, "", (double)) FN(px, imap, "", (cmap *, int)) FN(img *, icmapimg, "", (cmap *)) FN(void, itest, "", (img *)) FN(px, iwhite, "", (void)) FN(px, igray, "", (int))
FN(bool, bmpw, "", (img *, const char *)) FN(void, ppmw, "", (img *, FILE *)) FN(bool, pngw, "", (img *, const char *, int))
static int eq(px a, px b) { return a.r == b.r && a.g == b.g && a.b == b.b && a.t == b.t; }
static int near_(px a, double r, double g, double b) { return fabs(a.r - r) <= 1.001 && fabs(a.g - g) <= 1.001 && fabs(a.b - b) <= 1.001; }
static const px COL[] = { { 0, 0, 0, 0 }, { 255, 255, 255, 0 }, { 10, 20, 30, 40 }, { 200, 100, 7, 255 }, { 1, 128, 254, 128 } };
// ---- operations on a small image, every sequence
#define MX 12
typedef struct { int w, h; px d[MX * MX]; } mdl;
static px *P(mdl *m, int x, int y) { return &m->d[y * m->w + x]; }
static void inv(px *p) { p->r = 255 - p->r; p->g /= 2; p->t ^= 3; }
static int same(img *i, mdl *m, const char *what) { vp_trans++; if (i->w != m->w || i->h != m->h) { vp_viol("ops", "%s: size %dx%d instead of %dx%d", what, i->w, i->h, m->w, m->h); return 0; } for (int y = 0; y < m->h; y++) for (int x = 0; x < m->w; x++) { px a = { 0 }; if (VP_TRY(a = iget(i, x, y))) { vp_viol("ops", "%s: get %d,%d panics", what, x, y); return 0; } if (!eq(a, *P(m, x, y)) || !eq(*igetp(i, x, y), a)) { px b = *P(m, x, y); vp_viol("ops", "%s: pixel %d,%d is %d,%d,%d,%d instead of %d,%d,%d,%d", what, x, y, a.r, a.g, a.b, a.t, b.r, b.g, b.b, b.t); return 0; } } return 1; }
enum { OPS = 22 };
static int apply1(int op, img **ip, mdl *m, char *log) { img *i = *ip; px c = COL[op % 5]; int W = m->w, H = m->h; char nm[60]; int pn = 0;
  switch (op) {
  case 0: sprintf(nm, "set 0,0"); pn = VP_TRY(iset(i, 0, 0, COL[2])); *P(m, 0, 0) = COL[2]; break;
  case 1: sprintf(nm, "set last"); pn = VP_TRY(iset(i, W - 1, H - 1, COL[3])); *P(m, W - 1, H - 1) = COL[3]; break;
  case 2: sprintf(nm, "set 0,last"); pn = VP_TRY(iset(i, 0, H - 1, COL[4])); *P(m, 0, H - 1) = COL[4]; break;
  case 3: sprintf(nm, "set last,0 white"); pn = VP_TRY(iset(i, W - 1, 0, iwhite())); *P(m, W - 1, 0) = COL[1]; break;
  case 4: sprintf(nm, "fill"); pn = VP_TRY(ifill(i, c)); for (int k = 0; k < W * H; k++) m->d[k] = c; break;
  case 5: sprintf(nm, "clear"); pn = VP_TRY(iclear(i)); memset(m->d, 0, sizeof m->d); break;
  case 6: sprintf(nm, "apply"); pn = VP_TRY(iapply(i, inv)); for (int k = 0; k < W * H; k++) inv(&m->d[k]); break;
  case 7: case 8: case 9: { float o = op == 7 ? 0 : op == 8 ? 1 : 0.25; sprintf(nm, "blend %g", o); px n = COL[3], old = *P(m, W - 1, H - 1); pn = VP_TRY(iblend(i, W - 1, H - 1, n, o)); if (pn) break; px g = iget(i, W - 1, H - 1); if (!near_(g, old.r + (n.r - old.r) * o, old.g + (n.g - old.g) * o, old.b + (n.b - old.b) * o) || g.t != old.t || (o == 0 && !eq(g, old)) || (o == 1 && (g.r != n.r || g.g != n.g || g.b != n.b))) { vp_viol("ops", "%s: %d,%d,%d over %d,%d,%d gives %d,%d,%d", nm, n.r, n.g, n.b, old.r, old.g, old.b, g.r, g.g, g.b); return 0; } *P(m, W - 1, H - 1) = g; break; }
  case 10: case 11: case 12: { int n = op - 9; if (W * n > MX || H * n > MX) return 2; sprintf(nm, "explode %d", n); img *b = 0; pn = VP_TRY(b = iexplode(i, n)); if (pn) break; if (!same(i, m, "the source of explode")) return 0; mdl z = { W * n, H * n }; for (int y = 0; y < H * n; y++) for (int x = 0; x < W * n; x++) *P(&z, x, y) = *P(m, x / n, y / n); *m = z; VP_TRY(ifree(i)); *ip = b; break; }
  case 13: case 14: case 15: case 16: case 17: case 18: { int k = op - 13; static const int PX[] = { 0, 1, 0, 2, 5, 0 }, PY[] = { 0, 0, 1, 2, 0, 7 }; int pw = 1 + k % 3, ph = 1 + k / 2; sprintf(nm, "paste %dx%d at %d,%d", pw, ph, PX[k], PY[k]); img *p = 0; pn = VP_TRY(p = inew(pw, ph)); if (pn) break; for (int y = 0; y < ph; y++) for (int x = 0; x < pw; x++) { px q = { x + 1, y + 1, k, 9 }; iset(p, x, y, q); int xx = PX[k] + x, yy = PY[k] + y; if (xx < W && yy < H) *P(m, xx, yy) = q; } pn = VP_TRY(ipaste(i, p, PX[k], PY[k])); VP_TRY(ifree(p)); break; }
  case 19: sprintf(nm, "out of range"); { static const int O[][2] = { { -1, 0 }, { 0, -1 }, { 1, 0 }, { 0, 1 }, { 1, 1 } }; for (int k = 0; k < 5; k++) { int x = O[k][0] > 0 ? W : O[k][0], y = O[k][1] > 0 ? H : O[k][1]; if (!VP_TRY(iset(i, x, y, c)) || !VP_TRY(iget(i, x, y))) { vp_viol("ops", "pixel %d,%d of a %dx%d image is accepted", x, y, W, H); return 0; } } } break;
  case 20: sprintf(nm, "test image"); pn = VP_TRY(itest(i)); if (!pn) for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) *P(m, x, y) = *igetp(i, x, y); break; // its looks are not specified, that it stays inside is
  case 21: sprintf(nm, "fill gray"); pn = VP_TRY(ifill(i, igray(77))); for (int k = 0; k < W * H; k++) m->d[k] = (px){ 77, 77, 77, 0 }; break;
  }
  strcat(log, " "); strcat(log, nm); vp_states++; if (pn) { vp_viol("ops", "%s panics", nm); return 0; } return same(*ip, m, nm); }
static void seqs(void) { int D = vp_thorough ? 4 : 3; long idx = 0; for (int w = 1; w <= 3; w++) for (int h = 1; h <= 3; h++) { long tot = 1; for (int d = 0; d < D; d++) tot *= OPS; for (long s = 0; s < tot; s++) { if (!MINE(idx++)) continue; if (vp_nviol > 6) return; char log[400] = ""; img *i = 0; vp_case("%dx%d operations", w, h); vp_mark(); if (VP_TRY(i = inew(w, h))) { vp_viol("ops", "new panics"); return; } mdl m = { w, h }; if (!same(i, &m, "a new image")) continue; long q = s; int ok = 1; vp_traces++; for (int d = 0; d < D && ok; d++, q /= OPS) { vp_case("%dx%d:%s then %ld", w, h, log, q % OPS); ok = apply1(q % OPS, &i, &m, log); } VP_TRY(ifree(i)); if (ok && vp_leaked()) vp_viol("leak", "%ld blocks not released", vp_leaked()); if (s % 20011 == 0) vp_sample("%dx%d:%s", w, h, log); } }
  // sizes
  for (int w = 1; w <= 70; w++) for (int h = 1; h <= 3; h++) if (MINE(w)) { vp_case("test image, fill, explode %dx%d", w, h); vp_states++; vp_traces++; img *i = 0, *e = 0; if (VP_TRY(i = inew(w, h); itest(i); e = iexplode(i, 5))) { vp_viol("ops", "panics"); continue; } for (int y = 0; y < h * 5; y++) for (int x = 0; x < w * 5; x++) if (!eq(*igetp(e, x, y), i->d[(y / 5) * w + x / 5])) { vp_viol("ops", "pixel %d,%d of the enlarged image", x, y); y = 9999; break; } for (int y = 1; y < h; y++) for (int x = 0; x < w; x++) if (!eq(i->d[x], i->d[y * w + x])) { vp_viol("ops", "the test pattern is not made of columns"); y = h; break; } ifree(i); ifree(e); } }
// ---- colours
static double cl(double v) { return v < 0 ? 0 : v > 255 ? 255 : v; }
static void colours(void) { long k = 0; static const int V[] = { 0, 1, 100, 128, 254, 255 };
  for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (int p = 0; p <= 64; p++) { if (!MINE(k++)) continue; px A = { V[a], V[(a + 1) % 6], V[(a + 2) % 6] }, B = { V[b], V[(b + 3) % 6], V[(b + 5) % 6] }, m = { 0 }; double q = p / 64.0; vp_case("mix %d,%d,%d and %d,%d,%d in %g", A.r, A.g, A.b, B.r, B.g, B.b, q); vp_states++; vp_traces++; if (VP_TRY(m = imix(A, B, q))) { vp_viol("mix", "panics"); continue; } if (!near_(m, A.r + (B.r - A.r) * q, A.g + (B.g - A.g) * q, A.b + (B.b - A.b) * q) || (p == 0 && (m.r != A.r || m.g != A.g || m.b != A.b)) || (p == 64 && (m.r != B.r || m.g != B.g || m.b != B.b))) vp_viol("mix", "gives %d,%d,%d", m.r, m.g, m.b); }
  for (int h = 0; h <= 720; h++) for (int s = 0; s <= 8; s++) for (int l = 0; l <= 8; l++) { if (!MINE(k++)) continue; double H = h / 2.0, S = s / 8.0, L = l / 8.0; px c = { 0 }; vp_case("hsl %g %g %g", H, S, L); vp_states++; vp_traces++; if (VP_TRY(c = ihsl(H, S, L))) { vp_viol("hsl", "panics"); continue; } double e[3]; static const int N[] = { 0, 8, 4 }; for (int i = 0; i < 3; i++) { double kk = fmod(N[i] + H / 30, 12), a = S * (L < 1 - L ? L : 1 - L), mn = fmin(fmin(kk - 3, 9 - kk), 1); e[i] = cl(255 * (L - a * fmax(-1, mn))); } if (!near_(c, e[0], e[1], e[2])) vp_viol("hsl", "gives %d,%d,%d instead of %.1f,%.1f,%.1f", c.r, c.g, c.b, e[0], e[1], e[2]); if (vp_nviol > 8) return; }
  for (int h = 0; h < 3600; h++) { if (!MINE(k++)) continue; double H = h / 3600.0; px c = { 0 }; vp_case("hsv %g", H); vp_states++; vp_traces++; if (VP_TRY(c = ihsv(H))) { vp_viol("hsv", "panics"); continue; } double e[3]; static const int N[] = { 5, 3, 1 }; for (int i = 0; i < 3; i++) { double kk = fmod(N[i] + H * 6, 6); e[i] = 255 * (1 - fmax(0, fmin(fmin(kk, 4 - kk), 1))); } if (!near_(c, e[0], e[1], e[2])) vp_viol("hsv", "gives %d,%d,%d instead of %.1f,%.1f,%.1f", c.r, c.g, c.b, e[0], e[1], e[2]); if (vp_nviol > 8) return; }
  for (int n = 2; n <= 20; n++) for (int w = 1; w <= 9; w++) { if (!MINE(k++)) continue; cmap cm = { w, n }; for (int i = 0; i < n; i++) cm.c[i] = (px){ 10 * i, 255 - 11 * i, (i * 37) % 256, 0 }; for (int v = 0; v <= 3 * n * w; v++) { px c = { 0 }; vp_case("map of %d colours %d wide at %d", n, w, v); vp_states++; vp_traces++; if (VP_TRY(c = imap(&cm, v))) { vp_viol("map", "panics"); continue; } int i1, i2; double q; if (v <= w) { i1 = 0; i2 = 1; q = (double) v / w; } else { int u = v - w; i1 = 1 + u / w % (n - 1); i2 = 1 + (u / w + 1) % (n - 1); q = (double)(u % w) / w; } px A = cm.c[i1], B = cm.c[i2]; if (!near_(c, A.r + (B.r - A.r) * q, A.g + (B.g - A.g) * q, A.b + (B.b - A.b) * q)) vp_viol("map", "gives %d,%d,%d", c.r, c.g, c.b); }
    img *i = 0; if (VP_TRY(i = icmapimg(&cm))) { vp_viol("map", "the image panics"); continue; } for (int x = 0; x < i->w; x++) for (int y = 0; y < i->h; y++) if (!eq(iget(i, x, y), imap(&cm, x))) { vp_viol("map", "the image at %d,%d", x, y); x = i->w; break; } ifree(i); } }
// ---- files
static char F[64]; static unsigned char *fb; static long fn; static void slurp(void) { int f = open(F, O_RDONLY); fn = 0; static long cap; if (f < 0) return; for (;;) { if (cap - fn < 70000) { cap = cap * 2 + 200000; unsigned char *n = vp_raw(cap); if (fn) memcpy(n, fb, fn); fb = n; } long r = read(f, fb + fn, 65536); if (r <= 0) break; fn += r; } close(f); unlink(F); }
static unsigned le(long o, int n) { unsigned v = 0; for (int i = n - 1; i >= 0; i--) v = v * 256 + fb[o + i]; return v; } static unsigned be(long o, int n) { unsigned v = 0; for (int i = 0; i < n; i++) v = v * 256 + fb[o + i]; return v; }
static unsigned crc(long o, long n) { unsigned c = ~0u; for (long i = 0; i < n; i++) { c ^= fb[o + i]; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ c >> 1 : c >> 1; } return ~c; }
static void bmp(img *i) { bool r = 0; vp_mark(); vp_traces++; vp_states++; if (VP_TRY(r = bmpw(i, F)) || !r) { vp_viol("bmp", "fails"); return; } if (vp_leaked()) vp_viol("bmp", "%ld blocks not released", vp_leaked()); slurp(); vp_trans++; if (fn < 54 || fb[0] != 'B' || fb[1] != 'M') { vp_viol("bmp", "no header"); return; } long off = le(10, 4), row = (i->w * 3 + 3) / 4 * 4; if (le(2, 4) != fn || le(14, 4) != 40 || (int)le(18, 4) != i->w || (int)le(22, 4) != i->h || le(26, 2) != 1 || le(28, 2) != 24 || le(30, 4) || (le(34, 4) && le(34, 4) != row * i->h) || fn != off + row * i->h || le(46, 4)) { vp_viol("bmp", "wrong header: file size %u of %ld, %ux%u, offset %ld, data %u", le(2, 4), fn, le(18, 4), le(22, 4), off, le(34, 4)); return; } for (int y = 0; y < i->h; y++) for (int x = 0; x < i->w; x++) { unsigned char *p = fb + off + (i->h - 1 - y) * row + x * 3; px c = i->d[y * i->w + x]; if (p[0] != c.b || p[1] != c.g || p[2] != c.r) { vp_viol("bmp", "pixel %d,%d is %d,%d,%d instead of %d,%d,%d", x, y, p[2], p[1], p[0], c.r, c.g, c.b); return; } } }
static void ppm(img *i) { FILE *f = fopen(F, "w"); vp_traces++; vp_states++; int p = VP_TRY(ppmw(i, f)); fclose(f); slurp(); vp_trans++; if (p) { vp_viol("ppm", "panics"); return; } int w = 0, h = 0, m = 0, n = 0; fb[fn] = 0; if (sscanf((char *)fb, "P6 %d %d %d%n", &w, &h, &m, &n) < 3 || w != i->w || h != i->h || m != 255 || fn != n + 1 + 3L * w * h) { vp_viol("ppm", "wrong header or length %ld: %.20s", fn, fb); return; } for (int k = 0; k < w * h; k++) { unsigned char *p = fb + n + 1 + 3 * k; px c = i->d[k]; if (p[0] != c.r || p[1] != c.g || p[2] != c.b) { vp_viol("ppm", "pixel %d is %d,%d,%d instead of %d,%d,%d", k, p[0], p[1], p[2], c.r, c.g, c.b); return; } } }
static unsigned char *raw; static long rawn;
// inflate, the general kind
static unsigned char *zi; static long zn, zp; static int bb, bn, zerr; static int bit(void) { if (!bn) { if (zp >= zn) { zerr = 1; return 0; } bb = zi[zp++]; bn = 8; } int r = bb & 1; bb >>= 1; bn--; return r; } static int bitsn(int n) { int v = 0; for (int i = 0; i < n; i++) v |= bit() << i; return v; }
typedef struct { short cnt[16], sym[288]; } huf; static void mk(huf *h, const unsigned char *len, int n) { memset(h->cnt, 0, sizeof h->cnt); for (int i = 0; i < n; i++) h->cnt[len[i]]++; h->cnt[0] = 0; short o[16]; o[1] = 0; for (int i = 1; i < 15; i++) o[i + 1] = o[i] + h->cnt[i]; for (int i = 0; i < n; i++) if (len[i]) h->sym[o[len[i]]++] = i; }
static int dec(huf *h) { int code = 0, first = 0, ix = 0; for (int l = 1; l <= 15; l++) { code |= bit(); int c = h->cnt[l]; if (code - c < first) return h->sym[ix + code - first]; ix += c; first = (first + c) << 1; code <<= 1; } zerr = 1; return 256; }
static int inflate_(long max) { static const short LB[] = { 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258 }, LE[] = { 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0 }, DB[] = { 1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577 }, DE[] = { 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13 }; bn = 0; zerr = 0; rawn = 0; int last;
  do { last = bit(); int t = bitsn(2); if (t == 0) { bn = 0; if (zp + 4 > zn) return 0; int len = zi[zp] | zi[zp + 1] << 8; if ((len ^ 0xffff) != (zi[zp + 2] | zi[zp + 3] << 8)) return 0; zp += 4; if (zp + len > zn || rawn + len > max) return 0; memcpy(raw + rawn, zi + zp, len); rawn += len; zp += len; } else if (t == 3) return 0; else { huf L, D; unsigned char ln[320] = { 0 }; if (t == 1) { for (int i = 0; i < 288; i++) ln[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8; mk(&L, ln, 288); for (int i = 0; i < 30; i++) ln[i] = 5; mk(&D, ln, 30); } else { int nl = bitsn(5) + 257, nd = bitsn(5) + 1, nc = bitsn(4) + 4; static const char O[] = { 16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15 }; unsigned char cl_[19] = { 0 }; for (int i = 0; i < nc; i++) cl_[(int)O[i]] = bitsn(3); huf C; mk(&C, cl_, 19); for (int i = 0; i < nl + nd && !zerr;) { int s = dec(&C); if (s < 16) ln[i++] = s; else { int v = s == 16 && i ? ln[i - 1] : 0, n = s == 16 ? 3 + bitsn(2) : s == 17 ? 3 + bitsn(3) : 11 + bitsn(7); while (n-- && i < 320) ln[i++] = v; } } mk(&L, ln, nl); mk(&D, ln + nl, nd); }
      while (!zerr) { int s = dec(&L); if (s < 256) { if (rawn >= max) return 0; raw[rawn++] = s; } else if (s == 256) break; else { s -= 257; if (s > 28) return 0; int n = LB[s] + bitsn(LE[s]); int d = dec(&D); if (d > 29) return 0; int ds = DB[d] + bitsn(DE[d]); if (ds > rawn || rawn + n > max) return 0; while (n--) { raw[rawn] = raw[rawn - ds]; rawn++; } } } } if (zerr) return 0; } while (!last); return 1; }
static void png(img *im, int mode) { bool r = 0; vp_mark(); vp_traces++; vp_states++; if (VP_TRY(r = pngw(im, F, mode)) || !r) { vp_viol("png", "fails"); slurp(); return; } if (vp_leaked()) vp_viol("png", "%ld blocks not released", vp_leaked()); slurp(); vp_trans++; if (fn < 8 || memcmp(fb, "\211PNG\r\n\032\n", 8)) { vp_viol("png", "no signature"); return; } int bpp = mode == 0 || mode == 3 ? 1 : mode == 4 ? 2 : mode == 2 ? 3 : 4; long W = im->w, H = im->h, need = (W * bpp + 1) * H; static long rc; if (rc < need + 10) { rc = need * 2 + 1000; raw = vp_raw(rc); } static unsigned char *z; static long zc; if (zc < fn) { zc = fn * 2; z = vp_raw(zc); } zn = 0; int seen = 0, n = 0; unsigned char pal[256][4]; int np = 0; memset(pal, 255, sizeof pal); const char *e = 0;
  for (long o = 8; !e;) { if (o + 12 > fn) { e = "a chunk is cut off"; break; } long len = be(o, 4); char *t = (char *)fb + o + 4; if (o + 12 + len > fn) { e = "a chunk is longer than the file"; break; } if (be(o + 8 + len, 4) != crc(o + 4, len + 4)) { e = "wrong chunk checksum"; break; } unsigned char *d = fb + o + 8; n++;
    if (!memcmp(t, "IHDR", 4)) { if (n != 1 || len != 13 || be(o + 8, 4) != W || be(o + 12, 4) != H || d[8] != 8 || d[9] != mode || d[10] || d[11] || d[12]) e = "wrong IHDR"; } else if (n == 1) e = "IHDR isn't the first"; else if (!memcmp(t, "PLTE", 4)) { if (len % 3 || len > 768 || (seen & 2)) e = "wrong PLTE"; else for (np = 0; np < len / 3; np++) memcpy(pal[np], d + 3 * np, 3); seen |= 1; } else if (!memcmp(t, "tRNS", 4)) { if (len > np || (seen & 2)) e = "wrong tRNS"; else for (int k = 0; k < len; k++) pal[k][3] = d[k]; } else if (!memcmp(t, "IDAT", 4)) { memcpy(z + zn, d, len); zn += len; seen |= 2; } else if (!memcmp(t, "IEND", 4)) { if (len || o + 12 != fn) e = "IEND isn't the end"; break; } else if (!(t[0] & 32)) e = "unknown critical chunk"; o += 12 + len; }
  if (!e) { if (zn < 6 || (z[0] & 15) != 8 || (z[0] * 256 + z[1]) % 31 || (z[1] & 32)) e = "wrong zlib header"; else { zi = z; zp = 2; zn -= 4; if (!inflate_(need + 8)) e = "broken compressed data"; else if (rawn != need) e = "wrong amount of pixel data"; else { unsigned a = 1, b = 0; for (long k = 0; k < rawn; k++) { a = (a + raw[k]) % 65521; b = (b + a) % 65521; } unsigned s = (unsigned)z[zp] << 24 | z[zp + 1] << 16 | z[zp + 2] << 8 | z[zp + 3]; if (s != (b << 16 | a)) e = "wrong adler checksum"; else if (zp != zn) e = "data after the end"; } } }
  if (e) { vp_viol("png", "%s", e); return; }
  for (long y = 0; y < H; y++) { unsigned char *l = raw + y * (W * bpp + 1), *u = y ? l - (W * bpp + 1) : 0; int ft = *l++; if (u) u++; for (long x = 0; x < W * bpp; x++) { int A = x >= bpp ? l[x - bpp] : 0, B = u ? u[x] : 0, C = u && x >= bpp ? u[x - bpp] : 0, q = A + B - C, pa = abs(q - A), pb = abs(q - B), pc = abs(q - C); l[x] += ft == 0 ? 0 : ft == 1 ? A : ft == 2 ? B : ft == 3 ? (A + B) / 2 : pa <= pb && pa <= pc ? A : pb <= pc ? B : C; }
    for (long x = 0; x < W; x++) { px c = im->d[y * W + x]; unsigned char *p = l + x * bpp; double g = 0.299 * c.r + 0.587 * c.g + 0.114 * c.b; int ok = 1; switch (mode) { case 0: ok = fabs(p[0] - g) <= 1.5; break; case 4: ok = fabs(p[0] - g) <= 1.5 && p[1] == c.t; break; case 2: ok = p[0] == c.r && p[1] == c.g && p[2] == c.b; break; case 6: ok = p[0] == c.r && p[1] == c.g && p[2] == c.b && p[3] == c.t; break; case 3: ok = p[0] < np && pal[p[0]][0] == c.r && pal[p[0]][1] == c.g && pal[p[0]][2] == c.b && pal[p[0]][3] == c.t; } if (!ok) { vp_viol("png", "pixel %ld,%ld is wrong", x, y); return; } } } }
static void all(img *i, const char *what) { static const int MD[] = { 0, 2, 3, 4, 6 }; vp_tick(); vp_case("%s %dx%d as bmp", what, i->w, i->h); bmp(i); vp_case("%s %dx%d as ppm", what, i->w, i->h); ppm(i); for (int m = 0; m < 5; m++) { vp_case("%s %dx%d as png mode %d", what, i->w, i->h, MD[m]); png(i, MD[m]); } }
static void files(void) { sprintf(F, "f%d", vp_shard); long k = 0;
  // every colouring of small images
  for (int w = 1; w <= 4; w++) for (int h = 1; h <= 4; h++) if (w * h <= (vp_thorough ? 5 : 4)) { long t = 1; for (int i = 0; i < w * h; i++) t *= 5; for (long s = 0; s < t; s++) { if (!MINE(k++)) continue; if (vp_nviol > 8) return; img *i = inew(w, h); long q = s; for (int p = 0; p < w * h; p++, q /= 5) i->d[p] = COL[q % 5]; all(i, "coloured"); ifree(i); } }
  // every size up to, patterns with few colours
  for (int w = 1; w <= (vp_thorough ? 70 : 36); w++) for (int h = 1; h <= 6; h++) { if (!MINE(k++)) continue; if (vp_nviol > 8) return; img *i = inew(w, h); for (int p = 0; p < w * h; p++) i->d[p] = (px){ p % 256, (p * 7 + 3) % 256, 255 - p % 256, (p * 13) % 256 }; all(i, "pattern"); ifree(i); }
  // every number of palette colours, in rows of several lengths; first seen in any order
  for (int n = 1; n <= 256; n++) { if (!MINE(k++)) continue; if (vp_nviol > 8) return; for (int v = 0; v < 2; v++) { int w = v ? n : 16, h = v ? 2 : (n + 15) / 16 * 2; img *i = inew(w, h); for (int p = 0; p < w * h; p++) { int c = (p * (v ? 1 : 7)) % n; i->d[p] = (px){ c, 255 - c, (c * 5) % 256, (c * 3) % 256 }; } vp_case("%d colours %dx%d as png palette", n, w, h); png(i, 3); ifree(i); } }
  // every value of each channel, grays
  for (int v = 0; v < 256; v++) { if (!MINE(k++)) continue; if (vp_nviol > 8) return; img *i = inew(3, 2); i->d[0] = (px){ v, 0, 0, 0 }; i->d[1] = (px){ 0, v, 0, 255 }; i->d[2] = (px){ 0, 0, v, v }; i->d[3] = (px){ v, v, v, 255 - v }; i->d[4] = (px){ 255, v, 255 - v, 1 }; i->d[5] = igray(v); if (!eq(i->d[5], (px){ v, v, v, 0 })) vp_viol("gray", "gray(%d)", v); all(i, "values"); ifree(i); }
  // long rows and tall images: limits of the row length, checksums over a lot of data
  static const int BIG[][2] = { { 21844, 1 }, { 21845, 2 }, { 16383, 2 }, { 32767, 1 }, { 65534, 2 }, { 1, 70000 }, { 300, 260 }, { 5552, 3 }, { 4096, 5 }, { 65535, 1 }, { 21846, 1 }, { 16384, 1 }, { 32768, 1 } };
  for (int b = 0; b < 13; b++) for (int v = 0; v < 2; v++) { if (!MINE(k++)) continue; int w = BIG[b][0], h = BIG[b][1]; img *i = inew(w, h); for (int p = 0; p < w * h; p++) i->d[p] = v ? (px){ 255, 255, 255, 255 } : (px){ p % 251, p % 200, 3, 3 }; vp_tick(); if (!v) for (int p = 0; p < w * h; p++) { i->d[p].g = 9; } vp_case("big %dx%d as bmp", w, h); bmp(i); vp_tick(); vp_case("big %dx%d as ppm", w, h); ppm(i); static const int MD[] = { 0, 2, 3, 4, 6 }, BP[] = { 1, 3, 1, 2, 4 }; for (int m = 0; m < 5; m++) { vp_tick(); vp_case("big %dx%d as png mode %d", w, h, MD[m]); if (1 + BP[m] * w < 65536) png(i, MD[m]); else { bool r = 0; vp_states++; if (!VP_TRY(r = pngw(i, F, MD[m])) && r) { vp_viol("png", "a row that's too long for the format is written"); } slurp(); } } ifree(i); }
  // writing fails
  if (vp_shard == 0) { img *i = inew(3, 3); for (int s = 0; s < 2; s++) { bool r = 0; vp_case("bmp to a full device, image %d", s); vp_states++; if (VP_TRY(r = bmpw(i, "/dev/full")) || r) vp_viol("bmp", "reports success"); for (int m = 0; m < 3; m++) { static const int MD[] = { 2, 3, 6 }; vp_case("png mode %d to a full device, image %d", MD[m], s); vp_states++; if (VP_TRY(r = pngw(i, "/dev/full", MD[m])) || r) vp_viol("png", "reports success"); } ifree(i); i = inew(200, 200); } ifree(i); bool r = 1; i = inew(2, 2); vp_case("bmp to a directory that isn't there"); if (VP_TRY(r = bmpw(i, "nodir/x.bmp")) || r) vp_viol("bmp", "reports success"); ifree(i); } }
void vp_body(void) { BIND(inew, "image.new"); BIND(ifree, "image.free"); BIND(iset, "image.set"); BIND(iget, "image.get"); BIND(igetp, "image.getpixel"); BIND(ifill, "image.fill"); BIND(iclear, "image.clear"); BIND(iblend, "image.blend"); BIND(iapply, "image.apply"); BIND(iexplode, "image.explode"); BIND(ipaste, "image.paste"); BIND(imix, "image.mix"); BIND(ihsl, "image.from_hsl"); BIND(ihsv, "image.from_hsv"); BIND(imap, "image.mapcolor"); BIND(icmapimg, "image.colormap_image"); BIND(itest, "image.testimage"); BIND(iwhite, "image.white"); BIND(igray, "image.gray"); BIND(bmpw, "bmp.write"); BIND(ppmw, "ppm.writeimg"); BIND(pngw, "png.write"); const char *p = getenv("VP_PART"); vp_quiet(1); if (!strcmp(p, "ops")) seqs(); else if (!strcmp(p, "colours")) colours(); else files(); vp_quiet(0); }
