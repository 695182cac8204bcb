// lib/stats, table, rnd, math/complex and fft against direct computation.
#define _GNU_SOURCE
#include "vp.h"
#include <fcntl.h>
typedef void ser; typedef void tab; typedef struct { double re, im; } cx;
FN(ser *, snew, "", (void)) FN(void, sfree, "", (ser *)) FN(void, sadd, "", (ser *, double)) FN(size_t, scount, "", (ser *)) FN(double, smin, "", (ser *)) FN(double, smax, "", (ser *)) FN(double, ssum, "", (ser *)) FN(double, savg, "", (ser *)) FN(double, ssd, "", (ser *)) FN(double, sperc, "", (ser *, int)) FN(double, smed, "", (ser *)) FN(void, snorm, "", (double *, size_t)) FN(int, ssample, "", (size_t *, size_t))
FN(tab *, tnew, "", (size_t)) FN(void, tpush, "", (tab *, char *, ...)) FN(void, tprint, "", (tab *)) FN(void, tfree, "", (tab *))
FN(void, rseed, "", (uint64_t)) FN(uint32_t, rintn, "", (uint32_t)) FN(double, ru, "", (void))
FN(cx, csum, "", (cx, cx)) FN(cx, cdiff, "", (cx, cx)) FN(cx, cmul, "", (cx, cx)) FN(cx, cscale, "", (cx, double)) FN(double, cabs_, "", (cx)) FN(double, cabs2, "", (cx)) FN(cx, cmake, "", (double, double))
FN(void *, falloc, "", (int, int, void *, size_t *)) FN(void, fft, "", (void *, cx *, cx *))
static int near_(double a, double b, double t) { return fabs(a - b) <= t * (1 + fabs(b)); }
// ---- series
static double V[5000], S[5000]; static int n;
static int dc(const void *a, const void *b) { double x = *(double *)a, y = *(double *)b; return x < y ? -1 : x > y; }
static int look(ser *s, int what) { vp_states++; vp_trans++; double sum = 0, mn = V[0], mx = V[0]; for (int i = 0; i < n; i++) { sum += V[i]; if (V[i] < mn) mn = V[i]; if (V[i] > mx) mx = V[i]; S[i] = V[i]; }
  if (scount(s) != n) { vp_viol("series", "count %zu of %d", scount(s), n); return 0; } if (!near_(ssum(s), sum, 1e-12)) { vp_viol("series", "sum %g instead of %g", ssum(s), sum); return 0; } if (!n) return 1;
  if (smin(s) != mn || smax(s) != mx) { vp_viol("series", "min %g max %g instead of %g, %g", smin(s), smax(s), mn, mx); return 0; } if (!near_(savg(s), sum / n, 1e-12)) { vp_viol("series", "average %g instead of %g", savg(s), sum / n); return 0; }
  if (n > 1) { double q = 0; for (int i = 0; i < n; i++) q += (V[i] - sum / n) * (V[i] - sum / n); if (!near_(ssd(s), sqrt(q / (n - 1)), 1e-9)) { vp_viol("series", "standard deviation %g instead of %g", ssd(s), sqrt(q / (n - 1))); return 0; } }
  if (what) { qsort(S, n, sizeof *S, dc); for (int p = 0; p <= 100; p += what) { long i = (long)n * p / 100; if (i >= n) i = n - 1; double g = 0; if (VP_TRY(g = sperc(s, p))) { vp_viol("series", "percentile %d panics", p); return 0; } if (g != S[i]) { vp_viol("series", "percentile %d is %g instead of %g", p, g, S[i]); return 0; } } if (smed(s) != S[n / 2]) { vp_viol("series", "median %g instead of %g", smed(s), S[n / 2]); return 0; } if (sperc(s, -1) || sperc(s, 101)) { vp_viol("series", "percentiles -1 and 101 exist"); return 0; } }
  return 1; }
static const double A[] = { 0, 1, -2.5, 1e6 };
static void seqs(void) { int L = vp_thorough ? 8 : 6; for (long k = 0, tot = 1; k < L; k++) { tot = 1; for (int i = 0; i <= k; i++) tot *= 5; for (long q = 0; q < tot; q++) { if (!MINE(q)) continue; char log[100] = ""; vp_mark(); vp_traces++; n = 0; ser *s = 0; int ok = 1; if (VP_TRY(s = snew())) { vp_viol("series", "panics"); return; } long z = q; for (int i = 0; i <= k && ok; i++, z /= 5) { int op = z % 5; if (op < 4) { sprintf(log + strlen(log), " %g", A[op]); vp_case("series%s", log); V[n++] = A[op]; if (VP_TRY(sadd(s, A[op]))) { vp_viol("series", "panics"); ok = 0; } else ok = i == k ? look(s, 10) : look(s, 0); } else { strcat(log, " ?"); vp_case("series%s", log); ok = look(s, 25); } } VP_TRY(sfree(s)); if (ok && vp_leaked()) vp_viol("series", "%ld blocks not released", vp_leaked()); if (vp_nviol > 5) return; if (q % 7001 == 0) vp_sample("series%s", log); } }
  for (int pat = 0; pat < 5; pat++) if (MINE(pat)) { n = 0; ser *s = snew(); vp_traces++; for (int i = 0; i < 3000; i++) { double v = pat == 0 ? i : pat == 1 ? -i : pat == 2 ? (i * 7919) % 3001 : pat == 3 ? 5 : (i % 2 ? i : -i) / 4.0; vp_case("series of %d values, pattern %d", i + 1, pat); V[n++] = v; if (VP_TRY(sadd(s, v))) { vp_viol("series", "panics"); break; } if (i < 70 || i % 97 == 0) if (!look(s, 1)) break; } sfree(s); }
  long k = 0; for (int len = 1; len <= 5; len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= 4; for (int q = 0; q < tot; q++) { if (!MINE(k++)) continue; double x[5], y[5], sum = 0; int z = q; static const double W[] = { 0, 1, 0.25, 30 }; for (int i = 0; i < len; i++, z /= 4) sum += x[i] = y[i] = W[z % 4]; if (!sum) continue; vp_case("normalize %d values, %d", len, q); vp_states++; vp_traces++; if (VP_TRY(snorm(x, len))) { vp_viol("normalize", "panics"); continue; } for (int i = 0; i < len; i++) if (!near_(x[i], y[i] / sum, 1e-12)) { vp_viol("normalize", "value %d is %g instead of %g", i, x[i], y[i] / sum); break; } } } }
// ---- random numbers
static uint64_t inv64(uint64_t m) { uint64_t x = m; for (int i = 0; i < 6; i++) x *= 2 - m * x; return x; }
static void draws(uint64_t s) { static const uint32_t N[] = { 1, 2, 3, 7, 10, 100, 65536, 1000003, 0x80000000u, 0xffffffffu }; vp_states++; vp_traces++; vp_case("random numbers from the seed %llu", (unsigned long long)s); uint32_t a[10]; double u[4]; rseed(s); for (int i = 0; i < 10; i++) { a[i] = rintn(N[i]); if (a[i] >= N[i]) { vp_viol("rnd", "%u for %u", a[i], N[i]); return; } } for (int i = 0; i < 4; i++) { u[i] = ru(); if (!(u[i] >= 0 && u[i] < 1)) { vp_viol("rnd", "u is %.17g", u[i]); return; } } rseed(s); for (int i = 0; i < 10; i++) if (rintn(N[i]) != a[i]) { vp_viol("rnd", "is not the same again"); return; } for (int i = 0; i < 4; i++) if (ru() != u[i]) { vp_viol("rnd", "u is not the same again"); return; } rseed(s); u[0] = ru(); if (!(u[0] >= 0 && u[0] < 1)) vp_viol("rnd", "u is %.17g", u[0]); vp_trans += 14; }
static void rnd(void) { for (uint64_t s = 0; s < (vp_thorough ? 2000000 : 200000) && vp_nviol < 5; s++) if (MINE(s)) { draws(s); draws(~s); draws(s << 40 | s); }
  uint64_t im = inv64(0x9b60933458e17d7dull); for (int k = 0; k < 8; k++) for (int d = -3; d <= 3; d++) { uint64_t sh = 29 - k, v = (uint64_t)k << 61 | (0xffffffffull << sh) | (k == 7 ? 0 : 0); draws((v + d - 0xd737232eeccdf7edull) * im); draws((((uint64_t)k << 61) + d - 0xd737232eeccdf7edull) * im); }
  if (!VP_TRY(rintn(0))) vp_viol("rnd", "intn(0) gives a number");
  for (int b = 1; b <= 40; b++) if (MINE(b)) { static long cnt[40]; memset(cnt, 0, sizeof cnt); rseed(b * 77); long T = 4000L * b; for (long i = 0; i < T; i++) cnt[rintn(b)]++; vp_case("%ld numbers below %d", T, b); vp_states++; for (int i = 0; i < b; i++) if (cnt[i] < 3400 || cnt[i] > 4600) { vp_viol("rnd", "%d comes %ld times", i, cnt[i]); break; } memset(cnt, 0, sizeof cnt); for (long i = 0; i < T; i++) { int x = ru() * b; cnt[x]++; } for (int i = 0; i < b; i++) if (cnt[i] < 3400 || cnt[i] > 4600) { vp_viol("rnd", "u falls %ld times into part %d of %d", cnt[i], i, b); break; } }
  long k = 0; for (int len = 1; len <= 4; len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= 4; for (int q = 0; q < tot; q++) { if (!MINE(k++)) continue; size_t f[5], sum = 0; int z = q; static const int W[] = { 0, 1, 3, 50 }; for (int i = 0; i < len; i++, z /= 4) sum += f[i] = W[z % 4]; vp_case("%d frequencies, list %d", len, q); vp_states++; vp_traces++; rseed(q); int r = 0; if (!sum) { if (!VP_TRY(r = ssample(f, len))) vp_viol("sample", "gives %d when all are 0", r); continue; } long c[5] = { 0 }, T = 3000; int bad = 0; for (int i = 0; i < T; i++) { if (VP_TRY(r = ssample(f, len)) || r < 0 || r >= len || !f[r]) { vp_viol("sample", "gives %d", r); bad = 1; break; } c[r]++; } if (!bad) for (int i = 0; i < len; i++) { double e = (double)T * f[i] / sum, sg = sqrt(e * (1 - (double)f[i] / sum)); if (fabs(c[i] - e) > 5 * sg + 1) { vp_viol("sample", "%d comes %ld times instead of about %.0f", i, c[i], e); break; } } } } }
// ---- tables
static int fd; static char *outp(tab *t, long *len) { static char *buf; if (!buf) buf = vp_raw(4 << 20); fflush(stdout); if (ftruncate(fd, 0)) {} lseek(1, 0, SEEK_SET); int p = VP_TRY(tprint(t)); fflush(stdout); if (p) return 0; *len = pread(fd, buf, (4 << 20) - 1, 0); buf[*len] = 0; return buf; }
static void table(char **v, int nv, int nc) { vp_states++; vp_traces++; vp_mark(); tab *t = 0; if (VP_TRY(t = tnew(nc))) { vp_viol("table", "new panics"); return; } for (int i = 0; i < nv; i++) { int p = i % 3 == 2 ? VP_TRY(tpush(t, "%.*s%s", 1, v[i], *v[i] ? v[i] + 1 : "")) : VP_TRY(tpush(t, "%s", v[i])); if (p) { vp_viol("table", "pushval panics"); return; } }
  for (int again = 0; again < 2; again++) { long L = 0; char *o = outp(t, &L); if (!o) { vp_viol("table", "print panics"); return; } int start[20]; for (int c = 0; c < nc; c++) start[c] = -1; char *ln = o; vp_trans++;
    for (int r = 0; r * nc < nv; r++) { char *e = strchr(ln, '\n'); int full = (r + 1) * nc <= nv; if (!e) { if (full) { vp_viol("table", "row %d has no end: %s", r, vp_show(ln, strlen(ln) > 80 ? 80 : strlen(ln))); return; } e = ln + strlen(ln); } int x = 0; for (int c = 0; c < nc && r * nc + c < nv; c++) { char *w = v[r * nc + c]; int l = strlen(w); if (!l) continue; int x0 = x; while (ln + x < e && ln[x] == ' ') x++; if (c && x0 && x - x0 < 2) { vp_viol("table", "fewer than two spaces before %s in: %s", vp_show(w, l), vp_show(ln, e - ln)); return; } if (start[c] < 0) start[c] = x; if (x != start[c]) { vp_viol("table", "%s starts at %d, others of its column at %d", vp_show(w, l), x, start[c]); return; } if (e - ln - x < l || memcmp(ln + x, w, l)) { vp_viol("table", "%s isn't there in: %s", vp_show(w, l), vp_show(ln, e - ln)); return; } x += l; } for (; ln + x < e; x++) if (ln[x] != ' ') { vp_viol("table", "something more in: %s", vp_show(ln, e - ln)); return; } ln = *e ? e + 1 : e; }
    if (*ln) { vp_viol("table", "something more after the table: %s", vp_show(ln, strlen(ln) > 80 ? 80 : strlen(ln))); return; } for (int c = 1; c < nc; c++) if (start[c] >= 0 && start[c - 1] >= 0 && start[c] <= start[c - 1]) { vp_viol("table", "columns %d and %d", c - 1, c); return; } }
  VP_TRY(tfree(t)); if (vp_leaked()) vp_viol("table", "%ld blocks not released", vp_leaked()); }
static void tables(void) { fd = open("tab", O_RDWR | O_CREAT | O_TRUNC, 0600); fflush(stdout); dup2(fd, 1); long k = 0; static char w[12][14]; char *v[1200]; static const int LEN[] = { 1, 2, 3, 4, 6, 0, 11 }; int NL = vp_thorough ? 7 : 6; for (int i = 0; i < 7; i++) { for (int j = 0; j < LEN[i]; j++) w[i][j] = 'a' + (i * 5 + j) % 26; w[i][LEN[i]] = 0; }
  for (int nc = 1; nc <= 4; nc++) for (int nv = 0; nv <= (vp_thorough ? 7 : 6); nv++) { long tot = 1; for (int i = 0; i < nv; i++) tot *= NL; for (long q = 0; q < tot; q++) { if (!MINE(k++)) continue; if (vp_nviol > 5) return; long z = q; char log[200] = ""; for (int i = 0; i < nv; i++, z /= NL) { v[i] = w[z % NL]; sprintf(log + strlen(log), " %s", *v[i] ? v[i] : "\"\""); } vp_case("table of %d columns:%s", nc, log); table(v, nv, nc); if (q % 30011 == 0) vp_sample("table of %d columns:%s", nc, log); } }
  static char big[1200][300]; for (int nc = 1; nc <= 12; nc++) for (int nv = 80; nv <= 1100; nv += nv > 320 ? 97 : nv >= 95 && nv < 105 ? 1 : nv >= 195 && nv < 205 ? 1 : 5) { if (!MINE(k++)) continue; for (int i = 0; i < nv; i++) { sprintf(big[i], "v%dx%d", i, i * i); v[i] = big[i]; } vp_case("table of %d columns and %d values", nc, nv); table(v, nv, nc); if (vp_nviol > 5) return; }
  for (int l = 1; l < 300; l++) if (MINE(l)) { memset(big[0], 'x', l); big[0][l] = 0; v[0] = "a"; v[1] = big[0]; v[2] = "c"; v[3] = "d"; v[4] = "e"; v[5] = "f"; vp_case("table with a value of %d characters", l); table(v, 6, 3); table(v, 6, 2); table(v, 6, 1); } }
// ---- complex numbers and transforms
static void cplx(void) { static const double D[] = { 0, 1, -1, 2.5, -1e3, 1e-3 }; for (int a = 0; a < 36; a++) for (int b = 0; b < 36; b++) if (MINE(a * 36 + b)) { cx x = { D[a / 6], D[a % 6] }, y = { D[b / 6], D[b % 6] }; vp_case("complex %g %g and %g %g", x.re, x.im, y.re, y.im); vp_states++; vp_traces++; cx s = csum(x, y), d = cdiff(x, y), m = cmul(x, y), c = cscale(x, y.re), k = cmake(x.re, y.im); if (s.re != x.re + y.re || s.im != x.im + y.im) vp_viol("complex", "sum"); if (d.re != x.re - y.re || d.im != x.im - y.im) vp_viol("complex", "difference"); if (!near_(m.re, x.re * y.re - x.im * y.im, 1e-12) || !near_(m.im, x.re * y.im + x.im * y.re, 1e-12)) vp_viol("complex", "product"); if (c.re != x.re * y.re || c.im != x.im * y.re) vp_viol("complex", "scale"); if (k.re != x.re || k.im != y.im) vp_viol("complex", "make"); if (!near_(cabs_(x), hypot(x.re, x.im), 1e-12) || !near_(cabs2(x), x.re * x.re + x.im * x.im, 1e-12)) vp_viol("complex", "absolute value"); } }
static void onefft(void *st, int N, int inv, cx *in, const char *what, int place) { static cx *o, *e, *cp; if (!o) { o = vp_raw(5000 * sizeof(cx)); e = vp_raw(5000 * sizeof(cx)); cp = vp_raw(5000 * sizeof(cx)); } vp_trans++; vp_case("%s transform of size %d%s, %s", inv ? "inverse" : "forward", N, place ? " in place" : "", what); cx *w = e + 2500; for (int i = 0; i < N; i++) { double ph = (inv ? 2 : -2) * M_PI * i / N; w[i].re = cos(ph); w[i].im = sin(ph); cp[i] = in[i]; } for (int f = 0; f < N; f++) { e[f].re = e[f].im = 0; for (int t = 0; t < N; t++) if (in[t].re || in[t].im) { cx u = w[(long)f * t % N]; e[f].re += in[t].re * u.re - in[t].im * u.im; e[f].im += in[t].re * u.im + in[t].im * u.re; } } cx *res = o; if (place) { memcpy(o, in, N * sizeof(cx)); if (VP_TRY(fft(st, o, o))) { vp_viol("fft", "panics"); return; } } else { if (VP_TRY(fft(st, cp, o))) { vp_viol("fft", "panics"); return; } if (memcmp(cp, in, N * sizeof(cx))) { vp_viol("fft", "changes its input"); return; } } for (int f = 0; f < N; f++) if (fabs(res[f].re - e[f].re) > 1e-8 * N || fabs(res[f].im - e[f].im) > 1e-8 * N) { vp_viol("fft", "frequency %d is %g %g instead of %g %g", f, res[f].re, res[f].im, e[f].re, e[f].im); return; } }
static void ffts(void) { int M = vp_thorough ? 200 : 96; static cx in[2500]; for (int N = 1; N <= M + 12; N++) { if (!MINE(N)) continue; static const int BIG[] = { 128, 210, 243, 256, 343, 400, 512, 625, 720, 1000, 1024, 1155 }; int n = N > M ? BIG[N - M - 1] : N; for (int inv = 0; inv < 2; inv++) { vp_mark(); vp_tick(); vp_states++; vp_traces++; void *st = 0, *mem = 0; size_t need = 0, got; vp_case("transform of size %d", n); if (VP_TRY(st = falloc(n, inv, 0, &need)) || st || !need) { vp_viol("fft", "the size needed isn't given"); continue; } mem = vp_raw(need); got = need - 1; if (VP_TRY(st = falloc(n, inv, mem, &got)) || st || got != need) { vp_viol("fft", "too little memory is accepted"); continue; } got = need + 100; void *st2 = 0; if (VP_TRY(st2 = falloc(n, inv, mem, &got)) || st2 != mem) { vp_viol("fft", "enough memory isn't accepted"); continue; } if (VP_TRY(st = falloc(n, inv, 0, 0)) || !st) { vp_viol("fft", "allocation fails"); continue; }
      int step = n > M ? 61 : 1; for (int t = 0; t < n; t += step) for (int im = 0; im < 2; im++) { memset(in, 0, sizeof in); if (im) in[t].im = 1; else in[t].re = 1; char w[40]; sprintf(w, "%s impulse at %d", im ? "imaginary" : "real", t); onefft(st, n, inv, in, w, 0); if (t < 3) onefft(st2, n, inv, in, w, 1); } for (int t = 0; t < n; t++) { in[t].re = (t * 37 % 101) / 50.0 - 1; in[t].im = (t * 53 % 97) / 48.0 - 1; } onefft(st, n, inv, in, "dense values", 0); onefft(st, n, inv, in, "dense values", 1); 
      free(st); if (vp_nviol > 5) return; } } }
void vp_body(void) { BIND(snew, "stats.newseries"); BIND(sfree, "stats.freeseries"); BIND(sadd, "stats.add"); BIND(scount, "stats.count"); BIND(smin, "stats.min"); BIND(smax, "stats.max"); BIND(ssum, "stats.sum"); BIND(savg, "stats.avg"); BIND(ssd, "stats.sd"); BIND(sperc, "stats.percentile"); BIND(smed, "stats.median"); BIND(snorm, "stats.normalize"); BIND(ssample, "stats.sample_from_distribution"); BIND(tnew, "table.new"); BIND(tpush, "table.pushval"); BIND(tprint, "table.print"); BIND(tfree, "table.free"); BIND(rseed, "rnd.seed"); BIND(rintn, "rnd.intn"); BIND(ru, "rnd.u"); BIND(csum, "complex.sum"); BIND(cdiff, "complex.diff"); BIND(cmul, "complex.mul"); BIND(cscale, "complex.scale"); BIND(cabs_, "complex.abs"); BIND(cabs2, "complex.abs2"); BIND(cmake, "complex.make"); BIND(falloc, "fft.kiss_fft_alloc"); BIND(fft, "fft.kiss_fft");
  const char *p = getenv("VP_PART"); if (!strcmp(p, "series")) seqs(); else if (!strcmp(p, "random")) rnd(); else if (!strcmp(p, "tables")) tables(); else { cplx(); ffts(); } }
