// lib/utf: conversions between runes and UTF-8, rune strings, cases.
#include "vp.h"
typedef uint32_t R;
FN(int, get_rune, "", (R *, const char *)) FN(int, runetochar, "", (char *, R *)) FN(int, runelen, "", (int32_t)) FN(int, runenlen, "", (R *, int)) FN(int, fullrune, "", (char *, int)) FN(size_t, runecount, "", (const char *)) FN(int, utfnlen, "", (char *, int32_t)) FN(char *, utfrune, "", (char *, R)) FN(char *, utfrrune, "", (char *, R)) FN(char *, utfutf, "", (char *, char *)) FN(char *, utfecpy, "", (char *, char *, char *))
FN(R *, r_cat, "", (R *, R *)) FN(R *, r_chr, "", (R *, R)) FN(R *, r_rchr, "", (R *, R)) FN(R *, r_ecpy, "", (R *, R *, R *)) FN(R *, r_str, "", (R *, R *)) FN(R *, r_dup, "", (R *)) FN(R *, r_ncat, "", (R *, R *, int32_t)) FN(int, r_ncmp, "", (R *, R *, int32_t)) FN(int, r_cmp, "", (R *, R *)) FN(R *, r_cpy, "", (R *, R *)) FN(R *, r_ncpy, "", (R *, R *, int32_t))
FN(R, tolower_, "", (R)) FN(R, toupper_, "", (R)) FN(R, totitle_, "", (R)) FN(bool, islower_, "", (R)) FN(bool, isalpha_, "", (R)) FN(bool, istitle_, "", (R)) FN(bool, isspace_, "", (R))
void __real_free(void *);
static int enc(R c, unsigned char *o) { if (c < 0x80) { o[0] = c; return 1; } if (c < 0x800) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; } if (c > 0x10FFFF) c = 0xFFFD; if (c < 0x10000) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; } o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4; }
// surr: 1 when the sequence is a surrogate (either reading is fine)
static int dec(const unsigned char *s, R *c, int *surr) { *surr = 0; *c = 0xFFFD; if (s[0] < 0x80) { *c = s[0]; return 1; } int n = s[0] >= 0xF0 && s[0] < 0xF8 ? 4 : s[0] >= 0xE0 && s[0] < 0xF0 ? 3 : s[0] >= 0xC0 && s[0] < 0xE0 ? 2 : 0; if (!n) return 1; R v = s[0] & (n == 2 ? 31 : n == 3 ? 15 : 7); for (int i = 1; i < n; i++) { if ((s[i] & 0xC0) != 0x80) return 1; v = v << 6 | (s[i] & 63); } if (v < (n == 2 ? 0x80 : n == 3 ? 0x800 : 0x10000) || v > 0x10FFFF) return 1; if (v >= 0xD800 && v < 0xE000) *surr = 1; *c = v; return n; }
static void points(void) {
  char *ex[5]; for (int i = 1; i < 5; i++) ex[i] = vp_raw(i); static const R big[] = { 0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000u, 0x80000041u, 0xFFFFFFFFu }; char *z[5]; for (int i = 0; i < 5; i++) { z[i] = vp_raw(i + 1); }
  for (R k = 0; k < 0x110000 + 8; k++) { if (!MINE(k >> 4)) continue; R c = k < 0x110000 ? k : big[k - 0x110000]; vp_case("code point %x", c); vp_states++; vp_trans += 5; unsigned char w[4]; int n = enc(c, w); char *b = ex[n]; memset(b, 0, n); R cc = c; int r = runetochar(b, &cc); if (r != n || memcmp(b, w, n)) vp_viol("enc", "is written as %s", vp_show(b, n)); int l = runelen(c); if (l != n) vp_viol("len", "needs %d bytes", l); if (runenlen(&cc, 1) != n) vp_viol("len", "runenlen gives %d", runenlen(&cc, 1));
    memcpy(z[n], w, n); z[n][n] = 0; R g = 0; int m = get_rune(&g, z[n]); R want = c > 0x10FFFF ? 0xFFFD : c; if ((m != n || g != want) && !(c >= 0xD800 && c < 0xE000)) vp_viol("dec", "is read back as %x of %d bytes", g, m); for (int i = 0; i <= 4; i++) if (!!fullrune((char *)w, i < n ? i : n) != (i >= n)) vp_viol("full", "%d bytes of %d are called %s", i, n, i >= n ? "incomplete" : "complete"); } }
static char *z5[8]; static void seq1(const unsigned char *s, int n) { memcpy(z5[n], s, n); z5[n][n] = 0; R c = 0, g = 0x12345; int su; int w = dec((unsigned char *)z5[n], &c, &su); int m = get_rune(&g, z5[n]); vp_states++; vp_trans++; if ((m != w || g != c) && !(su && m == 1 && g == 0xFFFD)) { vp_case("bytes %s", vp_show(s, n)); vp_viol("dec", "are read as %x of %d bytes", g, m); } }
static void bytes(void) { for (int i = 0; i < 8; i++) z5[i] = vp_raw(i + 1); unsigned char s[4]; for (int a = 0; a < 256; a++) { if (!MINE(a)) continue; vp_case("bytes beginning with %02x", a); s[0] = a; seq1(s, 1); for (int b = 0; b < 256; b++) { s[1] = b; seq1(s, 2); for (int c = 0; c < 256; c++) { s[2] = c; seq1(s, 3); } } vp_tick(); }
  static const unsigned char cl[] = { 0, 1, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbe, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfe, 0xff }; int n = sizeof cl; for (int a = 0; a < n; a++) if (MINE(a)) { vp_case("four bytes beginning with %02x", cl[a]); for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) for (int d = 0; d < n; d++) { s[0] = cl[a]; s[1] = cl[b]; s[2] = cl[c]; s[3] = cl[d]; seq1(s, 4); } vp_tick(); } 
  if (vp_thorough) for (int a = 0xe0; a < 256; a++) if (MINE(a)) for (int b = 0x70; b < 0xd0; b++) { vp_tick(); vp_case("four bytes beginning with %02x %02x", a, b); for (int c = 0x70; c < 0xd0; c++) for (int d = 0x70; d < 0xd0; d++) { s[0] = a; s[1] = b; s[2] = c; s[3] = d; seq1(s, 4); } } }
// ---- UTF-8 strings
static const char *PC[] = { "a", "b", "\xc2\x80", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", "\x80", "\xff", "\xe2\x82", "\xf0\x9f" }; static const R RC[] = { 'a', 'b', 0x80, 0xe9, 0x20ac, 0x1f600, 0x7f, 'z', 0xfffd, 0, 0x82 };
static void strings_(void) { int th = vp_thorough; long idx = 0;
  for (int n = 0; n <= (th ? 5 : 4); n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= 11; for (long k = 0; k < tot; k++) { if (!MINE(idx++)) continue; char t[40] = ""; long q = k; for (int i = 0; i < n; i++) { strcat(t, PC[q % 11]); q /= 11; } int L = strlen(t); char *s = vp_raw(L + 1); strcpy(s, t); vp_case("string %s", vp_show(s, L)); vp_states++; vp_traces++;
    int pos[40], np = 0; R rs[40]; int su; for (int p = 0; p < L;) { pos[np] = p; p += dec((unsigned char *)s + p, &rs[np], &su); np++; }
    if (runecount(s) != np) vp_viol("count", "has %zu runes", runecount(s)); vp_trans++;
    for (int m = 0; m <= L; m++) { int w = 0; for (int p = 0; p < m;) { int need = (unsigned char)s[p] < 0x80 ? 1 : (unsigned char)s[p] < 0xe0 ? 2 : (unsigned char)s[p] < 0xf0 ? 3 : 4; if (p + need > m) break; R c; p += dec((unsigned char *)s + p, &c, &su); w++; } int g = utfnlen(s, m); vp_trans++; if (g != w) vp_viol("count", "its first %d bytes have %d runes", m, g); }
    for (int x = 0; x < 11; x++) { char *f = 0, *l = 0; for (int i = 0; i < np; i++) if (rs[i] == RC[x]) { if (!f) f = s + pos[i]; l = s + pos[i]; } if (RC[x] == 0) f = l = s + L; vp_trans += 2; if (utfrune(s, RC[x]) != f) vp_viol("rune", "%x is found at the wrong place", RC[x]); if (utfrrune(s, RC[x]) != l) vp_viol("rune", "the last %x is found at the wrong place", RC[x]); }
    // copies
    int bad = 0; for (int i = 0; i < np; i++) if (rs[i] == 0xfffd) bad = 1; for (int z = 0; z <= L + 2; z++) { char *b = vp_raw(z ? z : 1); memset(b, 'Z', z ? z : 1); char *e = utfecpy(b, b + z, s); vp_trans++; if (z == 0) { if (e != b || b[0] != 'Z') vp_viol("ecpy", "no room, but something is copied"); } else { int m = e - b; if (m < 0 || m >= z || b[m] || strlen(b) != m || memcmp(b, s, m) || (z > L && m != L)) vp_viol("ecpy", "is copied into %d bytes as %s", z, vp_show(b, m < 0 || m > z ? 0 : m)); else if (!bad) { int i = 0; while (i < np && pos[i] < m) i++; if (m < L && (i >= np || pos[i] != m)) vp_viol("ecpy", "a rune is cut in %d bytes", z); int best = 0; for (int j = 0; j <= np; j++) { int p = j < np ? pos[j] : L; if (p < z) best = j; } if (i < best - 1) vp_viol("ecpy", "only %d runes fit into %d bytes", i, z); } } __real_free(b); }
    if (strcmp(s, t)) vp_viol("changed", "is changed"); __real_free(s); } }
  // search, well-formed strings
  for (int n = 0; n <= 4; n++) for (int m = 0; m <= 3; m++) { long tn = 1, tm = 1; for (int i = 0; i < n; i++) tn *= 6; for (int i = 0; i < m; i++) tm *= 6; if (!th && tn * tm > 60000) continue; for (long k = 0; k < tn; k++) { if (!MINE(idx++)) continue; for (long j = 0; j < tm; j++) { char a[40] = "", b[40] = ""; long q = k; for (int i = 0; i < n; i++) { strcat(a, PC[q % 6]); q /= 6; } q = j; for (int i = 0; i < m; i++) { strcat(b, PC[q % 6]); q /= 6; } char *r = utfutf(a, b); vp_states++; vp_trans++; if (r != strstr(a, b)) { vp_case("%s in %s", vp_show(b, strlen(b)), vp_show(a, strlen(a))); vp_viol("utfutf", "is found at the wrong place"); } } vp_tick(); } } }
// ---- rune strings
static const R AL[] = { 'a', 0xFFFF, 0x10FFFF }; static int mk(R *o, long k, int n) { for (int i = 0; i < n; i++) { o[i] = AL[k % 3]; k /= 3; } o[n] = 0; return n; }
static R *xr(const R *s, int n) { R *p = vp_raw((n + 1) * 4); memcpy(p, s, (n + 1) * 4); return p; }
static void runes(void) { static const long P3[] = { 1, 3, 9, 27, 81, 243 }; long idx = 0; int D = vp_thorough ? 5 : 4; R A[8], B[8];
  for (int n = 0; n <= D; n++) for (long k = 0; k < P3[n]; k++) { if (!MINE(idx++)) continue; mk(A, k, n); R *a = xr(A, n); vp_case("rune string %d/%ld", n, k); vp_states++; vp_traces++;
    for (int x = 0; x < 5; x++) { R c = x < 3 ? AL[x] : x == 3 ? 0 : 'q'; R *f = 0, *l = 0; for (int i = 0; i <= n; i++) if (A[i] == c) { if (!f) f = a + i; l = a + i; } vp_trans += 2; if (r_chr(a, c) != f) vp_viol("rstr", "the first %x is found at the wrong place", c); if (r_rchr(a, c) != l) vp_viol("rstr", "the last %x is found at the wrong place", c); }
    vp_mark(); R *d = r_dup(a); if (!d || memcmp(d, A, (n + 1) * 4)) vp_viol("rstr", "its copy differs"); free(d); if (vp_leaked()) vp_viol("leak", "memory is lost");
    R *b = xr(A, n); memset(b, 0xEE, (n + 1) * 4); if (r_cpy(b, a) != b || memcmp(b, A, (n + 1) * 4)) vp_viol("rstr", "copying gives something else"); __real_free(b);
    for (int z = 0; z <= n + 2; z++) { b = vp_raw((z ? z : 1) * 4); memset(b, 0xEE, (z ? z : 1) * 4); R *e = r_ecpy(b, b + z, a); int m = n < z - 1 ? n : z - 1; if (z == 0 ? e != b || b[0] != 0xEEEEEEEE : e != b + m || *e || memcmp(b, A, m * 4)) vp_viol("rstr", "copying into %d runes gives something else", z); memset(b, 0xEE, (z ? z : 1) * 4); e = r_ncpy(b, a, z); int bad = e != b; for (int i = 0; i < z; i++) if (b[i] != (i < n ? A[i] : 0)) bad = 1; if (bad) vp_viol("rstr", "copying %d runes gives something else", z); vp_trans += 2; __real_free(b); }
    unsigned char t[4]; int nb = 0; for (int i = 0; i < n; i++) nb += enc(A[i], t); if (runenlen(a, n) != nb) vp_viol("len", "needs %d bytes", runenlen(a, n));
    for (int m = 0; m <= D; m++) for (long j = 0; j < P3[m]; j++) { mk(B, j, m); R *s2 = xr(B, m); vp_trans += 4; int i = 0; while (i < n && i < m && A[i] == B[i]) i++; int w = A[i] == B[i] ? 0 : A[i] > B[i] ? 1 : -1; if (r_cmp(a, s2) != w) vp_viol("rstr", "comparing with %d/%ld gives %d", m, j, r_cmp(a, s2)); for (int z = 0; z <= n + 1; z++) { int wz = i >= z ? 0 : w; if (r_ncmp(a, s2, z) != wz) vp_viol("rstr", "comparing %d runes with %d/%ld gives %d", z, m, j, r_ncmp(a, s2, z)); }
      R *f = 0; for (int p = 0; p + m <= n && !f; p++) if (!memcmp(A + p, B, m * 4)) f = a + p; if (r_str(a, s2) != f) vp_viol("rstr", "%d/%ld is found at the wrong place", m, j);
      b = vp_raw((n + m + 1) * 4); memcpy(b, A, (n + 1) * 4); R *r = r_cat(b, s2); if (r != b || memcmp(b, A, n * 4) || memcmp(b + n, B, (m + 1) * 4)) vp_viol("rstr", "appending %d/%ld gives something else", m, j); __real_free(b);
      for (int z = 0; z <= m + 1; z++) { int mm = m < z ? m : z; b = vp_raw((n + mm + 1) * 4); memcpy(b, A, (n + 1) * 4); r = r_ncat(b, s2, z); if (r != b || memcmp(b, A, n * 4) || memcmp(b + n, B, mm * 4) || b[n + mm]) vp_viol("rstr", "appending %d of %d/%ld gives something else", z, m, j); __real_free(b); } __real_free(s2); }
    __real_free(a); } }
// ---- cases: table of Python's unicodedata for the checked alphabets
static void cases(void) { FILE *f = fopen(getenv("VP_TABLE"), "r"); unsigned c, lo, up; int al; static unsigned char chk_[0x110000]; while (f && fscanf(f, "%x %x %x %d", &c, &lo, &up, &al) == 4) { if (!MINE(c)) continue; vp_case("code point %x", c); vp_states++; vp_traces++; vp_trans += 3; if (tolower_(c) != lo) vp_viol("case", "its lower case is %x", tolower_(c)); if (toupper_(c) != up) vp_viol("case", "its upper case is %x", toupper_(c)); if (al >= 0 && isalpha_(c) != al) vp_viol("case", "is %sa letter", isalpha_(c) ? "" : "not "); chk_[c] = 1; if (isspace_(c) != (c == 9 || c == 10 || c == 32 || c == 0xa0) && c != 11 && c != 12 && c != 13 && c != 0x85) vp_viol("case", "is %sa space", isspace_(c) ? "" : "not "); }
  if (f) fclose(f); for (c = 0; c < 0x110100; c++) { if (!MINE(c >> 8)) continue; vp_case("code point %x", c); vp_states++; R l = tolower_(c), u = toupper_(c), t = totitle_(c); if (tolower_(l) != l) vp_viol("case", "its lower case %x has lower case %x", l, tolower_(l)); if (toupper_(u) != u) vp_viol("case", "its upper case %x has upper case %x", u, toupper_(u)); if (islower_(c) != (u != c)) vp_viol("case", "is lower case: %d, upper case %x", islower_(c), u); if ((l != c || u != c) && !isalpha_(c)) vp_viol("case", "has a case but isn't a letter"); if (istitle_(c) != (l != c && u != c)) vp_viol("case", "is title case: %d", istitle_(c)); if (l != c && u == c && toupper_(l) != c && c < 0x250 && c != 0x130 && c != 0x18e) vp_viol("case", "its lower case %x has upper case %x", l, toupper_(l)); if (isspace_(c) && isalpha_(c)) vp_viol("case", "is a letter and a space"); if (t != c && tolower_(t) != l) vp_viol("case", "its title case %x has lower case %x", t, tolower_(t)); if (c > 0x10ffff && (l != c || u != c || isalpha_(c) || isspace_(c))) vp_viol("case", "isn't a character"); vp_trans += 8; } }
// the whole tables: runs of "first last lower upper title flags" (differences in decimal)
static void whole(void) { const char *dump = getenv("VP_DUMP"), *tab = getenv("VP_TABLES"); long d[3] = { 0 }, fl = 0; FILE *o = dump && vp_shard == 0 ? fopen(dump, "w") : 0; unsigned run = 0;
  if (o) { for (unsigned c = 0; c <= 0x110000; c++) { long e[4] = { 0 }; if (c < 0x110000) { e[0] = (long)tolower_(c) - c; e[1] = (long)toupper_(c) - c; e[2] = (long)totitle_(c) - c; e[3] = islower_(c) | isalpha_(c) << 1 | istitle_(c) << 2 | isspace_(c) << 3; } if (c == 0x110000 || e[0] != d[0] || e[1] != d[1] || e[2] != d[2] || e[3] != fl) { if (c > run && (d[0] || d[1] || d[2] || fl)) fprintf(o, "%x %x %ld %ld %ld %ld\n", run, c - 1, d[0], d[1], d[2], fl); run = c; d[0] = e[0]; d[1] = e[1]; d[2] = e[2]; fl = e[3]; } } fclose(o); return; }
  if (!tab) return; FILE *f = fopen(tab, "r"); unsigned a = 1, b = 0, n = 0; d[0] = d[1] = d[2] = fl = 0; for (unsigned c = 0; c < 0x110000; c++) { while (f && a != -1u && c > b | a > b) { if (fscanf(f, "%x %x %ld %ld %ld %ld", &a, &b, &d[0], &d[1], &d[2], &fl) != 6) { a = b = -1u; break; } } if (!MINE(c >> 8)) continue; int in = c >= a && c <= b; vp_states++; vp_traces++; vp_trans += 7; n++;
    vp_case("code point %x", c); if (tolower_(c) != c + (in ? d[0] : 0) || toupper_(c) != c + (in ? d[1] : 0) || totitle_(c) != c + (in ? d[2] : 0)) vp_viol("table", "its cases are %x, %x and %x", tolower_(c), toupper_(c), totitle_(c)); long g = islower_(c) | isalpha_(c) << 1 | istitle_(c) << 2 | isspace_(c) << 3; if (g != (in ? fl : 0)) vp_viol("table", "its classes are %ld, not %ld (1 lower case, 2 letter, 4 title case, 8 space)", g, in ? fl : 0); }
  if (f) fclose(f); }
void vp_body(void) {
  BIND(get_rune, "utf.get_rune"); BIND(runetochar, "utf.runetochar"); BIND(runelen, "utf.runelen"); BIND(runenlen, "utf.runenlen"); BIND(fullrune, "utf.fullrune"); BIND(runecount, "utf.runecount"); BIND(utfnlen, "utf.utfnlen"); BIND(utfrune, "utf.utfrune"); BIND(utfrrune, "utf.utfrrune"); BIND(utfutf, "utf.utfutf"); BIND(utfecpy, "utf.utfecpy"); BIND(r_cat, "utf.runestrcat"); BIND(r_chr, "utf.runestrchr"); BIND(r_rchr, "utf.runestrrchr"); BIND(r_ecpy, "utf.runestrecpy"); BIND(r_str, "utf.runestrstr"); BIND(r_dup, "utf.runestrdup"); BIND(r_ncat, "utf.runestrncat"); BIND(r_ncmp, "utf.runestrncmp"); BIND(r_cmp, "utf.runestrcmp"); BIND(r_cpy, "utf.runestrcpy"); BIND(r_ncpy, "utf.runestrncpy"); BIND(tolower_, "utf.tolowerrune"); BIND(toupper_, "utf.toupperrune"); BIND(totitle_, "utf.totitlerune"); BIND(islower_, "utf.islowerrune"); BIND(isalpha_, "utf.isalpharune"); BIND(istitle_, "utf.istitlerune"); BIND(isspace_, "utf.isspacerune");
  vp_sample("20ac needs %d bytes", runelen(0x20ac)); points(); bytes(); strings_(); runes(); cases(); whole(); }
