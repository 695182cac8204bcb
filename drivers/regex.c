// prog/libregexp9: Plan 9 regular expressions, against all parses of the pattern.
#include "vp.h"
typedef uint32_t R;
typedef struct { char *s, *e; } Sub;
FN(void *, comp, "", (char *)) FN(void *, complit, "", (char *)) FN(void *, compnl, "", (char *)) FN(int, exec_, "", (void *, char *, Sub *, int)) FN(int, rexec, "", (void *, R *, Sub *, int)) FN(void, regsub, "", (char *, char *, int, Sub *, int)) FN(void, rregsub, "", (R *, R *, int, Sub *, int))
void __real_free(void *);
static int enc(R c, char *o) { if (c < 0x80) { o[0] = c; return 1; } if (c < 0x800) { o[0] = 0xC0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; } if (c < 0x10000) { o[0] = 0xE0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; } o[0] = 0xF0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4; }
static char *utf(const R *p, int n) { char b[4000]; int k = 0; for (int i = 0; i < n; i++) k += enc(p[i], b + k); char *r = vp_raw(k + 1); memcpy(r, b, k); r[k] = 0; return r; }
// ---- the notation: parser
enum { CH, ANY, BOL, EOL, CLS, CAT, ALT, STAR, PLUS, OPT, GRP };
typedef struct N { int t; R c; int neg, nr; R lo[40], hi[40]; struct N *a, *b; int id; } N;
static N pool[600]; static int np, ngrp, bad, limit; static const R *P, *PE;
static N *nn(int t, N *a, N *b) { if (np >= 600) { bad = 1; np = 599; } N *n = &pool[np++]; n->t = t; n->a = a; n->b = b; n->nr = 0; n->neg = 0; return n; }
static N *alt(int d);
static N *atom(int d) { if (P == PE) { bad = 1; return nn(CH, 0, 0); } R c = *P++; N *n; switch (c) {
  case '*': case '+': case '?': case '|': case ')': bad = 1; P--; return nn(CH, 0, 0);
  case '.': return nn(ANY, 0, 0); case '^': return nn(BOL, 0, 0); case '$': return nn(EOL, 0, 0);
  case '(': n = nn(GRP, 0, 0); n->id = ++ngrp; n->a = alt(d + 1); if (P == PE || *P != ')') bad = 1; else P++; return n;
  case '\\': if (P == PE) { bad = 2; return nn(CH, 0, 0); } n = nn(CH, 0, 0); n->c = *P++; return n;
  case '[': n = nn(CLS, 0, 0); if (P < PE && *P == '^') { n->neg = 1; P++; } for (;;) { if (P == PE) { bad = 1; return n; } R x = *P++; if (x == ']') break; if (x == '-') { if (!n->nr) { bad = n->neg ? 2 : 1; return n; } if (P == PE || *P == ']') { bad = 1; return n; } x = *P++; if (x == '\\') { if (P == PE) { bad = 1; return n; } x = *P++; } n->hi[n->nr - 1] = x; if (x < n->lo[n->nr - 1]) bad = 2; continue; } if (x == '\\') { if (P == PE) { bad = 1; return n; } x = *P++; } if (n->nr >= 40) { bad = 2; return n; } n->lo[n->nr] = n->hi[n->nr] = x; n->nr++; } if (!n->nr) { bad = 2; } return n;
  default: n = nn(CH, 0, 0); n->c = c; return n; } }
static N *rep(int d) { N *n = atom(d); while (!bad && P < PE && (*P == '*' || *P == '+' || *P == '?')) { n = nn(*P == '*' ? STAR : *P == '+' ? PLUS : OPT, n, 0); P++; } return n; }
static N *cat(int d) { N *n = rep(d); while (!bad && P < PE && *P != '|' && *P != ')') n = nn(CAT, n, rep(d)); return n; }
static N *alt(int d) { N *n = cat(d); while (!bad && P < PE && *P == '|') { P++; n = nn(ALT, n, cat(d)); } return n; }
// bad: 0 in the notation, 1 outside it, 2 not settled by the notation
static N *parse(const R *p, int n) { P = p; PE = p + n; np = ngrp = bad = 0; N *r = alt(0); if (!bad && P < PE) bad = 1; return r; }
// ---- every way of matching
static const R *T; static int TL, TEND, NL; static int C1(N *n, int i) { if (i >= TEND) return 0; R c = T[i]; switch (n->t) { case CH: return c == n->c; case ANY: return NL || c != '\n'; case CLS: { int in = 0; for (int k = 0; k < n->nr; k++) in |= c >= n->lo[k] && c <= n->hi[k]; return n->neg ? !in && c != '\n' : in; } } return 0; }
static int B1(N *n, int i) { return n->t == BOL ? i == 0 || T[i - 1] == '\n' : i == TEND || i == TL || T[i] == '\n'; }
static uint64_t ends(N *n, uint64_t from) { uint64_t r = 0; switch (n->t) { case CH: case ANY: case CLS: for (int i = 0; i < TEND; i++) if (from >> i & 1 && C1(n, i)) r |= 2ull << i; return r; case BOL: case EOL: for (int i = 0; i <= TEND; i++) if (from >> i & 1 && B1(n, i)) r |= 1ull << i; return r; case CAT: return ends(n->b, ends(n->a, from)); case ALT: return ends(n->a, from) | ends(n->b, from); case GRP: return ends(n->a, from); case OPT: return from | ends(n->a, from); case PLUS: from = ends(n->a, from); case STAR: for (;;) { uint64_t x = from | ends(n->a, from); if (x == from) return x; from = x; } } return 0; }
// sets of (position, captures); 5 bits each, 31: none; up to 5 groups
#define MAXS 3000
typedef struct { uint64_t v[MAXS]; int n; } Set; static int over;
static void add(Set *s, uint64_t v) { for (int i = 0; i < s->n; i++) if (s->v[i] == v) return; if (s->n == MAXS) { over = 1; return; } s->v[s->n++] = v; }
static void caps(N *n, const Set *in, Set *out) { Set *t; out->n = 0; switch (n->t) { case CH: case ANY: case CLS: for (int i = 0; i < in->n; i++) if (C1(n, in->v[i] & 31)) add(out, in->v[i] + 1); return; case BOL: case EOL: for (int i = 0; i < in->n; i++) if (B1(n, in->v[i] & 31)) add(out, in->v[i]); return;
  case CAT: t = vp_raw(sizeof *t); caps(n->a, in, t); caps(n->b, t, out); __real_free(t); return; case ALT: t = vp_raw(sizeof *t); caps(n->a, in, out); caps(n->b, in, t); for (int i = 0; i < t->n; i++) add(out, t->v[i]); __real_free(t); return;
  case GRP: { int sh = 5 + (n->id - 1) * 10; Set *one = vp_raw(sizeof *t); t = vp_raw(sizeof *t); for (int i = 0; i < in->n; i++) { one->n = 0; add(one, in->v[i]); uint64_t s = in->v[i] & 31; caps(n->a, one, t); for (int k = 0; k < t->n; k++) { uint64_t v = t->v[k] & ~(1023ull << sh); add(out, v | s << sh | (v & 31) << (sh + 5)); } } __real_free(one); __real_free(t); return; }
  case OPT: caps(n->a, in, out); for (int i = 0; i < in->n; i++) add(out, in->v[i]); return;
  case PLUS: case STAR: t = vp_raw(sizeof *t); if (n->t == PLUS) caps(n->a, in, out); else *out = *in; for (;;) { int k = out->n; caps(n->a, out, t); for (int i = 0; i < t->n; i++) add(out, t->v[i]); if (k == out->n || over) break; } __real_free(t); return; } }
static long nvalid, nbad, nexec, ncap;
static int ninst(N *r) { return 2 * np + 2; }
// one compiled pattern on one text; from/to: limits given in the match array, -1 none
static void run1(N *root, void *prog, const R *t, int tl, int from, int to, int ms) { T = t; TL = tl; TEND = to >= 0 ? to : tl; int a = from >= 0 ? from : 0, ws = -1, we = -1; for (int i = a; i <= TEND; i++) { uint64_t e = ends(root, 1ull << i); if (e) { ws = i; we = 63 - __builtin_clzll(e); break; } }
  char *c = utf(t, tl); int off[70]; { int k = 0; for (int i = 0; i <= tl; i++) { off[i] = k; char b[4]; if (i < tl) k += enc(t[i], b); } } R *q = vp_raw((tl + 1) * 4); memcpy(q, t, tl * 4); q[tl] = 0; Sub *m = vp_raw((ms > 0 ? ms : 1) * sizeof(Sub));
  for (int k = 0; k < 2; k++) { memset(m, 0, (ms > 0 ? ms : 1) * sizeof(Sub)); if (ms > 1) memset(m + 1, 0x5a, (ms - 1) * sizeof(Sub)); if (ms > 0) { if (from >= 0) m[0].s = k ? (char *)(q + from) : c + off[from]; if (to >= 0) m[0].e = k ? (char *)(q + to) : c + off[to]; } int r = -7; int p = VP_TRY(r = k ? rexec(prog, q, ms >= 0 ? m : 0, ms < 0 ? 0 : ms) : exec_(prog, c, ms >= 0 ? m : 0, ms < 0 ? 0 : ms)); nexec++; const char *f = k ? "rregexec" : "regexec";
    if (p) { vp_viol("exec", "%s of %s panics", f, vp_show(c, strlen(c))); continue; } if (r != (ws >= 0)) { vp_viol("match", "%s on %s (from %d to %d) gives %d instead of %d", f, vp_show(c, strlen(c)), from, to, r, ws >= 0); continue; } if (ms <= 0) continue;
    int pos[40][2]; for (int i = 0; i < ms; i++) for (int s = 0; s < 2; s++) { char *x = s ? m[i].e : m[i].s; pos[i][s] = -1; if (x) { pos[i][s] = -2; for (int j = 0; j <= tl; j++) if (x == (k ? (char *)(q + j) : c + off[j])) pos[i][s] = j; } }
    if (ws < 0) { for (int i = 0; i < ms; i++) if (pos[i][0] != -1 || pos[i][1] != -1) { vp_viol("unset", "%s without a match on %s leaves something in match %d", f, vp_show(c, strlen(c)), i); break; } continue; }
    if (pos[0][0] != ws || pos[0][1] != we) { vp_viol("longest", "%s on %s (from %d to %d) finds %d-%d instead of %d-%d", f, vp_show(c, strlen(c)), from, to, pos[0][0], pos[0][1], ws, we); continue; }
    for (int i = ngrp + 1; i < ms; i++) if (pos[i][0] != -1 || pos[i][1] != -1) { vp_viol("unset", "%s on %s: unused match %d isn't empty", f, vp_show(c, strlen(c)), i); break; }
    if (ms > 1 && ngrp && ngrp <= 5) { static Set *in, *out; if (!in) { in = vp_raw(sizeof *in); out = vp_raw(sizeof *out); } over = 0; in->n = 1; in->v[0] = (uint64_t)ws | ~31ull; caps(root, in, out); if (over) continue; ncap++; int ok = 0; for (int i = 0; i < out->n && !ok; i++) { uint64_t v = out->v[i]; if ((v & 31) != we) continue; int same = 1; for (int g = 1; g <= ngrp && g < ms; g++) { int s = v >> (5 + (g - 1) * 10) & 31, e = v >> (10 + (g - 1) * 10) & 31; if (s == 31) s = e = -1; if (s != pos[g][0] || e != pos[g][1]) same = 0; } ok = same; } if (!ok) { char b[200] = ""; for (int g = 1; g <= ngrp && g < ms; g++) sprintf(b + strlen(b), " %d-%d", pos[g][0], pos[g][1]); vp_viol("groups", "%s on %s: groups%s are of no match", f, vp_show(c, strlen(c)), b); } } }
  __real_free(c); __real_free(q); __real_free(m); vp_trans++; }
static void *compile(const R *p, int n, int kind, int *pan) { char *c = utf(p, n); void *g = 0; *pan = VP_TRY(g = kind == 1 ? complit(c) : kind == 2 ? compnl(c) : comp(c)); __real_free(c); return g; }
static R texts[2000][8]; static int tlen[2000], ntext;
static void mktexts(const R *al, int na, int maxl) { ntext = 0; for (int l = 0; l <= maxl; l++) { long n = 1; for (int i = 0; i < l; i++) n *= na; for (long k = 0; k < n; k++) { long q = k; for (int i = 0; i < l; i++) { texts[ntext][i] = al[q % na]; q /= na; } tlen[ntext++] = l; } } }
static char *showp(const R *p, int n) { char *c = utf(p, n); char *r = vp_show(c, strlen(c)); __real_free(c); return r; }
static int sstack; // patterns nested deeper than the parser's stacks may be refused
static void pattern(const R *p, int n, int kind, int full) { vp_case("pattern %s%s", showp(p, n), kind == 1 ? ", taken literally" : kind == 2 ? ", with newlines" : ""); vp_states++; vp_traces++; if (!(vp_states & 1023)) vp_tick(); N *root; NL = kind == 2; if (kind == 1) { np = ngrp = bad = 0; root = 0; for (int i = 0; i < n; i++) { N *x = nn(CH, 0, 0); x->c = p[i]; root = root ? nn(CAT, root, x) : x; } if (!n) bad = 2; } else root = parse(p, n); if (bad == 2) { int pan; vp_mark(); void *g = compile(p, n, kind, &pan); if (!pan && g) free(g); return; }
  int pan; vp_mark(); void *g = compile(p, n, kind, &pan); if (bad) { nbad++; if (!pan && g) { vp_viol("accepted", "is accepted"); free(g); } return; } nvalid++; if (pan || !g) { vp_viol("refused", "is refused"); return; }
  for (int t = 0; t < ntext; t++) { run1(root, g, texts[t], tlen[t], -1, -1, ngrp + 1 + t % 2); if (full) { run1(root, g, texts[t], tlen[t], -1, -1, 1); if (t % 3 == 0) run1(root, g, texts[t], tlen[t], -1, -1, -1), run1(root, g, texts[t], tlen[t], -1, -1, 0); for (int a = -1; a <= tlen[t]; a++) for (int b = -1; b <= tlen[t]; b++) if ((a >= 0 || b >= 0) && (a < 0 || b < 0 || a <= b)) run1(root, g, texts[t], tlen[t], a, b, ngrp + 2); } }
  free(g); if (vp_leaked()) vp_viol("leak", "blocks not released"); }
static void all(const R *al, int na, int len, int kind, int full, long *idx) { long n = 1; for (int i = 0; i < len; i++) n *= na; for (long k = 0; k < n && vp_nviol < 50; k++) { if (!MINE((*idx)++)) continue; R p[16]; long q = k; for (int i = 0; i < len; i++) { p[len - 1 - i] = al[q % na]; q /= na; } pattern(p, len, kind, full); } }
// expressions by structure: nested groups and repetitions
static int tree(R *o, int *ch, int *pos, int *rad, int depth) { int lim = depth >= (vp_thorough ? 5 : 4) ? 3 : 9; rad[*pos] = lim; int k = ch[(*pos)++]; int n = 0; if (k < 3) { o[0] = k == 0 ? 'a' : k == 1 ? 'b' : '$'; return 1; } if (k < 6) { o[n++] = '('; n += tree(o + n, ch, pos, rad, depth + 1); o[n++] = ')'; o[n++] = k == 3 ? '*' : k == 4 ? '+' : '?'; return n; } if (k == 6) { n = tree(o, ch, pos, rad, depth + 2); return n + tree(o + n, ch, pos, rad, depth + 2); } if (k == 7) { o[n++] = '('; n += tree(o + n, ch, pos, rad, depth + 2); o[n++] = '|'; n += tree(o + n, ch, pos, rad, depth + 2); o[n++] = ')'; return n; } n = tree(o, ch, pos, rad, depth + 1); if (o[n - 1] == 'a' || o[n - 1] == ')') o[n++] = '*'; return n; }
static R S2[3000]; static int s2(const char *s) { int n = 0; while (s[n]) { S2[n] = (unsigned char)s[n]; n++; } return n; }
static int may_run_out;
static void one(const char *p, const char *t, int want, int ws, int we) { vp_trans += 2; vp_case("pattern %s on %s", vp_show(p, strlen(p)), vp_show(t, strlen(t))); vp_states++; vp_traces++; vp_tick(); int pan; int n = s2(p); void *g = compile(S2, n, 0, &pan); if (want < 0) { if (!pan && g) { vp_viol("accepted", "is accepted"); free(g); } return; } if (pan || !g) { vp_viol("refused", "is refused"); return; } Sub m[40] = { 0 }; char *c = vp_raw(strlen(t) + 1); strcpy(c, t); int r = -7; pan = VP_TRY(r = exec_(g, c, m, 33)); if (may_run_out && !pan && r == -1) ; else if (pan || r != want) vp_viol("match", "regexec gives %d instead of %d", r, want); else if (r && (m[0].s != c + ws || m[0].e != c + we)) vp_viol("longest", "finds %ld-%ld instead of %d-%d", (long)(m[0].s - c), (long)(m[0].e - c), ws, we); R *q = vp_raw(4 * (strlen(t) + 1)); for (size_t i = 0; i <= strlen(t); i++) q[i] = (unsigned char)t[i]; Sub m2[40] = { 0 }; r = -7; pan = VP_TRY(r = rexec(g, q, m2, 33)); int big = strlen(p) > 40; if (!(big && r == -1) && (pan || r != want)) vp_viol("match", "rregexec gives %d instead of %d", r, want); else if (r > 0 && (m2[0].s != (char *)(q + ws) || m2[0].e != (char *)(q + we))) vp_viol("longest", "rregexec finds another match"); __real_free(c); __real_free(q); free(g); }
static void sizes(void) { char p[2600], t[2600]; 
  for (int n = 1; n <= 31; n++) if (MINE(n)) { *p = *t = 0; for (int i = 0; i < n; i++) { sprintf(p + strlen(p), "(%c)", 'a' + i % 26); sprintf(t + strlen(t), "%c", 'a' + i % 26); } one(p, t, 1, 0, n); strcat(t, "!"); one(p, t, 1, 0, n); one(p, t + 1, n == 26 ? 0 : 0, 0, 0);
    // all groups are where they belong
    int k = s2(p), pan; void *g = compile(S2, k, 0, &pan); if (!pan && g) { Sub m[34] = { 0 }; int r = exec_(g, t, m, 34); for (int i = 1; r == 1 && i <= n; i++) if (m[i].s != t + i - 1 || m[i].e != t + i) { vp_viol("groups", "group %d of %d is wrong", i, n); break; } for (int i = n + 1; i < 34; i++) if (m[i].s || m[i].e) { vp_viol("unset", "unused match %d isn't empty", i); break; } free(g); } }
  if (MINE(0)) { *p = 0; for (int i = 0; i < 32; i++) strcat(p, "(a)"); one(p, "a", -1, 0, 0); *p = 0; for (int i = 0; i < 60; i++) strcat(p, "("); strcat(p, "a"); for (int i = 0; i < 60; i++) strcat(p, ")"); one(p, "a", -1, 0, 0); }
  for (int d = 1; d <= 9; d++) if (MINE(d)) { *p = 0; for (int i = 0; i < d; i++) strcat(p, "("); strcat(p, "a"); for (int i = 0; i < d; i++) strcat(p, ")*"); one(p, "xaay", 1, 0, 0); one(p, "aaay", 1, 0, 3); *p = 0; for (int i = 0; i < d; i++) strcat(p, "("); strcat(p, "a*"); for (int i = 0; i < d; i++) strcat(p, ")+"); one(p, "aaay", 1, 0, 3); one(p, "", 1, 0, 0); }
  // literals, repetitions and alternatives of every size: the list of threads grows
  for (int n = 1; n <= 150; n++) if (MINE(n)) { may_run_out = n > 120; memset(p, 'a', n); p[n] = 0; memset(t, 'a', n + 3); t[n + 3] = 0; one(p, t, 1, 0, n); one(p, t + 4, 0, 0, 0); *p = 0; for (int i = 0; i < n; i++) strcat(p, "a?"); for (int i = 0; i < n && n <= 60; i++) strcat(p, "a"); memset(t, 'a', n); t[n] = 0; one(p, t, 1, 0, n); *p = 0; for (int i = 0; i < n; i++) sprintf(p + strlen(p), "%s%c%c", i ? "|" : "", 'a' + i / 26, 'a' + i % 26); for (int i = 0; i < n; i += n > 20 ? n / 5 : 1) { sprintf(t, "--%c%c-", 'a' + i / 26, 'a' + i % 26); one(p, t, 1, 2, 4); } one(p, "--zz", 0, 0, 0); *p = 0; for (int i = 0; i < n; i++) strcat(p, "a*"); one(p, "aaab", 1, 0, 3); *p = 0; for (int i = 0; i < n; i++) strcat(p, "[ab]?"); if (n <= 16) one(p, "abc", 1, 0, n < 2 ? n : 2); else one(p, "abc", -1, 0, 0); } may_run_out = 0;
  // classes of many ranges
  for (int n = 1; n <= 40; n++) if (MINE(n)) { strcpy(p, "["); for (int i = 0; i < n; i++) sprintf(p + strlen(p), "%c", 48 + i * 2 + (48 + i * 2 >= 91) * 7); strcat(p, "]+"); int bad_ = 0; for (char *x = p + 1; *x && *x != ']'; x++) if (*x == '\\' || *x == '^' || *x == '-') bad_ = 1; if (bad_) continue; if (n <= 31) { sprintf(t, "!%c", 48 + (n - 1) * 2 + (48 + (n - 1) * 2 >= 91) * 7); one(p, t, 1, 1, 2); sprintf(t, "!%c", 49 + (n - 1) * 2); if (n < 20) one(p, t, 0, 0, 0); } else if (n > 32) one(p, "a", -1, 0, 0); }
  for (int n = 1; n <= 20; n++) if (MINE(n)) { *p = *t = 0; for (int i = 0; i < n; i++) { sprintf(p + strlen(p), "[%c-%c]", 'a' + i, 'b' + i); sprintf(t + strlen(t), "%c", 'b' + i); } one(p, t, n <= 16 ? 1 : -1, 0, n); if (n <= 16) { t[n - 1] = 'a' + n + 3; one(p, t, 0, 0, 0); } }
  // long texts
  for (int n = 10; n < 2500; n = n * 2 + 1) if (MINE(n)) { memset(t, 'x', n); t[n] = 0; one("x+$", t, 1, 0, n); one("y", t, 0, 0, 0); t[n - 1] = 'y'; one("y", t, 1, n - 1, n); one("xy$", t, 1, n - 2, n); one("^xy$", t, 0, 0, 0); one("[^x]", t, 1, n - 1, n); one(".*z|y", t, 1, n - 1, n); } }
// ---- substitution
static void subst(void) { static const char *AL[] = { "x", "&", "\\", "1", "2", "9", "0", "\xc3\xa9" }; static const R RL[] = { 'x', '&', '\\', '1', '2', '9', '0', 0xe9 }; long idx = 0; const char *text = "ab\xc3\xa9" "c"; R rt[] = { 'a', 'b', 0xe9, 'c', 0 };
  // match 0 is bé, 1 is é, 2 unused; in bytes 1-4, 2-4
  for (int l = 0; l <= (vp_thorough ? 6 : 5); l++) { long n = 1; for (int i = 0; i < l; i++) n *= 8; for (long k = 0; k < n; k++) { if (!MINE(idx++)) continue; char s0[40] = ""; R rs0[9]; long q = k; int at[8]; for (int i = 0; i < l; i++) { at[i] = q % 8; strcat(s0, AL[q % 8]); rs0[i] = RL[q % 8]; q /= 8; } rs0[l] = 0; char *s = vp_raw(strlen(s0) + 1); strcpy(s, s0); R *rs = vp_raw((l + 1) * 4); memcpy(rs, rs0, (l + 1) * 4); vp_case("substitution %s", vp_show(s, strlen(s))); vp_states++; vp_traces++; if (!(idx & 4095)) vp_tick();
    for (int ms = 0; ms <= 4; ms++) { Sub *m = vp_raw((ms ? ms : 1) * sizeof(Sub)), *r = vp_raw((ms ? ms : 1) * sizeof(Sub)); memset(m, 0, ms * sizeof(Sub)); memset(r, 0, ms * sizeof(Sub)); if (ms > 0) m[0].s = (char *)text + 1, m[0].e = (char *)text + 4, r[0].s = (char *)(rt + 1), r[0].e = (char *)(rt + 3); if (ms > 1) m[1].s = (char *)text + 2, m[1].e = (char *)text + 4, r[1].s = (char *)(rt + 2), r[1].e = (char *)(rt + 3);
      char w[200] = ""; R rw[200]; int wl = 0, rn = 0; 
      #define PUTC(i) (strcpy(w + wl, AL[i]), wl += strlen(AL[i]), rw[rn++] = RL[i])
      #define PUTM(i) do { if ((i) < ms && (i) < 2) { int a = (i) + 1; memcpy(w + wl, text + a, 4 - a); wl += 4 - a; for (int z = a; z < 3; z++) rw[rn++] = rt[z]; } } while (0)
      for (int i = 0; i < l; i++) { if (at[i] == 2) { if (++i == l) break; if (at[i] >= 3 && at[i] <= 6) PUTM(at[i] == 3 ? 1 : at[i] == 4 ? 2 : at[i] == 5 ? 9 : 0); else PUTC(at[i]); } else if (at[i] == 1) PUTM(0); else PUTC(at[i]); }
      for (int d = 1; d <= wl + 2; d += d < 3 || d >= wl - 1 ? 1 : wl - 1 - d > 1 ? wl - 1 - d : 1) { char *o = vp_raw(d); memset(o, 0x77, d); int p = VP_TRY(regsub(s, o, d, m, ms)); vp_trans++; int e = wl < d - 1 ? wl : d - 1; if (p || memcmp(o, w, e) || o[e]) vp_viol("regsub", "with %d matches into %d bytes gives %s instead of %s", ms, d, vp_show(o, strnlen(o, d)), vp_show(w, e)); __real_free(o); }
      for (int d = 1; d <= rn + 2; d++) { R *o = vp_raw(d * 4); memset(o, 0x77, d * 4); int p = VP_TRY(rregsub(rs, o, d * 4, r, ms)); vp_trans++; int e = rn < d - 1 ? rn : d - 1; if (p || memcmp(o, rw, e * 4) || o[e]) vp_viol("rregsub", "with %d matches into %d runes goes wrong", ms, d); __real_free(o); } __real_free(m); __real_free(r); }
    char o[9]; if (l && VP_TRY(regsub(s, o, 9, 0, 0))) vp_viol("regsub", "panics without matches"); __real_free(s); __real_free(rs); } } }
void vp_body(void) { BIND(comp, "regexp9.regcomp"); BIND(complit, "regexp9.regcomplit"); BIND(compnl, "regexp9.regcompnl"); BIND(exec_, "regexp9.regexec"); BIND(rexec, "regexp9.rregexec"); BIND(regsub, "regexp9.regsub"); BIND(rregsub, "regexp9.rregsub"); vp_quiet(1); long idx = 0; const char *part = getenv("VP_PART");
  if (!strcmp(part, "patterns")) { static const R al[] = { 'a', 'b', '.', '*', '+', '?', '|', '(', ')', '^', '$' }; static const R tx[] = { 'a', 'b', '\n' }; mktexts(tx, 3, 3); for (int l = 1; l <= 4; l++) all(al, 11, l, 0, l <= 3, &idx); if (vp_thorough) mktexts(tx, 3, 4); all(al, 11, 5, 0, 0, &idx); mktexts(tx, 3, 3); for (int l = 1; l <= 4; l++) all(al, 11, l, 2, 0, &idx); for (int l = 1; l <= 3; l++) { static const R lt[] = { 'a', '.', '*', '\n' }; static const R la[] = { 'a', '.', '*', '(', '\n', ')', '[', '^', '$', '|' }; mktexts(lt, 4, 4); all(la, 10, l, 1, l < 3, &idx); } if (vp_thorough) { mktexts(tx, 3, 3); all(al, 11, 6, 0, 0, &idx); } }
  else if (!strcmp(part, "classes")) { static const R al[] = { 'a', 'b', 'c', '-', '^', '\\', ']', '[', '.' }; static const R tx[] = { 'a', 'b', 'c', '-', '^', '\\', ']', '[', '\n', 'd', '.' }; mktexts(tx, 11, 2); for (int l = 1; l <= (vp_thorough ? 6 : 5); l++) { long n = 1; for (int i = 0; i < l; i++) n *= 9; for (long k = 0; k < n && vp_nviol < 50; k++) { if (!MINE(idx++)) continue; R p[16]; long q = k; p[0] = '['; for (int i = 0; i < l; i++) { p[1 + i] = al[q % 9]; q /= 9; } p[l + 1] = ']'; if (k % 3 == 0) { p[l + 2] = '+'; pattern(p, l + 3, 0, 0); } else pattern(p, l + 2, 0, 0); } }
    static const R ual[] = { 'a', 0xe9, 0x263a, 0x1F600, '*', '|', '(', ')' }; static const R ut[] = { 'a', 0xe9, 0x263a, 0x1F600, 0xea }; mktexts(ut, 5, 3); for (int l = 1; l <= 4; l++) all(ual, 8, l, 0, l < 3, &idx); static const R ucl[] = { '[', ']', '-', '^', 'a', 0xe9, 0x263b, 0x1F5FF }; for (int l = 1; l <= 5; l++) { long n = 1; for (int i = 0; i < l; i++) n *= 8; mktexts(ut, 5, 1); for (long k = 0; k < n && vp_nviol < 50; k++) { if (!MINE(idx++)) continue; R p[16]; long q = k; p[0] = '['; for (int i = 0; i < l; i++) { p[1 + i] = ucl[q % 8]; q /= 8; } p[l + 1] = ']'; pattern(p, l + 2, 0, 0); } }
    static const R esc[] = { '\\', 'a', 'n', '*', '.', '[', '(', '|', '$', '^' }; static const R et[] = { 'a', 'n', '*', '.', '\\', '[', '(', '|', '$', '^', '\n' }; mktexts(et, 11, 2); for (int l = 1; l <= 4; l++) all(esc, 10, l, 0, 0, &idx); }
  else if (!strcmp(part, "trees")) { static const R tx[] = { 'a', 'b' }; mktexts(tx, 2, 4); static int ch[200], rad[200]; long n = 0, lim = vp_thorough ? 3000000 : 150000; for (;;) { R o[400]; int pos = 0; int l = tree(o, ch, &pos, rad, 0); if (l < 60 && MINE(n)) { int g = 0; for (int i = 0; i < l; i++) g += o[i] == '('; if (g < 6) pattern(o, l, 0, l < 8); } n++; if (n >= lim || vp_nviol > 50) break; int i = pos - 1; while (i >= 0 && ++ch[i] >= rad[i]) ch[i--] = 0; for (int j = i < 0 ? 0 : i + 1; j < 200; j++) ch[j] = 0; if (i < 0) break; } if (!vp_shard) vp_sample("%ld expression trees", n); }
  else if (!strcmp(part, "sizes")) sizes(); else subst(); vp_sample("%ld expressions in the notation, %ld outside, %ld searches, %ld of them with groups compared against all parses", nvalid, nbad, nexec, ncap); }
