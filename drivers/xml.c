// formats/xml walked by every sequence of operations against a tree; formats/dtd against what the declarations were made from.
#define _GNU_SOURCE
#include "vp.h"
#include <fcntl.h>
FN(void *, xopen, "", (const char *)) FN(void, xclose, "", (void *)) FN(const char *, xname, "", (void *)) FN(const char *, xattr, "", (void *, const char *)) FN(bool, xenter, "", (void *)) FN(void, xnext, "", (void *)) FN(void, xleave, "", (void *)) FN(const char *, xerr, "", (void *))
static char F[60]; static void put(const void *d, size_t n) { int f = open(F, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (write(f, d, n) != n) _exit(3); close(f); }
// ---- trees
#define MAXN 7
typedef struct { int par, first, next, mono, nm; } node; static node N[MAXN]; static int nn; static const char *NM[] = { "a", "bc", "root", "abcdefghijklmno" }; static char doc[60000];
static int depthof(int i) { int d = 0; while (N[i].par >= 0) { i = N[i].par; d++; } return d; }
static void emit(int i, int ws, int at) { static const char *W[] = { "", "\n\t", "  " }; char *e = doc + strlen(doc); e += sprintf(e, "%s<%s", W[ws], NM[N[i].nm]); for (int k = 0; k < (i + at) % 3; k++) e += sprintf(e, "%s%s=\"v%d-%d\"", ws == 2 ? "\n " : " ", k ? "y" : "x", i, k); if (at == 1 && i % 2) e += sprintf(e, " "); if (N[i].mono) { sprintf(e, ws ? " />" : "/>"); return; } sprintf(e, ">"); for (int c = N[i].first; c >= 0; c = N[c].next) emit(c, ws, at); e = doc + strlen(doc); sprintf(e, "%s</%s>", W[ws], NM[N[i].nm]); }
static void check(void *x, int cur, int at, const char *ops) { const char *n = xname(x); vp_trans++; if (cur < 0) { if (n) vp_viol("walk", "the node is %s, not none", n); if (xattr(x, "x")) vp_viol("walk", "no node has an attribute"); return; } if (!n || strcmp(n, NM[N[cur].nm])) { vp_viol("walk", "the node is %s, not %s", n ? n : "none", NM[N[cur].nm]); return; } char w[20]; for (int k = 0; k < 2; k++) { const char *a = xattr(x, k ? "y" : "x"); sprintf(w, "v%d-%d", cur, k); if (k < (cur + at) % 3 ? !a || strcmp(a, w) : a != 0) vp_viol("walk", "node %d has attribute %s", cur, a ? a : "none"); } if (xattr(x, "z") || xattr(x, "")) vp_viol("walk", "node %d has an unknown attribute", cur); }
static void walk(const char *ops, int L, int at) { // all checks after every step
  vp_traces++; vp_mark(); void *x = 0; int cur = 0, par = -1; if (VP_TRY(x = xopen(F))) { vp_viol("walk", "opening panics"); return; } check(x, cur, at, "");
  for (int i = 0; i < L; i++) { char o = ops[i]; bool r = 0; int p = 0; vp_states++;
    if (o == 'e') { bool w = cur >= 0 && !N[cur].mono; p = VP_TRY(r = xenter(x)); if (!p && r != w) { vp_viol("walk", "enter gives %d", r); break; } if (w) { par = cur; cur = N[cur].first; } }
    else if (o == 'n') { p = VP_TRY(xnext(x)); if (cur >= 0) cur = N[cur].next; } else { p = VP_TRY(xleave(x)); if (par >= 0) { cur = N[par].next; par = N[par].par; } }
    if (p) { vp_viol("walk", "step %d panics", i + 1); return; } check(x, cur, at, ops); if (xerr(x)[0]) { vp_viol("walk", "an error in a correct file: %s", xerr(x)); break; } if (vp_nviol > 8) break; }
  VP_TRY(xclose(x)); if (vp_leaked()) vp_viol("leak", "%ld blocks not released", vp_leaked()); }
static int depth_ok(void) { for (int i = 0; i < nn; i++) if (!N[i].mono && depthof(i) >= 4) return 0; return 1; }
static long didx; static void docs(int L) { if (!MINE(didx++)) return; if (vp_nviol > 8) return;
  for (int v = 0; v < (nn <= 4 || vp_thorough ? 3 : 1); v++) { for (int i = 0; i < nn; i++) N[i].nm = v == 0 ? i % 4 : v == 1 ? 0 : (i + 1) % 2 + 1; strcpy(doc, v == 1 ? "<?xml?>" : "\n <?xml version=\"1.0\" encoding=\"utf-8\"?>\n"); emit(0, v == 0 ? 1 : v == 1 ? 0 : 2, v); if (v != 1) strcat(doc, "\n"); put(doc, strlen(doc)); char ops[12]; long tot = 1; for (int i = 0; i < L; i++) tot *= 3; for (long k = 0; k < tot; k++) { long q = k; for (int i = 0; i < L; i++) { ops[i] = "enl"[q % 3]; q /= 3; } ops[L] = 0; vp_case("%s with %s", doc, ops); walk(ops, L, v); } } }
static void leaves(int i, int L) { if (i == nn) { if (depth_ok()) docs(L); return; } if (N[i].first < 0) { N[i].mono = 1; leaves(i + 1, L); N[i].mono = 0; leaves(i + 1, L); } else { N[i].mono = 0; leaves(i + 1, L); } }
static void link_(void) { for (int i = 0; i < nn; i++) N[i].first = N[i].next = -1; for (int i = nn - 1; i > 0; i--) { N[i].next = N[N[i].par].first; N[N[i].par].first = i; } }
static void trees(int k, int L) { if (k == nn) { link_(); leaves(0, L); return; } for (int p = k - 1; p >= 0; p = N[p].par) { N[k].par = p; if (depthof(k) <= 4) trees(k + 1, L); } } // preorder numbering: the parent is on the rightmost path
static void wellformed(void) { int th = vp_thorough; for (nn = 1; nn <= (th ? 6 : 5); nn++) { N[0].par = -1; trees(1, nn <= 3 ? (th ? 8 : 7) : nn == 4 ? (th ? 8 : 6) : (th ? 6 : 5)); } }
// ---- limits and broken files
static int full(void *x, int d) { if (d > 6) return 0; int n = 0; while (xname(x) && n < 400) { n++; if (xenter(x)) { n += full(x, d + 1); xleave(x); } else xnext(x); } return n; }
static void broken1(const char *d, int n, int truncated) { put(d, n); vp_mark(); vp_states++; vp_traces++; void *x = 0; int cnt = -1; int p = VP_TRY(x = xopen(F); cnt = full(x, 0)); vp_trans++; if (!p && truncated && !xerr(x)[0]) vp_viol("broken", "a broken file is read without an error"); if (x) { const char *nm = 0; if (!p && xerr(x)[0]) { VP_TRY(nm = xname(x)); if (nm) vp_viol("broken", "there is a node after an error"); bool b = 0; VP_TRY(b = xenter(x); xnext(x); xleave(x)); if (b || xattr(x, "x")) vp_viol("broken", "nodes can be entered after an error"); } VP_TRY(xclose(x)); if (vp_leaked()) vp_viol("leak", "%ld blocks not released", vp_leaked()); } }
static void broken(void) { static const char *S[] = { "<?xml v=\"1\"?>\n<root><a x=\"1\" y=\"two\"><b/></a><a></a></root>", "<?xml?><r><s><t><u/></t></s><s/></r>" }; long idx = 0; static char b[400];
  for (int s = 0; s < 2; s++) { int n = strlen(S[s]); for (int k = 0; k < n; k++) { if (!MINE(idx++)) continue; vp_case("file cut to %.*s", k, S[s]); broken1(S[s], k, 1); int body = strchr(S[s] + 5, '<') - S[s]; static const char R[] = "<>/\"= aZ?\n\xff\0"; for (int r = 0; r < 13; r++) { memcpy(b, S[s], n); if (b[k] == R[r]) continue; b[k] = R[r]; vp_case("file %s", vp_show(b, n)); broken1(b, n, 0); memcpy(b, S[s], k); b[k] = R[r]; memcpy(b + k + 1, S[s] + k, n - k); vp_case("file %s", vp_show(b, n + 1)); broken1(b, n + 1, 0); } memcpy(b, S[s], k); memcpy(b + k, S[s] + k + 1, n - k - 1); vp_case("file %s", vp_show(b, n - 1)); broken1(b, n - 1, k >= body && strchr("<>\"", S[s][k]) != 0); } }
  static const char *M[] = { "<?xml?><a></b>", "<?xml?><a><b></a></b>", "<?xml?><a><b/></c>", "<?xml?></a>", "<?xml?>", "", " ", "<a/>", "<?xml?><a><b x=1/></a>", "<?xml?><a x='1'/>", "<?xml?><a><></a>", "<?xml?><a><b></a>", "<?xml?><a><b/>" }; for (int i = 0; i < 13; i++) if (MINE(i)) { vp_case("file %s", M[i]); broken1(M[i], strlen(M[i]), 1); }
  // names, values and numbers of attributes around the limits, nesting
  for (int L = 1; L < 40; L++) if (MINE(L)) { char nm[50]; memset(nm, 'n', L); nm[L] = 0; sprintf(doc, "<?xml?><r><%s/></r>", nm); put(doc, strlen(doc)); vp_case("a name of %d letters", L); vp_states++; vp_mark(); void *x = 0; const char *g = 0; int p = VP_TRY(x = xopen(F); xenter(x); g = xname(x)); if (L <= 15 ? p || !g || strcmp(g, nm) : !p && g) vp_viol("limit", "is read as %s", g ? g : "none"); if (x) VP_TRY(xclose(x)); sprintf(doc, "<?xml?><r %s=\"v\"/>", nm); put(doc, strlen(doc)); x = 0; g = 0; p = VP_TRY(x = xopen(F); g = xattr(x, nm)); if (L <= 15 ? p || !g || strcmp(g, "v") : !p && g) vp_viol("limit", "an attribute's name is read as %s", g ? g : "none"); if (x) VP_TRY(xclose(x)); }
  for (int L = 0; L < 4200; L += L < 20 || L > 4080 ? 1 : 127) if (MINE(L)) { char *v = vp_raw(L + 1); for (int i = 0; i < L; i++) v[i] = "v<>/= \n\xff&'"[i % 10]; v[L] = 0; sprintf(doc, "<?xml?><r k=\"%s\" x=\"last\"/>", v); put(doc, strlen(doc)); vp_case("a value of %d bytes", L); vp_states++; void *x = 0; const char *g = 0, *h = 0; int p = VP_TRY(x = xopen(F); g = xattr(x, "k"); h = xattr(x, "x")); if (L <= 4095 ? p || !g || strcmp(g, v) || !h || strcmp(h, "last") : !p && g && strcmp(g, v)) vp_viol("limit", "a value of %d bytes is read wrong", L); if (x && !p) VP_TRY(xclose(x)); }
  for (int k = 0; k < 80; k++) if (MINE(k)) { strcpy(doc, "<?xml?><r"); for (int i = 0; i < k; i++) sprintf(doc + strlen(doc), " k%c%c=\"%d\"", 'a' + i / 26, 'a' + i % 26, i); strcat(doc, "/>"); put(doc, strlen(doc)); vp_case("%d attributes", k); vp_states++; void *x = 0; int bad = 0; int p = VP_TRY(x = xopen(F)); for (int i = 0; i < k && !p; i++) { char q[4] = { 'k', 'a' + i / 26, 'a' + i % 26, 0 }, w[9]; sprintf(w, "%d", i); const char *g = xattr(x, q); if (!g || strcmp(g, w)) bad = 1; } if (k <= 64 ? p || bad : !p && bad && !xerr(x)[0]) vp_viol("limit", "%d attributes are read wrong", k); if (x && !p) VP_TRY(xclose(x)); }
  for (int d = 1; d < 10; d++) if (MINE(d)) { strcpy(doc, "<?xml?>"); for (int i = 0; i < d; i++) strcat(doc, "<q>"); for (int i = 0; i < d; i++) strcat(doc, "</q>"); put(doc, strlen(doc)); vp_case("%d levels", d); vp_states++; void *x = 0; int n = 0; int p = VP_TRY(x = xopen(F); n = full(x, 0)); if (d <= 4 ? p || n != d : !p && !xerr(x)[0] && n != d) vp_viol("limit", "%d levels are read as %d", d, n); if (x && !p) VP_TRY(xclose(x)); } unlink(F); }
// names with common beginnings, siblings with other attributes, ends seen while stepping
static void similar(void) { long idx = 0;
  for (int L = 1; L <= 15; L++) for (int how = 0; how < 4; how++) for (int kid = 0; kid < 3; kid++) { if (!MINE(idx++)) continue; char a[20], b[20]; memset(a, 'n', L); a[L] = 0; strcpy(b, a); if (how == 0) b[L - 1] = 'x'; else if (how == 1) { if (L == 1) continue; b[L - 1] = 0; } else if (how == 2) { if (L == 15) continue; strcat(b, "n"); } else b[0] = 'x'; sprintf(doc, kid == 0 ? "<?xml?><r><%s></%s></r>" : kid == 1 ? "<?xml?><r><%s><k/></%s></r>" : "<?xml?><%s></%s>", a, b); vp_case("file %s", doc); broken1(doc, strlen(doc), 1); }
  // attributes whose names begin alike
  static const char *AN[] = { "a", "ab", "abc", "abcd", "b", "abd", "A" }; for (int m = 0; m < 128; m++) for (int rev = 0; rev < 2; rev++) { if (!MINE(idx++)) continue; strcpy(doc, "<?xml?><r"); for (int i = 0; i < 7; i++) { int q = rev ? 6 - i : i; if (m >> q & 1) sprintf(doc + strlen(doc), " %s=\"v%d\"", AN[q], q); } strcat(doc, "/>"); put(doc, strlen(doc)); vp_case("file %s", doc); vp_states++; vp_traces++; void *x = xopen(F); for (int i = 0; i < 7; i++) { const char *g = xattr(x, AN[i]); char w[9]; sprintf(w, "v%d", i); if (m >> i & 1 ? !g || strcmp(g, w) : g != 0) vp_viol("attr", "attribute %s is %s", AN[i], g ? g : "none"); } xclose(x); }
  // siblings: each has its own attributes and no others
  static const int K[] = { 0, 1, 2, 3, 30, 58, 59, 60, 61, 63, 64 }; for (int i = 0; i < 11; i++) for (int j = 0; j < 11; j++) for (int e = 0; e < 2; e++) { if (!MINE(idx++)) continue; strcpy(doc, "<?xml?><r>"); for (int w = 0; w < 3; w++) { int k = w == 1 ? K[j] : K[i]; sprintf(doc + strlen(doc), "<s%c", 97 + w); for (int q = 0; q < k; q++) sprintf(doc + strlen(doc), " k%c%c=\"%s\"", 'a' + q / 26, 'a' + q % 26, w == 1 && e ? "" : w ? "x" : "longer value"); strcat(doc, "/>"); } strcat(doc, "</r>"); put(doc, strlen(doc)); vp_case("siblings with %d, %d and %d attributes", K[i], K[j], K[i]); vp_states++; vp_traces++; void *x = 0; if (VP_TRY(x = xopen(F); xenter(x))) { vp_viol("attr", "panics"); continue; } for (int w = 0; w < 3; w++) { int k = w == 1 ? K[j] : K[i], bad = 0; vp_trans++; for (int q = 0; q < 66; q++) { char nm[5] = { 'k', 'a' + q / 26, 'a' + q % 26, 0 }; const char *g = xattr(x, nm); if (q < k ? !g || strcmp(g, w == 1 && e ? "" : w ? "x" : "longer value") : g != 0) bad = q + 1; } if (bad) { vp_viol("attr", "attribute %d of sibling %d is wrong", bad - 1, w); break; } if (VP_TRY(xnext(x))) { vp_viol("attr", "panics"); break; } } VP_TRY(xclose(x)); }
  // the file ends among siblings: an error as soon as there is no next one
  static const char *E[] = { "<?xml?><r><a/>", "<?xml?><r><a/><b/>", "<?xml?><r>\n<a/>\n", "<?xml?><r><a></a>", "<?xml?><r><q><a/>", "<?xml?><r><a/><", "<?xml?><r><a/></r" }; for (int i = 0; i < 7; i++) { if (!MINE(idx++)) continue; put(E[i], strlen(E[i])); vp_case("file %s", E[i]); vp_states++; vp_traces++; void *x = 0; int n = 0; int p = VP_TRY(x = xopen(F); xenter(x); if (i == 4) xenter(x); while (xname(x) && n < 9) { n++; xnext(x); } xleave(x)); if (!p && !xerr(x)[0]) vp_viol("broken", "no error after %d siblings", n); if (x) VP_TRY(xclose(x)); if (i != 0 && i != 1 && i != 2) continue; p = VP_TRY(x = xopen(F); xenter(x); n = 0; while (xname(x) && n < 9) { n++; xnext(x); }); if (!p && !xerr(x)[0]) vp_viol("broken", "stepping past the end of the file is no error"); if (x) VP_TRY(xclose(x)); } unlink(F); }
// ---- DTD
FN(void *, dparse, "", (const char *)) FN(void *, delem, "", (void *, const char *)) FN(void *, datts, "", (void *, const char *)) FN(int, dnelem, "", (void *)) FN(int, dnatt, "", (void *)) FN(void *, e_list, "", (void *)) FN(int, l_size, "", (void *)) FN(int, l_quant, "", (void *)) FN(int, l_join, "", (void *)) FN(bool, l_islist, "", (void *, int)) FN(void *, l_item, "", (void *, int)) FN(const char *, c_name, "", (void *)) FN(int, c_quant, "", (void *)) FN(int, al_size, "", (void *)) FN(const char *, a_name, "", (void *, int)) FN(int, a_type, "", (void *, int)) FN(int, a_flag, "", (void *, int))
static void show(void *l, char *o) { int n = l_size(l), j = l_join(l); o += strlen(o); *o++ = '('; for (int i = 0; i < n; i++) { if (i) *o++ = j; *o = 0; if (l_islist(l, i)) { show(l_item(l, i), o); o += strlen(o); } else { o += sprintf(o, "%s", c_name(l_item(l, i))); if (c_quant(l_item(l, i))) *o++ = c_quant(l_item(l, i)); } } *o++ = ')'; if (l_quant(l)) *o++ = l_quant(l); *o = 0; }
static void *sch; static void dtd1(const char *el, const char *canon, int empty) { char t[400]; long k = 0; for (int w = 0; w < 3; w++) { sprintf(t, w == 0 ? "<!ELEMENT el %s>" : w == 1 ? "\n\t<!ELEMENT   el\t%s>\n<!ELEMENT z EMPTY>\n" : "<!ATTLIST el a ID #REQUIRED>\n\n  <!ELEMENT el %s>", el); vp_case("definition %s", t); vp_states++; void *s = 0; int p = VP_TRY(s = dparse(t)); vp_trans++; if (p) { vp_viol("dtd", "panics"); continue; } void *e = delem(s, "el"); if (!e) { vp_viol("dtd", "the element is missing"); free(s); continue; } char g[300] = ""; show(e_list(e), g); if (strcmp(g, canon)) vp_viol("dtd", "is read as %s", g); if (dnelem(s) != (w == 1 ? 2 : 1) || dnatt(s) != (w == 2)) vp_viol("dtd", "%d elements and %d attribute lists", dnelem(s), dnatt(s)); if (delem(s, "e") || delem(s, "ell") || (w != 2 && datts(s, "el"))) vp_viol("dtd", "an unknown name is found"); free(s); } (void)k; }
static void gen(char *o, char *c, int budget, int depth, int *ch, int *pos); // choices by digits
static int pick(int *ch, int *pos, int *rad, int n) { rad[*pos] = n; int r = ch[*pos] % n; (*pos)++; return r; }
static int rad[64]; static void genl(char *o, char *c, int depth, int *ch, int *pos) { static const char *NMS[] = { "a", "b_c", "#PCDATA", "xyz" }; static const char *Q[] = { "", "?", "*", "+" }; static const char *SEP[] = { ",", ", ", " , " }; int n = 1 + pick(ch, pos, rad, depth ? 2 : 3), bar = n > 1 ? pick(ch, pos, rad, 2) : 0; strcat(o, "("); strcat(c, "("); for (int i = 0; i < n; i++) { if (i) { char s[9]; strcpy(s, SEP[(i + *pos) % 3]); if (bar) for (char *p = s; *p; p++) if (*p == ',') *p = '|'; strcat(o, s); strcat(c, bar ? "|" : ","); } int k = pick(ch, pos, rad, depth < 2 && i < 2 ? 4 : 3); if (k == 3) genl(o, c, depth + 1, ch, pos); else { strcat(o, NMS[k]); strcat(c, NMS[k]); if (k != 2) { int q = pick(ch, pos, rad, i < 2 && depth < 1 ? 4 : 2); if (depth) q = q ? 1 + *pos % 3 : 0; strcat(o, Q[q]); strcat(c, Q[q]); } } } if (*pos % 2) strcat(o, ""); strcat(o, ")"); strcat(c, ")"); int q = pick(ch, pos, rad, depth ? 2 : 4); if (depth && q) q = 1 + *pos % 3; strcat(o, Q[q]); strcat(c, Q[q]); }
static void dtd(void) { dtd1("EMPTY", "()", 1); static int ch[64]; long n = 0, lim = vp_thorough ? 3000000 : 120000; for (;;) { char o[400] = "", c[400] = ""; int pos = 0; genl(o, c, 0, ch, &pos); if (strlen(o) < 150 && MINE(n)) dtd1(o, c, 0); n++; if (n >= lim) break; int i = pos - 1; while (i >= 0 && ++ch[i] >= rad[i]) ch[i--] = 0; for (int j = pos; j < 64; j++) ch[j] = 0; if (i < 0) break; } if (!vp_shard) vp_sample("%ld child lists", n);
  static const char *T[] = { "ID", "IDREF", "CDATA" }; static const int TV[] = { 1, 2, 3 }; static const char *G[] = { "#REQUIRED", "#IMPLIED" }; for (int k = 0; k < 216; k++) if (MINE(k)) for (int m = 1; m <= 3; m++) { char t[300] = "<!ATTLIST host "; int q = k; for (int i = 0; i < m; i++) { sprintf(t + strlen(t), "%sat_%c %s %s", i ? " " : "", 'a' + i, T[q % 3], G[q / 3 % 2]); q /= 6; } strcat(t, k % 2 ? ">" : " >"); vp_case("definition %s", t); vp_states++; vp_traces++; void *s = 0; if (VP_TRY(s = dparse(t))) { vp_viol("dtd", "panics"); continue; } void *a = datts(s, "host"); q = k; if (!a || al_size(a) != m) vp_viol("dtd", "%d attributes", a ? al_size(a) : -1); else for (int i = 0; i < m; i++) { char nm[9]; sprintf(nm, "at_%c", 'a' + i); if (strcmp(a_name(a, i), nm) || a_type(a, i) != TV[q % 3] || a_flag(a, i) != q / 3 % 2 + 1) vp_viol("dtd", "attribute %d is %s %d %d", i, a_name(a, i), a_type(a, i), a_flag(a, i)); q /= 6; } free(s); }
  // elements and attribute lists of names that begin alike
  static const char *HN[] = { "e", "ef", "efg", "f", "ee" }; for (int m = 1; m < 32; m++) for (int rot = 0; rot < 5; rot++) { if (!MINE(m)) continue; char t[900] = ""; for (int i = 0; i < 5; i++) { int q = (i + rot) % 5; if (m >> q & 1) sprintf(t + strlen(t), "<!ATTLIST %s at_%c ID #REQUIRED>\n<!ELEMENT %s (c%c)>\n", HN[q], 'a' + q, HN[q], 'a' + q); } vp_case("definitions %s", t); vp_states++; vp_traces++; void *s = 0; if (VP_TRY(s = dparse(t))) { vp_viol("dtd", "panics"); continue; } for (int i = 0; i < 5; i++) { void *a = 0, *e = 0; if (VP_TRY(a = datts(s, HN[i]); e = delem(s, HN[i])) && m >> i & 1) { vp_viol("dtd", "panics for %s", HN[i]); continue; } if (m >> i & 1) { char w[9]; sprintf(w, "at_%c", 'a' + i); if (!a || al_size(a) != 1 || strcmp(a_name(a, 0), w)) vp_viol("dtd", "the attributes of %s are %s", HN[i], a && al_size(a) ? a_name(a, 0) : "none"); sprintf(w, "c%c", 'a' + i); if (!e || l_size(e_list(e)) != 1 || strcmp(c_name(l_item(e_list(e), 0)), w)) vp_viol("dtd", "the contents of %s", HN[i]); } else { if (a && al_size(a)) vp_viol("dtd", "%s has attributes", HN[i]); if (e) vp_viol("dtd", "there is an element %s", HN[i]); } } free(s); }
  static char big[30000]; for (int L = 1; L < 260; L++) if (MINE(L)) { char nm[300]; memset(nm, 'n', L); nm[L] = 0; for (int w = 0; w < 4; w++) { sprintf(big, w == 0 ? "<!ELEMENT %s EMPTY>" : w == 1 ? "<!ELEMENT e (%s)>" : w == 2 ? "<!ATTLIST %s a ID #REQUIRED>" : "<!ATTLIST e %s ID #REQUIRED>", nm); vp_case("a name of %d letters, place %d", L, w); vp_states++; void *s = 0; int p = VP_TRY(s = dparse(big)); if (p ? L <= 90 : L <= 99 && w == 0 && !delem(s, nm)) vp_viol("dtd", p ? "panics" : "is lost"); if (!p) { if (L > 99 && w == 0 && !delem(s, nm)) vp_viol("dtd", "is cut"); free(s); } } }
  for (int k = 0; k < 105; k++) if (MINE(k)) for (int w = 0; w < 4; w++) { if (w > 1 && k == 0) continue; big[0] = 0; if (w == 2) strcpy(big, "<!ATTLIST e "); if (w == 3) strcpy(big, "<!ELEMENT e ("); for (int i = 0; i < k; i++) sprintf(big + strlen(big), w == 0 ? "<!ELEMENT e%c%c EMPTY>\n" : w == 1 ? "<!ATTLIST e%c%c a ID #REQUIRED>\n" : w == 2 ? "%c%c ID #IMPLIED " : i ? "|%c%c" : "%c%c", 'a' + i / 26, 'a' + i % 26); if (w == 2) strcat(big, ">"); if (w == 3) strcat(big, ")>"); if (strlen(big) > 199 && w > 1 && k > 100) continue; vp_case("%d of kind %d", k, w); vp_states++; void *s = 0; int p = VP_TRY(s = dparse(big)); int fits = w < 2 ? k <= 100 : w == 2 ? k <= 10 && strlen(big) < 199 : k <= 100 && strlen(big) < 199; if (p && fits) vp_viol("dtd", "panics"); if (!p) { int g = w == 0 ? dnelem(s) : w == 1 ? dnatt(s) : w == 2 ? datts(s, "e") ? al_size(datts(s, "e")) : -1 : delem(s, "e") ? l_size(e_list(delem(s, "e"))) : -1; if (g != k) vp_viol("dtd", "%d are read as %d", k, g); free(s); } }
  static const char *B[] = { "<!ELEMENT el (a>", "<!ELEMENT el a>", "<!ELEMENT el (a,b|c)>", "<!ELEMENT el (a) x>", "<!ELEMENT el (a)", "<!ATTLIST h a>", "<!ATTLIST h a ID>", "<!ATTLIST h a FOO #REQUIRED>", "<!ATTLIST h a ID #FOO>", "<!WHAT x>", "<!ELEMENT el (a,)>", "<!ELEMENT el ()>", "<!ELEMENT el (a b)>", "<!ATTLIST h 1 ID #REQUIRED>", "x", "<!ELEMENT el (a|b,c)>", "<!ELEMENT el (a,b,c|d)>", "<!ELEMENT el ((a,b)|c,d)>", "<!ELEMENT el (a|b|c,d)>" }; for (int i = 0; i < 19; i++) if (MINE(i)) { vp_case("definition %s", B[i]); vp_states++; void *s = 0; if (!VP_TRY(s = dparse(B[i]))) vp_viol("dtd", "is accepted"); } }
void vp_body(void) { sprintf(F, "x%d.xml", vp_shard); vp_quiet(1); BIND(xopen, "xml.xml_open"); BIND(xclose, "xml.xml_close"); BIND(xname, "xml.xml_nodename"); BIND(xattr, "xml.xml_attr"); BIND(xenter, "xml.xml_enter"); BIND(xnext, "xml.xml_next"); BIND(xleave, "xml.xml_leave"); BIND(xerr, "xerr"); BIND(dparse, "dparse"); BIND(delem, "dtd.get_element"); BIND(datts, "dtd.get_attributes"); BIND(dnelem, "dnelem"); BIND(dnatt, "dnatt"); BIND(e_list, "e_list"); BIND(l_size, "l_size"); BIND(l_quant, "l_quant"); BIND(l_join, "l_join"); BIND(l_islist, "l_islist"); BIND(l_item, "l_item"); BIND(c_name, "c_name"); BIND(c_quant, "c_quant"); BIND(al_size, "al_size"); BIND(a_name, "a_name"); BIND(a_type, "a_type"); BIND(a_flag, "a_flag");
  if (!strcmp(getenv("VP_PART"), "dtd")) { dtd(); return; } wellformed(); broken(); similar(); vp_sample("%ld documents in this shard", didx); }
