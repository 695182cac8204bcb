// HTTP requests and responses, URLs, CGI heads, MIME types, connections.
#define _GNU_SOURCE
#include "vp.h"
#include <sys/socket.h>
#include <arpa/inet.h>
#include <errno.h>
FN(void *, q_alloc, "", (void)) FN(const char *, q_str, "", (void *, int)) FN(size_t, q_nh, "", (void *)) FN(const char *, q_hn, "", (void *, size_t)) FN(const char *, q_hv, "", (void *, size_t)) FN(bool, q_read, "", (void *, void *)) FN(const char *, q_get, "", (void *, const char *))
FN(void *, q_new, "", (int, const char *)) FN(void, q_free, "", (void *)) FN(void, q_param, "", (void *, const char *, const char *, size_t)) FN(void, q_params, "", (void *, const char *, const char *)) FN(bool, q_seth, "", (void *, const char *, const char *)) FN(int, q_write, "", (void *, void *)) FN(int, q_method, "", (const char *)) FN(const char *, q_errstr, "", (int)) FN(int, method, "", (int)) FN(bool, q_init, "", (void *, int, const char *)) FN(int, q_err, "", (void *))
FN(void *, s_alloc, "", (void)) FN(bool, s_parse, "", (void *, void *)) FN(const char *, s_ver, "", (void *)) FN(int, s_status, "", (void *)) FN(size_t, s_nh, "", (void *)) FN(const char *, s_hn, "", (void *, size_t)) FN(const char *, s_hv, "", (void *, size_t)) FN(const char *, s_body, "", (void *)) FN(int, s_clen, "", (void *)) FN(const char *, s_get, "", (void *, const char *))
FN(void *, n_mk, "", (int)) FN(void, p404, "", (void *, void *)) FN(void, p405, "", (void *, void *)) FN(void, p501, "", (void *, void *)) FN(void, p_text, "", (void *, void *, const char *, const char *)) FN(void, p_file, "", (void *, void *, const char *))
FN(void *, u_parse, "", (const char *)) FN(const char *, u_str, "", (void *, int)) FN(const char *, m_lookup, "", (const char *))
FN(void *, c_alloc, "", (void)) FN(size_t, c_parse, "", (void *, char *, size_t)) FN(size_t, c_nh, "", (void *)) FN(const char *, c_hn, "", (void *, size_t)) FN(const char *, c_hv, "", (void *, size_t))
FN(void *, r_new, "", (void *, int (*)(void *, uint8_t *, size_t), void (*)(void *))) FN(void, r_free, "", (void *)) FN(int, r_read, "", (void *, uint8_t *, size_t)) FN(void *, w_buf, "", (uint8_t *, size_t)) FN(void, w_free, "", (void *))
FN(void *, n_listen, "", (const char *, const char *)) FN(void *, n_accept, "", (void *)) FN(void *, n_connect, "", (const char *, const char *)) FN(void *, n_connectnb, "", (const char *, const char *)) FN(int, n_read, "", (void *, char *, size_t)) FN(int, n_write, "", (void *, const char *, size_t)) FN(void, n_close, "", (void *)) FN(void, n_printf, "", (void *, const char *, ...)) FN(void *, n_reader, "", (void *)) FN(const char *, n_addr, "", (void *)) FN(bool, a_parse, "", (void *, const char *)) FN(bool, a_fmt, "", (void *, char *, size_t)) FN(void *, a_new, "", (void)) FN(int, a_ver, "", (void *))
typedef struct { const char *p; size_t n, pos, chunk; } src_t;
static int src_read(void *c, uint8_t *b, size_t n) { src_t *s = c; if (s->pos >= s->n) return -1; if (n > s->chunk) n = s->chunk; if (n > s->n - s->pos) n = s->n - s->pos; memcpy(b, s->p + s->pos, n); s->pos += n; return n; }
static void *Q, *S, *C; // request, response, cgi head
typedef struct { const char *p; size_t n; } str;
typedef struct { int ok, strange; str a, b, c; str hn[140], hv[140]; size_t nh, end; } ref;
static int upto(const char *d, size_t n, size_t *pos, char stop, size_t max, str *o, ref *r) { size_t i = *pos; while (i < n && d[i] != stop) { if (d[i] == '\r' || d[i] == '\n' || d[i] == 0) r->strange = 1; i++; } o->p = d + *pos; o->n = i - *pos; if (i >= n || o->n > max) return 0; *pos = i; return 1; }
static int lit(const char *d, size_t n, size_t *pos, const char *l) { size_t k = strlen(l); if (n - *pos < k || memcmp(d + *pos, l, k)) return 0; *pos += k; return 1; }
static int heads(const char *d, size_t n, size_t *pos, ref *r) { for (;;) { if (lit(d, n, pos, "\r\n")) { r->end = *pos; return 1; } if (r->nh == 100) return 0;
    if (!upto(d, n, pos, ':', 1023, &r->hn[r->nh], r) || !lit(d, n, pos, ": ") || !upto(d, n, pos, '\r', 1023, &r->hv[r->nh], r) || !lit(d, n, pos, "\r\n")) return 0; r->nh++; } }
static bool eq(const char *s, str e) { return s && strlen(s) == e.n && !memcmp(s, e.p, e.n); }
static void reqcheck(const char *d, size_t n, size_t chunk) {
  static ref r; r.ok = r.strange = 0; r.nh = 0; size_t pos = 0;
  r.ok = upto(d, n, &pos, ' ', 9, &r.a, &r) && lit(d, n, &pos, " ") && upto(d, n, &pos, ' ', 1023, &r.b, &r) && lit(d, n, &pos, " ") && upto(d, n, &pos, '\r', 9, &r.c, &r) && lit(d, n, &pos, "\r\n") && heads(d, n, &pos, &r);
  char *x = vp_raw(n + 1); memcpy(x, d, n); vp_case("request %s (%zu bytes, chunk %zu)", vp_show(d, n), n, chunk); vp_mark();
  src_t s = { x, n, 0, chunk }; void *re = r_new(&s, src_read, NULL); bool g = q_read(re, Q); r_free(re); vp_states++; vp_trans++; vp_traces++;
  if (vp_leaked()) vp_viol("leak", "read_request leaks");
  if (!r.strange) { if (g != r.ok) vp_viol("reqok", g ? "accepted" : "refused");
    else if (g) { if (!eq(q_str(Q, 0), r.a) || !eq(q_str(Q, 1), r.b) || !eq(q_str(Q, 2), r.c)) vp_viol("reqline", "request line read as %s %s %s", q_str(Q, 0), q_str(Q, 1), q_str(Q, 2));
      str path = r.b, query = { "", 0 }, file = { "", 0 }; for (size_t i = 0; i < r.b.n; i++) if (r.b.p[i] == '?') { path.n = i; query.p = r.b.p + i + 1; query.n = r.b.n - i - 1; break; } for (size_t i = 0; i < path.n; i++) if (path.p[i] == '/') { file.p = path.p + i + 1; file.n = path.n - i - 1; }
      if (!eq(q_str(Q, 3), path) || !eq(q_str(Q, 4), query) || !eq(q_str(Q, 5), file)) vp_viol("requri", "path %s query %s filename %s", q_str(Q, 3), q_str(Q, 4), q_str(Q, 5));
      if (q_nh(Q) != r.nh) vp_viol("reqheads", "%zu headers, expected %zu", q_nh(Q), r.nh); else for (size_t i = 0; i < r.nh; i++) { if (!eq(q_hn(Q, i), r.hn[i]) || !eq(q_hv(Q, i), r.hv[i])) vp_viol("reqhead", "header %zu is %s: %s", i, q_hn(Q, i), q_hv(Q, i));
          char nm[1030]; memcpy(nm, r.hn[i].p, r.hn[i].n); nm[r.hn[i].n] = 0; size_t k = 0; while (r.hn[k].n != r.hn[i].n || memcmp(r.hn[k].p, nm, r.hn[k].n)) k++; if (!eq(q_get(Q, nm), r.hv[k])) vp_viol("gethead", "get_header(%s)", nm); }
      if (q_get(Q, "No-Such")) vp_viol("gethead", "a header that isn't there"); } }
  free(x);
}
static void reqall(const char *d, size_t n) { reqcheck(d, n, 1000000); reqcheck(d, n, 1); reqcheck(d, n, 3); }
static void rescheck(const char *d, size_t n, size_t chunk) {
  static ref r; r.ok = r.strange = 0; r.nh = 0; size_t pos = 0; int st = 0; int clen = -1; str body = { "", 0 };
  do { if (n < 13 || (memcmp(d, "HTTP/1.0 ", 9) && memcmp(d, "HTTP/1.1 ", 9)) || !isdigit((unsigned char)d[9]) || !isdigit((unsigned char)d[10]) || !isdigit((unsigned char)d[11]) || d[12] != ' ') break; st = (d[9] - '0') * 100 + (d[10] - '0') * 10 + d[11] - '0'; pos = 13;
    str t; int sv = r.strange; if (!upto(d, n, &pos, '\r', 100000000, &t, &r) || !lit(d, n, &pos, "\r\n")) break; r.strange = sv; for (size_t i = 0; i < t.n; i++) if (t.p[i] == '\n' || !t.p[i]) r.strange = 1;
    size_t p1 = pos; if (!heads(d, n, &pos, &r)) { // headers cut right after a line: left open
      size_t q = p1; (void)q; if (n >= 2 && !memcmp(d + n - 2, "\r\n", 2)) r.strange = 1; break; }
    int isclose = 0; for (size_t i = r.nh; i-- > 0;) { if (r.hn[i].n == 14 && !memcmp(r.hn[i].p, "Content-Length", 14)) { clen = 0; if (!r.hv[i].n) r.strange = 1; for (size_t j = 0; j < r.hv[i].n; j++) { char ch = r.hv[i].p[j]; if (!isdigit((unsigned char)ch)) { if (j == 0 && ch == '-' && r.hv[i].n > 1 && r.hv[i].p[1] >= '1' && r.hv[i].p[1] <= '9') { clen = -1000; break; } r.strange = 1; break; } if (clen < 100000) clen = clen * 10 + ch - '0'; } if (clen >= 100000) r.strange = 1; } if (r.hn[i].n == 10 && !memcmp(r.hn[i].p, "Connection", 10)) isclose = r.hv[i].n == 5 && !memcmp(r.hv[i].p, "close", 5); }
    body.p = d + pos; body.n = n - pos;
    if (clen >= 0) { if (clen > 1000 || body.n < clen) break; if (clen > 998) r.strange |= 2; body.n = clen; r.ok = 1; } else if (clen < -1) break; else if (isclose) { if (body.n > 999) break; r.ok = 1; } else break;
  } while (0);
  char *x = vp_raw(n + 1); memcpy(x, d, n); vp_case("response %s (%zu bytes, chunk %zu)", vp_show(d, n), n, chunk); vp_mark(); memset(S, 0, 0); S = s_alloc();
  src_t s = { x, n, 0, chunk }; void *re = r_new(&s, src_read, NULL); bool g = s_parse(re, S); r_free(re); vp_states++; vp_trans++; vp_traces++;
  if (!(r.strange & 1)) { if (g != r.ok && !(r.strange & 2)) vp_viol("resok", g ? "accepted" : "refused");
    else if (g && r.ok) { if (s_status(S) != st || memcmp(s_ver(S), d, 8) || s_ver(S)[8]) vp_viol("status", "%s %d", s_ver(S), s_status(S)); if (s_nh(S) != r.nh) vp_viol("resheads", "%zu headers", s_nh(S)); else for (size_t i = 0; i < r.nh; i++) { if (!eq(s_hn(S, i), r.hn[i]) || !eq(s_hv(S, i), r.hv[i])) vp_viol("reshead", "header %zu", i); char nm[1030]; memcpy(nm, r.hn[i].p, r.hn[i].n); nm[r.hn[i].n] = 0; size_t k = 0; while (r.hn[k].n != r.hn[i].n || memcmp(r.hn[k].p, nm, r.hn[k].n)) k++; if (!eq(s_get(S, nm), r.hv[k])) vp_viol("getres", "get_res_header(%s)", nm); }
      if (clen >= 0 && s_clen(S) != clen) vp_viol("clen", "content length %d, expected %d", s_clen(S), clen); if (memcmp(s_body(S), body.p, body.n)) vp_viol("body", "body is %s, expected %s", vp_show(s_body(S), body.n), vp_show(body.p, body.n)); for (size_t i = body.n; i < 1000; i++) if (s_body(S)[i]) { vp_viol("bodytail", "body goes on after %zu bytes", body.n); break; } } }
  free(S); if (vp_leaked()) vp_viol("leak", "parse_response leaks"); free(x);
}
static void resall(const char *d, size_t n) { rescheck(d, n, 1000000); rescheck(d, n, 1); rescheck(d, n, 5); }
typedef void (*fun)(const char *, size_t);
static void edits(const char *s, size_t n, fun f, const char *al, int two) { // truncations, all single edits, pairs of deletions
  static char b[4000]; size_t na = strlen(al);
  for (size_t i = 0; i <= n; i++) { vp_tick(); f(s, i);
    if (i < n) { memcpy(b, s, i); memcpy(b + i, s + i + 1, n - i - 1); f(b, n - 1); for (size_t a = 0; a <= na; a++) { memcpy(b, s, n); b[i] = a == na ? 0xff : al[a]; f(b, n); } }
    for (size_t a = 0; a < na; a++) { memcpy(b, s, i); b[i] = al[a]; memcpy(b + i + 1, s + i, n - i); f(b, n + 1); }
    if (two) for (size_t j = i + 1; j < n; j++) { memcpy(b, s, i); memcpy(b + i, s + i + 1, j - i - 1); memcpy(b + j - 1, s + j + 1, n - j - 1); f(b, n - 2); } }
}
static void urlcheck(const char *d, size_t n) {
  char *x = vp_raw(n + 1); memcpy(x, d, n); x[n] = 0; vp_case("url %s", vp_show(x, n)); vp_mark(); vp_states++; vp_trans++; vp_traces++; if (strlen(x) != n) { free(x); return; }
  str sc = { x, 0 }, h, po = { "", 0 }, pa = { "/", 1 }; int ok = 0, strange = 0; while (sc.n < n && x[sc.n] != ':') sc.n++;
  if (!strncmp(x + sc.n, "://", 3)) { h.p = x + sc.n + 3; h.n = strcspn(h.p, ":/"); const char *e = h.p + h.n; if (*e == ':') { po.p = e + 1; po.n = strcspn(po.p, "/"); e = po.p + po.n; if (!po.n) strange = 1; } if (*e == '/') { pa.p = e; pa.n = strlen(e); } ok = sc.n <= 9 && h.n <= 99 && po.n <= 9 && pa.n <= 99; if (!sc.n || !h.n) strange = 1; } else if (!strncmp(x + sc.n, ":", 1) && 0) ;
  void *u = u_parse(x); if (!strange) { if ((u != 0) != ok) vp_viol("urlok", u ? "accepted" : "refused"); else if (u && (!eq(u_str(u, 0), sc) || !eq(u_str(u, 1), h) || !eq(u_str(u, 2), po) || !eq(u_str(u, 3), pa))) vp_viol("url", "%s|%s|%s|%s", u_str(u, 0), u_str(u, 1), u_str(u, 2), u_str(u, 3)); }
  free(u); if (vp_leaked()) vp_viol("leak", "url.parse leaks"); free(x);
}
static void cgicheck(const char *d, size_t n) {
  static ref r; r.ok = r.strange = 0; r.nh = 0; size_t pos = 0;
  for (;;) { str a, v; if (!upto(d, n, &pos, ':', 999, &a, &r)) break; pos++; while (pos < n && (d[pos] == ' ' || d[pos] == '\t')) pos++; v.p = d + pos; size_t q = pos; while (q < n && d[q] != '\r' && d[q] != '\n') { if (!d[q]) r.strange = 1; q++; } v.n = q - pos; if (q >= n || v.n > 999) break; pos = q; if (pos < n && d[pos] == '\r') pos++; if (pos < n && d[pos] == '\n') pos++; if (r.nh == 100) break; r.hn[r.nh] = a; r.hv[r.nh++] = v;
    if (pos < n && (d[pos] == '\r' || d[pos] == '\n')) { if (d[pos] == '\r') pos++; if (pos < n && d[pos] == '\n') pos++; r.ok = 1; break; } }
  char *x = vp_raw(n + !n); memcpy(x, d, n); vp_case("cgi head %s", vp_show(d, n)); memset(C, 0, 0); C = c_alloc(); size_t g = c_parse(C, x, n); vp_states++; vp_trans++; vp_traces++;
  if (!r.strange) { if ((g != 0) != r.ok) vp_viol("cgiok", g ? "accepted" : "refused"); else if (g) { if (g != pos) vp_viol("cgiend", "head ends at %zu, expected %zu", g, pos); if (c_nh(C) != r.nh) vp_viol("cgin", "%zu headers, expected %zu", c_nh(C), r.nh); else for (size_t i = 0; i < r.nh; i++) if (!eq(c_hn(C, i), r.hn[i]) || !eq(c_hv(C, i), r.hv[i])) vp_viol("cgihead", "header %zu is %s: %s", i, c_hn(C, i), c_hv(C, i)); } }
  free(C); free(x);
}
static const char *MIME[][2] = { {"aac","audio/aac"},{"abw","application/x-abiword"},{"arc","application/x-freearc"},{"avif","image/avif"},{"avi","video/x-msvideo"},{"azw","application/vnd.amazon.ebook"},{"bin","application/octet-stream"},{"bmp","image/bmp"},{"bz","application/x-bzip"},{"bz2","application/x-bzip2"},{"cda","application/x-cdf"},{"csh","application/x-csh"},{"css","text/css"},{"csv","text/csv"},{"doc","application/msword"},{"docx","application/vnd.openxmlformats-officedocument.wordprocessingml.document"},{"eot","application/vnd.ms-fontobject"},{"epub","application/epub+zip"},{"gz","application/gzip"},{"gif","image/gif"},{"htm","text/html"},{"html","text/html"},{"ico","image/vnd.microsoft.icon"},{"ics","text/calendar"},{"jar","application/java-archive"},{"jpeg","image/jpeg"},{"jpg","image/jpeg"},{"js","text/javascript"},{"json","application/json"},{"jsonld","application/ld+json"},{"mid","audio/midi"},{"midi","audio/midi"},{"mjs","text/javascript"},{"mp3","audio/mpeg"},{"mp4","video/mp4"},{"mpeg","video/mpeg"},{"mpkg","application/vnd.apple.installer+xml"},{"odp","application/vnd.oasis.opendocument.presentation"},{"ods","application/vnd.oasis.opendocument.spreadsheet"},{"odt","application/vnd.oasis.opendocument.text"},{"oga","audio/ogg"},{"ogv","video/ogg"},{"ogx","application/ogg"},{"opus","audio/opus"},{"otf","font/otf"},{"png","image/png"},{"pdf","application/pdf"},{"php","application/x-httpd-php"},{"ppt","application/vnd.ms-powerpoint"},{"rar","application/vnd.rar"},{"rtf","application/rtf"},{"svg","image/svg+xml"},{"tar","application/x-tar"},{"tif","image/tiff"},{"tiff","image/tiff"},{"ts","video/mp2t"},{"ttf","font/ttf"},{"txt","text/plain"},{"vsd","application/vnd.visio"},{"wav","audio/wav"},{"weba","audio/webm"},{"webm","video/webm"},{"webp","image/webp"},{"woff2","font/woff2"},{"xhtml","application/xhtml+xml"},{"xls","application/vnd.ms-excel"},{"xlsx","application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"},{"xml","application/xml"},{"xul","application/vnd.mozilla.xul+xml"},{"zip","application/zip"},{"3gp","video/3gpp"},{"3g2","video/3gpp"},{"7z","application/x-7z-compressed"} };
enum { NM = sizeof MIME / sizeof *MIME };
static void mimes(void) {
  for (int i = 0; i < NM; i++) { vp_case("mime %s", MIME[i][0]); const char *g = m_lookup(MIME[i][0]); if (!g || strcmp(g, MIME[i][1])) vp_viol("mime", "type %s", g); char b[32]; sprintf(b, "%sx", MIME[i][0]); int known = 0; for (int k = 0; k < NM; k++) if (!strcmp(MIME[k][0], b)) known = 1; if (!known && m_lookup(b)) vp_viol("mime", "type for %s", b); vp_states++; }
  char b[4]; for (int i = 0; i < 128 * 128; i++) { b[0] = i & 127; b[1] = i >> 7; b[2] = 0; const char *g = m_lookup(b), *w = 0; for (int k = 0; k < NM; k++) if (!strcmp(MIME[k][0], b)) w = MIME[k][1]; vp_case("mime %s", vp_show(b, 2)); if (w && (!g || strcmp(g, w))) vp_viol("mime", "type %s", g); vp_states++; }
}
static size_t slurp(int fd, char *b, size_t cap) { size_t n = 0; for (;;) { ssize_t r = read(fd, b + n, cap - n); if (r <= 0) return n; n += r; } }
static char big[300000], out[400000];
static void page(int kind, const char *text, const char *type, const char *file, size_t fsz, const char *fdata, const char *ver, const char *wantstatus) {
  int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { vp_viol("env", "socketpair"); return; } int sz = 1 << 20; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
  char rq[200]; sprintf(rq, "GET / %s\r\n\r\n", ver); src_t s = { rq, strlen(rq), 0, 1000 }; void *re = r_new(&s, src_read, NULL); q_read(re, Q); r_free(re); void *c = n_mk(sv[0]);
  vp_case("page %d type=%s size=%zu file=%s", kind, type, fsz, file); int p = VP_TRY(kind == 0 ? p404(Q, c) : kind == 1 ? p405(Q, c) : kind == 2 ? p501(Q, c) : kind == 3 ? p_text(Q, c, text, type) : p_file(Q, c, file)); free(c); close(sv[0]); size_t n = slurp(sv[1], out, sizeof out - 1); out[n] = 0; close(sv[1]); vp_states++; vp_trans++; vp_traces++;
  if (p) { vp_viol("page", "panicked"); return; }
  // status line, headers, empty line, body
  char want[64]; sprintf(want, "%s %s", ver, wantstatus); if (strncmp(out, want, strlen(want))) { vp_viol("pagestatus", "starts with %s", vp_show(out, 40)); return; }
  char *q = out; long cl = -1; char ct[200] = ""; int body = 0; while (q < out + n) { char *e = memchr(q, '\n', out + n - q); if (!e) break; size_t l = e - q; if (l && q[l - 1] == '\r') l--; if (!l) { q = e + 1; body = 1; break; } if (!strncasecmp(q, "Content-Length:", 15)) cl = atol(q + 15); if (!strncasecmp(q, "Content-Type: ", 14)) { memcpy(ct, q + 14, l - 14); ct[l - 14] = 0; } q = e + 1; }
  if (!body) { vp_viol("pageend", "no empty line after the headers"); return; } size_t bl = out + n - q; if (cl != bl) vp_viol("pagelen", "Content-Length %ld, body of %zu bytes", cl, bl);
  if (strcmp(ct, type)) vp_viol("pagetype", "Content-Type %s", ct); if (kind >= 3 && (bl != fsz || memcmp(q, fdata, fsz))) vp_viol("pagebody", "another body (%zu bytes)", bl); if (kind < 3 && bl == 0) vp_viol("pagebody", "empty body");
}
static void pages(void) {
  static const char *V[] = { "HTTP/1.0", "HTTP/1.1" };
  for (int v = 0; v < 2; v++) { page(0, 0, "text/plain", 0, 0, 0, V[v], "404"); page(1, 0, "text/plain", 0, 0, 0, V[v], "405"); page(2, 0, "text/plain", 0, 0, 0, V[v], "501"); }
  for (size_t n = 0; n < 20000; n = n < 40 ? n + 1 : n * 2 - 30) { memset(big, 'x', n); big[n] = 0; page(3, big, "text/html", 0, n, big, V[n & 1], "200"); }
  static const size_t FS[] = { 0, 1, 2, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 100000 }; char fn[64];
  for (int i = 0; i < 13; i++) { for (size_t k = 0; k < FS[i]; k++) big[k] = k * 7 + (k >> 8); sprintf(fn, "f%d.%s", vp_shard, MIME[i * 5][0]); FILE *f = fopen(fn, "wb"); fwrite(big, 1, FS[i], f); fclose(f); page(4, 0, MIME[i * 5][1], fn, FS[i], big, V[i & 1], "200"); unlink(fn); vp_tick(); }
  sprintf(fn, "f%d.zzz", vp_shard); FILE *f = fopen(fn, "wb"); fwrite("abc", 1, 3, f); fclose(f); page(4, 0, "text/plain", fn, 3, "abc", V[0], "200"); unlink(fn);
}
static void writes(int m, const char *uri, int np, int nh, int vl, unsigned v0) {
  static const char *MN[] = { "GET", "POST", "HEAD" }; static char want[700000]; static uint8_t got[700000]; char *w = want; w += sprintf(w, "%s %s", MN[m], uri); vp_case("write_request %s %s params=%d headers=%d values of %d from %u", MN[m], uri, np, nh, vl, v0); vp_mark();
  void *q = q_new(method(m), uri); char val[1100];
  for (int i = 0; i < np; i++) { char nm[16]; sprintf(nm, "p%d", i); unsigned char x = v0 + i; w += sprintf(w, "%c%s=", i ? '&' : '?', nm); int z = 0; for (int k = 0; k < vl; k++) { unsigned char c = x + k * (v0 % 7); val[k] = c; if (!c) z = 1; if (c < 128 && isalnum(c)) *w++ = c; else w += sprintf(w, "%%%02X", c); } val[vl] = 0; if (z || i % 2) q_param(q, nm, val, vl); else q_params(q, nm, val); }
  w += sprintf(w, " HTTP/1.0\r\n"); for (int i = 0; i < nh; i++) { char nm[16], vv[64]; sprintf(nm, "H%d", i); sprintf(vv, "v %d: x", i * 31); q_seth(q, nm, vv); w += sprintf(w, "%s: %s\r\n", nm, vv); } w += sprintf(w, "\r\n");
  size_t n = w - want; void *o = w_buf(got, sizeof got); int g = q_write(o, q); w_free(o); if (g != n || memcmp(got, want, n)) vp_viol("wreq", "%d bytes %s, expected %zu bytes %s", g, vp_show(got, 200), n, vp_show(want, 200));
  o = w_buf(got, n - 1); if (q_write(o, q) != -1) vp_viol("wreqroom", "a cut request reported as written"); w_free(o);
  q_free(q); if (vp_leaked()) vp_viol("leak", "write_request leaks"); vp_states++; vp_trans += np + nh; vp_traces++; if (n < 3000) reqcheck(want, n, 7);
}
static void nets(void) {
  void *l = 0; char a[64]; int port; for (int k = 0; k < 2000 && !l; k++) { port = 20000 + (getpid() * 37 + k * 101) % 40000; sprintf(a, "127.0.0.1:%d", port); l = n_listen("tcp", a); } if (!l) { vp_viol("listen", "cannot listen on loopback"); return; }
  static const size_t SZ[] = { 0, 1, 2, 255, 1000, 4096, 10000, 60000 };
  for (int k = 0; k < 8; k++) { vp_case("connection, %zu bytes", SZ[k]); vp_tick(); void *c = k & 1 ? n_connectnb("tcp", a) : n_connect("tcp", a); if (!c) { vp_viol("connect", "connect to a listening address fails"); return; } if (strcmp(n_addr(c), a)) vp_viol("netaddr", "address %s", n_addr(c)); void *s = n_accept(l); if (!s) { vp_viol("accept", "accept"); return; } if (strncmp(n_addr(s), "127.0.0.1:", 10)) vp_viol("netaddr", "address %s", n_addr(s));
    for (size_t i = 0; i < SZ[k]; i++) big[i] = 'a' + i % 26; big[SZ[k]] = 0; int dir = k & 2; void *f = dir ? c : s, *t = dir ? s : c; if (k == 3 || k == 5) n_printf(f, "%s", big); else { int g = n_write(f, big, SZ[k]); if (g != SZ[k]) vp_viol("netwrite", "write gives %d", g); }
    size_t n = 0; void *re = k < 4 ? n_reader(t) : 0; for (int tries = 0; n < SZ[k] && tries < 100000; tries++) { int g = re ? r_read(re, (uint8_t *)out + n, SZ[k] - n) : n_read(t, out + n, SZ[k] - n); if (g < 0 && errno != EAGAIN) break; if (g > 0) n += g; else usleep(10); } if (n != SZ[k] || memcmp(out, big, n)) vp_viol("netread", "%zu bytes of %zu", n, SZ[k]);
    if (re) r_free(re); n_close(f); char e[4]; int g = n_read(t, e, 4); if (g > 0) vp_viol("neteof", "data after the end"); n_close(t); vp_states++; vp_traces++; vp_trans += 4; }
  n_close(l); static const char *BAD[] = { "127.0.0.1", "", "127.0.0.1:1234567890123456", "127.0.0.1:70000000" }; for (int i = 0; i < 4; i++) { vp_case("connect %s", BAD[i]); if (n_connect("tcp", BAD[i])) vp_viol("netbad", "connected"); vp_states++; } if (n_connect("udp", a)) vp_viol("netbad", "udp"); memset(big, 'a', 201); big[201] = 0; if (n_connect("tcp", big)) vp_viol("netbad", "connected"); vp_case("connect to a closed port"); if (n_connect("tcp", a)) vp_viol("netbad", "connected to nobody");
}
static void addrs(void) {
  static const int O[] = { 0, 1, 9, 10, 99, 100, 127, 199, 255 }; void *p = a_new(); char b[64], s[64];
  for (int i = 0; i < 6561; i++) { sprintf(s, "%d.%d.%d.%d", O[i % 9], O[i / 9 % 9], O[i / 81 % 9], O[i / 729]); vp_case("address %s", s); if (!a_parse(p, s) || a_ver(p) != 4 || !a_fmt(p, b, sizeof b) || strcmp(b, s)) vp_viol("addr", "becomes %s", b); if (a_fmt(p, b, strlen(s))) vp_viol("addrroom", "formatted into a short buffer"); vp_states++; vp_traces++; }
  for (int z = 0; z < 256; z++) { unsigned char r[16]; for (int k = 0; k < 8; k++) { r[2 * k] = z >> k & 1 ? 0x12 : 0; r[2 * k + 1] = z >> k & 1 ? k : 0; } inet_ntop(AF_INET6, r, s, 64); vp_case("address %s", s); if (!a_parse(p, s) || a_ver(p) != 6 || !a_fmt(p, b, sizeof b) || strcmp(b, s)) vp_viol("addr", "becomes %s", b); vp_states++; vp_traces++; }
  static const char *BAD[] = { "", "x", "1.2.3", "1.2.3.256", "1.2.3.4.5", "1:2", ":::", "1.2.3.4 ", "g::1", "1::2::3" }; for (int i = 0; i < 10; i++) { vp_case("address %s", BAD[i]); if (a_parse(p, BAD[i])) vp_viol("addrbad", "accepted"); vp_states++; } free(p);
}
void vp_body(void) {
  BIND(q_alloc, "q_alloc"); BIND(q_str, "q_str"); BIND(q_nh, "q_nh"); BIND(q_hn, "q_hn"); BIND(q_hv, "q_hv"); BIND(q_read, "http.read_request"); BIND(q_get, "q_get"); BIND(q_new, "http.newreq"); BIND(q_free, "http.freereq"); BIND(q_param, "http.reqparam"); BIND(q_params, "http.reqparams"); BIND(q_seth, "http.set_header"); BIND(q_write, "http.write_request"); BIND(q_method, "http.method_from_string"); BIND(q_errstr, "http.errstr"); BIND(method, "method"); BIND(q_init, "http.init_request"); BIND(q_err, "q_err");
  BIND(s_alloc, "s_alloc"); BIND(s_parse, "http.parse_response"); BIND(s_ver, "s_ver"); BIND(s_status, "s_status"); BIND(s_nh, "s_nh"); BIND(s_hn, "s_hn"); BIND(s_hv, "s_hv"); BIND(s_body, "s_body"); BIND(s_clen, "s_clen"); BIND(s_get, "http.get_res_header");
  BIND(n_mk, "n_mk"); BIND(p404, "http.write_404"); BIND(p405, "http.write_405"); BIND(p501, "http.write_501"); BIND(p_text, "http.serve_text"); BIND(p_file, "http.servefile"); BIND(u_parse, "url.parse"); BIND(u_str, "u_str"); BIND(m_lookup, "mime.lookup");
  BIND(c_alloc, "c_alloc"); BIND(c_parse, "cgi.parse_head"); BIND(c_nh, "c_nh"); BIND(c_hn, "c_hn"); BIND(c_hv, "c_hv"); BIND(r_new, "reader.new"); BIND(r_free, "reader.free"); BIND(r_read, "reader.read"); BIND(w_buf, "writer.static_buffer"); BIND(w_free, "writer.free");
  BIND(n_listen, "net.net_listen"); BIND(n_accept, "net.net_accept"); BIND(n_connect, "net.connect"); BIND(n_connectnb, "net.connect_nonblock"); BIND(n_read, "net.read"); BIND(n_write, "net.write"); BIND(n_close, "net.close"); BIND(n_printf, "net.net_printf"); BIND(n_reader, "net.getreader"); BIND(n_addr, "net.net_addr"); BIND(a_parse, "net.parse_addr"); BIND(a_fmt, "net.format_addr"); BIND(a_new, "a_new"); BIND(a_ver, "a_ver");
  Q = q_alloc(); vp_quiet(1); long job = 0; 
  if (MINE(0)) { mimes(); static const char *M[] = { "GET", "get", "Post", "POST", "head", "HEAD", "", "GE", "GETS", "PUT", "HEA" }; static const int W[] = { 0, 0, 1, 1, 2, 2, 3, 3, 3, 3, 3 }; for (int i = 0; i < 11; i++) { vp_case("method %s", M[i]); if (q_method(M[i]) != method(W[i])) vp_viol("method", "method %d", q_method(M[i])); vp_states++; }
    for (int e = -3; e < 5; e++) { vp_case("errstr %d", e); const char *s = q_errstr(e); if (!s || !*s) vp_viol("errstr", "no text"); vp_states++; } vp_case("bad method"); void *q = q_alloc(); if (q_init(q, 77, "/") || !q_err(q)) vp_viol("badmethod", "accepted"); free(q); }
  if (MINE(1)) pages(); if (MINE(2)) nets(); if (MINE(3)) addrs();
  // token sequences
  static const char *T[] = { "G", " ", "/", "?a", ":", ": ", "\r\n", "\r", "H: v\r\n" }; enum { NT = 9 }; static const char *PF[] = { "", "G /a H\r\n", "G /a H\r\nX: y\r\n" };
  for (int pf = 0; pf < 3; pf++) for (int d = 0; d <= (vp_thorough ? 7 : 6) - (pf > 0); d++) { long t = 1; for (int i = 0; i < d; i++) t *= NT; for (long s = 0; s < t; s++) if (MINE(job++)) { char b[200]; strcpy(b, PF[pf]); long x = s; for (int i = 0; i < d; i++, x /= NT) strcat(b, T[x % NT]); reqcheck(b, strlen(b), s % 5 + 1); if (!(s & 255)) vp_tick(); } }
  static const char *R[] = { "GET / HTTP/1.0\r\n\r\n", "POST /a/b.c?x=1&y=%20 HTTP/1.1\r\nHost: e.net\r\nA: b: c\r\n\r\n", "HEAD /? H\r\nA: \r\nA: 2\r\n\r\nbody", "GET a/b?c/d?e HTTP/1.0\r\nX-Y:  z \r\n\r\n" };
  for (int i = 0; i < 4; i++) if (MINE(job++)) edits(R[i], strlen(R[i]), reqall, " :?/\r\na", 1);
  for (int f = 0; f < 5; f++) { size_t lim = f == 0 || f == 2 ? 9 : 1023; for (size_t n = lim - 3; n <= lim + 4; n++) for (int cut = 0; cut < 2; cut++) if (MINE(job++)) { static char b[6000]; char s[1100]; memset(s, f == 1 ? '/' : 'k', n); s[n] = 0; sprintf(b, "%s %s %s\r\n%s: %s\r\nZ: z\r\n\r\n", f == 0 ? s : "GET", f == 1 ? s : "/", f == 2 ? s : "HTTP/1.0", f == 3 ? s : "A", f == 4 ? s : "B"); reqall(b, strlen(b) - 3 * cut); if (f == 1 && n <= 1023) { memset(s, 'q', n); s[0] = '?'; sprintf(b, "GET %s X\r\n\r\n", s); reqall(b, strlen(b)); s[0] = '/'; sprintf(b, "GET %s X\r\n\r\n", s); reqall(b, strlen(b)); } vp_tick(); } }
  for (int n = 95; n <= 125; n++) for (int k = 0; k < 2; k++) if (MINE(job++)) { static char b[6000]; strcpy(b, k ? "HTTP/1.1 200 OK\r\n" : "GET / H\r\n"); char *w = b + strlen(b); for (int i = 0; i < n; i++) w += k && i == 50 ? sprintf(w, "Content-Length: 2\r\n") : sprintf(w, "N%d: v%d\r\n", i, i); w += sprintf(w, "\r\nxy"); (k ? resall : reqall)(b, w - b); vp_tick(); }
  // written requests
  static const char *U[] = { "/", "/a/b.html", "", "/announce" }; for (int m = 0; m < 3; m++) for (int u = 0; u < 4; u++) for (int np = 0; np <= 100; np += np < 4 ? 1 : 32) for (int nh = 0; nh <= 100; nh += nh < 4 ? 1 : 32) if (MINE(job++)) { writes(m, U[u], np, nh, np + nh, m * 50 + u); vp_tick(); }
  for (int vl = 0; vl <= 1024; vl = vl < 20 ? vl + 1 : vl < 1020 ? vl + 167 : vl + 1) for (int v0 = 0; v0 < 256; v0 += vl < 20 ? 1 : 37) if (MINE(job++)) { writes(vl % 3, "/x", 2, 1, vl > 1024 ? 1024 : vl, v0); vp_tick(); }
  // responses
  static const char *RS[] = { "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc", "HTTP/1.0 404 Not Found\r\nConnection: close\r\n\r\na\xff\r\n", "HTTP/1.1 204 \r\nA: b\r\nContent-Length: 0\r\nConnection: close\r\n\r\n", "HTTP/1.1 500 x\r\nContent-Length: 10\r\nContent-Length: 2\r\n\r\n0123456789" };
  for (int i = 0; i < 4; i++) if (MINE(job++)) edits(RS[i], strlen(RS[i]), resall, " :-\r\n19a", 1);
  for (int st = 0; st < 1000; st++) if (MINE(job++)) { char b[100]; sprintf(b, "HTTP/1.%d %03d Text here\r\nContent-Length: 1\r\n\r\nz", st & 1, st); resall(b, strlen(b)); vp_tick(); }
  for (int n = 0; n <= 1100; n++) for (int k = 0; k < 3; k++) if (MINE(job++)) { static char b[3000]; int h = k == 2 ? sprintf(b, "HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n") : sprintf(b, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", k ? n + 1 : n); for (int i = 0; i < n; i++) b[h + i] = n < 256 ? n + i : 1 + i % 255; resall(b, h + n); if (!(n & 15)) vp_tick(); }
  for (int v = 0; v < 256; v++) if (MINE(job++)) for (int k = 0; k < 2; k++) { char b[200]; int h = sprintf(b, "HTTP/1.1 200 OK\r\n%s\r\n\r\n", k ? "Connection: close" : "Content-Length: 3"); b[h] = v; b[h + 1] = 255 - v; b[h + 2] = v ^ 3; resall(b, h + 3); vp_tick(); }
  // urls
  static const char UT[] = "a:/.?"; for (int n = 0; n <= (vp_thorough ? 9 : 8); n++) { long t = 1; for (int i = 0; i < n; i++) t *= 5; for (long s = 0; s < t; s++) if (MINE(job++)) { char b[16]; long x = s; for (int i = 0; i < n; i++, x /= 5) b[i] = UT[x % 5]; urlcheck(b, n); if (!(s & 1023)) vp_tick(); } }
  for (int f = 0; f < 4; f++) { size_t lim = f == 0 || f == 2 ? 9 : 99; for (size_t n = 1; n <= lim + 4; n++) if (MINE(job++)) { char s[200], b[600]; memset(s, '7', n); s[n] = 0; sprintf(b, "%s://%s:%s/%s", f == 0 ? s : "http", f == 1 ? s : "h.net", f == 2 ? s : "80", f == 3 ? s + 1 : "p"); urlcheck(b, strlen(b)); sprintf(b, "%s://%s/%s", f == 0 ? s : "http", f == 1 ? s : "h.net", f == 3 ? s + 1 : ""); urlcheck(b, strlen(b)); sprintf(b, "%s://%s", f == 0 ? s : "http", f == 1 ? s : "h.net"); urlcheck(b, strlen(b)); vp_tick(); } }
  if (MINE(job++)) edits("http://ex.net:6969/a/b?c=1:2", 28, urlcheck, ":/?. a", 1);
  // cgi heads
  static const char *CT[] = { "A", ":", " ", "\t", "\r\n", "\n", "\r", "b" }; for (int d = 0; d <= (vp_thorough ? 8 : 7); d++) { long t = 1; for (int i = 0; i < d; i++) t *= 8; for (long s = 0; s < t; s++) if (MINE(job++)) { char b[64] = ""; long x = s; for (int i = 0; i < d; i++, x /= 8) strcat(b, CT[x % 8]); cgicheck(b, strlen(b)); if (!(s & 255)) vp_tick(); } }
  static const char *CG[] = { "Status: 200 OK\r\nContent-Type: text/html\r\n\r\n<p>", "A: b\nC:d\n\nx:y\n\n", "A:\r\nB: c\r\n\r\n" }; for (int i = 0; i < 3; i++) if (MINE(job++)) edits(CG[i], strlen(CG[i]), cgicheck, " :\t\r\na", 1);
  for (int n = 995; n <= 1030; n++) for (int f = 0; f < 2; f++) if (MINE(job++)) { static char b[3000]; char s[1100]; memset(s, 'k', n); s[n] = 0; sprintf(b, "%s: %s\nZ: z\n\n", f ? s : "A", f ? "B" : s); cgicheck(b, strlen(b)); vp_tick(); }
  for (int n = 97; n <= 120; n++) if (MINE(job++)) { static char b[3000]; char *w = b; for (int i = 0; i < n; i++) w += sprintf(w, "N%d: v%d\n", i, i); w += sprintf(w, "\n"); cgicheck(b, w - b); vp_tick(); }
  vp_sample("all token sequences up to %d tokens, all single edits, truncations and double deletions of valid requests, responses, URLs and CGI heads, field lengths around every limit", vp_thorough ? 7 : 6);
}
