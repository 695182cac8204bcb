// os/net: addresses, and TCP connections over the loopback interface.
#define _GNU_SOURCE
#include "vp.h"
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <poll.h>
#include <netdb.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
FN(bool, parse_addr, "", (void *, const char *)) FN(bool, format_addr, "", (void *, char *, size_t)) FN(void *, a_new, "", (void)) FN(int, a_v, "", (void *)) FN(char *, a_data, "", (void *))
FN(int, rd, "", (void *, char *, size_t)) FN(int, wr, "", (void *, const char *, size_t)) FN(void *, connect_, "", (const char *, const char *)) FN(void *, connect_nb, "", (const char *, const char *)) FN(void *, listen_, "", (const char *, const char *)) FN(void *, accept_, "", (void *)) FN(void, close_, "", (void *)) FN(void, printf_, "", (void *, const char *, ...)) FN(const char *, addr_, "", (void *)) FN(void *, getreader, "", (void *)) FN(int, fd_, "", (void *)) FN(int, r_read, "", (void *, uint8_t *, size_t)) FN(void, r_free, "", (void *))
void __real_free(void *);
static long fds(void) { long n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
// ---- reference parser of addresses
static int ref4(const char *s, unsigned char *o) { for (int i = 0; i < 4; i++) { if (i && *s++ != '.') return 0; if (!isdigit(*s)) return 0; if (*s == '0' && isdigit(s[1])) return 0; int v = 0, n = 0; while (isdigit(*s)) { v = v * 10 + *s++ - '0'; if (++n > 3) return 0; } if (v > 255) return 0; o[i] = v; } return *s == 0; }
static int ref6(const char *s, unsigned char *o) { unsigned char head[16], tail[16]; int hn = 0, tn = 0, gap = 0; memset(o, 0, 16);
  if (s[0] == ':' && s[1] == ':') { gap = 1; s += 2; if (!*s) return 1; } else if (s[0] == ':') return 0;
  for (;;) { unsigned char *t = gap ? tail : head; int *n = gap ? &tn : &hn; const char *e = s; int v = 0; while (isxdigit(*e)) { v = v * 16 + (isdigit(*e) ? *e - '0' : tolower(*e) - 'a' + 10); if (e - s >= 4) return 0; e++; }
    if (*e == '.') { if (hn + tn > 12) return 0; if (!ref4(s, t + *n)) return 0; *n += 4; break; }
    if (e == s) return 0; if (hn + tn > 14) return 0; t[*n] = v >> 8; t[*n + 1] = v; *n += 2; s = e; if (!*s) break; if (*s != ':') return 0; s++; if (*s == ':') { if (gap) return 0; gap = 1; s++; if (!*s) break; } else if (!*s) return 0; }
  if (gap ? hn + tn > 14 : hn != 16) return 0; memcpy(o, head, hn); memcpy(o + 16 - tn, tail, tn); return 1; }
static void addr1(const char *s) { unsigned char w[16]; char *c = vp_raw(strlen(s) + 1); strcpy(c, s); void *a = a_new(); memset(a_data(a), 0xEE, 16); vp_case("address '%s'", s); vp_states++; vp_traces++; int v = ref6(s, w) ? 6 : ref4(s, w) ? 4 : 0; bool ok = parse_addr(a, c); vp_trans++;
  if (ok != (v != 0)) vp_viol("addr", ok ? "is accepted" : "is refused"); else if (ok) { if (a_v(a) != v || memcmp(a_data(a), w, v == 4 ? 4 : 16)) vp_viol("addr", "is read as %s (version %d)", vp_show(a_data(a), 16), a_v(a)); char full[100]; if (!format_addr(a, full, 100)) vp_viol("addr", "isn't formatted"); else { unsigned char w2[16]; int v2 = ref6(full, w2) ? 6 : ref4(full, w2) ? 4 : 0; if (v2 != v || memcmp(w, w2, v == 4 ? 4 : 16)) vp_viol("addr", "is formatted as %s", full); 
      int L = strlen(full); for (int z = L - 1 > 0 ? L - 1 : 0; z <= L + 1; z++) { char *b = vp_raw(z ? z : 1); bool f = format_addr(a, b, z); vp_trans++; if (f != (z > L) || (f && strcmp(b, full))) vp_viol("addr", "formatting into %d bytes gives %d", z, f); __real_free(b); } } }
  free(a); __real_free(c); }
static void words(const char **t, int nt, int maxlen, const char *tail, int notail) { static long idx; int k[16]; char s[200]; for (int n = 0; n <= maxlen; n++) { memset(k, 0, sizeof k); for (;;) { if (MINE(idx++)) { s[0] = 0; for (int i = 0; i < n; i++) strcat(s, t[k[i]]); strcat(s, tail); addr1(s); } int i = n - 1; while (i >= 0 && ++k[i] == nt) k[i--] = 0; if (i < 0) break; } } }
static void addrs(void) { int th = vp_thorough; const char *c4[] = { "0", "1", "25", "6", "." }; words(c4, 5, th ? 9 : 8, "", 0); const char *o4[] = { "0", "1", "9", "10", "99", "127", "199", "255", "256", "260", "300", "00", "01", "1000", "-1", "" }; char s[100]; for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) for (int d = 0; d < 16; d += th ? 1 : 5) { sprintf(s, "%s.%s.0.%s", o4[a], o4[b], o4[d]); if (MINE(a + b)) addr1(s); sprintf(s, "10.%s.%s.%s", o4[a], o4[d], o4[b]); if (MINE(a + b)) addr1(s); }
  const char *c6[] = { "0", "fA9", ":" }; words(c6, 3, th ? 13 : 11, "", 0); words(c6, 3, th ? 10 : 9, "1.2.3.4", 0); const char *g[] = { "0", "1", "ffff", "0123", "12345", "g", "::", ":", ".", "" }; words(g, 10, 4, "", 0); const char *g8[] = { "0:", "1:", ":" }; words(g8, 3, 8, "2", 0); words(g8, 3, 8, "0", 0); }
// ---- connections
static void tmo(void *c) { struct timeval t = { 20, 0 }; setsockopt(fd_(c), SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); setsockopt(fd_(c), SOL_SOCKET, SO_SNDTIMEO, &t, sizeof t); }
static int port(int fd, int peer) { struct sockaddr_in a; socklen_t n = sizeof a; if (peer ? getpeername(fd, (void *)&a, &n) : getsockname(fd, (void *)&a, &n)) return -1; return ntohs(a.sin_port); }
static void *L; static char laddr[60];
static int pairc(void **a, void **b, int nb) { *a = nb ? connect_nb("tcp", laddr) : connect_("tcp", laddr); if (!*a) { vp_viol("net", "can't connect: %s", strerror(errno)); return 0; } *b = accept_(L); if (!*b) { vp_viol("net", "can't accept"); close_(*a); return 0; } if (nb) { struct pollfd p = { fd_(*a), POLLOUT, 0 }; poll(&p, 1, 20000); } tmo(*a); tmo(*b); return 1; }
static void chk(long f0) { long f1 = fds(); if (f1 != f0) vp_viol("fds", "%ld descriptors left open", f1 - f0); long l = vp_leaked(); if (l) vp_viol("leak", "%ld blocks not released", l); }
static void seqs(int depth) { long f0 = fds(); int nops = 6; long tot = 1; for (int i = 0; i < depth; i++) tot *= nops;
  for (long k = 0; k < tot; k++) { if (!MINE(k)) continue; if (vp_nviol > 5) return; long q = k; void *c[2]; char desc[60] = ""; vp_case("a connection"); vp_mark(); if (!pairc(&c[0], &c[1], k % 3 == 2)) return; vp_traces++; char Q[2][200]; int qn[2] = { 0, 0 }, closed[2] = { 0, 0 }, reset[2] = { 0 }; char ctr = 'a';
    char want[60]; sprintf(want, "127.0.0.1:%d", port(fd_(c[0]), 0)); if (strcmp(addr_(c[1]), want)) vp_viol("net", "the accepted address is %s, not %s", addr_(c[1]), want); if (strcmp(addr_(c[0]), laddr)) vp_viol("net", "the connected address is %s", addr_(c[0]));
    for (int i = 0; i < depth; i++) { int op = q % nops, x = op & 1; q /= nops; sprintf(desc + strlen(desc), "%c%d ", "wrc"[op / 2], x); vp_case("connection: %s", desc); vp_states++; vp_trans++; if (closed[x]) continue; // Q[x]: what x can read
      if (op / 2 == 0) { char m[3] = { ctr, 0, ctr + 1 }; ctr += 2; int r = wr(c[x], m, 3); if (!closed[!x]) { if (r != 3) vp_viol("net", "writing 3 bytes gives %d", r); memcpy(Q[!x] + qn[!x], m, 3); qn[!x] += 3; } else reset[x] = 1; }
      else if (op / 2 == 1) { char b[4] = "ZZZZ"; if (qn[x] == 0 && !closed[!x]) continue; if (reset[x] || (closed[!x] && reset[!x])) continue; int r = rd(c[x], b, 2); int w = qn[x] > 2 ? 2 : qn[x]; if (closed[!x] && reset[x]) continue; if (r != w && !(closed[!x] && r == -1)) vp_viol("net", "reading gives %d of %d", r, qn[x]); if (r > 0) { if (memcmp(b, Q[x], r) || b[2] != 'Z') vp_viol("net", "reading gives other bytes"); memmove(Q[x], Q[x] + r, qn[x] - r); qn[x] -= r; } }
      else { if (qn[x]) reset[!x] = 1; close_(c[x]); closed[x] = 1; } }
    for (int x = 0; x < 2; x++) if (!closed[x]) close_(c[x]); chk(f0); } }
static char big[300000], got[300010];
static void data(void) { long f0 = fds(); long idx = 0; for (int i = 0; i < sizeof big; i++) big[i] = i * 13 + i / 256; static const int C[] = { 1, 5, 1000, 200000 };
  for (int n = 0; n < 200000; n += n < 40 ? 1 : n < 3000 ? 97 : n < 70000 ? 16383 : 60000) for (int c = 0; c < 4; c++) for (int how = 0; how < 4; how++) { if (C[c] == 1 && n > 3000 && how != 2) continue; if (how == 2 && c) continue; if (!MINE(idx++)) continue; if (vp_nviol > 5) return; void *a, *b; vp_case("%d bytes, %s, read in chunks of %d%s", n, how == 2 ? "printed" : "written", C[c], how == 1 ? " by the accepting side" : how == 3 ? " through a reader" : ""); vp_states++; vp_traces++; vp_mark(); if (!pairc(&a, &b, 0)) return; void *w = how == 1 ? b : a, *r = how == 1 ? a : b; void *R = how == 3 ? getreader(r) : 0;
    int sb = 1 << 20; setsockopt(fd_(w), SOL_SOCKET, SO_SNDBUF, &sb, sizeof sb); setsockopt(fd_(r), SOL_SOCKET, SO_RCVBUF, &sb, sizeof sb); int pid = 0, sent = 0, rc = 0, st = 0; 
    // write part by part, reading what arrives, so that nothing blocks
    if (how == 2) { static char txt[200010]; for (int i = 0; i < n; i++) txt[i] = 'a' + i % 26; txt[n] = 0; if (n < 20000) { printf_(w, "%s", txt); printf_(w, "<%d|%s>", n, "x"); sprintf(txt + n, "<%d|%s>", n, "x"); int t = strlen(txt); while (rc < t) { int k = rd(r, got + rc, 4096); if (k <= 0) break; rc += k; } if (rc != t || memcmp(got, txt, t)) vp_viol("net", "%d of %d bytes printed arrive", rc, t); } }
    else { while (sent < n || rc < n) { if (sent < n) { int m = n - sent > 30000 ? 30000 : n - sent; int k = wr(w, big + sent, m); if (k <= 0 || k > m) { vp_viol("net", "writing gives %d", k); break; } sent += k; } int m = C[c]; int k = how == 3 ? r_read(R, (void *)(got + rc), m < 300000 - rc ? m : 300000 - rc) : rd(r, got + rc, m < 300000 - rc ? m : 300000 - rc); if (k <= 0 || k > m) { vp_viol("net", "reading gives %d", k); break; } rc += k; if (sent == n) continue; } if (rc == n && memcmp(got, big, n)) vp_viol("net", "the bytes change"); }
    close_(w); if (how != 2 || n < 20000) { int k = how == 3 ? r_read(R, (void *)got, 10) : rd(r, got, 10); if (k != 0) vp_viol("net", "reading after the end gives %d", k); } if (R) r_free(R); close_(r); (void)pid; (void)st; chk(f0); } }
// ---- every system call fails in every way
static int ffn, ferr; // which call fails, how
#define W(n, id, args, pass) int __real_##n args; int __wrap_##n args { if (ffn == id) { errno = ferr; return -1; } return __real_##n pass; }
W(connect, 1, (int s, const struct sockaddr *a, socklen_t n), (s, a, n)) W(bind, 2, (int s, const struct sockaddr *a, socklen_t n), (s, a, n)) W(listen, 3, (int s, int b), (s, b)) W(accept, 4, (int s, struct sockaddr *a, socklen_t *n), (s, a, n)) W(socket, 5, (int d, int t, int p), (d, t, p))
static void sysfaults(void) { if (vp_shard != 2 % vp_nshards) return; static const int E[] = { ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, ETIMEDOUT, EACCES, EPERM, EADDRNOTAVAIL, EADDRINUSE, ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EAGAIN, EINVAL, EAFNOSUPPORT, ENETDOWN, EISCONN, EALREADY, EBADF, EINPROGRESS };
  static const char *N[] = { "", "connect", "bind", "listen", "accept", "socket" }; long f0 = fds();
  for (int f = 1; f <= 5; f++) for (int e = 0; e < sizeof E / sizeof *E; e++) for (int op = 0; op < 4; op++) { static const char *O[] = { "connect", "connect_nonblock", "net_listen", "net_accept" }; int used = op < 2 ? f == 1 || f == 5 : op == 2 ? f == 2 || f == 3 || f == 5 : f == 4; if (!used || (op == 1 && f == 1 && E[e] == EINPROGRESS)) continue;
    vp_case("%s when %s gives %s", O[op], N[f], strerrorname_np(E[e])); vp_states++; vp_traces++; vp_trans++; vp_mark(); void *c = 0; ffn = f; ferr = E[e]; int p = VP_TRY(c = op == 0 ? connect_("tcp", laddr) : op == 1 ? connect_nb("tcp", laddr) : op == 2 ? listen_("tcp", "127.0.0.1:0") : accept_(L)); ffn = 0; if (p || c) vp_viol("fault", p ? "panics" : "succeeds"); if (c) close_(c); chk(f0); }
}
static void ends(void) { if (vp_shard != 1 % vp_nshards) return; long f0 = fds(); 
  static char lng[600]; memset(lng, 'h', 599); struct { const char *p, *a; } bad[40]; int n = 0; char t1[500], t2[500], t3[60]; memset(t1, 'h', 255); strcpy(t1 + 255, ":80"); memset(t2, 'h', 190); strcpy(t2 + 190, ":1234567890123456"); 
  const char *ba[] = { "", "127.0.0.1", "127.0.0.1:99999x", "127.0.0.1:12345678901234567890", ":", "127.0.0.1:1:2", "256.0.0.1:80", "127.0.0.1:nosuchservice" }; for (int i = 0; i < 8; i++) { bad[n].p = "tcp"; bad[n++].a = ba[i]; } bad[n].p = "tcp"; bad[n++].a = lng; bad[n].p = "tcp"; bad[n++].a = t1; bad[n].p = "tcp"; bad[n++].a = t2; bad[n].p = "udp"; bad[n++].a = laddr; bad[n].p = ""; bad[n++].a = laddr;
  int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in sa = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; if (bind(s, (void *)&sa, sizeof sa)) _exit(3); sprintf(t3, "127.0.0.1:%d", port(s, 0)); bad[n].p = "tcp"; bad[n++].a = t3; f0 = fds(); // bound, not listening: connections are refused, listening fails
  for (int i = 0; i < n; i++) for (int w = 0; w < 2; w++) { vp_case("%s to %s %.60s", w ? "listening" : "connecting", bad[i].p, bad[i].a); vp_states++; vp_trans++; vp_mark(); void *c = 0; int p = VP_TRY(c = w ? listen_(bad[i].p, bad[i].a) : connect_(bad[i].p, bad[i].a)); if (p || c) vp_viol("net", p ? "panics" : "succeeds"); chk(f0); }
  for (int sz = 170; sz < 400; sz++) { memset(lng, 'h', sz); lng[0] = '1'; lng[sz] = 0; vp_case("an address of %d characters", sz); vp_mark(); void *c = connect_("tcp", lng); if (c) vp_viol("net", "is connected"); memset(lng, '1', sz); memcpy(lng, "127.0.0.1:", 10); lng[sz] = 0; c = connect_("tcp", lng); if (c) vp_viol("net", "is connected"); chk(f0); }
  close(s); f0 = fds(); for (int sz = 1; sz < 30; sz++) { char a[80] = "127.0.0.1:"; for (int i = 0; i < sz; i++) strcat(a, "9"); vp_case("port %s", a); vp_mark(); void *c = connect_("tcp", a); if (c) { vp_viol("net", "is connected"); close_(c); } chk(f0); }
  struct addrinfo h = { .ai_family = AF_INET, .ai_socktype = SOCK_STREAM }, *res; if (getaddrinfo("localhost", "0", &h, &res) == 0) { freeaddrinfo(res); void *l = listen_("tcp", "localhost:0"); vp_case("localhost"); if (!l) vp_viol("net", "can't listen on localhost"); else { char a[60]; sprintf(a, "localhost:%d", port(fd_(l), 0)); void *c = connect_("tcp", a); if (!c) vp_viol("net", "can't connect to %s", a); else { void *d = accept_(l); if (!d) vp_viol("net", "can't accept"); else close_(d); close_(c); } close_(l); } }
  // fd 0 free
  fflush(stdout); int z = dup(0); if (z >= 0) { close(0); f0 = fds(); vp_mark(); vp_case("connecting while descriptor 0 is free"); void *c = connect_("tcp", laddr); if (!c) vp_viol("net", "fails"); else { void *d = accept_(L); if (d) close_(d); close_(c); } chk(f0); dup2(z, 0); close(z); }
  // many waiting connections are all served, in order
  void *q[10]; for (int i = 0; i < 10; i++) { q[i] = connect_("tcp", laddr); if (!q[i]) vp_viol("net", "connection %d refused", i); } vp_case("10 waiting connections"); for (int i = 0; i < 10; i++) { void *d = accept_(L); if (!d) { vp_viol("net", "can't accept"); break; } char m = 0; int k = -1; for (int j = 0; j < 10; j++) if (q[j] && port(fd_(q[j]), 0) == port(fd_(d), 1)) k = j; if (k < 0) vp_viol("net", "an unknown connection"); else { tmo(d); char y = 'A' + k; wr(q[k], &y, 1); if (rd(d, &m, 1) != 1 || m != y) vp_viol("net", "crossed connections"); close_(q[k]); q[k] = 0; } close_(d); } }
void vp_body(void) {
  BIND(parse_addr, "net.parse_addr"); BIND(format_addr, "net.format_addr"); BIND(a_new, "a_new"); BIND(a_v, "a_v"); BIND(a_data, "a_data"); BIND(rd, "net.read"); BIND(wr, "net.write"); BIND(connect_, "net.connect"); BIND(connect_nb, "net.connect_nonblock"); BIND(listen_, "net.net_listen"); BIND(accept_, "net.net_accept"); BIND(close_, "net.close"); BIND(printf_, "net.net_printf"); BIND(addr_, "net.net_addr"); BIND(getreader, "net.getreader"); BIND(fd_, "fd_"); BIND(r_read, "reader.read"); BIND(r_free, "reader.free");
  vp_sample("the reference reads 1::2 as version %d", ({ unsigned char o[16]; ref6("1::2", o) ? 6 : 0; }));
  if (!strcmp(getenv("VP_PART"), "addresses")) { addrs(); return; }
  L = listen_("tcp", "127.0.0.1:0"); if (!L) { vp_viol("net", "can't listen"); return; } sprintf(laddr, "127.0.0.1:%d", port(fd_(L), 0));
  for (int d = 1; d <= (vp_thorough ? 6 : 5); d++) seqs(d); data(); ends(); sysfaults(); }
