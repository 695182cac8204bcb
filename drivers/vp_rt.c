#define _GNU_SOURCE
#include "vp.h"
#include <signal.h>
#include <fcntl.h>
#include <sys/time.h>
#include <time.h>
long vp_states, vp_trans, vp_traces, vp_live, vp_failat, vp_nalloc;
int vp_shard, vp_nshards = 1, vp_thorough, vp_armed, vp_exitcode, vp_nviol;
char vp_casebuf[8192]; jmp_buf vp_jb;
static FILE *O; static int realerr = 2;
static struct { const char *n; void *p; } reg[512]; static int nreg;
void vp_reg(const char *n, void *p) { reg[nreg].n = n; reg[nreg++].p = p; }
void *vp_get(const char *n) { for (int i = 0; i < nreg; i++) if (!strcmp(reg[i].n, n)) return reg[i].p; fprintf(stderr, "CASE no function %s\n", n); _exit(3); }
static volatile long prog;   // progress, for the hang watchdog
void vp_case(const char *f, ...) { prog++; va_list a; va_start(a, f); vsnprintf(vp_casebuf, sizeof vp_casebuf, f, a); va_end(a); }
void vp_viol(const char *key, const char *f, ...) {
  if (++vp_nviol > 60) return;
  static char seen[64][32]; static int cnt[64], ns; int k = 0; while (k < ns && strncmp(seen[k], key, 31)) k++; if (k == ns && ns < 64) { strncpy(seen[ns], key, 31); ns++; } if (k < 64 && ++cnt[k] > 4) { vp_nviol--; return; }
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  for (char *p = b; *p; p++) if (*p == '\n') *p = ' ';
  char c[2048]; snprintf(c, sizeof c, "%s", vp_casebuf); for (char *p = c; *p; p++) if (*p == '\n') *p = ' ';
  fprintf(O, "VIOL %s %s [%s]\n", key, b, c); fflush(O);
}
void vp_sample(const char *f, ...) { char b[1000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  for (char *p = b; *p; p++) if (*p == '\n') *p = ' '; fprintf(O, "SAMPLE %s\n", b); }
static void say(const char *s) { if (write(realerr, s, strlen(s))) {} }
void __asan_on_error(void) { say("CASE "); for (char *p = vp_casebuf; *p; p++) if (*p == '\n') *p = ' '; say(vp_casebuf); say("\n"); if (realerr != 2) dup2(realerr, 2); }
// A case hangs when it makes no progress for 15 s of its own processor time or 200 s of real time.
static double secs(clockid_t c) { struct timespec t; clock_gettime(c, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void onalrm(int s) { static long seen = -1; static double c0, w0; double c = secs(CLOCK_PROCESS_CPUTIME_ID), w = secs(CLOCK_MONOTONIC);
  if (prog != seen) { seen = prog; c0 = c; w0 = w; } else if (c - c0 > 15 || w - w0 > 200) { vp_viol("hang", "does not terminate"); fflush(O); _exit(4); }
  alarm(3); }
static void onsig(int s) { __asan_on_error(); char b[64]; snprintf(b, 64, "SIGNAL %d\n", s); say(b); fflush(O); _exit(98); }
void vp_tick(void) { prog++; }
void vp_init(void) {
  char *e; if ((e = getenv("VP_SHARD"))) vp_shard = atoi(e); if ((e = getenv("VP_NSHARDS"))) vp_nshards = atoi(e);
  if ((e = getenv("VP_TIER"))) vp_thorough = !strcmp(e, "thorough");
  O = fdopen(dup(1), "w"); realerr = dup(2);
  signal(SIGALRM, onalrm); alarm(3);
#ifndef __SANITIZE_ADDRESS__
  static char alt[65536]; stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt }; sigaltstack(&ss, 0);
  struct sigaction sa = { .sa_handler = onsig, .sa_flags = SA_ONSTACK }; sigaction(SIGSEGV, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGILL, &sa, 0);
#else
  struct sigaction sa = { .sa_handler = onsig }; sigaction(SIGABRT, &sa, 0);
#endif
}
void vp_quiet(int on) { static int so = -1, se = -1; fflush(stdout); fflush(stderr);
  if (on && so < 0) { so = dup(1); se = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); }
  else if (!on && so >= 0) { dup2(so, 1); dup2(se, 2); close(so); close(se); so = se = -1; } }
void vp_done(void) { fprintf(O, "STAT %ld %ld %ld\nDONE\n", vp_states, vp_trans, vp_traces); fflush(O); fflush(stdout); }
char *vp_show(const void *vp, size_t n) { static char r[8][1200]; static int k; char *b = r[k++ & 7], *o = b; const unsigned char *p = vp;
  if (!p) return "(null)"; if (n > 250) n = 250;
  for (size_t i = 0; i < n; i++) { if (p[i] == '\\') o += sprintf(o, "\\\\"); else if (p[i] >= 32 && p[i] < 127) *o++ = p[i]; else o += sprintf(o, "\\x%02x", p[i]); } *o = 0; return b; }
// ---- process exits and allocations of the code under test
void __real_exit(int) __attribute__((noreturn));
void __attribute__((noreturn)) __wrap_exit(int c) { if (vp_armed) { vp_exitcode = c; longjmp(vp_jb, 1); } __real_exit(c); }
void __real_abort(void) __attribute__((noreturn));
void __attribute__((noreturn)) __wrap_abort(void) { if (vp_armed) { vp_exitcode = 134; longjmp(vp_jb, 1); } __real_abort(); }
static struct { void *p; long s; } *tab; static size_t tcap, tn; static long serial, mark;
static size_t slot(void *p) { size_t h = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull; h &= tcap - 1; while (tab[h].p && tab[h].p != p) h = (h + 1) & (tcap - 1); return h; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static void add(void *p) { if (!p) return; if (tn * 2 >= tcap) { size_t oc = tcap; void *ot = tab; tcap = tcap ? tcap * 2 : 4096; tab = __real_calloc(tcap, sizeof *tab); tn = 0;
    struct { void *p; long s; } *t = ot; for (size_t i = 0; i < oc; i++) if (t[i].p) { size_t k = slot(t[i].p); tab[k].p = t[i].p; tab[k].s = t[i].s; tn++; } __real_free(ot); }
  size_t k = slot(p); tab[k].p = p; tab[k].s = ++serial; tn++; vp_live++; }
static void del(void *p) { if (!p || !tcap) return; size_t k = slot(p); if (!tab[k].p) return; tab[k].p = 0; tn--; vp_live--;
  for (size_t j = (k + 1) & (tcap - 1); tab[j].p; j = (j + 1) & (tcap - 1)) { void *q = tab[j].p; long s = tab[j].s; tab[j].p = 0; size_t m = slot(q); tab[m].p = q; tab[m].s = s; } }
static int fails(void) { vp_nalloc++; if (vp_failat && --vp_failat == 0) return 1; return 0; }
void *vp_raw(size_t n) { return __real_malloc(n); }
void *__wrap_malloc(size_t n) { if (fails()) return 0; void *p = __real_malloc(n); add(p); return p; }
void *__wrap_calloc(size_t n, size_t m) { if (fails()) return 0; void *p = __real_calloc(n, m); add(p); return p; }
void *__wrap_realloc(void *q, size_t n) { if (fails()) return 0; if (q) del(q); void *p = __real_realloc(q, n); if (p) add(p); else if (n && q) add(q); return p; }
void __wrap_free(void *p) { del(p); __real_free(p); }
char *__wrap_strdup(const char *s) { if (fails()) return 0; char *p = __real_malloc(strlen(s) + 1); strcpy(p, s); add(p); return p; }
void vp_mark(void) { mark = serial; }
long vp_leaked(void) { long n = 0; for (size_t i = 0; i < tcap; i++) if (tab[i].p && tab[i].s > mark) n++; return n; }
void vp_main(void) { vp_init(); vp_body(); vp_done(); fflush(stdout); _exit(0); }
