// Stateless model checking of os/threads: the threads run as coroutines under a scheduler that
// explores every choice (depth first, by replay). Choice points: every synchronisation call and every access
// to shared memory (the modules are compiled with thread-sanitizer instrumentation whose hooks are below),
// which waiter a signal wakes, spurious wake-ups. Bounded by the number of preemptions.
#define _GNU_SOURCE
#include "vp.h"
#include <ucontext.h>
#include <time.h>
#include <pthread.h>
FN(void *, start, "", (void *(*)(void *), void *)) FN(int, join, "", (void *, void **)) FN(bool, detach, "", (void *)) FN(void *, mtx_new, "", (void)) FN(void, mtx_free, "", (void *)) FN(bool, lock, "", (void *)) FN(bool, unlock, "", (void *)) FN(void *, cnd_new, "", (void)) FN(void, cnd_free, "", (void *)) FN(bool, cwait, "", (void *, void *)) FN(bool, wake1, "", (void *)) FN(bool, wakeall, "", (void *))
FN(void *, newpipe, "", (void)) FN(void, freepipe, "", (void *)) FN(bool, pread_, "", (void *, void **)) FN(void, pclose_, "", (void *)) FN(void, pwrite_, "", (void *, void *))

// ---- choices
typedef struct { unsigned char c, n; } ch; static ch path[1 << 20]; static int plen, ppos;
static int choose(int n) { if (n <= 1) return 0; if (ppos < plen) { if (path[ppos].n != n) { fprintf(stderr, "CASE replay diverges\n"); _exit(3); } return path[ppos++].c; } path[plen].c = 0; path[plen].n = n; plen++; ppos++; vp_states++; return 0; }
// Paths with fewer than two choices other than 0 are run by every shard (and counted by the first one); the rest is divided by the first two.
static int ndev(void) { int k = 0; for (int i = 0; i < plen && k < 2; i++) if (path[i].c) k++; return k; }
static int next_path(void) {
  while (plen > 0) { ch *t = &path[plen - 1]; while (t->c + 1 < t->n) { t->c++; unsigned h = 0; int k = 0; for (int i = 0; i < plen; i++) if (path[i].c) { h = (h * 31 + i) * 17 + path[i].c; k++; }
      if (k == 2 && h * 2654435761u % 1009 % vp_nshards != vp_shard) continue; return 1; } plen--; }
  return 0; }
// ---- threads
#define MT 8
#define SS (64 << 10)
enum { RUN, BLK_M, BLK_C, BLK_J, DONE };
typedef struct { ucontext_t c; char *stk; int st; void *on; void *m; void *(*f)(void *); void *arg, *res; int detached, joined; long acc; } thr;
static thr T[MT]; static int nt, cur, preempt, spur, PB, SPB, MEM; static long steps; static ucontext_t root; static const char *fail; static char failbuf[400];
typedef struct { void *a; int owner, live; } mtx; static mtx M[16]; static int nm;
static mtx *mx(void *a) { for (int i = 0; i < nm; i++) if (M[i].a == a) return &M[i]; if (nm == 16) { nm = 0; } M[nm].a = a; M[nm].owner = -1; M[nm].live = 1; return &M[nm++]; }
static void die(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(failbuf, sizeof failbuf, f, a); va_end(a); if (!fail) fail = failbuf; setcontext(&root); }
static int enabled(int i) { thr *t = &T[i]; if (t->st == RUN) return 1; if (t->st == BLK_M) return mx(t->on)->owner < 0; if (t->st == BLK_J) return T[(long)t->on].st == DONE; return 0; }
static void go(int to) { int from = cur; cur = to; if (from == to) return; swapcontext(&T[from].c, &T[to].c); }
static void sched(void) { // called by the current thread, which may be blocked
  if (++steps > 60000) die("the threads don't finish"); vp_trans++;
  int c[MT * 2], n = 0, me = cur; int self = enabled(me);
  if (self) c[n++] = me; if (!self || preempt < PB) for (int i = 0; i < nt; i++) if (i != me && enabled(i)) c[n++] = i;
  int ns = n; if (spur < SPB && (n == 0 || !self || preempt < PB)) for (int i = 0; i < nt; i++) if (T[i].st == BLK_C) c[n++] = 100 + i;
  if (ns == 0) { // nobody can run: finished, or a deadlock (spurious wake-ups don't count)
    int left = 0; for (int i = 0; i < nt; i++) if (T[i].st != DONE) left++; if (left) { char b[200] = ""; for (int i = 0; i < nt; i++) if (T[i].st != DONE) sprintf(b + strlen(b), " thread %d waits for a %s;", i, T[i].st == BLK_M ? "lock" : T[i].st == BLK_C ? "signal" : "thread"); die("deadlock:%s", b); } setcontext(&root); }
  int k = c[choose(n)];
  if (k >= 100) { spur++; if (self) preempt++; k -= 100; T[k].st = BLK_M; T[k].on = T[k].m; if (!enabled(k)) { if (self) { preempt--; return; } sched(); return; } }
  else if (self && k != me) preempt++;
  go(k); }
static void acquire(void *m) { while (mx(m)->owner >= 0) { if (mx(m)->owner == cur) die("thread %d locks a lock that it holds", cur); T[cur].st = BLK_M; T[cur].on = m; sched(); } T[cur].st = RUN; mx(m)->owner = cur; }
int __wrap_pthread_mutex_init(void *m, void *a) { mtx *x = mx(m); x->owner = -1; return 0; }
int __wrap_pthread_mutex_destroy(void *m) { if (mx(m)->owner >= 0) die("a held lock is destroyed"); for (int i = 0; i < nt; i++) if (T[i].st == BLK_M && T[i].on == m) die("a lock with waiters is destroyed"); return 0; }
int __wrap_pthread_mutex_lock(void *m) { sched(); acquire(m); return 0; }
int __wrap_pthread_mutex_trylock(void *m) { sched(); if (mx(m)->owner >= 0) return 16; mx(m)->owner = cur; return 0; }
int __wrap_pthread_mutex_unlock(void *m) { sched(); if (mx(m)->owner != cur) die("thread %d unlocks a lock it doesn't hold", cur); mx(m)->owner = -1; return 0; }
int __wrap_pthread_cond_init(void *c, void *a) { return 0; }
int __wrap_pthread_cond_destroy(void *c) { for (int i = 0; i < nt; i++) if (T[i].st == BLK_C && T[i].on == c) die("a condition with waiters is destroyed"); return 0; }
int __wrap_pthread_cond_wait(void *c, void *m) { sched(); if (mx(m)->owner != cur) die("thread %d waits without holding the lock", cur); mx(m)->owner = -1; thr *t = &T[cur]; t->st = BLK_C; t->on = c; t->m = m; sched(); acquire(m); return 0; }
int __wrap_pthread_cond_signal(void *c) { sched(); int w[MT], n = 0; for (int i = 0; i < nt; i++) if (T[i].st == BLK_C && T[i].on == c) w[n++] = i; if (n) { int k = w[choose(n)]; T[k].st = BLK_M; T[k].on = T[k].m; } return 0; }
int __wrap_pthread_cond_broadcast(void *c) { sched(); for (int i = 0; i < nt; i++) if (T[i].st == BLK_C && T[i].on == c) { T[i].st = BLK_M; T[i].on = T[i].m; } return 0; }
static void entry(void) { int me = cur; T[me].res = T[me].f(T[me].arg); T[me].st = DONE; sched(); }
static int spawn(void *(*f)(void *), void *arg) { if (nt == MT) die("too many threads"); thr *t = &T[nt]; char *s = t->stk; memset(t, 0, sizeof *t); t->stk = s ? s : vp_raw(SS); t->f = f; t->arg = arg; getcontext(&t->c); t->c.uc_stack.ss_sp = t->stk; t->c.uc_stack.ss_size = SS; t->c.uc_link = &root; makecontext(&t->c, entry, 0); return nt++; }
int __wrap_pthread_create(pthread_t *t, void *a, void *(*f)(void *), void *arg) { int k = spawn(f, arg); *t = (pthread_t)(k + 1); sched(); return 0; }
int __wrap_pthread_join(pthread_t t, void **res) { long k = (long)t - 1; if (k < 0 || k >= nt || T[k].joined || T[k].detached) return 22; sched(); while (T[k].st != DONE) { T[cur].st = BLK_J; T[cur].on = (void *)k; sched(); } T[cur].st = RUN; T[k].joined = 1; if (res) *res = T[k].res; return 0; }
int __wrap_pthread_detach(pthread_t t) { long k = (long)t - 1; if (k < 0 || k >= nt || T[k].joined || T[k].detached) return 22; T[k].detached = 1; sched(); return 0; }
static void access_(void *a) { if (!MEM || nt < 2 || !vp_armed) return; for (int i = 0; i < nt; i++) if ((char *)a >= T[i].stk && (char *)a < T[i].stk + SS) return; int alive = 0; for (int i = 0; i < nt; i++) if (T[i].st != DONE) alive++; if (alive > 1) sched(); }
#define HK(n) void __tsan_read##n(void *a) { access_(a); } void __tsan_write##n(void *a) { access_(a); } void __tsan_unaligned_read##n(void *a) { access_(a); } void __tsan_unaligned_write##n(void *a) { access_(a); } void __tsan_volatile_read##n(void *a) { access_(a); } void __tsan_volatile_write##n(void *a) { access_(a); }
HK(1) HK(2) HK(4) HK(8) HK(16)
void __tsan_read_range(void *a, long n) { access_(a); } void __tsan_write_range(void *a, long n) { access_(a); } void __tsan_init(void) {} void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {}

// ---- histories and the queue they must be explained by
typedef struct { int op; long v; bool ok; long t0, t1; int thr; } ev; // op 0 write 1 read 2 close
static ev H[128]; static int hn; static long clk;
static int h_begin(int op, long v) { ev *e = &H[hn]; e->op = op; e->v = v; e->t0 = ++clk; e->t1 = 1L << 60; e->thr = cur; return hn++; }
static void w(void *p, long v) { int k = h_begin(0, v); pwrite_(p, (void *)v); H[k].t1 = ++clk; }
static bool r(void *p) { int k = h_begin(1, -1); void *o = (void *)-5L; bool ok = pread_(p, &o); H[k].ok = ok; H[k].v = ok ? (long)o : -1; H[k].t1 = ++clk; return ok; }
static void cl(void *p) { int k = h_begin(2, 0); pclose_(p); H[k].t1 = ++clk; }
static long lin_n;
static int lin(unsigned char *done, long *q, int qs, int qn, int closed, int left) { // Wing & Gong
  if (!left) return 1; if (++lin_n > 2000000) return 1; long tmin = 1L << 61; for (int i = 0; i < hn; i++) if (!done[i] && H[i].t1 < tmin) tmin = H[i].t1;
  for (int i = 0; i < hn; i++) { if (done[i] || H[i].t0 > tmin) continue; ev *e = &H[i]; done[i] = 1; int ok = 0;
    if (e->op == 0) { q[qs + qn] = e->v; ok = lin(done, q, qs, qn + 1, closed, left - 1); }
    else if (e->op == 2) ok = lin(done, q, qs, qn, 1, left - 1);
    else if (e->ok) { if (qn > 0 && q[qs] == e->v) ok = lin(done, q, qs + 1, qn - 1, closed, left - 1); }
    else if (qn == 0 && closed) ok = lin(done, q, qs, qn, closed, left - 1);
    if (ok) return 1; done[i] = 0; }
  return 0; }
static char *hist(void) { static char b[1500]; b[0] = 0; for (int i = 0; i < hn && strlen(b) < 1300; i++) { ev *e = &H[i]; sprintf(b + strlen(b), "T%d %s", e->thr, e->op == 0 ? "write " : e->op == 1 ? "read " : "close "); if (e->op == 0) sprintf(b + strlen(b), "%ld", e->v); if (e->op == 1) { if (e->ok) sprintf(b + strlen(b), "=%ld", e->v); else strcat(b, e->t1 > 1L << 59 ? "=?" : "=end"); } sprintf(b + strlen(b), "[%ld,%ld]; ", e->t0, e->t1 > 1L << 59 ? -1 : e->t1); } return b; }

// ---- scenarios: pre items are in the pipe at ring offset off; nw writers of wn items; nr readers until the end (rk < 0) or of rk items
typedef struct { int off, pre, nw, wn, nr, rk, pb, spb, mem, kind; } scen; static scen S; static void *P; static int ctr; static void *ml, *mc; static int flag, woke;
static void *writer(void *a) { long id = (long)a; for (int i = 0; i < S.wn; i++) w(P, id * 100 + i); return (void *)(id + 1000); }
static void *reader(void *a) { int n = 0; while (n != S.rk && r(P)) n++; return (void *)(long)n; }
static void *nullreader(void *a) { long n = 0; while (pread_(P, NULL)) n++; return (void *)n; }
static void *incr(void *a) { for (int i = 0; i < S.wn; i++) { if (!lock(ml)) die("lock gives false"); int v = ctr; access_(&ctr); ctr = v + 1; if (!unlock(ml)) die("unlock gives false"); } return 0; }
static void *waiter(void *a) { lock(ml); while (!flag) if (!cwait(ml, mc)) die("waiting gives false"); woke++; flag--; unlock(ml); return 0; }
static void *incr1(void *a) { ctr++; return 0; }
static void *mainthr(void *a) {
  void *t[MT]; long n = 0; void *res;
  if (S.kind == 2) { ml = mtx_new(); for (int i = 0; i < S.nw; i++) t[i] = start(incr, 0); for (int i = 0; i < S.nw; i++) join(t[i], NULL); if (ctr != S.nw * S.wn) die("%d increments under a lock give %d", S.nw * S.wn, ctr); mtx_free(ml); return 0; }
  if (S.kind == 3 || S.kind == 4) { ml = mtx_new(); mc = cnd_new(); for (int i = 0; i < S.nr; i++) t[i] = start(waiter, 0); if (S.kind == 3) { lock(ml); flag = S.nr; unlock(ml); wakeall(mc); } else for (int i = 0; i < S.nr; i++) { lock(ml); flag++; unlock(ml); wake1(mc); } for (int i = 0; i < S.nr; i++) join(t[i], NULL); if (woke != S.nr) die("%d woke up", woke); cnd_free(mc); mtx_free(ml); return 0; }
  if (S.kind == 7) { ctr = 0; for (int i = 0; i < S.nw; i++) { void *x = start(incr1, 0); if (!detach(x)) die("detaching a running thread gives false"); } return 0; }
  P = newpipe(); for (int i = 0; i < S.off; i++) { pwrite_(P, (void *)7L); pread_(P, &res); if (res != (void *)7L) die("a single item comes back as %ld", (long)res); }
  for (int i = 0; i < S.pre; i++) w(P, 1000 + i);
  int k = 0; for (int i = 0; i < S.nw; i++) t[k++] = start(writer, (void *)(long)(i + 1)); for (int i = 0; i < S.nr; i++) t[k++] = start(S.kind == 1 ? nullreader : reader, NULL);
  for (int i = 0; i < S.nw; i++) { if (join(t[i], &res) != 0) die("wait fails"); if (res != (void *)(long)(1001 + i)) die("wait gives another result"); }
  if (S.kind != 5) cl(P); for (int i = S.nw; i < k; i++) { join(t[i], &res); n += (long)res; } if (S.kind == 5) cl(P);
  long total = S.pre + S.nw * S.wn; if (S.rk < 0 && S.nr && n != total) die("%ld items read, %ld written", n, total);
  if (S.rk >= 0 || !S.nr) { long m = 0; if (r(P)) { m++; while (r(P)) m++; } if (n + m != total) die("%ld items read, %ld written", n + m, total); }
  freepipe(P); return 0; }
static int clopre; static void *closedmain(void *a) { P = newpipe(); for (int i = 0; i < clopre; i++) w(P, 1000 + i); cl(P); w(P, 5); return 0; }
static long runs;
static void explore(scen s) {
  S = s; PB = s.pb; SPB = s.spb; MEM = s.mem; plen = 0; int firstrun = 1; long n = 0; int bad = 0;
  vp_case("kind %d, ring offset %d, %d items before, %d writers of %d, %d readers, %d preemptions%s, %d spurious wake-ups", s.kind, s.off, s.pre, s.nw, s.wn, s.nr, s.pb, s.mem ? " at every memory access" : "", s.spb);
  struct timespec c0, c1; clock_gettime(CLOCK_MONOTONIC, &c0);
  do { vp_tick();
    nt = 0; nm = 0; cur = 0; preempt = spur = 0; steps = 0; fail = 0; hn = 0; clk = 0; ctr = flag = woke = 0; ppos = 0; vp_mark(); spawn(mainthr, 0);
    volatile int once = 0; int p = VP_TRY(getcontext(&root); if (!once) { once = 1; cur = 0; setcontext(&T[0].c); });
    if (ndev() > 1 || vp_shard == 0) { n++; vp_traces++; }
    if (p) { fail = "a panic"; } if (!fail && s.kind == 7 && ctr != s.nw) fail = "a detached thread didn't run once";
    if (!fail && (s.kind == 0 || s.kind == 5)) { static unsigned char d[128]; static long q[256]; memset(d, 0, sizeof d); lin_n = 0; if (!lin(d, q, 0, 0, 0, hn)) fail = "no order of the calls explains the results"; }
    if (!fail) { long l = vp_leaked(); if (l) { snprintf(failbuf, sizeof failbuf, "%ld blocks not released", l); fail = failbuf; } }
    if (fail) { vp_viol("threads", "%s: %s", fail, hist()); if (++bad >= 2) break; }
    if (firstrun) { firstrun = 0; if (!vp_shard) vp_sample("%s: first schedule %d choices, %s", vp_casebuf, plen, hist()); }
  } while (next_path()); runs += n; clock_gettime(CLOCK_MONOTONIC, &c1); if (getenv("VP_TIMES")) fprintf(stderr, "%s: %ld schedules, %.2f s\n", vp_casebuf, n, c1.tv_sec - c0.tv_sec + (c1.tv_nsec - c0.tv_nsec) / 1e9); if (vp_shard == 1) vp_sample("%s: %ld schedules in this shard", vp_casebuf, n); }
void vp_body(void) {
  BIND(start, "threads.start"); BIND(join, "threads.wait"); BIND(detach, "threads.thr_detach"); BIND(mtx_new, "threads.mtx_new"); BIND(mtx_free, "threads.mtx_free"); BIND(lock, "threads.lock"); BIND(unlock, "threads.unlock"); BIND(cnd_new, "threads.cnd_new"); BIND(cnd_free, "threads.cnd_free"); BIND(cwait, "threads.unlock_wait_lock"); BIND(wake1, "threads.wake_one"); BIND(wakeall, "threads.wake_all");
  BIND(newpipe, "threads.newpipe"); BIND(freepipe, "threads.freepipe"); BIND(pread_, "threads.pread"); BIND(pclose_, "threads.pclose"); BIND(pwrite_, "threads.pwrite");
  int th = vp_thorough;
  //            off pre nw wn nr rk  pb        spb mem kind
  scen all[] = {
    { 0, 0, 1, 1, 1, -1, th ? 5 : 4, 1, 0, 0 }, { 0, 0, 1, 2, 1, -1, th ? 4 : 3, 1, 0, 0 }, { 0, 0, 2, 1, 1, -1, th ? 4 : 3, 1, 0, 0 }, { 31, 0, 1, 2, 2, -1, th ? 3 : 2, 1, 0, 0 }, { 0, 0, 2, 1, 2, -1, 2, th ? 1 : 0, 0, 0 }, { 0, 0, 2, 1, 2, -1, 1, 1, 0, 0 }, { 30, 0, 2, 2, 2, -1, th ? 2 : 1, 0, 0, 0 },
    { 0, 32, 1, 1, 1, -1, th ? 3 : 2, 1, 0, 0 }, { 5, 32, 2, 1, 1, -1, th ? 3 : 2, 0, 0, 0 }, { 17, 31, 2, 1, 1, -1, th ? 3 : 2, 0, 0, 0 }, { 0, 32, 2, 1, 2, -1, th ? 1 : 0, th ? 1 : 0, 0, 0 }, { 0, 32, 2, 2, 1, 4, th ? 2 : 1, 1, 0, 0 }, { 0, 0, 0, 0, 3, -1, th ? 3 : 2, 1, 0, 0 }, { 0, 3, 0, 0, 3, -1, th ? 3 : 2, 1, 0, 0 }, { 0, 32, 3, 1, 1, 3, th ? 2 : 1, 1, 0, 0 }, { 31, 0, 1, 40, 1, -1, 1, 1, 0, 0 }, { 0, 0, 2, 34, 0, 0, 0, 0, 0, 9 }, { 0, 2, 2, 2, 2, 3, 2, 0, 0, 0 },
    { 0, 0, 2, 2, 2, -1, th ? 2 : 1, 0, 0, 1 }, { 0, 0, 1, 3, 3, -1, 1, th ? 1 : 0, 0, 1 },
    // preemption at every memory access
    { 0, 0, 1, 1, 1, -1, th ? 4 : 3, 0, 1, 0 }, { 31, 0, 2, 1, 1, -1, th ? 3 : 2, 0, 1, 0 }, { 0, 0, 1, 2, 2, -1, th ? 3 : 2, 0, 1, 0 }, { 0, 0, 2, 2, 2, -1, th ? 2 : 1, 0, 1, 0 }, { 0, 32, 2, 1, 1, 3, th ? 3 : 2, 0, 1, 0 }, { 0, 31, 2, 1, 1, 3, th ? 3 : 2, 0, 1, 0 }, { 0, 0, 0, 0, 3, -1, th ? 3 : 2, 1, 1, 0 }, { 0, 2, 0, 0, 2, -1, th ? 4 : 3, 0, 1, 0 }, { 0, 32, 1, 1, 2, -1, 1, 0, 1, 0 },
    // the readers finish before the pipe is closed
    { 0, 0, 1, 2, 2, 1, 2, th ? 1 : 0, 0, 5 }, { 0, 0, 2, 1, 2, 1, th ? 2 : 1, 0, 0, 5 }, { 0, 1, 1, 2, 3, 1, 1, 0, 0, 5 }, { 0, 32, 3, 1, 1, 3, 1, 0, 0, 5 }, { 0, 0, 1, 2, 2, 1, th ? 2 : 1, 0, 1, 5 }, { 31, 0, 1, 3, 3, 1, th ? 1 : 0, 0, 0, 5 },
    // locks and conditions
    { 0, 0, 2, 2, 0, 0, th ? 5 : 4, 0, 1, 2 }, { 0, 0, 3, 1, 0, 0, th ? 4 : 3, 0, 1, 2 }, { 0, 0, 0, 0, 2, 0, th ? 4 : 3, 1, 1, 3 }, { 0, 0, 0, 0, 3, 0, th ? 3 : 2, 1, 1, 3 }, { 0, 0, 0, 0, 2, 0, th ? 4 : 3, 1, 1, 4 }, { 0, 0, 0, 0, 3, 0, th ? 3 : 2, 1, 1, 4 }, { 0, 0, 3, 1, 0, 0, 2, 0, 0, 7 },
  };
  for (int i = 0; i < sizeof all / sizeof *all; i++) if (all[i].kind < 9) explore(all[i]);
  // a write to a closed pipe stops the program, whatever is in the pipe
  for (int n = 0; n <= 32; n++) { nt = 0; nm = 0; hn = 0; clk = 0; cur = 0; MEM = 0; PB = 0; SPB = 0; preempt = spur = 0; steps = 0; plen = ppos = 0; fail = 0; clopre = n; vp_case("write to a closed pipe with %d items", n); spawn(closedmain, 0); volatile int once = 0; int p = VP_TRY(getcontext(&root); if (!once) { once = 1; cur = 0; setcontext(&T[0].c); }); if (p == 0) vp_viol("threads", "writing to a closed pipe with %d items doesn't panic%s%s", n, fail ? ": " : "", fail ? fail : ""); }
}
