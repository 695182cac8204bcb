// os/proc: child processes with pipes, and jobs in parallel.
#define _GNU_SOURCE
#include "vp.h"
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
FN(void *, spawn, "", (char **, char **)) FN(bool, wait_, "", (void *, int *)) FN(void, parallel, "", (int (*)(void *), void **)) FN(void *, p_in, "", (void *)) FN(void *, p_out, "", (void *)) FN(void *, p_err, "", (void *)) FN(int, p_pid, "", (void *)) FN(int, wr, "", (void *, const uint8_t *, size_t)) FN(void, wfree, "", (void *)) FN(int, rd, "", (void *, uint8_t *, size_t))
static char *H; static char *noenv[] = { 0 };
static int pfail, nfork; int __real_pipe(int *); int __wrap_pipe(int *p) { if (pfail && --pfail == 0) { errno = EMFILE; return -1; } return __real_pipe(p); } int __real_pipe2(int *, int); int __wrap_pipe2(int *p, int f) { if (pfail && --pfail == 0) { errno = EMFILE; return -1; } return __real_pipe2(p, f); }
pid_t __real_fork(void); pid_t __wrap_fork(void) { if (nfork && --nfork == 0) { errno = EAGAIN; return -1; } return __real_fork(); }
static long fds(void) { long n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void cloexec(void) { for (int i = 3; i < 100; i++) { int f = fcntl(i, F_GETFD); if (f >= 0) fcntl(i, F_SETFD, f | FD_CLOEXEC); } }
static long drain(void *r, unsigned char *b, size_t cap, int chunk) { size_t n = 0; for (;;) { int k = rd(r, b + n, chunk < cap - n ? chunk : cap - n); if (k <= 0) return n; n += k; if (n == cap) return n; } }
static unsigned char buf[400000], ebuf[100000];
static void chk(long f0) { long f1 = fds(); if (f1 != f0) vp_viol("fds", "%ld file descriptors left open", f1 - f0); long l = vp_leaked(); if (l) vp_viol("leak", "%ld blocks not released", l); }
// ---- arguments and environment
static void args(void) {
  static char *V[] = { "a", "", " ", "a b", "\"q'", "$HOME", "*", "-n", "\xff\n", "=" }; int nv = vp_thorough ? 10 : 7; long idx = 0; long f0 = fds();
  for (int n = 0; n <= 3; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= nv; for (int k = 0; k < tot; k++) for (int e = 0; e <= (n < 2 ? 3 : 1); e++) { if (n == 3 && k % (vp_thorough ? 2 : 7)) continue; if (!MINE(idx++)) continue;
    char *av[6] = { H, "args" }; int q = k; for (int i = 0; i < n; i++) { av[2 + i] = V[q % nv]; q /= nv; } static char *EV[] = { "A=1", "EMPTY=", "B=x y=z" }; char *ev[4] = { 0 }; for (int i = 0; i < e; i++) ev[i] = EV[i];
    static char want[9000]; size_t w = 0; for (int i = 0; i < n + 2; i++) { strcpy(want + w, av[i]); w += strlen(av[i]) + 1; } want[w++] = '|'; want[w++] = 0; for (int i = 0; i < e; i++) { strcpy(want + w, ev[i]); w += strlen(ev[i]) + 1; }
    vp_case("%d arguments, set %d, %d variables", n, k, e); if (vp_nviol > 2) return; vp_states++; vp_traces++; vp_mark(); void *p = spawn(av, ev); if (!p) { vp_viol("spawn", "fails"); continue; } wfree(p_in(p)); size_t got = drain(p_out(p), buf, sizeof buf, 4096); int st = -1; bool ok = wait_(p, &st); vp_trans += 3; if (!ok || st) vp_viol("status", "waiting gives %d, status %d", ok, st); if (got != w || memcmp(buf, want, w)) vp_viol("args", "the process sees %s", vp_show(buf, got)); chk(f0); } } }
// ---- exit statuses, signals, missing programs
static void statuses(void) { long f0 = fds(); char num[10];
  for (int c = 0; c < 256; c++) if (MINE(c)) { sprintf(num, "%d", c); char *av[] = { H, "io", "3", "2", num, 0 }; vp_case("exit status %d", c); vp_states++; vp_mark(); void *p = spawn(av, noenv); if (!p) { vp_viol("spawn", "fails"); continue; } wfree(p_in(p)); int st = -1; int pid = p_pid(p); if (pid <= 0) vp_viol("pid", "the pid is %d", pid); bool ok = wait_(p, &st); vp_trans++; if (!ok || !WIFEXITED(st) || WEXITSTATUS(st) != c) vp_viol("status", "waiting gives %d, status %x", ok, st); chk(f0); }
  int sg[] = { SIGTERM, SIGKILL, SIGINT, SIGUSR1, SIGPIPE, SIGHUP }; for (int i = 0; i < 6; i++) if (MINE(i)) { sprintf(num, "%d", sg[i]); char *av[] = { H, "sig", num, 0 }; vp_case("signal %d", sg[i]); vp_states++; vp_mark(); void *p = spawn(av, noenv); if (!p) continue; wfree(p_in(p)); int st = -1; bool ok = wait_(p, &st); if (!ok || !WIFSIGNALED(st) || WTERMSIG(st) != sg[i]) vp_viol("status", "waiting gives %d, status %x", ok, st); chk(f0); }
  const char *bad[] = { "/nosuch/prog", "", "/", "/dev/null", "nosuch" }; for (int i = 0; i < 5; i++) if (MINE(i)) { char *av[] = { (char *)bad[i], "x", 0 }; vp_case("a program '%s' that can't be run", bad[i]); vp_states++; vp_mark(); printf("LEFTOVER"); void *p = spawn(av, noenv); if (!p) { chk(f0); continue; } wfree(p_in(p)); long n = drain(p_out(p), buf, sizeof buf, 999); int st = -1; bool ok = wait_(p, &st); if (!ok || st == 0) vp_viol("exec", "waiting gives %d, status %x", ok, st); if (n) vp_viol("exec", "something is written to its output: %s", vp_show(buf, n)); chk(f0); } }
// ---- data through the pipes
static void data(void) { long f0 = fds(); long idx = 0; static const int N[] = { 0, 1, 2, 3, 100, 4095, 4096, 4097, 65535, 65536, 65537, 70000, 140001, 300000 }; static const int C[] = { 1, 7, 4096, 100000 }; char n1[20], n2[20];
  for (int i = 0; i < 14; i++) for (int k = 0; k < 4; k++) for (int e = 0; e < 3; e++) { if (C[k] < 7 && N[i] > 5000) continue; if (!MINE(idx++)) continue; int E = e == 0 ? 0 : e == 1 ? 9 : 3000; sprintf(n1, "%d", N[i]); sprintf(n2, "%d", E); char *av[] = { H, "io", n1, n2, "0", 0 }; vp_case("%d bytes of output and %d of errors in chunks of %d", N[i], E, C[k]); if (vp_nviol > 2) return; vp_states++; vp_traces++; vp_mark(); void *p = spawn(av, noenv); if (!p) { vp_viol("spawn", "fails"); continue; } wfree(p_in(p)); long a = drain(p_out(p), buf, sizeof buf, C[k]), b = drain(p_err(p), ebuf, sizeof ebuf, C[k]); int st = -1; bool ok = wait_(p, &st); vp_trans += 3; int bad = a != N[i] || b != E; for (long j = 0; j < a && !bad; j++) if (buf[j] != (unsigned char)(j * 7)) bad = 1; for (long j = 0; j < b && !bad; j++) if (ebuf[j] != (unsigned char)(j * 5)) bad = 1; if (bad || !ok || st) vp_viol("data", "%ld bytes and %ld errors arrive, status %x", a, b, st); chk(f0); }
  for (int n = 0; n <= 300; n++) for (int pat = 0; pat < 2; pat++) { if (!MINE(idx++)) continue; char *av[] = { H, "cat", 0 }; vp_case("%d bytes of input, pattern %d", n, pat); if (vp_nviol > 2) return; vp_states++; vp_traces++; vp_mark(); void *p = spawn(av, noenv); if (!p) continue; for (int j = 0; j < n; j++) ebuf[j] = pat ? 255 - j : j; int half = n / 3; int w = n ? wr(p_in(p), ebuf, half) : 0; if (n) w += wr(p_in(p), ebuf + half, n - half); if (w != n) vp_viol("data", "%d bytes accepted", w); wfree(p_in(p)); long a = drain(p_out(p), buf, sizeof buf, 77); int st = -1; bool ok = wait_(p, &st); vp_trans += 4; if (a != n || memcmp(buf, ebuf, n) || !ok || st) vp_viol("data", "%ld come back, status %x", a, st); chk(f0); } }
// large inputs, in pieces of every kind: all of it arrives
static void bigin(void) { long f0 = fds(); long idx = 0; static const int N[] = { 4095, 4096, 4097, 65535, 65536, 65537, 100000, 131072, 200000, 399999 }; static const int C[] = { 999, 4096, 65536, 65537, 400000 };
  for (int i = 0; i < 10; i++) for (int k = 0; k < 5; k++) { if (!MINE(idx++)) continue; char *av[] = { H, "sum", 0 }; vp_case("%d bytes of input in pieces of %d", N[i], C[k]); if (vp_nviol > 2) return; vp_states++; vp_traces++; unsigned h = 1; for (int j = 0; j < N[i]; j++) { buf[j] = j * 11 + j / 256; h = h * 31 + buf[j]; } vp_mark(); void *p = spawn(av, noenv); if (!p) { vp_viol("spawn", "fails"); continue; } int n = 0; while (n < N[i]) { int m = N[i] - n < C[k] ? N[i] - n : C[k]; int w = wr(p_in(p), buf + n, m); vp_trans++; if (w <= 0 || w > m) { vp_viol("bigin", "writing %d bytes gives %d", m, w); break; } n += w; } wfree(p_in(p)); char want[60]; int L = sprintf(want, "%d %u", N[i], h); size_t got = drain(p_out(p), ebuf, sizeof ebuf, 4096); int st = -1; bool ok = wait_(p, &st); if (!ok || st) vp_viol("status", "waiting gives %d, status %d", ok, st); if (got != L || memcmp(ebuf, want, L)) vp_viol("bigin", "the process got %s, not %s", vp_show(ebuf, got), want); chk(f0); } }
// ---- every interleaving of the lives of two processes; streams used or not
static void two(void) { long f0 = fds(); long idx = 0;
  for (int m = 0; m < 1024; m++) { if (__builtin_popcount(m) != 5) continue; if (!MINE(idx++)) continue; if (vp_nviol > 2) return; int step[2] = { 0 }; void *P[2]; char desc[40] = ""; vp_states++; vp_traces++; vp_mark(); int pend = 0;
    for (int i = 0; i < 10; i++) { int x = m >> i & 1; sprintf(desc + strlen(desc), "%c%d ", 'A' + x, step[x]); vp_case("two processes: %s(0 spawn, 1 write, 2 close input, 3 read, 4 wait)", desc); vp_trans++; char msg[20]; int L = sprintf(msg, "to %c %d", 'A' + x, m);
      switch (step[x]++) { case 0: { char *av[] = { H, "cat", x ? "9" : "5", 0 }; P[x] = spawn(av, noenv); if (!P[x]) { vp_viol("spawn", "fails"); return; } break; }
        case 1: if (wr(P[x] ? p_in(P[x]) : 0, (uint8_t *)msg, L) != L) vp_viol("two", "the input isn't accepted"); break; case 2: wfree(p_in(P[x])); break;
        case 3: { long n = drain(p_out(P[x]), buf, sizeof buf, 4096); if (n != L || memcmp(buf, msg, L)) vp_viol("two", "%c's output is %s", 'A' + x, vp_show(buf, n)); break; }
        case 4: { int st = -1; for (int y = 0; y < 2; y++) if (step[y] >= 3 && step[y] <= 5 && !(y != x && step[y] == 5)) { siginfo_t si; waitid(P_PID, p_pid(P[y]), &si, WEXITED | WNOWAIT); } bool ok = wait_(P[x], &st); if (!ok || !WIFEXITED(st) || WEXITSTATUS(st) != (x ? 9 : 5)) vp_viol("two", "%c ends with %d, status %x%s", 'A' + x, ok, st, WIFEXITED(st) && WEXITSTATUS(st) == 77 ? ": its input never ended" : ""); } } }
    (void)pend; chk(f0); } }
// ---- what the process inherits; with any of the standard streams closed in the parent
static void inherit(void) { if (vp_shard != 2 % vp_nshards) return;
  for (int mask = 0; mask < 8; mask++) { vp_case("parent with standard streams %d closed", mask); vp_states++; vp_traces++; int res[2]; if (__real_pipe(res)) _exit(3); int pid = __real_fork();
    if (pid == 0) { close(res[0]); int r = dup2(res[1], 50); cloexec(); for (int i = 0; i < 3; i++) if (mask >> i & 1) close(i); char *av[] = { H, "fds", 0 }; void *p = spawn(av, noenv); char o[300]; int n; if (!p) n = sprintf(o, "no process"); else { wfree(p_in(p)); long k = drain(p_out(p), buf, 200, 200); int st = -1; bool ok = wait_(p, &st); n = sprintf(o, "%.*s/%d/%d", (int)k, buf, ok, st); } if (write(r, o, n)) {} _exit(0); }
    close(res[1]); char o[300]; int n = read(res[0], o, 299); o[n < 0 ? 0 : n] = 0; close(res[0]); int st; waitpid(pid, &st, 0); if (strcmp(o, "0 1 2 /1/0")) vp_viol("inherit", "the process has descriptors, result, status: %s", o); } }
static void faults(void) { if (vp_shard != 3 % vp_nshards) return; long f0 = fds(); char *av[] = { H, "cat", 0 };
  for (int k = 1; k <= 4; k++) { vp_case("pipe %d fails", k); vp_states++; vp_mark(); pfail = k; void *p = spawn(av, noenv); int did = pfail == 0; pfail = 0; if (did && p) vp_viol("fault", "a process without a pipe"); if (!did && !p) vp_viol("fault", "no process"); if (p) { wfree(p_in(p)); int st; wait_(p, &st); } chk(f0); }
  vp_case("fork fails"); vp_mark(); nfork = 1; void *p = spawn(av, noenv); int did = nfork == 0; nfork = 0; if (did && p) vp_viol("fault", "a process without a fork"); if (p) { wfree(p_in(p)); int st; wait_(p, &st); } chk(f0); }
// ---- parallel
typedef struct { volatile int run[200], fin[200], cnt, max, over; volatile int prio[200]; volatile int n; int how; } shm; static shm *S;
static int job(void *a) { vp_armed = 0; int i = (int)(long)a - 1; int c = __sync_add_and_fetch(&S->cnt, 1); int m; while ((m = S->max) < c && !__sync_bool_compare_and_swap(&S->max, m, c)) {} __sync_add_and_fetch(&S->run[i], 1);
  int quiet = 0, last = -1; for (int spin = 0; spin < 4000 || (S->n > 1 && S->max < 2 && spin < 30000); spin++) { if (S->n > 1 && S->max < 2) { usleep(300); continue; } int lower = 0, started = 0; for (int j = 0; j < S->n; j++) { if (S->run[j] && !S->fin[j]) { started++; if (S->prio[j] < S->prio[i]) lower = 1; } } if (started != last) { last = started; quiet = 0; } if (!lower && ++quiet > 2) break; usleep(300); }
  __sync_sub_and_fetch(&S->cnt, 1); S->fin[i] = 1; if (S->how == 1) return i * 37 & 255; if (S->how == 2 && i % 3 == 1) raise(SIGKILL); return 0; }
static void par1(int n, int how, int foreign) { S->n = n; S->how = how; S->cnt = S->max = 0; for (int i = 0; i < 200; i++) S->run[i] = S->fin[i] = 0; static void *jobs[202]; for (int i = 0; i < n; i++) jobs[i] = (void *)(long)(i + 1); jobs[n] = 0; if (vp_nviol > 2) return; vp_states++; vp_traces++; vp_mark(); int fp = 0; 
  if (foreign) { fp = __real_fork(); if (fp == 0) { usleep(1500); _exit(3); } }
  int p = VP_TRY(parallel(job, jobs)); if (p) { vp_viol("parallel", "panics"); } int notyet = 0, wrong = 0; for (int i = 0; i < n; i++) { if (!S->fin[i]) notyet++; if (S->run[i] != 1) wrong++; } if (notyet) vp_viol("parallel", "returns before %d of %d jobs have finished", notyet, n); if (wrong) vp_viol("parallel", "%d of %d jobs don't run once", wrong, n); if (S->max > 8) vp_viol("parallel", "%d jobs run at a time", S->max); if (n > 1 && S->max < 2) vp_viol("parallel", "the jobs run one at a time");
  for (int t = 0; t < 3000 && S->cnt > 0 && how != 2; t++) usleep(1000); int st; while (waitpid(-1, &st, foreign && notyet ? 0 : WNOHANG) > 0 && foreign) {} if (!foreign && waitpid(-1, &st, WNOHANG) != -1) vp_viol("parallel", "a child process is left over"); if (vp_leaked()) vp_viol("leak", "memory is lost"); vp_trans += n; }
static int perm[8]; static long pidx; static void allperm(int k, int n, unsigned used) { if (k == n) { if (!MINE(pidx++)) return; for (int i = 0; i < n; i++) S->prio[i] = perm[i]; vp_case("%d jobs, finishing order %d %d %d %d %d", n, perm[0], n > 1 ? perm[1] : 0, n > 2 ? perm[2] : 0, n > 3 ? perm[3] : 0, n > 4 ? perm[4] : 0); par1(n, pidx % 3, 0); return; } for (int i = 0; i < n; i++) if (!(used >> i & 1)) { perm[k] = i; allperm(k + 1, n, used | 1u << i); } }
static int pjob(void *a) { vp_armed = 0; printf("job%ld ", (long)a); return 0; }
static void par(void) { S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); int th = vp_thorough;
  for (int n = 0; n <= (th ? 5 : 4); n++) allperm(0, n, 0); long idx = 0;
  for (int n = 5; n <= (th ? 40 : 20); n++) for (int r = 0; r < 4; r++) { if (!MINE(idx++)) continue; for (int i = 0; i < n; i++) S->prio[i] = r == 0 ? i : r == 1 ? n - i : r == 2 ? (i * 7) % n : (i % 2 ? i : n - i); vp_case("%d jobs, order %d", n, r); par1(n, r % 3, 0); }
  for (int n = 0; n <= 12; n++) { if (!MINE(idx++)) continue; for (int i = 0; i < n; i++) S->prio[i] = i; vp_case("%d jobs and another child process that ends meanwhile", n); par1(n, 0, 1); }
  // what was printed before is printed once
  for (int n = 0; n <= 12; n++) { if (!MINE(idx++)) continue; vp_case("%d jobs after some unflushed output", n); vp_states++; vp_traces++; int pid = __real_fork(); if (pid == 0) { int f = open("po", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(f, 1); setvbuf(stdout, 0, _IOFBF, 8192); printf("before "); void *jobs[20] = { 0 }; for (int i = 0; i < n; i++) jobs[i] = (void *)(long)(i + 10); parallel(pjob, jobs); printf("after"); fflush(stdout); _exit(0); }
    int st; waitpid(pid, &st, 0); FILE *f = fopen("po", "r"); int k = f ? fread(buf, 1, 5000, f) : 0; buf[k] = 0; if (f) fclose(f); unlink("po"); int bad = k != 7 + 6 * n + 5 || strncmp((char *)buf, "before ", 7) || (k > 4 && strcmp((char *)buf + k - 5, "after")); for (int i = 0; i < n && !bad; i++) { char t[20]; sprintf(t, "job%d ", i + 10); if (!strstr((char *)buf, t)) bad = 1; } if (bad) vp_viol("parallel", "the output is %s", buf); } }
void vp_body(void) {
  BIND(spawn, "proc.spawn"); BIND(wait_, "proc.wait"); BIND(parallel, "proc.parallel"); BIND(p_in, "p_in"); BIND(p_out, "p_out"); BIND(p_err, "p_err"); BIND(p_pid, "p_pid"); BIND(wr, "writer.write"); BIND(wfree, "writer.free"); BIND(rd, "reader.read"); H = getenv("VP_HELPER"); cloexec(); signal(SIGPIPE, SIG_IGN); vp_quiet(1); cloexec();
  const char *part = getenv("VP_PART"); if (!strcmp(part, "parallel")) { par(); return; }
  args(); statuses(); data(); bigin(); two(); if (vp_nviol > 2) return; inherit(); faults(); }
