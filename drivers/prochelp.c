// Child process of the os/proc harness.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <dirent.h>
extern char **environ;
static void wr(int fd, const void *p, size_t n) { const char *c = p; while (n) { long k = write(fd, c, n); if (k <= 0) _exit(78); c += k; n -= k; } }
static long rd(char *b, size_t n) { struct pollfd p = { 0, POLLIN, 0 }; if (poll(&p, 1, 15000) == 0) _exit(77); return read(0, b, n); } // 77: no end of input
int main(int argc, char **argv) {
  char b[70000]; const char *m = argc > 1 ? argv[1] : "args";
  if (!strcmp(m, "cat")) { long n; while ((n = rd(b, sizeof b)) > 0) wr(1, b, n); return argc > 2 ? atoi(argv[2]) : 0; }
  if (!strcmp(m, "sum")) { long n, t = 0; unsigned h = 1; while ((n = rd(b, sizeof b)) > 0) for (long i = 0; i < n; i++) h = h * 31 + (unsigned char)b[i], t++; n = sprintf(b, "%ld %u", t, h); wr(1, b, n); return 0; }
  if (!strcmp(m, "fds")) { DIR *d = opendir("/proc/self/fd"); struct dirent *e; int me = dirfd(d); while ((e = readdir(d))) if (e->d_name[0] != '.' && atoi(e->d_name) != me) { char t[40]; sprintf(t, "%s ", e->d_name); wr(1, t, strlen(t)); } return 0; }
  if (!strcmp(m, "io")) { long n = atol(argv[2]), k = atol(argv[3]); for (long i = 0; i < n; i++) b[i % sizeof b] = i * 7, (i % sizeof b == sizeof b - 1 ? wr(1, b, sizeof b) : (void)0); wr(1, b, n % sizeof b); for (long i = 0; i < k; i++) { char c = i * 5; wr(2, &c, 1); } return atoi(argv[4]); }
  if (!strcmp(m, "sig")) { signal(atoi(argv[2]), SIG_DFL); raise(atoi(argv[2])); return 5; }
  for (int i = 0; i < argc; i++) wr(1, argv[i], strlen(argv[i]) + 1); wr(1, "|", 2); for (char **e = environ; *e; e++) wr(1, *e, strlen(*e) + 1);
  return 0; }
