// Fork server around a program's main (renamed to vp_prog_main): runs it on many inputs.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
int vp_prog_main(int argc, char **argv);
static uint32_t u32(FILE *f) { uint32_t v = 0; if (fread(&v, 4, 1, f) != 1) return -1; return v; }
static void dump(FILE *o, int fd) { long n = lseek(fd, 0, SEEK_END); uint32_t k = n; fwrite(&k, 4, 1, o); char *b = malloc(n + 1); lseek(fd, 0, SEEK_SET); for (long p = 0; p < n;) { long r = read(fd, b + p, n - p); if (r <= 0) break; p += r; } fwrite(b, 1, n, o); free(b); }
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb"), *o = fopen(argv[2], "wb"); int shard = atoi(argv[3]), ns = atoi(argv[4]), tmo = atoi(argv[5]);
  int hung = 0;
  for (uint32_t idx = 0;; idx++) { uint32_t na = u32(f); if (na == (uint32_t)-1) break; char *av[200] = { 0 }; for (uint32_t i = 0; i < na; i++) { uint32_t n = u32(f); av[i] = calloc(n + 1, 1); if (n) fread(av[i], 1, n, f); } uint32_t n = u32(f); char *in = malloc(n + 1); if (n) fread(in, 1, n, f);
    if (idx % ns == shard) { int fd[3]; for (int i = 0; i < 3; i++) fd[i] = memfd_create("x", 0); for (uint32_t p = 0; p < n;) { long r = write(fd[0], in + p, n - p); if (r <= 0) break; p += r; } lseek(fd[0], 0, SEEK_SET); fflush(o);
      if (hung >= 3) { int32_t rc = -1000; fwrite(&idx, 4, 1, o); fwrite(&rc, 4, 1, o); dump(o, fd[1]); dump(o, fd[2]); for (int i = 0; i < 3; i++) close(fd[i]); goto next; }   /* enough seen: the rest is not run */
      int pid = fork(); if (pid == 0) { for (int i = 0; i < 3; i++) dup2(fd[i], i); for (int i = 3; i < 20; i++) close(i); struct rlimit lim = { 64 << 20, 64 << 20 }; setrlimit(RLIMIT_FSIZE, &lim); alarm(tmo); exit(vp_prog_main(na, av)); }
      int st; waitpid(pid, &st, 0); if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXFSZ)) hung++; int32_t rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); fwrite(&idx, 4, 1, o); fwrite(&rc, 4, 1, o); dump(o, fd[1]); dump(o, fd[2]); for (int i = 0; i < 3; i++) close(fd[i]); }
    next:;
    for (uint32_t i = 0; i < na; i++) free(av[i]); free(in); }
  fclose(o); return 0; }
