// os/fs and os/self against a reference; everything happens in the current (scratch) directory.
#define _GNU_SOURCE
#include "vp.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
FN(void *, dir_open, "", (const char *)) FN(const char *, dir_next, "", (void *)) FN(void, dir_close, "", (void *)) FN(bool, realpath_, "", (const char *, char *, size_t)) FN(bool, unlink_, "", (const char *)) FN(bool, filesize, "", (const char *, size_t *)) FN(bool, is_dir, "", (const char *)) FN(char *, readfile, "", (const char *, size_t *)) FN(char *, readfile_str, "", (const char *)) FN(bool, writefile, "", (const char *, const char *, size_t)) FN(bool, file_exists, "", (const char *)) FN(const char *, fileext, "", (const char *)) FN(const char *, basename_, "", (const char *)) FN(bool, dirname_, "", (const char *, char *, size_t))
FN(bool, gethostname_, "", (char *, size_t)) FN(bool, getcwd_, "", (char *, size_t)) FN(const char *, getenv_, "", (const char *))
// ---- faults: the failat-th of these calls fails; open files and directories are counted
static int failat, ncalls, open_; static char failed[20]; static int flt(const char *n) { if (!vp_armed) return 0; ncalls++; if (failat && ncalls == failat) { snprintf(failed, 20, "%s", n); errno = EIO; return 1; } return 0; }
FILE *__real_fopen(const char *, const char *); FILE *__wrap_fopen(const char *p, const char *m) { if (flt("fopen")) return 0; FILE *f = __real_fopen(p, m); if (f && vp_armed) open_++; return f; }
int __real_fclose(FILE *); int __wrap_fclose(FILE *f) { if (vp_armed) open_--; int r = __real_fclose(f); if (flt("fclose")) return EOF; return r; }
size_t __real_fread(void *, size_t, size_t, FILE *); size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { if (flt("fread")) return n && s ? __real_fread(b, s, n / 2, f) : 0; return __real_fread(b, s, n, f); }
size_t __real_fwrite(const void *, size_t, size_t, FILE *); size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (flt("fwrite")) return __real_fwrite(b, s, n / 2, f); return __real_fwrite(b, s, n, f); }
int __real_fgetc(FILE *); int __wrap_fgetc(FILE *f) { if (flt("fgetc")) return EOF; return __real_fgetc(f); }
int __real_fseek(FILE *, long, int); int __wrap_fseek(FILE *f, long o, int w) { if (flt("fseek")) return -1; return __real_fseek(f, o, w); }
long __real_ftell(FILE *); long __wrap_ftell(FILE *f) { if (flt("ftell")) return -1; return __real_ftell(f); }
// ---- directory listings in every order
static const char *list[16]; static int nlist, lpos, fakedir; static struct dirent de;
DIR *__real_opendir(const char *); DIR *__wrap_opendir(const char *p) { if (flt("opendir")) return 0; DIR *d = __real_opendir(p); if (d && vp_armed) open_++; return d; }
int __real_closedir(DIR *); int __wrap_closedir(DIR *d) { if (vp_armed) open_--; return __real_closedir(d); }
struct dirent *__real_readdir(DIR *); struct dirent *__wrap_readdir(DIR *d) { if (!fakedir) return __real_readdir(d); if (lpos == nlist) return 0; strcpy(de.d_name, list[lpos++]); return &de; }

static void put(const char *n, const void *d, size_t len) { int f = open(n, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (write(f, d, len) != len) { perror("put"); _exit(3); } close(f); }
static char *dup_(const char *s, size_t n) { char *p = vp_raw(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
void __real_free(void *);
// ---- names
static void names(int depth) {
  static const char al[] = "a./-"; char s[12]; long idx = 0;
  for (int n = 0; n <= depth; n++) { long tot = 1; for (int i = 0; i < n; i++) tot *= 4; for (long k = 0; k < tot; k++) { if (!MINE(idx++)) continue; long q = k; for (int i = 0; i < n; i++) { s[i] = al[q % 4]; q /= 4; } s[n] = 0;
    char *p = dup_(s, n); vp_case("path %s", s); vp_states++;
    int sl = -1, dot = -1; for (int i = 0; i < n; i++) { if (s[i] == '/') { sl = i; dot = -1; } if (s[i] == '.') dot = i; }
    const char *e = fileext(p); vp_trans++; if (!e || strcmp(e, dot < 0 ? "" : s + dot + 1)) vp_viol("ext", "the extension of %s is %s", s, e ? e : "null");
    const char *b = basename_(p); if (!b || strcmp(b, s + sl + 1)) vp_viol("base", "the base name of %s is %s", s, b ? b : "null");
    char want[16]; if (sl < 0) want[0] = 0; else if (sl == 0) strcpy(want, "/"); else { memcpy(want, s, sl); want[sl] = 0; }
    for (int z = 0; z <= n + 2; z++) { char *buf = vp_raw(z ? z : 1); memset(buf, 'Z', z ? z : 1); bool ok = dirname_(p, buf, z); vp_trans++; 
      if (ok && (strlen(want) >= z || strcmp(buf, want))) vp_viol("dir", "the directory of %s in %d bytes is %s", s, z, strlen(want) >= z ? "claimed to fit" : buf);
      if (!ok && z > n) vp_viol("dir", "the directory of %s doesn't fit into %d bytes", s, z); __real_free(buf); }
    if (strcmp(p, s)) vp_viol("changed", "%s changed", s); __real_free(p); } }
}
// ---- whole files
static void check_file(const char *n, const unsigned char *d, size_t len) {
  size_t sz = 777; vp_states++; vp_mark(); open_ = 0; char *r = 0; int pan;
  pan = VP_TRY(r = readfile(n, &sz)); vp_trans++; if (pan || !r || sz != len || memcmp(r, d, len)) { vp_viol("readfile", "%s: a file of %zu bytes comes back %s with %zu bytes", n, len, pan ? "as a panic" : !r ? "null" : sz == len ? "changed" : "cut", sz); } if (r && !pan) VP_TRY(free(r));
  r = 0; pan = VP_TRY(r = readfile(n, NULL)); if (pan || !r || memcmp(r, d, len)) vp_viol("readfile", "%s: without a size, a file of %zu bytes comes back wrong", n, len); if (r && !pan) free(r);
  r = 0; pan = VP_TRY(r = readfile_str(n)); vp_trans++; if (pan || !r || memcmp(r, d, len) || r[len]) vp_viol("readfile_str", "%s: a file of %zu bytes comes back wrong or not terminated", n, len); if (r && !pan) free(r);
  sz = 777; bool ok; VP_TRY(ok = filesize(n, &sz)); if (!ok || sz != len) vp_viol("size", "%s: the size of a file of %zu bytes is %zu", n, len, sz);
  VP_TRY(ok = file_exists(n)); if (!ok) vp_viol("exists", "%s doesn't exist", n); VP_TRY(ok = is_dir(n)); if (ok) vp_viol("isdir", "file %s is a directory", n);
  if (open_) vp_viol("fd", "%d files left open", open_); long l = vp_leaked(); if (l) vp_viol("leak", "%ld blocks not released", l); }
static void check_none(const char *n) { vp_states++; vp_mark(); open_ = 0; size_t sz = 777; char *r = 0; bool ok = 1; int pan = VP_TRY(r = readfile(n, &sz)); if (pan || r) vp_viol("none", "reading %s, which isn't there, gives something", n); pan = VP_TRY(r = readfile_str(n)); if (pan || r) vp_viol("none", "reading %s, which isn't there, gives something", n);
  pan = VP_TRY(ok = filesize(n, &sz)); if (pan || ok) vp_viol("none", "%s, which isn't there, has a size", n); ok = 1; pan = VP_TRY(ok = file_exists(n)); if (pan || ok) vp_viol("none", "%s, which isn't there, exists", n); ok = 1; pan = VP_TRY(ok = is_dir(n)); if (pan || ok) vp_viol("none", "%s, which isn't there, is a directory", n);
  vp_trans += 5; if (open_) vp_viol("fd", "%d files left open", open_); long l = vp_leaked(); if (l) vp_viol("leak", "%ld blocks not released", l); }
static void rt(const unsigned char *d, size_t len) { struct stat st; vp_case("%zu bytes %s", len, vp_show(d, len > 40 ? 40 : len)); unsigned char *c = (void *)dup_((char *)d, len); bool ok = 0; open_ = 0; int pan = VP_TRY(ok = writefile("f", (char *)c, len)); vp_traces++; if (pan || !ok || open_) vp_viol("writefile", "writing %zu bytes fails", len);
  int f = open("f", O_RDONLY); unsigned char *b = vp_raw(len + 2); long n = f < 0 ? -1 : read(f, b, len + 2); if (f >= 0) close(f); if (n != len || memcmp(b, d, len)) vp_viol("writefile", "%zu bytes written as %ld", len, n); if (memcmp(c, d, len)) vp_viol("changed", "the data changed"); __real_free(b); __real_free(c); (void)st; check_file("f", d, len); }
static void files(void) {
  static unsigned char d[140000]; long idx = 0; int th = vp_thorough;
  for (int pat = 0; pat < 4; pat++) for (int n = 0; n < 132000; n++) { if (n > (th ? 1200 : 400)) { int m = n % 4096; if (n > 8200 && n % 65536 > 2 && n % 65536 < 65534) continue; if (m > 2 && m < 4094) continue; } if (!MINE(idx++)) continue; for (int i = 0; i < n; i++) d[i] = pat == 0 ? i : pat == 1 ? 0 : pat == 2 ? 255 : "\r\n\032x"[i % 4]; rt(d, n); }
  for (int a = 0; a < 256; a++) { d[0] = a; if (MINE(idx++)) rt(d, 1); static const int bs[] = { 0, 10, 13, 26, 'a', 127, 128, 254, 255 }; for (int b = 0; b < (th ? 256 : 9); b++) { d[1] = th ? b : bs[b]; if (MINE(idx++)) rt(d, 2); } }
  unlink("f"); }
// ---- all sequences of operations on two names, one of them in a directory that may be missing
typedef struct { int ex; const char *d; size_t n; } st; 
static void seqs(int depth) {
  static char big[5000]; memset(big, 'q', sizeof big); const char *names_[] = { "p", "d/q" }; struct { const char *d; size_t n; } C[] = { { "", 0 }, { "a\0\xff\n", 4 }, { big, sizeof big } };
  int nops = 10; long tot = 1; for (int i = 0; i < depth; i++) tot *= nops;
  for (long k = 0; k < tot; k++) { if (!MINE(k)) continue; unlink("p"); unlink("d/q"); rmdir("d"); st S[2] = { { 0 } }; int dir = 0; long q = k; char desc[300] = ""; vp_traces++;
    for (int i = 0; i < depth; i++) { int op = q % nops; q /= nops; bool ok = 0; int pan = 0;
      sprintf(desc + strlen(desc), "%d ", op); vp_case("operations %s(0-5 write p, d/q; 6-7 delete; 8 mkdir, 9 rmdir)", desc);
      if (op < 6) { int f = op % 2, c = op / 2; bool want = f == 0 || dir; pan = VP_TRY(ok = writefile(names_[f], C[c].d, C[c].n)); if (pan || ok != want) vp_viol("ops", "writing gives %d", ok); if (want) { S[f].ex = 1; S[f].d = C[c].d; S[f].n = C[c].n; } }
      else if (op < 8) { int f = op - 6; bool want = S[f].ex; pan = VP_TRY(ok = unlink_(names_[f])); if (pan || ok != want) vp_viol("ops", "deleting gives %d", ok); S[f].ex = 0; }
      else if (op == 8) { mkdir("d", 0755); dir = 1; } else { if (rmdir("d") == 0) dir = 0; }
      if (i < depth - 1 && i > 0) continue; // observed by shorter sequences
      for (int f = 0; f < 2; f++) if (S[f].ex) check_file(names_[f], (void *)S[f].d, S[f].n); else check_none(names_[f]);
      ok = !dir; VP_TRY(ok = is_dir("d")); if (ok != dir) vp_viol("isdir", "the directory d %s", dir ? "isn't there" : "is there"); size_t sz; char *r = (char *)1; if (dir) { vp_mark(); open_ = 0; pan = VP_TRY(r = readfile("d", &sz)); if (pan || r) vp_viol("isdir", "a directory is read as a file"); r = (char *)1; pan = VP_TRY(r = readfile_str("d")); if (pan || r) vp_viol("isdir", "a directory is read as a file"); VP_TRY(ok = writefile("d", "x", 1)); if (ok) vp_viol("isdir", "a directory is written as a file"); if (vp_leaked() || open_) vp_viol("leak", "something isn't released"); }
    } }
  unlink("p"); unlink("d/q"); rmdir("d"); }
// ---- every i/o call fails
static void faults(void) {
  static char d[300]; memset(d, 'k', sizeof d); int sizes[] = { 0, 1, 2, 7, 300 };
  for (int si = 0; si < 5; si++) { int n = sizes[si]; if (!MINE(si)) continue;
    for (int what = 0; what < 4; what++) for (int at = 1; at < 400; at++) { put("g", d, n); vp_case("call %d of %s of %d bytes fails", at, what == 0 ? "writefile" : what == 1 ? "readfile" : what == 2 ? "readfile_str" : "dir_open", n); vp_mark(); open_ = 0; ncalls = 0; failat = at; failed[0] = 0; bool ok = 0; char *r = 0; size_t sz = 9; void *D = 0; int pan; vp_states++; vp_traces++;
      if (what == 0) { pan = VP_TRY(ok = writefile("g2", d, n)); } else if (what == 1) { pan = VP_TRY(r = readfile("g", &sz)); ok = r != 0; } else if (what == 2) { pan = VP_TRY(r = readfile_str("g")); ok = r != 0; } else { pan = VP_TRY(D = dir_open(".")); ok = D != 0; }
      failat = 0; vp_trans++; int did = failed[0] != 0; if (pan) vp_viol("fault", "panics when %s fails", failed); else if (did && ok && what == 1 && (sz != n || memcmp(r, d, n))) vp_viol("fault", "wrong content when %s fails", failed); else if (did && ok && what == 2 && strlen(r) != n) vp_viol("fault", "wrong content when %s fails", failed); else if (did && ok && what == 0 && n > 0) vp_viol("fault", "success is reported when %s fails", failed); else if (did && ok && what == 3) vp_viol("fault", "success is reported when %s fails", failed); else if (!did && !ok) vp_viol("fault", "fails without a fault");
      if (!pan) { if (r) VP_TRY(free(r)); if (D) VP_TRY(dir_close(D)); if (open_) vp_viol("fd", "%d files left open when %s fails", open_, failed); if (vp_leaked()) vp_viol("leak", "%ld blocks not released when %s fails", vp_leaked(), failed); } if (!did) break; } }
  unlink("g"); unlink("g2"); }
// ---- directories
static void perms(const char **n, int k, unsigned used, int m, int max) {
  static long idx; if (m == max) { if (!MINE(idx++)) return; nlist = m; lpos = 0; fakedir = 1; char want[200] = "", got[600] = ""; char desc[200] = ""; for (int i = 0; i < m; i++) { sprintf(desc + strlen(desc), "%s ", list[i]); if (strcmp(list[i], ".") && strcmp(list[i], "..")) sprintf(want + strlen(want), "%s ", list[i]); } vp_case("directory listed as %s", desc); vp_states++; vp_traces++; vp_mark(); open_ = 0; void *D = 0; const char *e;
    VP_TRY(D = dir_open(".")); if (!D) vp_viol("dir", "can't be opened"); else { for (int i = 0; i < 20; i++) { e = 0; VP_TRY(e = dir_next(D)); vp_trans++; if (!e) break; sprintf(got + strlen(got), "%s ", e); } VP_TRY(dir_close(D)); if (strcmp(got, want)) vp_viol("dir", "%sis listed as %s", want, got); } fakedir = 0; if (open_ || vp_leaked()) vp_viol("leak", "a directory isn't released"); return; }
  for (int i = 0; i < k; i++) if (!(used >> i & 1)) { list[m] = n[i]; perms(n, k, used | 1u << i, m + 1, max); } }
static void dirs(void) {
  static const char *nm[] = { ".", "..", "a", "...", ".b", "..c" }; for (int m = 0; m <= (vp_thorough ? 6 : 5); m++) perms(nm, 6, 0, 0, m);
  if (vp_shard) return; const char *real[] = { "x", ".y", "z.c", "..." }; for (int set = 0; set < 16; set++) { mkdir("rd", 0755); for (int i = 0; i < 4; i++) if (set >> i & 1) { char b[40]; sprintf(b, "rd/%s", real[i]); put(b, "", 0); } vp_case("directory with set %d", set); int seen = 0; void *D = dir_open("rd"); const char *e; if (!D) vp_viol("dir", "can't be opened"); else { while ((e = dir_next(D))) { int k = -1; for (int i = 0; i < 4; i++) if (!strcmp(e, real[i])) k = i; if (k < 0 || seen >> k & 1) vp_viol("dir", "lists %s", e); else seen |= 1 << k; } dir_close(D); if (seen != set) vp_viol("dir", "lists %d of %d", seen, set); } for (int i = 0; i < 4; i++) { char b[40]; sprintf(b, "rd/%s", real[i]); unlink(b); } rmdir("rd"); }
  vp_mark(); if (dir_open("nosuch")) vp_viol("dir", "a missing directory opens"); put("reg", "x", 1); if (dir_open("reg")) vp_viol("dir", "a file opens as a directory"); unlink("reg"); if (vp_leaked()) vp_viol("leak", "failed opening loses memory"); }
// ---- real paths, own process
static void paths(void) {
  if (vp_shard != 1 % vp_nshards) return; char cwd[4000]; if (!getcwd(cwd, sizeof cwd)) _exit(3);
  for (int z = 0; z <= strlen(cwd) + 3; z++) { vp_case("getcwd with %d bytes", z); char *b = vp_raw(z ? z : 1); bool ok = getcwd_(b, z); vp_states++; if (z == 0) {} else if (ok != (z > strlen(cwd)) || (ok && strcmp(b, cwd))) vp_viol("cwd", "the current directory is wrong"); __real_free(b); }
  char host[300]; gethostname(host, sizeof host); for (int z = 1; z <= strlen(host) + 3; z++) { vp_case("gethostname with %d bytes", z); char *b = vp_raw(z); bool ok = gethostname_(b, z); vp_states++; if (ok ? z <= strlen(host) || strcmp(b, host) : z > strlen(host)) vp_viol("host", "the host name is wrong in %d bytes", z); __real_free(b); }
  const char *ev[] = { "", "x", "a=b", " sp ", "\xff\x01" }; for (int i = 0; i < 5; i++) { setenv("VPT_A", ev[i], 1); const char *g = getenv_("VPT_A"); vp_case("environment %d", i); vp_states++; if (!g || strcmp(g, ev[i])) vp_viol("env", "a variable is read as %s", g ? g : "null"); } unsetenv("VPT_A"); if (getenv_("VPT_A") || getenv_("VPT")) vp_viol("env", "a missing variable has a value");
  mkdir("rp", 0755); mkdir("rp/in", 0755); put("rp/f", "x", 1); if (symlink("in", "rp/ln")) {} if (symlink("nowhere", "rp/bad")) {} if (symlink("loop", "rp/loop")) {}
  struct { const char *p, *w; } t[] = { { ".", "" }, { "rp", "/rp" }, { "rp/", "/rp" }, { "rp/f", "/rp/f" }, { "rp/in/../f", "/rp/f" }, { "./rp/./ln", "/rp/in" }, { "rp/ln/..", "/rp" }, { "rp//in", "/rp/in" }, { "rp/in/../../rp/ln/../f", "/rp/f" }, { "rp/bad", 0 }, { "rp/loop", 0 }, { "nosuch", 0 }, { "rp/f/x", 0 }, { "", 0 }, { "rp/in/../../nosuch", 0 } };
  for (int i = 0; i < sizeof t / sizeof *t; i++) { char want[4100]; int L = 0; if (t[i].w) L = sprintf(want, "%s%s", cwd, t[i].w); for (int z = 0; z <= L + 3; z++) { vp_case("real path of '%s' in %d bytes", t[i].p, z); char *b = vp_raw(z ? z : 1); b[0] = 'Z'; bool ok = 0; VP_TRY(ok = realpath_(t[i].p, b, z)); vp_states++; vp_trans++; if (ok ? !t[i].w || z <= L || strcmp(b, want) : t[i].w && z > L) vp_viol("realpath", "gives %s", ok ? "another path" : "nothing"); __real_free(b); } }
  struct { const char *p; int d; } dd[] = { { "rp", 1 }, { "rp/", 1 }, { "rp/in", 1 }, { "rp/ln", 1 }, { "rp/ln/", 1 }, { "rp/f", 0 }, { "rp/bad", 0 }, { "rp/loop", 0 }, { "rp/none", 0 }, { ".", 1 }, { "", 0 }, { "rp/f/", 0 } }; for (int i = 0; i < 12; i++) { vp_case("whether '%s' is a directory", dd[i].p); vp_states++; bool ok = !dd[i].d; if (VP_TRY(ok = is_dir(dd[i].p)) || ok != dd[i].d) vp_viol("isdir", "is_dir says %d", ok); }
  unlink("rp/f"); unlink("rp/ln"); unlink("rp/bad"); unlink("rp/loop"); rmdir("rp/in"); rmdir("rp");
  static const long M[] = { 1048575, 1048576, 1048577, 3000000, 16777216, 16777217, 40000000 }; for (int i = 0; i < 7; i++) { unsigned char *d = vp_raw(M[i]); for (long j = 0; j < M[i]; j++) d[j] = j * 7 + (j >> 8) + (j >> 16); put("big", d, M[i]); vp_case("a file of %ld bytes", M[i]); vp_states++; vp_tick(); vp_mark(); open_ = 0; char *r = 0; size_t sz = 0; int pan = VP_TRY(r = readfile("big", &sz)); if (pan || !r || sz != M[i] || memcmp(r, d, sz)) vp_viol("big", "%zu bytes read, or other bytes", sz); free(r); r = 0; pan = VP_TRY(r = readfile_str("big")); if (pan || !r || memcmp(r, d, M[i]) || r[M[i]]) vp_viol("bigstr", "readfile_str of a file of %ld bytes gives other bytes", M[i]); if (!pan) free(r); bool ok = 0; pan = VP_TRY(ok = writefile("big2", (char *)d, M[i])); struct stat st; if (pan || !ok || stat("big2", &st) || st.st_size != M[i]) vp_viol("bigwrite", "writing %ld bytes fails", M[i]); else { FILE *f = fopen("big2", "rb"); unsigned char *e = vp_raw(M[i]); if (fread(e, 1, M[i], f) != (size_t)M[i] || memcmp(d, e, M[i])) vp_viol("bigwrite", "other bytes written"); __real_free(e); fclose(f); } unlink("big2"); if (vp_leaked()) vp_viol("leak", "readfile: blocks not released"); __real_free(d); unlink("big"); }
  // files over 2 GB: all or nothing
  static const long S[] = { 0x7fffffffL + 1, 0xffffffffL, 0x100000000L, 0x100000005L, 0x100001000L, 0x180000000L }; for (int i = 0; i < 6; i++) { put("big", "", 0); if (truncate("big", S[i])) { unlink("big"); continue; } vp_case("a file of %ld bytes", S[i]); vp_states++; size_t sz = 0; bool ok = filesize("big", &sz); if (!ok || sz != S[i]) vp_viol("big", "its size is %zu", sz); vp_mark(); open_ = 0; char *r = 0; sz = 0; VP_TRY(r = readfile("big", &sz)); if (r && sz != S[i]) vp_viol("big", "%zu bytes of it are read as the whole", sz); if (r) free(r); if (open_) vp_viol("big", "it stays open"); if (vp_leaked()) vp_viol("big", "memory is lost"); unlink("big"); }
}
void vp_body(void) {
  BIND(dir_open, "fs.dir_open"); BIND(dir_next, "fs.dir_next"); BIND(dir_close, "fs.dir_close"); BIND(realpath_, "fs.realpath"); BIND(unlink_, "fs.unlink"); BIND(filesize, "fs.filesize"); BIND(is_dir, "fs.is_dir"); BIND(readfile, "fs.readfile"); BIND(readfile_str, "fs.readfile_str"); BIND(writefile, "fs.writefile"); BIND(file_exists, "fs.file_exists"); BIND(fileext, "fs.fileext"); BIND(basename_, "fs.basename"); BIND(dirname_, "fs.dirname"); BIND(gethostname_, "self.gethostname"); BIND(getcwd_, "self.getcwd"); BIND(getenv_, "self.getenv");
  vp_sample("fileext(a.b/c) = \"%s\", basename(a/b/) = \"%s\"", fileext("a.b/c"), basename_("a/b/"));
  names(vp_thorough ? 9 : 7); files(); for (int d = 1; d <= (vp_thorough ? 5 : 4); d++) seqs(d); faults(); dirs(); paths();
}
