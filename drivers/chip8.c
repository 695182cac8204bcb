// prog/emu: the CHIP-8 machine and its disassembler, against a reference machine that runs the same programs.
#define _GNU_SOURCE
#include "vp.h"
#include <sys/wait.h>
#include <signal.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <time.h>
FN(int, c8run, "", (char *))
FN(int, c8disas, "", (char *))
typedef uint8_t B; typedef uint16_t W;

// the child ends after so many instructions: one sleep each
static long left_; static int child;
static void slept(void) { if (child && --left_ <= 0) { fflush(0); _exit(77); } }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { slept(); return 0; }
int __wrap_usleep(unsigned u) { slept(); return 0; }
int __wrap_clock_nanosleep(int c, int f, const struct timespec *a, struct timespec *b) { slept(); return 0; }

// reference machine
enum { RUNS, STOPS, OPEN };  // goes on; ends with an error; not settled
static B M[4096], V[16], vid[256]; static W PC, I, stk[16]; static int SP; static long steps;
typedef struct { B px[256]; } frame; static frame *ev; static long nev; static long bell[70000];
#define MAXEV 6000
static void show(void) { if (nev && !memcmp(ev[nev - 1].px, vid, 256)) return; if (nev < MAXEV) { memcpy(ev[nev].px, vid, 256); bell[nev] = 0; nev++; } }
static int KEY[256]; static void keys(void) { memset(KEY, -1, sizeof KEY); const char *k = "x123qweasdzc4rfv"; for (int i = 0; i < 16; i++) KEY[(B)k[i]] = i; }
static int ref(const B *rom, long n, const B *in, int inn, long max) {
  static const B D[] = { 0xf0,0x90,0x90,0x90,0xf0,0x20,0x60,0x20,0x20,0x70,0xf0,0x10,0xf0,0x80,0xf0,0xf0,0x10,0xf0,0x10,0xf0,0x90,0x90,0xf0,0x10,0x10,0xf0,0x80,0xf0,0x10,0xf0,0xf0,0x80,0xf0,0x90,0xf0,0xf0,0x10,0x20,0x40,0x40,0xf0,0x90,0xf0,0x90,0xf0,0xf0,0x90,0xf0,0x10,0xf0,0xf0,0x90,0xf0,0x90,0x90,0xe0,0x90,0xe0,0x90,0xe0,0xf0,0x80,0x80,0x80,0xf0,0xe0,0x90,0x90,0x90,0xe0,0xf0,0x80,0xf0,0x80,0xf0,0xf0,0x80,0xf0,0x80,0x80 };
  memset(M, 0, 4096); memcpy(M, D, 80); memset(V, 0, 16); memset(vid, 0, 256); memcpy(M + 512, rom, n); PC = 512; I = SP = 0; nev = 0; int inp = 0; B down[16] = { 0 }; long dt = 0, st = 0;
  for (steps = 0; steps < max; steps++) { if (st && nev) bell[nev - 1] += st; dt = st = 0; if (inp < inn) { int k = KEY[in[inp++]]; if (k >= 0) down[k] = 1; }
    if (PC > 4094) return OPEN; W w = M[PC] << 8 | M[PC + 1], at = PC; PC += 2; int x = w >> 8 & 15, y = w >> 4 & 15, k = w & 255, a = w & 4095, f; B t;
    switch (w >> 12) { case 0: if (w == 0xE0) memset(vid, 0, 256); else if (w == 0xEE) { if (!SP) return STOPS; PC = stk[--SP]; } break;
      case 1: PC = a; if (a == at) { show(); steps += 3; return RUNS; } break; case 2: if (SP == 16) return STOPS; stk[SP++] = PC; PC = a; break; case 3: if (V[x] == k) PC += 2; break; case 4: if (V[x] != k) PC += 2; break;
      case 5: if (w & 15) return OPEN; if (V[x] == V[y]) PC += 2; break; case 9: if (w & 15) return OPEN; if (V[x] != V[y]) PC += 2; break; case 6: V[x] = k; break; case 7: V[x] += k; break;
      case 8: switch (w & 15) { case 0: V[x] = V[y]; break; case 1: V[x] |= V[y]; break; case 2: V[x] &= V[y]; break; case 3: V[x] ^= V[y]; break;
        case 4: f = V[x] + V[y] > 255; V[x] += V[y]; V[15] = f; break; case 5: f = V[x] >= V[y]; V[x] -= V[y]; V[15] = f; break; case 7: f = V[y] >= V[x]; V[x] = V[y] - V[x]; V[15] = f; break;
        case 6: f = V[x] & 1; V[x] >>= 1; V[15] = f; break; case 14: f = V[x] >> 7; V[x] <<= 1; V[15] = f; break; default: return OPEN; } break;
      case 10: I = a; break; case 11: PC = V[0] + a; break; case 12: return OPEN;
      case 13: if (I + (w & 15) > 4096) return OPEN; f = 0; for (int r = 0; r < (w & 15); r++) for (int b = 0; b < 8; b++) if (M[I + r] >> (7 - b) & 1) { int px = (V[x] + b) % 64, py = (V[y] + r) % 32; B m = 128 >> px % 8, *p = vid + py * 8 + px / 8; if (*p & m) f = 1; *p ^= m; } V[15] = f; break;
      case 14: if (V[x] > 15 && (k == 0x9E || k == 0xA1)) return OPEN; if (k == 0x9E) { if (down[V[x]]) PC += 2; memset(down, 0, 16); } else if (k == 0xA1) { if (!down[V[x]]) PC += 2; } else return OPEN; break;
      case 15: switch (k) { case 7: V[x] = 0; break; case 0x15: dt = V[x]; break; case 0x18: st = V[x]; break; case 0x1E: I += V[x]; break; case 0x29: if (V[x] > 15) return OPEN; I = V[x] * 5; break;
        case 0x33: if (I + 3 > 4096) return OPEN; M[I] = V[x] / 100; M[I + 1] = V[x] / 10 % 10; M[I + 2] = V[x] % 10; break; case 0x55: if (I + x >= 4096) return OPEN; memcpy(M + I, V, x + 1); break; case 0x65: if (I + x >= 4096) return OPEN; memcpy(V, M + I, x + 1); break; default: return OPEN; } }
    show(); } return RUNS; }

// the real machine
static char F[64]; static long ran, open_, stopped; static B *outb; static long outn;
static int real(int dis, const B *rom, long n, const B *in, int inn, long max) { int f = open(F, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (write(f, rom, n) != n) exit(3); close(f); int fi = memfd_create("i", 0), fo = memfd_create("o", 0); if (inn && write(fi, in, inn) != inn) exit(3); lseek(fi, 0, SEEK_SET); fflush(0); int pid = fork();
  if (!pid) { dup2(fi, 0); dup2(fo, 1); signal(SIGALRM, SIG_DFL); alarm(15); child = 1; left_ = max; int r = dis ? c8disas(F) : c8run(F); fflush(0); _exit(r ? 78 : 76); } int st; waitpid(pid, &st, 0); outn = lseek(fo, 0, SEEK_END); if (outn > 30000000) outn = 30000000; free(outb); outb = malloc(outn + 1); outn = pread(fo, outb, outn, 0); outb[outn] = 0; close(fi); close(fo); vp_states++; vp_traces++; ran++; if (!(ran & 63)) vp_tick(); return st; }
// the frames printed, each one once; how often the bell rang after each
static frame *gf; static long gn, gb[70000];
static const char *frames(void) { long p = 0; gn = 0; frame cur; while (p < outn) { if (outb[p] == '\b') { p++; if (gn) gb[gn - 1]++; continue; } memset(&cur, 0, sizeof cur); for (int y = 0; y < 32; y++) { for (int x = 0; x < 64; x++) { if (p < outn && outb[p] == ' ') p++; else if (p + 2 < outn && !memcmp(outb + p, "\xe2\x96\x88", 3)) { p += 3; cur.px[y * 8 + x / 8] |= 128 >> x % 8; } else return "a picture that isn't 64 x 32 pixels"; } if (p >= outn || outb[p++] != '\n') return "a line that isn't 64 pixels"; } if (p >= outn || outb[p++] != '\n') return "no blank line after a picture"; if (gn && !memcmp(gf[gn - 1].px, cur.px, 256)) continue; if (gn >= MAXEV) return "too many pictures"; gf[gn] = cur; gb[gn++] = 0; } return 0; }
static char *pic(const B *p) { static char s[2][300]; static int k; char *o = s[k ^= 1], *q = o; for (int i = 0; i < 32; i++) { if (i) *q++ = ' '; for (int j = 0; j < 2; j++) q += sprintf(q, "%02x", p[i * 8 + j]); } return o; }
static int hangs; static void prog(const B *rom, long n, const char *in, int inn, long max) { if (hangs >= 2) return; int r = ref(rom, n, (B *)in, inn, max); vp_trans += steps; int st = real(0, rom, n, (B *)in, inn, r == OPEN ? steps + 300 : r == STOPS ? steps + 5 : steps);
  if (WIFSIGNALED(st) && WTERMSIG(st) == 14) hangs++;
  if (!WIFEXITED(st) || WEXITSTATUS(st) == 99) { vp_viol("crash", "the emulator crashes (status %x)", st); return; }
  if (r == OPEN) { open_++; return; } if (r == STOPS) { stopped++; if (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 76) vp_viol("stop", "a call or return that the stack doesn't allow isn't stopped (%x)", st); return; }
  if (WEXITSTATUS(st) != 77) { vp_viol("ends", "the machine ends with status %x", st); return; } const char *e = frames(); if (e) { vp_viol("output", "prints %s", e); return; }
  for (long i = 0; i < gn || i < nev; i++) { if (i >= gn) { vp_viol("picture", "shows %ld pictures instead of %ld; next is %s", gn, nev, pic(ev[i].px)); return; } if (i >= nev) { vp_viol("picture", "shows %ld pictures instead of %ld; more: %s", gn, nev, pic(gf[i].px)); return; } if (memcmp(gf[i].px, ev[i].px, 256)) { for (int y = 0; y < 32; y++) if (memcmp(gf[i].px + y * 8, ev[i].px + y * 8, 8)) { vp_viol("picture", "picture %ld is different in row %d (%02x%02x%02x instead of %02x%02x%02x): shows %s instead of %s", i, y, gf[i].px[y * 8], gf[i].px[y * 8 + 1], gf[i].px[y * 8 + 2], ev[i].px[y * 8], ev[i].px[y * 8 + 1], ev[i].px[y * 8 + 2], pic(gf[i].px), pic(ev[i].px)); return; } } if (gb[i] != bell[i]) { vp_viol("bell", "the bell rings %ld times instead of %ld after picture %ld", gb[i], bell[i], i); return; } } }

// assembler
static B R[3584]; static int O; static void e(W w) { R[O - 512] = w >> 8; R[O - 511] = w; O += 2; } static void at(int a) { O = a; }
static void fill(void) { for (int a = 512; a < 4096; a += 2) { unsigned h = a * 2654435761u; R[a - 512] = 0x70 | (h >> 20 & 15); R[a - 511] = 0x60 | (h >> 12 & 31); } }
// ways out of the slide, for instructions at odd addresses too
static void exits(void) { for (int a = 0x240; a < 0xD00; a += 0x60) memset(R + a - 512, 0x1D, 3); }
enum { END = 0xD00, DUMP = 0xD1D };
static void regs(int link) { e(0xA000 | 0xF00); e(0xFF55); e(0x00E0); e(0xA000 | 0xF00); e(0x6000); e(0x6100); e(0xD01F); e(0xA000 | 0xF0F); e(0x610F); e(0xD011); if (link) e(0x1000 | O); }
static void mem(int from, int to) { for (int p = from; p < to; p += 256) { e(0x00E0); for (int c = 0; c < 8; c++) { e(0x6000 | c * 8); for (int r = 0; r < 32; r += 15) { e(0x6100 | r); e(0xA000 | (p + c * 32 + r)); e(0xD010 | (r == 30 ? 2 : 15)); } } } e(0x1000 | O); }
// registers, I, jump to pos, the instruction, slide down to the end
static void single(const B *v, W i, int pos, W w, int kind) { fill(); exits(); at(512); for (int r = 0; r < 16; r++) e(0x6000 | r << 8 | v[r]); e(0xA000 | i); e(0x1000 | pos); memset(R + END - 512, 0x1D, 29); at(DUMP); if (kind == 2) e(0x00EE); if (kind == 1) e(0xF365); if (kind != 2) { if (kind == 3) { e(0xA000 | 0xF40); mem(0x200, 0x300); } else regs(1); } at(pos); e(w); if (kind == 2) { e(0x1000 | 0xE00); at(0xE00); regs(1); } }
static const B SET[4][16] = { { 5, 250, 0, 128, 255, 1, 7, 7, 64, 31, 63, 32, 127, 200, 3, 99 }, { 1, 1, 2, 250, 6, 5, 128, 129, 9, 10, 0, 15, 240, 16, 255, 0 }, { 12, 3, 12, 3, 14, 11, 8, 2, 1, 0, 15, 4, 6, 9, 13, 7 }, { 255, 254, 0, 1, 127, 128, 129, 64, 65, 60, 29, 30, 31, 32, 33, 255 } };
static void instrs(void) { for (long w = 0; w < 65536 && vp_nviol < 30; w++) { if (!MINE(w)) continue; int op = w >> 12, k = w & 255; if (op == 12 || (op == 15 && k == 10)) continue; int odd = op == 5 || op == 9 ? w & 15 : op == 8 ? (w & 15) > 7 && (w & 15) != 14 : op == 14 ? k != 0x9E && k != 0xA1 : op == 15 ? !memchr("\x07\x15\x18\x1e\x29\x33\x55\x65", k, 8) || !k : 0; if (odd && (w * 7 & 63) && !vp_thorough) continue;
  int ns = vp_thorough ? 4 : op == 0 || op == 1 || op == 10 || op == 6 || odd ? 1 : op == 8 || op >= 14 ? 4 : op == 13 ? 2 : op == 2 || op == 11 ? 1 : 2;
  for (int s = 0; s < ns; s++) { if ((op == 3 || op == 4) && s == 1) { B v[16]; memcpy(v, SET[s], 16); v[w >> 8 & 15] = k; vp_case("instruction %04lx, the register equal", w); single(v, 0x300, 0xCE0, w, 0); } else { vp_case("instruction %04lx, registers %d", w, s); single(SET[s], op == 13 ? 0x20 + s * 200 : 0x123 + s * 0x111, s & 1 ? 0xCD1 : 0xCE0, w, op == 2 ? 2 : op == 10 || (op == 15 && (k == 0x1E || k == 0x29)) ? 1 : 0); } prog(R, sizeof R, "", 0, 20000); } } }
// what is written to memory
static void memory(void) { static const int ops[] = { 0x33, 0x55, 0x65, 0x1E }; for (int o = 0; o < 4; o++) for (int x = 0; x < 16; x++) for (int s = 0; s < 4; s++) { if (!MINE(o * 64 + x * 4 + s)) continue; static const int places[] = { 0x700, 0x800, 0x9ED, 0xFF0 }; for (int p = 0; p < 4; p++) { int d = places[p] + (p == 3 ? 15 - x : 0); vp_case("instruction F%x%02x at I = %03x, registers %d", x, ops[o], d, s); fill(); at(512); for (int r = 0; r < 16; r++) e(0x6000 | r << 8 | SET[s][r]); e(0xA000 | d); e(0xF000 | x << 8 | ops[o]); mem(d & 0xF00, (d & 0xF00) + 256); prog(R, sizeof R, "", 0, 20000); } }
  for (int v = 0; v < 256; v++) if (MINE(v)) { vp_case("decimal digits of %d", v); fill(); at(512); e(0x6000 | v); e(0xA000 | 0x700); e(0xF033); e(0xF265); e(0x1000 | 0x400); at(0x400); regs(1); prog(R, sizeof R, "", 0, 2000); if (v < 16) { vp_case("digit %d", v); at(512); e(0x6300 | v); e(0xF329); e(0xD005); e(0x1000 | O); prog(R, O - 512, "", 0, 2000); } }
  // the program is loaded where it belongs, all of it; the whole memory is shown
  for (int n = 0; n <= 3584; n += vp_thorough ? 16 : 256) if (MINE(n / 256)) { vp_case("a program of %d bytes", n + 600 > 3584 ? 3584 : n + 600); fill(); for (int i = 0; i < 3584; i++) R[i] = i * 7 + i / 256 + 1; at(512); int b = n < 3584 ? 0x200 + n / 256 * 256 : 0; mem(b, b + 256); prog(R, n + 600 > 3584 ? 3584 : n + 600, "", 0, 2000); }
  if (MINE(1)) for (int n = 3585; n < 9000; n += 601) { vp_case("a program of %d bytes, longer than the memory", n); static B big[9000]; memset(big, 0, sizeof big); big[0] = 0x12; int st = real(0, big, n, 0, 0, 50); if (!WIFEXITED(st) || WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 76 || WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 99) vp_viol("load", "is not refused (%x)", st); } }
// arithmetic: all pairs of values
static void alu(void) { static const int ops[] = { 4, 5, 7, 6, 14, 1, 2, 3, 0 }; for (int o = 0; o < 9; o++) for (int a = 0; a < 256; a += o > 2 && !vp_thorough ? 17 : 1) { if (!MINE(a) || vp_nviol > 30) continue; vp_case("8xy%x for x = %d and every y", ops[o], a); fill(); at(512); e(0xA000 | 0x700); e(0x6200); e(0x6302); int l = O; e(0x6000 | a); e(0x8120); e(0x6F55); e(0x8010 | ops[o]); e(0x81F0); e(0xF155); e(0xF31E); e(0x7201); e(0x3200); e(0x1000 | l); mem(0x700, 0x900); prog(R, sizeof R, "", 0, 20000);
  vp_case("8yx%x, x and y exchanged, for y = %d", ops[o], a); at(512); e(0xA000 | 0x700); e(0x6200); e(0x6302); l = O; e(0x8020); e(0x6100 | a); e(0x8010 | ops[o]); e(0x81F0); e(0xF155); e(0xF31E); e(0x7201); e(0x3200); e(0x1000 | l); mem(0x700, 0x900); prog(R, sizeof R, "", 0, 20000); } }
// sprites at all places, over others; the flag of each
static void sprites(void) { for (int y = 0; y < 256; y += vp_thorough ? 1 : y < 40 ? 1 : 23) for (int h = 0; h < (vp_thorough ? 4 : 2); h++) { if (!MINE(y) || vp_nviol > 30) continue; static const int H[] = { 15, 1, 5, 8 }; for (int part = 0; part < 2; part++) { vp_case("sprites of %d rows at y = %d, x from %d", H[h], y, part * 128); fill(); at(512); e(0x6000 | part * 128); e(0x6100 | y); e(0xA000 | 0x700); e(0x6200); int l = O; e(0xD010 | H[h]); e(0x83F0); e(0x822E); e(0x8231); e(0x6503); e(0xF51E); e(0x7000 | (h ? 3 : 5)); e(0x7401); e(0x3418); e(0x1000 | l); e(0x1000 | 0x400); at(0x400); regs(1); prog(R, sizeof R, "", 0, 20000); } }
  // a picture that has moved but has as many pixels; cleared ones
  if (MINE(3)) for (int a = 0; a < 64; a++) { vp_case("one dot, moved by %d at once", a); fill(); at(512); static const B dots[] = { 0x80, 0, 0x40, 0 }; (void)dots; int d = 0x700; R[d - 512] = 0x80; R[d - 511] = 0xC0; e(0xA000 | d); e(0x6000 | a); e(0x6100); e(0xD011); e(0xA000 | (d + 1)); e(0xD011); e(0x00E0); e(0xD011); e(0x00E0); e(0x00E0); e(0x1000 | O); prog(R, sizeof R, "", 0, 2000); } }
// calls and returns
static void calls(void) { for (int d = 1; d < 22; d++) if (MINE(d)) for (int t = 0; t < 3; t++) { vp_case("calls %d deep, %d times", d, t + 1); fill(); at(512); e(0x6D00); for (int k = 0; k <= t; k++) { e(0x6E00); e(0x2300); e(0x7C01 + k); } e(0x1000 | 0x400); at(0x300); e(0x7E01); e(0x3E00 | d); e(0x2300); e(0x7D03); e(0x8BD3); e(0x00EE); at(0x400); regs(1); prog(R, sizeof R, "", 0, 2000); }
  if (MINE(5)) { vp_case("a return without a call"); at(512); e(0x00EE); e(0x1202); prog(R, 4, "", 0, 100); vp_case("one return too many"); at(512); e(0x2204); e(0x1202); e(0x00EE); prog(R, 6, "", 0, 100); R[2] = 0; R[3] = 0xEE; prog(R, 6, "", 0, 100); }
  // programs that leave the memory: nothing outside of it may be touched
  for (int n = 0; n < 64; n++) if (MINE(n)) { vp_case("wild %d", n); memset(R, 0, sizeof R); at(512); static const W op[] = { 0xF533, 0xFF55, 0xFF65, 0xD01F }; e(0xAFFF); e(0x6500 | (n / 4 * 16 + 15)); for (int k = 0; k < n % 4 * 100 / (1); k++) e(0xF51E); e(op[n & 3]); e(op[n >> 2 & 3]); e(0x1000 | O); prog(R, O - 512, "", 0, 3000); at(512); e(0x60FF - n); e(0xBFFF - n / 8); prog(R, 4, "", 0, 3000); at(512); e(0x1FFE + (n & 1)); prog(R, 2, "", 0, 3000); at(512); e(0x6010 + n * 3); e(n & 1 ? 0xE09E : 0xE0A1); e(0x1000 | O); prog(R, O - 512, "", 0, 100); e(0x6010 + n * 3); e(0xF029); e(0xD00F); prog(R, O - 512, "", 0, 100); }
  // all words twice, in a memory that is otherwise empty
  for (long w = 0; w < 65536; w += vp_thorough ? 1 : 61) if (MINE(w / 61)) { if ((w & 0xF0FF) == 0xF00A) continue; vp_case("the words %04lx %04lx", w, w ^ 0x10); at(512); e(w); e(w ^ 0x10); if (((w ^ 0x10) & 0xF0FF) == 0xF00A) continue; e(0x1000 | O); prog(R, 6, "", 0, 300); } }
// keyboard, timers, random numbers
static void devices(void) { for (int c = 0; c < 256; c++) if (MINE(c)) for (int k = 0; k < 16; k++) { vp_case("key %d typed, key %x looked at", c, k); memset(R, 0, sizeof R); at(512); e(0x6000 | k); e(0x6300); e(0xE0A1); e(0x7301); e(0xE09E); e(0x7302); e(0xE09E); e(0x7304); e(0xE0A1); e(0x7308); e(0xE0A1); e(0x7310); e(0x1280); at(0x280); regs(1); B in[2] = { c }; prog(R, 0x100, (char *)in, 1, 1000); }
  static const char K[] = "x123qweasdzc4rfv"; for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) if (MINE(a * 16 + b)) { vp_case("keys %x and %x typed", a, b); memset(R, 0, sizeof R); at(512); e(0x6000 | a); e(0x6100 | b); e(0x6300); e(0xE0A1); e(0x7301); e(0xE1A1); e(0x7302); e(0xE19E); e(0x7304); e(0xE0A1); e(0x7308); e(0x1280); at(0x280); regs(1); char in[3] = { K[a], K[b] }; prog(R, 0x100, in, 2, 1000); char in2[6] = { 'p', K[a], '\n', K[b], 'K' }; prog(R, 0x100, in2, 5, 1000); char in3[12] = { 'p', K[a], K[b], '\n', '5', '6', K[b], K[a], K[a] }; prog(R, 0x100, in3, 9, 1000); }
  for (int v = 0; v < 256; v++) if (MINE(v)) for (int t = 0; t < 3; t++) { vp_case("timers %d set to %d", t, v); memset(R, 0, sizeof R); at(512); e(0x6000 | v); e(0x6155); e(0x6201); if (t != 1) e(0xF015); if (t != 0) e(0xF018); e(0xF107); e(0xA20A); e(0xD221); if (t == 2) { e(0xF218); e(0xF115); e(0xF218); } e(0x1280); at(0x280); regs(1); prog(R, 0x100, "", 0, 1000); }
  for (int k = 0; k < 256; k++) if (MINE(k)) { vp_case("random numbers under %02x", k); memset(R, 0, sizeof R); at(512); e(0x6400); e(0x65FF); e(0x6600); e(0x6300 | (k ^ 255)); int l = O; e(0xC000 | k); e(0x8401); e(0x8502); e(0x7601); e(0x36C8); e(0x1000 | l); e(0x1280); at(0x280); regs(1); vp_trans += 1300; int st = real(0, R, 0x100, 0, 0, 1400); const char *f = frames(); if (!WIFEXITED(st) || WEXITSTATUS(st) != 77 || f || gn < 2) { vp_viol("random", "ends with %x %s", st, f ? f : ""); continue; } B *p = gf[gn - 1].px; if (p[4 * 8] != k || p[5 * 8] != 0) vp_viol("random", "200 numbers together have the bits %02x, and all of them %02x", p[4 * 8], p[5 * 8]); } }
// disassembler
static void text(char *o, W w) { int x = w >> 8 & 15, y = w >> 4 & 15, k = w & 255, n = w & 4095; static const char *A[] = { "LD", "OR", "AND", "XOR", "ADD", "SUB", "SHR", "SUBN" }; *o = 0; switch (w >> 12) { case 0: if (w == 0xE0) strcpy(o, "CLS"); if (w == 0xEE) strcpy(o, "RET"); break; case 1: sprintf(o, "JP 0x%x", n); break; case 2: sprintf(o, "CALL 0x%x", n); break; case 3: sprintf(o, "SE V%x 0x%x", x, k); break; case 4: sprintf(o, "SNE V%x 0x%x", x, k); break; case 5: if (!(w & 15)) sprintf(o, "SE V%x V%x", x, y); break; case 6: sprintf(o, "LD V%x 0x%x", x, k); break; case 7: sprintf(o, "ADD V%x 0x%x", x, k); break; case 8: if ((w & 15) == 6 || (w & 15) == 14) sprintf(o, "%s V%x", (w & 15) == 6 ? "SHR" : "SHL", x); else if ((w & 15) < 8) sprintf(o, "%s V%x V%x", A[w & 15], x, y); break; case 9: if (!(w & 15)) sprintf(o, "SNE V%x V%x", x, y); break; case 10: sprintf(o, "LD I 0x%x", n); break; case 11: sprintf(o, "JP V0 0x%x", n); break; case 12: sprintf(o, "RND V%x 0x%x", x, k); break; case 13: sprintf(o, "DRW V%x V%x %x", x, y, w & 15); break; case 14: if (k == 0x9E) sprintf(o, "SKP V%x", x); if (k == 0xA1) sprintf(o, "SKNP V%x", x); break; case 15: { static const struct { int k; const char *f; } T[] = { { 7, "LD V%x DT" }, { 10, "LD V%x K" }, { 0x15, "LD DT V%x" }, { 0x18, "LD ST V%x" }, { 0x1E, "ADD I V%x" }, { 0x29, "LD F V%x" }, { 0x33, "LD B V%x" }, { 0x55, "LD [I] V%x" }, { 0x65, "LD V%x [I]" } }; for (int i = 0; i < 9; i++) if (T[i].k == k) sprintf(o, T[i].f, x); } } }
static void dis(const B *rom, long n) { int st = real(1, rom, n, 0, 0, 0); vp_trans += n / 2; if (!WIFEXITED(st) || WEXITSTATUS(st) == 99) { vp_viol("disas crash", "the disassembler crashes (%x)", st); return; } if (n & 1) { if (WEXITSTATUS(st) == 76) vp_viol("disas odd", "half an instruction isn't reported"); return; } if (WEXITSTATUS(st) != 76) { if (n > 3584) return; vp_viol("disas status", "ends with %x", st); return; }
  static B target[65536 * 2]; memset(target, 0, sizeof target); for (long i = 0; i < n; i += 2) if (rom[i] >> 4 == 2) target[(rom[i] & 15) << 8 | rom[i + 1]] = 1; long a = 512; int proc = 0; char *save, *l = strtok_r((char *)outb, "\n", &save); for (; l; l = strtok_r(0, "\n", &save)) { if (strstr(l, "-- proc --")) { proc = 1; continue; } if (a >= 512 + n) { vp_viol("disas", "prints more: %s", l); return; } char w[64], p[32]; W in = rom[a - 512] << 8 | rom[a - 511]; text(w, in); int k = sprintf(p, "0x%lx\t", a); char *h = strchr(l, '#'); if (h) *h = 0; int m = strlen(l); while (m && isspace((B)l[m - 1])) l[--m] = 0; int sh = in >> 12 == 8 && ((in & 15) == 6 || (in & 15) == 14); if (strncmp(l, p, k)) { vp_viol("disas", "the line of %lx is %s", a, l); return; } if (*w && (strncmp(l + k, w, strlen(w)) || (!sh && strcmp(l + k, w)) || (sh && isalnum((B)l[k + strlen(w)])))) { vp_viol("disas", "%04x is printed as %s, not %s", in, l + k, w); return; } if (a > 512 && a < 4096 && proc != target[a]) { vp_viol("disas", "%lx is%s marked as a procedure", a, proc ? "" : " not"); return; } proc = 0; a += 2; } if (a != 512 + n) vp_viol("disas", "prints %ld instructions of %ld", (a - 512) / 2, n / 2); }
static void disas(void) { static B r[20001]; for (long w0 = 0; w0 < 65536; w0 += 1024) { if (!MINE(w0 / 1024)) continue; for (int i = 0; i < 1024; i++) r[2 * i] = (w0 + i) >> 8, r[2 * i + 1] = w0 + i; vp_case("disassembly of the words %04lx to %04lx", w0, w0 + 1023); dis(r, 2048); }
  for (int n = 0; n < 64; n++) if (MINE(n)) { vp_case("disassembly of %d bytes", n); memset(r, 0x61, sizeof r); dis(r, n); } static const int N[] = { 1, 2, 50, 99, 100, 101, 102, 150, 300, 1000, 1792 }; for (int k = 0; k < 11; k++) if (MINE(k)) { for (int i = 0; i < N[k]; i++) { int t = 0x200 + (i * 14) % (N[k] * 2); r[2 * i] = 0x20 | t >> 8; r[2 * i + 1] = t; } vp_case("disassembly of %d calls", N[k]); dis(r, N[k] * 2); } static const int S[] = { 3584, 3586, 4096, 7998, 8000, 8002, 12000, 20000 }; for (int k = 0; k < 8; k++) if (MINE(k)) { memset(r, 0x61, sizeof r); vp_case("disassembly of %d bytes", S[k]); dis(r, S[k]); } }
void vp_body(void) { sprintf(F, "rom%d.chip8", vp_shard); ev = calloc(MAXEV, sizeof *ev); gf = calloc(MAXEV, sizeof *gf); keys(); vp_quiet(1); BIND(c8run, "chip8.run"); BIND(c8disas, "chip8.disas"); const char *p = getenv("VP_PART"); void (*f)(void) = !strcmp(p, "instructions") ? instrs : !strcmp(p, "memory") ? memory : !strcmp(p, "arithmetic") ? alu : !strcmp(p, "sprites") ? sprites : !strcmp(p, "calls") ? calls : !strcmp(p, "devices") ? devices : disas; f(); unlink(F); vp_sample("%s: %ld programs run, %ld of them ended by the stack, %ld not settled (must only not crash)", p, ran, stopped, open_); }
