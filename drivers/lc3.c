// prog/emu: the LC-3 machine, every instruction word against a reference machine.
#define _GNU_SOURCE
#include "vp.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
FN(int, lc3run, "", (char *))
typedef uint16_t W; static W M[65536], RG[8], PC, CC; static unsigned char out[70000]; static int outn; static const unsigned char *in; static int inn, inp, unset;
static W sx(W v, int b) { return v >> (b - 1) & 1 ? v | 0xFFFF << b : v; }
static void cc(W v) { CC = v == 0 ? 2 : v >> 15 ? 4 : 1; }
static int gc(void) { if (inp >= inn) { unset = 1; return 0xFFFF; } return in[inp++]; }
static W rd(W a) { if (a == 0xFE00) { if (inp >= inn) unset = 1; M[0xFE00] = 0x8000; M[0xFE02] = gc(); } return M[a]; }
static void pc_(int c) { if (outn < 69000) out[outn++] = c; else unset = 1; }
// 1 halted, 0 still running, 2 stopped by an instruction that isn't one
static int ref(long max) { CC = 2; PC = 0x3000; outn = inp = unset = 0; memset(RG, 0, sizeof RG); while (max-- > 0 && !unset) { W i = rd(PC++); int d = i >> 9 & 7, a = i >> 6 & 7, op = i >> 12; W o9 = sx(i & 0x1FF, 9), o6 = sx(i & 0x3F, 6); switch (op) {
  case 1: RG[d] = RG[a] + (i & 32 ? sx(i & 31, 5) : RG[i & 7]); cc(RG[d]); break; case 5: RG[d] = RG[a] & (i & 32 ? sx(i & 31, 5) : RG[i & 7]); cc(RG[d]); break; case 9: RG[d] = ~RG[a]; cc(RG[d]); break;
  case 0: if (d & CC) PC += o9; break; case 12: PC = RG[a]; break; case 4: { W t = i & 0x800 ? PC + sx(i & 0x7FF, 11) : RG[a]; if (!(i & 0x800) && a == 7) { unset = 1; return 0; } RG[7] = PC; PC = t; break; }
  case 2: RG[d] = rd(PC + o9); cc(RG[d]); break; case 10: RG[d] = rd(rd(PC + o9)); cc(RG[d]); break; case 6: RG[d] = rd(RG[a] + o6); cc(RG[d]); break; case 14: RG[d] = PC + o9; cc(RG[d]); break;
  case 3: M[(W)(PC + o9)] = RG[d]; break; case 11: { W t = rd(PC + o9); M[t] = RG[d]; break; } case 7: M[(W)(RG[a] + o6)] = RG[d]; break; case 8: case 13: return 2;
  case 15: RG[7] = PC; switch (i & 0xFF) { case 0x20: RG[0] = gc(); cc(RG[0]); break; case 0x21: pc_(RG[0] & 0xFF); break; case 0x22: for (W p = RG[0]; M[p] && !unset; p++) pc_(M[p] & 0xFF); break; case 0x23: { for (const char *s = "Enter a character: "; *s; s++) pc_(*s); int c = gc(); if (c > 127) unset = 1; pc_(c); RG[0] = c; cc(c); break; }
    case 0x24: for (W p = RG[0]; M[p] && !unset; p++) { pc_(M[p] & 0xFF); if (M[p] >> 8) pc_(M[p] >> 8); } break; case 0x25: for (const char *s = "HALT\n"; *s; s++) pc_(*s); return 1; default: unset = 1; } } } return 0; }
static char F[64]; static long ran, skipped, stopped;
static int hangs; static void runrom(W org, const W *w, long n, const char *input, int inl, long max) { if (hangs >= 2) return; memset(M, 0, sizeof M); for (long i = 0; i < n && org + i < 65536; i++) M[org + i] = w[i]; in = (void *)input; inn = inl; int r = ref(max); vp_trans++; if (unset || r == 0) { skipped++; return; } vp_states++; vp_traces++; if (!(vp_states & 255)) vp_tick();
  static unsigned char b[140000]; long k = 0; b[k++] = org >> 8; b[k++] = org; for (long i = 0; i < n; i++) b[k++] = w[i] >> 8, b[k++] = w[i]; int f = open(F, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (write(f, b, k) != k) exit(3); close(f); int fi = memfd_create("i", 0), fo = memfd_create("o", 0); if (write(fi, input, inl) != inl) exit(3); lseek(fi, 0, SEEK_SET);
  fflush(0); int pid = fork(); if (!pid) { dup2(fi, 0); dup2(fo, 1); signal(SIGALRM, SIG_DFL); alarm(15); lc3run(F); fflush(0); _exit(77); } int st; waitpid(pid, &st, 0); if (WIFSIGNALED(st) && WTERMSIG(st) == 14) hangs++; static unsigned char g[70000]; long n2 = pread(fo, g, sizeof g, 0); close(fi); close(fo); ran++; if (r == 2) { stopped++; if (!WIFEXITED(st) || WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 99) vp_viol("illegal", "an instruction that isn't one doesn't stop the machine (%x)", st); return; }
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) { vp_viol("crash", "the emulator ends with status %x", st); return; } if (n2 != outn || memcmp(g, out, outn)) vp_viol("output", "prints %s instead of %s", vp_show(g, n2 > 300 ? 300 : n2), vp_show(out, outn > 300 ? 300 : outn)); }
// assembler
static W I_[65536]; static long O; static void e(W x) { I_[O++] = x; }
#define AT(a) (O = (a) - ORG)
#define OFF(a) (((a) - (ORG + O) - 1) & 0x1FF)
#define ORG 0x2C00
#define END 0x4200
// prints all registers and the condition, then sums up the memory
static void dumper(W at, int link) { AT(at); for (int r = 0; r < 8; r++) e(3 << 12 | r << 9 | OFF(at + 0xA0 + r)); e(0x0800 | OFF(at + 0x0D)); e(0x0400 | OFF(at + 0x10)); e(0x0200 | OFF(at + 0x13)); e(0xF025); e(0xF025);
  AT(at + 0x0D); e(0x2000 | OFF(at + 0x98)); e(0xF021); e(0x0E00 | OFF(at + 0x18)); e(0x2000 | OFF(at + 0x99)); e(0xF021); e(0x0E00 | OFF(at + 0x18)); e(0x2000 | OFF(at + 0x9A)); e(0xF021); e(0x0E00 | OFF(at + 0x18));
  AT(at + 0x18); e(0x2C00 | OFF(at + 0x9B)); /* R6: address of registers */ e(0x2A00 | OFF(at + 0x9C)); /* R5: -10 */ 
  // loop: R1 = M[R6]; 16 bits
  W loop = at + 0x1A; AT(loop); e(0x6380); e(0x5920); e(0x1930); /* R4 = -16 */ W bit = loop + 3; e(0x2000 | OFF(at + 0x9E)); e(0x1260); /* ADD R1,R1,0 */ e(0x0600 | OFF(bit + 4)); e(0x2000 | OFF(at + 0x9F)); e(0xF021); e(0x1241); /* R1 += R1 */ e(0x1921); e(0x0800 | OFF(bit)); e(0x1DA1); e(0x1B61); e(0x0800 | OFF(loop));
  // checksums over the whole image into R1, R2, stored and printed once
  W fl = ORG + O; e(0x2600 | OFF(at + 0x97)); /* flag */ e(0x0400 | OFF(fl + 3)); e(0xF025); /* fl+3: */ e(0x1661); e(0x16C1 & 0); O--; O--; e(0x56E0); e(0x16E1); e(0x3600 | OFF(at + 0x97)); e(0x52 << 8 | 0x60); e(0x54A0); e(0x2C00 | OFF(at + 0x96)); e(0x2A00 | OFF(at + 0x95)); W sl = ORG + O; e(0x6980); e(0x1244); e(0x1481); e(0x1DA1); e(0x1B61); e(0x0800 | OFF(sl)); e(0x3200 | OFF(at + 0xA0)); e(0x3400 | OFF(at + 0xA1)); e(0x0E00 | OFF(at + 0x18));
  AT(at + 0x95); e((W)-(END - ORG)); e(ORG); e(0); e('n'); e('z'); e('p'); e(at + 0xA0); e((W)-8); e(0); e('0'); e('1'); }
static void build(W pos, int link, const W *regs, int flagreg, W instr) { memset(I_, 0, sizeof I_); for (int i = 0; i < END - ORG; i++) I_[i] = 0x4000 | link << 6; AT(0x3000); for (int r = 0; r < 8; r++) e(0x2000 | r << 9 | OFF(0x3020 + r)); e(0x1020 | flagreg << 9 | flagreg << 6); e(0x0E00 | OFF(pos)); AT(0x3020); for (int r = 0; r < 8; r++) e(regs[r]); AT(0x3130); for (int i = 0; i < 64; i++) e(0x3140 + i * 5); AT(0x4100); for (int i = 0; i < 64; i++) e(i * 0x1234); dumper(0x3C00, link); AT(pos); e(instr); }
static const W VAL[8][8] = { { 5, 0xFFFE, 0x7FFF, 0x8000, 0x3C00, 0x3C00, 0x3150, 0 }, { 0, 1, 0xFFFF, 0x3150, 0x3C00, 0x3C00, 0x0F0F, 0x4110 }, { 0x8000, 0x8001, 0x4000, 0xC000, 0x3C00, 0x3C00, 0xFFE0, 0x3140 }, { 0xAAAA, 0x5555, 0x3158, 0x00FF, 0x3C00, 0x3C00, 16, 0xFFF0 }, { 0x3145, 0x3150, 0x315B, 0x3161, 0x3C00, 0x3C00, 0x3169, 0x3133 }, { 0x7FFF, 0x7FFE, 0x8000, 2, 0x3C00, 0x3C00, 15, 31 }, { 0xFF00, 0x0100, 0x0080, 0xFF80, 0x3C00, 0x3C00, 0x1FFF, 0xE000 }, { 3, 0x3180, 0x3C00, 0x3C00, 0x3C00, 0x3C00, 0x2D00, 0x3FF0 } };
static void instrs(void) { for (long i = 0; i < 65536 && vp_nviol < 40; i++) { if (!MINE(i)) continue; int op = i >> 12; if (op == 8 || op == 13) { if (i & 0xFFF && (i & 0xFFF) != 0xFFF && (i * 7 & 255)) continue; } if (op == 15 && ((i & 0xFF) < 0x20 || (i & 0xFF) > 0x25)) continue; if (op == 15 && i >> 8 & 15) continue; int nv = op == 1 || op == 5 || op == 9 ? 8 : op == 0 ? 3 : op == 12 ? 8 : 2; if (vp_thorough) nv = 8; for (int v = 0; v < nv; v++) for (int k = 0; k < (op == 0 && vp_thorough ? 3 : 1); k++) { static const int FR[] = { 0, 1, 7 }; int set = op == 0 ? 1 : nv == 8 ? v : v ? 4 : 0, link = v & 1 ? 4 : 5; W pos = v & 1 ? 0x30F0 : 0x3081; int fr = op == 0 ? (v + k) % 3 : (i + v) % 3; /* set 1: R0 = 0, R1 > 0, R2 < 0 */ (void)FR; W rg[8]; memcpy(rg, VAL[set], 16); vp_case("instruction %04lx at %04x, registers %d, condition of R%d", i, pos, set, fr); build(pos, link, rg, fr, i); char input[4] = { 'a' + (i & 7), 'b', 'c', 0 }; runrom(ORG, I_, END - ORG, input, 3, 90000); if (op == 0 && !vp_thorough && v == 2) break; } } }
// values: sums, conjunctions, complements over a grid of pairs
static void values(void) { static W v[40]; int n = 0; for (int b = 0; b < 16; b++) { v[n++] = 1 << b; if (b > 1) v[n++] = (1 << b) - 1; } v[n++] = 0; v[n++] = 0xFFFF; v[n++] = 0x8001; v[n++] = 0xFFFE; v[n++] = 0xAAAA; v[n++] = 0x5A5A; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (!MINE(i * n + j)) continue; for (int op = 0; op < 2; op++) { W rg[8] = { v[i], v[j], 0, 0, 0x3C00, 0x3C00, 0, 0 }; vp_case("%s of %04x and %04x", op ? "AND" : "ADD", v[i], v[j]); build(0x3081, 5, rg, 0, (op ? 0x5000 : 0x1000) | 2 << 9 | 0 << 6 | 1); runrom(ORG, I_, END - ORG, "x", 1, 90000); } } }
// input, output and loading
static void io(void) { O = 0; 
  #undef ORG
  #define ORG 0x3000
  for (int c = 0; c < 256; c++) if (MINE(c)) { vp_case("character %d", c); memset(I_, 0, 200); O = 0; e(0xF020); e(0xF021); e(0x1021); e(0xF021); e(0xF025); char s[4] = { c, 'q', 0 }; runrom(0x3000, I_, O, s, 2, 1000); O = 0; e(0xF023); e(0x0800 | 3); e(0x0400 | 3); e(0x1021); e(0xF021); e(0xF025); e(0x103F); e(0xF021); e(0xF025); runrom(0x3000, I_, O, s, 2, 1000); O = 0; e(0x2000 | 2); e(0xF021); e(0xF025); e(c | 0x4100); runrom(0x3000, I_, O, s, 2, 1000); O = 0; e(0x2000 | 4); e(0xF022); e(0xF024); e(0xF025); e(0); e(0x3006); e('h'); e(c ? c : 0x100); e(c << 8 | 'x'); e(0x4142); e(0); runrom(0x3000, I_, O, s, 2, 1000); // keyboard device
    O = 0; e(0xA005); e(0x07FE); e(0xA004); e(0xF021); e(0xF025); e(0); e(0xFE00); e(0xFE02); runrom(0x3000, I_, O, s, 2, 1000); }
  if (MINE(1)) for (int l = 0; l < 40; l++) for (int w = 0; w < 2; w++) { vp_case("text of %d words, kind %d", l, w); O = 0; e(0xE000 | 2); e(w ? 0xF024 : 0xF022); e(0xF025); for (int i = 0; i < l; i++) e(w ? ('a' + i % 26) | (i % 3 == 2 ? 0 : ('A' + i % 26) << 8) : 'a' + i % 26); e(0); e('X'); runrom(0x3000, I_, O, "", 0, 1000); }
  // images of every origin and up to the end of the memory; text that goes round the end
  static const W org[] = { 0x3000, 0x2FFF, 0x2000, 0x1000, 0x0001, 0x0000 }; for (int k = 0; k < 6; k++) for (int w = 0; w < 3; w++) if (MINE(k)) { long n = w == 0 ? 0x3004 - org[k] : w == 1 ? 65535 - org[k] : 65536 - org[k]; vp_case("image of %ld words at %04x", n, org[k]); for (long i = 0; i < n; i++) I_[i] = org[k] + i > 0x4000 ? 'm' : 0; O = 0x3000 - org[k]; e(0x2000 | 2); e(0xF022); e(0xF025); e(0xFFF0); if (w == 0) I_[0x3003 - org[k]] = 0x3002; runrom(org[k], I_, n, "", 0, 1000); O = 0x3000 - org[k]; e(0x2000 | 2); e(0xF024); runrom(org[k], I_, n, "", 0, 1000); }
  if (MINE(7)) { vp_case("image longer than the memory"); O = 0; e(0xF025); I_[65535 - 0x3000 + 1] = 1; unsigned char b[4] = { 0x30, 0 }; int f = open(F, O_CREAT | O_TRUNC | O_WRONLY, 0644); (void)!write(f, b, 2); static unsigned char z[140000]; z[0] = 0xF0; z[1] = 0x25; (void)!write(f, z, (65536 - 0x3000 + 1) * 2); close(f); vp_states++; int fo = memfd_create("o", 0); int pid = fork(); if (!pid) { dup2(fo, 1); signal(SIGALRM, SIG_DFL); alarm(15); _exit(lc3run(F) ? 78 : 77); } int st; waitpid(pid, &st, 0); char g[10] = ""; long n = pread(fo, g, 9, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 78 || n != 0) vp_viol("load", "is not refused (%x, %ld bytes printed)", st, n); close(fo); vp_case("an image that isn't there"); unlink(F); int pan = VP_TRY(n = lc3run("nosuchfile")); if (pan || n == 0) vp_viol("load", "is not refused"); } }
void vp_body(void) { sprintf(F, "rom%d.lc3", vp_shard); vp_quiet(1); BIND(lc3run, "lc3.run"); const char *p = getenv("VP_PART"); if (!strcmp(p, "instructions")) instrs(); else if (!strcmp(p, "values")) values(); else io(); unlink(F); vp_sample("%ld programs run, %ld of them stopped at an illegal instruction, %ld not run (endless or unsettled)", ran, stopped, skipped); }
