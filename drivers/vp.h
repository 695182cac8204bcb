// Runtime of the C harnesses: function registry, reporting, panic capture,
// allocation accounting and fault injection.
#ifndef VP_H
#define VP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <setjmp.h>
#include <ctype.h>
#include <limits.h>
#include <math.h>
#include <unistd.h>

extern long vp_states, vp_trans, vp_traces;
extern int vp_shard, vp_nshards, vp_thorough;
extern char vp_casebuf[8192];
extern jmp_buf vp_jb;
extern int vp_armed;        // panics and exits are captured
extern long vp_live;        // live blocks allocated by the code under test
extern long vp_failat;      // n-th allocation from now fails (0: none)
extern long vp_nalloc;
extern int vp_exitcode;
void *vp_get(const char *name);
void vp_reg(const char *name, void *p);
void vp_case(const char *fmt, ...);
void vp_viol(const char *key, const char *fmt, ...);
void vp_sample(const char *fmt, ...);
void vp_init(void);
void vp_done(void);
void *vp_raw(size_t n);   // allocation of the harness itself
void vp_tick(void);        // restart the hang watchdog
void vp_quiet(int on);     // redirect fd 1/2 of the code under test to nothing
void vp_mark(void); long vp_leaked(void); // blocks allocated since mark and not freed
char *vp_show(const void *p, size_t n);   // printable form, static ring
extern int vp_nviol;
#define FN(ret, id, name, args) static ret (*id) args; 
#define BIND(id, name) do { *(void **)&id = vp_get(name); } while (0)
// Runs a statement; evaluates to 0 normally, 1 if it panicked/exited.
#define VP_TRY(...) ({ int _p = 0; vp_armed = 1; if (setjmp(vp_jb) == 0) { __VA_ARGS__; } else _p = 1; vp_armed = 0; _p; })
#define MINE(k) ((k) % vp_nshards == vp_shard)
void vp_body(void);
#endif
