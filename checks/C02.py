"""C02: statements keep their control flow and scoping through translation.

Enumerates all function bodies within bounds over the statement forms of the
language, writes each once in che and once as fully braced C with explicit
breaks, and walks every sequence of branch decisions up to a depth in both,
comparing the traces of observable calls."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

# Statement nodes: ('t',) trace; ('brk',) ('cont',) ('ret',)
# ('if', S) ('ifb', [S]) ('ife', S, S) ('ifeb', [S], [S]) ('while', S) ('whileb', B) ('forc', B) ('fori', B) ('fore', B)
# ('sw', B, B, B|None) ('ss', B, B, B|None)


class Num:
    def __init__(self): self.k = 0
    def __call__(self):
        self.k += 1
        return self.k


def che_s(s, n):
    k = s[0]
    if k == 't': return "OS.vt(%d);" % n()
    if k == 'brk': return "break;"
    if k == 'cont': return "continue;"
    if k == 'ret': return "return %d;" % n()
    if k == 'if': return "if (OS.vc(%d)) %s" % (n(), che_s(s[1], n))
    if k == 'ifb': return "if (OS.vc(%d)) %s" % (n(), che_b(s[1], n))
    if k == 'ife':
        c = n(); a = che_s(s[1], n); return "if (OS.vc(%d)) %s else %s" % (c, a, che_s(s[2], n))
    if k == 'ifeb':
        c = n(); a = che_b(s[1], n); return "if (OS.vc(%d)) %s else %s" % (c, a, che_b(s[2], n))
    if k == 'while': return "while (OS.vc(%d)) %s" % (n(), che_s(s[1], n))
    if k == 'whileb': return "while (OS.vc(%d)) %s" % (n(), che_b(s[1], n))
    if k == 'forc': return "for (; OS.vc(%d);) %s" % (n(), che_b(s[1], n))
    if k == 'fore': return "for (;;) %s" % (che_b(s[1], n))
    if k == 'fore0': return "for (;; OS.vt(%d)) { }" % n()
    if k == 'fors':
        a = n(); b = n(); x = che_b(s[1], n)
        return "for (%s; %s; %s) %s" % ("OS.vt(%d)" % a if s[2] & 1 else "", "OS.vc(%d)" % b if s[2] & 2 else "", "OS.vt(%d)" % n() if s[2] & 4 else "", x)
    if k == 'fori':
        a = n(); return "for (int i%d = 0; OS.vq(%d, i%d); i%d++) %s" % (a, a, a, a, che_b(s[1], n))
    if k == 'forx':
        a = n(); b = n(); c = n(); return "for (OS.vt(%d); OS.vc(%d); OS.vt(%d)) %s" % (a, b, c, che_s(s[1], n))
    if k == 'sw':
        a = n(); x = che_m(s[1], n); y = che_m(s[2], n)
        d = "default: %s " % che_m(s[3], n) if s[3] is not None else ""
        return "switch (OS.vv(%d)) { case 1: %s case 2, 3: %s %s}" % (a, x, y, d)
    if k == 'ss':
        a = n(); x = che_m(s[1], n); y = che_m(s[2], n)
        d = "default: %s " % che_m(s[3], n) if s[3] is not None else ""
        return "switch str (OS.vsv(%d)) { case \"a\": %s case \"b\", \"c\": %s %s}" % (a, x, y, d)
    raise Exception(k)


def che_m(b, n): return "{ OS.vt(%d); " % n() + " ".join(che_s(s, n) for s in b) + " }"


def ref_m(b, n): return "{ vt(%d); " % n() + " ".join(ref_s(s, n) for s in b) + " }"


def che_b(b, n): return "{ " + " ".join(che_s(s, n) for s in b) + " }"


def ref_s(s, n):
    k = s[0]
    if k == 't': return "vt(%d);" % n()
    if k == 'brk': return "break;"
    if k == 'cont': return "continue;"
    if k == 'ret': return "return %d;" % n()
    if k == 'if': return "if (vc(%d)) { %s }" % (n(), ref_s(s[1], n))
    if k == 'ifb': return "if (vc(%d)) %s" % (n(), ref_b(s[1], n))
    if k == 'ife':
        c = n(); a = ref_s(s[1], n); return "if (vc(%d)) { %s } else { %s }" % (c, a, ref_s(s[2], n))
    if k == 'ifeb':
        c = n(); a = ref_b(s[1], n); return "if (vc(%d)) %s else %s" % (c, a, ref_b(s[2], n))
    if k == 'while': return "while (vc(%d)) { %s }" % (n(), ref_s(s[1], n))
    if k == 'whileb': return "while (vc(%d)) %s" % (n(), ref_b(s[1], n))
    if k == 'forc': return "for (; vc(%d);) %s" % (n(), ref_b(s[1], n))
    if k == 'fore': return "for (;;) %s" % (ref_b(s[1], n))
    if k == 'fore0': return "for (;;) { vt(%d); }" % n()
    if k == 'fors':
        a = n(); b = n(); x = ref_b(s[1], n)
        return "for (%s; %s; %s) %s" % ("vt(%d)" % a if s[2] & 1 else "", "vc(%d)" % b if s[2] & 2 else "", "vt(%d)" % n() if s[2] & 4 else "", x)
    if k == 'fori':
        a = n(); return "for (int i = 0; vq(%d, i); i++) %s" % (a, ref_b(s[1], n))
    if k == 'forx':
        a = n(); b = n(); c = n(); return "for (vt(%d); vc(%d); vt(%d)) { %s }" % (a, b, c, ref_s(s[1], n))
    if k == 'sw':
        a = n(); x = ref_m(s[1], n); y = ref_m(s[2], n)
        d = "default: { %s break; }" % ref_m(s[3], n) if s[3] is not None else ""
        return "switch (vv(%d)) { case 1: { %s break; } case 2: case 3: { %s break; } %s }" % (a, x, y, d)
    if k == 'ss':
        a = n(); x = ref_m(s[1], n); y = ref_m(s[2], n)
        d = " else %s" % ref_m(s[3], n) if s[3] is not None else ""
        return "{ int q = vsi(%d); if (q == 0) %s else if (q == 1 || q == 2) %s%s }" % (a, x, y, d)
    raise Exception(k)


def ref_b(b, n): return "{ " + " ".join(ref_s(s, n) for s in b) + " }"


def size_ok_else(s):
    """An else belongs to the nearest if: a braceless if without else can't be the then-part of ife."""
    k = s[0]
    if k in ('if', 'ifb'): return False
    if k in ('ife', 'ifeb'): return size_ok_else(s[2]) if k == 'ife' else True
    if k in ('while', 'forx'): return size_ok_else(s[1])
    return True


from functools import lru_cache


@lru_cache(None)
def stmts(n, loop, insw):
    """All statements with exactly n nodes. loop: inside a loop; insw: nearest breakable is a plain switch."""
    r = []
    if n == 1:
        r.append(('t',))
        r.append(('ret',))
        if loop:
            r.append(('cont',))
            r.append(('brk',))
        return tuple(r)
    m = n - 1
    for s in stmts(m, loop, insw):
        r.append(('if', s))
    for b in bodies(m, loop, insw):
        if len(b) != 1: r.append(('ifb', b))
    for s in stmts(m, True, False):
        r.append(('while', s))
        r.append(('forx', s))
    for b in bodies(m, True, False):
        if len(b) != 1: r.append(('whileb', b))
        r.append(('fori', b))
        if len(b) != 1: r.append(('forc', b))
        if len(b) == 2 and b[0] == ('t',): r.append(('fore', b))
    for i in range(1, m):
        for a in stmts(i, loop, insw):
            if not size_ok_else(a):
                continue
            for b in stmts(m - i, loop, insw):
                r.append(('ife', a, b))
    for i in range(0, m + 1):
        for a in bodies(i, loop, insw):
            if len(a) == 1 and size_ok_else(a[0]): continue
            for b in bodies(m - i, loop, insw):
                r.append(('ifeb', a, b))
    if m <= 3:
        for i in range(0, m + 1):
            for j in range(0, m - i + 1):
                for kk in ("sw", "ss"):
                    lp = loop
                    for a in bodies(i, lp, True):
                        if kk == "ss" and has_brk(a): continue
                        for b in bodies(j, lp, True):
                            if kk == "ss" and has_brk(b): continue
                            if i + j == m: r.append((kk, a, b, None))
                            for d in bodies(m - i - j, lp, True):
                                if kk == "ss" and has_brk(d): continue
                                r.append((kk, a, b, d))
    return tuple(r)


def has_brk(b):
    for s in b:
        if s[0] in ('brk',): return True
        if s[0] in ('if',) and has_brk((s[1],)): return True
        if s[0] in ('ifb',) and has_brk(s[1]): return True
        if s[0] == 'ife' and (has_brk((s[1],)) or has_brk((s[2],))): return True
        if s[0] == 'ifeb' and (has_brk(s[1]) or has_brk(s[2])): return True
        if s[0] == 'ss' and any(x is not None and has_brk(x) for x in s[1:]): return True
    return False


@lru_cache(None)
def bodies(n, loop, insw):
    if n == 0: return ((),)
    r = []
    for i in range(1, n + 1):
        for s in stmts(i, loop, insw):
            for rest in bodies(n - i, loop, insw):
                if s[0] in ('ret', 'brk', 'cont') and rest: continue
                r.append((s,) + rest)
    return tuple(r)


HARNESS = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
typedef int fn(void);
extern fn *rtab[]; extern const char *txt[]; extern int nref, DEPTH;
#define MAXC 64
#define MAXT 4096
static int ch[MAXC], opt[MAXC], nch, pos; static int tr[MAXT], ntr; static jmp_buf jb;
static const char *SV[]={"a","b","c","z"}; static char sval[4]; char *vs=sval; static int sidx;
static void ev(int x){ if(ntr>=400) longjmp(jb,1); tr[ntr++]=x; }
static int choose(int n){ if(pos>=DEPTH) longjmp(jb,1); if(pos>=nch){ ch[nch]=0; opt[nch]=n; nch++; } if(opt[pos]!=n){ ev(-777); longjmp(jb,1);} return ch[pos++]; }
void vt(int k){ ev(k); }
int vc(int k){ ev(10000+k); return choose(2); }
int vq(int k,int i){ ev(20000+k); ev(i); return choose(2); }
int vv(int k){ ev(30000+k); int c=choose(4); return c<3?c+1:9; }
int vsi(int k){ ev(40000+k); return choose(4); }
char *vsv(int k){ return (char*)SV[vsi(k)]; }
int wi(int k){ ev(50000+k); int c=choose(42); return c-1; }
int wv(int k){ return 100+wi(k); }
char *wsv(int k){ static char b[16]; sprintf(b,"k%d",wi(k)); return b; }
int vd(void){ ev(60000); return 1; }
int vidx(void){ return sidx; }
static int callit(fn *f,int *brk){ *brk=0; ntr=0; pos=0; strcpy(sval,SV[sidx]); if(setjmp(jb)){*brk=1;return 0;} return f(); }
int drive(fn **tab,int n){
  static int t1[MAXT]; long runs=0; int bad=0;
  if(n!=nref) printf("VIOL count %d!=%d\n",n,nref);
  for(int i=0;i<n;i++){ int wantss=strstr(txt[i],"OS.vs)")||strstr(txt[i],"(vs)");
    for(sidx=0;sidx<(wantss?4:1);sidx++){ nch=0; int stop=0;
    for(;;){ int b1,b2; int r2=callit(rtab[i],&b2); int n2=ntr; memcpy(t1,tr,sizeof(int)*ntr); int p2=pos;
      int save=nch; int r1=callit(tab[i],&b1); runs++;
      if(r1!=r2||b1!=b2||ntr!=n2||memcmp(t1,tr,sizeof(int)*n2)||nch!=save){
        if(bad++<20){ printf("VIOL flow '%s' decisions",txt[i]); for(int k=0;k<save;k++)printf(" %d",ch[k]); printf(" str=%s: got ret %d trace",SV[sidx],r1); for(int k=0;k<ntr&&k<20;k++)printf(" %d",tr[k]); printf("; want ret %d trace",r2); for(int k=0;k<n2&&k<20;k++)printf(" %d",t1[k]); printf("\n"); } stop=1; break; }
      nch=p2; while(nch>0&&ch[nch-1]==opt[nch-1]-1) nch--; if(nch==0) break; ch[nch-1]++; }
    if(stop) break; } }
  printf("STAT %d %ld %d\nDONE\n",n,runs,n); fflush(stdout); _exit(0);
}
'''


def batch(name, funcs, depth, decls=""):
    """funcs: list of (che body, C body)"""
    d = sub(name)
    che_src = ["#include <shim.h>", "typedef int fn_t();", decls]
    ref = ["typedef int fn(void); void vt(int); int vc(int); int vq(int,int); int vv(int); int vidx(void); int vsi(int); int wi(int); int wv(int); int vd(void);", "int DEPTH=%d;" % depth]
    needs_vs = False
    for i, (cs, rs) in enumerate(funcs):
        che_src.append("int f%d() %s" % (i, cs.replace("(vs)", "(OS.vs)")))
        ref.append("int r%d(void) %s" % (i, rs))
    n = len(funcs)
    che_src.append("fn_t *tab[] = {%s};" % ", ".join("f%d" % i for i in range(n)))
    che_src.append("int main() { OS.drive(tab, %d); return 0; }" % n)
    ref.append("fn *rtab[]={%s}; int nref=%d;" % (",".join("r%d" % i for i in range(n)), n))
    ref.append("const char *txt[]={%s};" % ",".join('"%s"' % f[0].replace("\\", "\\\\").replace('"', '\\"') for f in funcs))
    open(d + "/ref.c", "w").write("\n".join(ref)); open(d + "/h.c", "w").write(HARNESS)
    try:
        return build_driver(name, "\n".join(che_src) + "\n", [d + "/ref.c", d + "/h.c"], san=False, opt="-O0",
                            shim_h="int drive(); void vt(int); int vc(int); int vq(int,int); int vv(int); extern char *vs; char *vsv(int); int wi(int); int wv(int); char *wsv(int); int vd(void);\n")
    except BuildFailure as e:
        return e


def run_batches(c, part, funcs, depth, decls="", size=2500):
    funcs = list(funcs)
    if not funcs: return
    c.sample("%s: %s" % (part, funcs[len(funcs) // 2][0]))
    bs = [funcs[i:i + size] for i in range(0, len(funcs), size)]
    def one(t):
        i, b = t
        return batch("c02_%s_%d" % (part, i), b, depth, decls)
    for i, e in enumerate(pmap(one, list(enumerate(bs)))):
        if isinstance(e, BuildFailure):
            lo = bs[i]; k = 0; err = e
            while len(lo) > 1:
                k += 1
                h = len(lo) // 2
                e2 = batch("c02_%s_n%d_%d" % (part, i, k), lo[:h], depth, decls)
                if isinstance(e2, BuildFailure): lo = lo[:h]; err = e2
                else: lo = lo[h:]
            c.violation("%s: valid statements are not translated: %s" % (part, lo[0][0]), str(err))
        else:
            c.harness(part, e, timeout=400)


def gen(n):
    for b in bodies(n, False, False):
        q = Num(); cs = che_b(b, q)
        q = Num(); rs = ref_b(b, q)
        yield "{ %s return 0; }" % cs[1:-1], "{ %s return 0; }" % rs[1:-1]


def forms():
    """Every presence pattern of a for's three parts with empty and small bodies."""
    bs = [(), (('t',),), (('brk',),), (('cont',),), (('ret',),), (('if', ('brk',)),), (('if', ('cont',)), ('t',)), (('t',), ('if', ('ret',)))]
    for m in range(8):
        for b in bs:
            if m in (0, 1) and (b == () or b == (('cont',),)): continue  # spins without an observable step
            for after in ((), (('t',),)):
                for wrap in (lambda x: x, lambda x: (('ifb', x),), lambda x: (('while', x[0]),) if len(x) == 1 else (('whileb', x),)):
                    body = wrap((('fors', b, m),) + after)
                    q = Num(); cs = che_b(body, q)
                    q = Num(); rs = ref_b(body, q)
                    yield "{ %s return 0; }" % cs[1:-1], "{ %s return 0; }" % rs[1:-1]


def counts():
    """Numbers of things: labels of one case, cases of one switch, statements of a body, links of an else-if chain,
    levels of nesting."""
    def lab(kind, i): return '"k%d"' % i if kind else "%d" % (100 + i)
    for kind in (0, 1):
        head = "switch str (OS.wsv(0))" if kind else "switch (OS.wv(0))"
        for total in list(range(1, 26)) + [40]:
            for per in sorted({1, 2, 3, 5, 7, total}):
                for dflt in (0, 1):
                    if per > total: continue
                    cs = head + " {"; rs = "int q = wi(0); "
                    for j, st in enumerate(range(0, total, per)):
                        ls = range(st, min(total, st + per))
                        cs += " case %s: { OS.vt(%d); }" % (", ".join(lab(kind, x) for x in ls), j + 1)
                        rs += "%sif (%s) { vt(%d); }" % (" else " if j else "", " || ".join("q == %d" % x for x in ls), j + 1)
                    if dflt:
                        cs += " default: { OS.vt(777); }"; rs += " else { vt(777); }"
                    yield "{ %s } OS.vt(5); return 0; }" % cs, "{ %s vt(5); return 0; }" % rs
    for n in list(range(1, 41)) + [100, 300]:
        yield "{ " + " ".join("OS.vt(%d);" % i for i in range(n)) + " return %d; }" % n, "{ " + " ".join("vt(%d);" % i for i in range(n)) + " return %d; }" % n
        if n > 60: continue
        yield "{ int q = OS.wi(0); " + " else ".join("if (q == %d) { OS.vt(%d); }" % (i, i) for i in range(n)) + " else { OS.vt(777); } return 1; }", \
              "{ int q = wi(0); " + " else ".join("if (q == %d) { vt(%d); }" % (i, i) for i in range(n)) + " else { vt(777); } return 1; }"
        for kw, k1 in (("if (OS.vd()) {", "if (vd()) {"), ("while (OS.vd()) {", "while (vd()) {"), ("for (; OS.vd();) {", "for (; vd();) {"), ("{", "{")):
            if kw == "{": continue
            if n <= 24:
                t = "OS.vt(7); %s" % ("break;" if kw[0] != "i" else "")
                cs = "".join("%s OS.vt(%d); " % (kw, i) for i in range(n)) + t + "".join(" } OS.vt(%d); %s" % (50 + i, "break;" if kw[0] != "i" and i < n - 1 else "") for i in range(n))
                yield "{ %s return 2; }" % cs, "{ %s return 2; }" % cs.replace("OS.", "")


# ---------------------------------------------------------------- scoping
def scope_bodies(depth, width):
    """Bodies over: declare x (at most once per body, then used), read x, write x, nested constructs."""
    items = ["R", "W", "D"]
    def rec(d, w, have):
        if w == 0:
            yield []
            return
        for it in items:
            if it == "D" and have: continue
            for r in rec(d, w - 1, have or it == "D"):
                yield [it] + r
        if d > 0:
            for kind in ("if", "ife", "while", "forx", "sw", "ss"):
                for inner in rec(d - 1, w, False) if w == 1 else rec(d - 1, w - 1, False):
                    for r in rec(d, w - 1, have):
                        yield [(kind, inner)] + r
    for w in range(1, width + 1):
        yield from rec(depth, w, True)


def sc_che(b, n):
    o = []
    for it in b:
        if it == "R": o.append("OS.vt(x);")
        elif it == "W": o.append("x = x * 3 + %d;" % n())
        elif it == "D": o.append("int x = %d; x++;" % n())
        else:
            k, inner = it
            if k == "if": o.append("if (OS.vc(%d)) { %s }" % (n(), sc_che(inner, n)))
            elif k == "ife":
                a = n(); x = sc_che(inner, n)
                o.append("if (OS.vc(%d)) { %s } else { %s }" % (a, x, sc_che(inner, n)))
            elif k == "while": o.append("while (OS.vc(%d)) { %s }" % (n(), sc_che(inner, n)))
            elif k == "forx": o.append("for (int x = %d; OS.vq(1, x); x++) { %s }" % (n(), sc_che(inner, n)))
            elif k == "sw":
                a = n(); x = sc_che(inner, n)
                o.append("switch (OS.vv(%d)) { case 1: { %s } default: { %s } }" % (a, x, sc_che(inner, n)))
            elif k == "ss":
                x = sc_che(inner, n)
                o.append("switch str (vs) { case \"a\": { %s } default: { %s } }" % (x, sc_che(inner, n)))
    return " ".join(o)


def sc_ref(b, n, env):
    """Renames every declaration apart: scoping made explicit."""
    o = []
    cur = env
    for it in b:
        if it == "R": o.append("vt(%s);" % cur)
        elif it == "W": o.append("%s = %s * 3 + %d;" % (cur, cur, n()))
        elif it == "D":
            k = n(); cur = "x%d" % k
            o.append("int %s = %d; %s++;" % (cur, k, cur))
        else:
            k, inner = it
            if k == "if": o.append("if (vc(%d)) { %s }" % (n(), sc_ref(inner, n, cur)))
            elif k == "ife":
                a = n(); x = sc_ref(inner, n, cur)
                o.append("if (vc(%d)) { %s } else { %s }" % (a, x, sc_ref(inner, n, cur)))
            elif k == "while": o.append("while (vc(%d)) { %s }" % (n(), sc_ref(inner, n, cur)))
            elif k == "forx":
                a = n(); v = "x%d" % a
                o.append("for (int %s = %d; vq(1, %s); %s++) { %s }" % (v, a, v, v, sc_ref(inner, n, v)))
            elif k == "sw":
                a = n(); x = sc_ref(inner, n, cur)
                o.append("switch (vv(%d)) { case 1: { %s break; } default: { %s break; } }" % (a, x, sc_ref(inner, n, cur)))
            elif k == "ss":
                x = sc_ref(inner, n, cur)
                o.append("if (vidx() == 0) { %s } else { %s }" % (x, sc_ref(inner, n, cur)))
    return " ".join(o)


def scopes(depth, width):
    seen = set()
    for b in scope_bodies(depth, width):
        q = Num(); cs = sc_che(b, q)
        if cs in seen: continue
        seen.add(cs)
        q = Num(); rs = sc_ref(b, q, "x0")
        yield "{ int x = 100; %s return x; }" % cs, "{ int x0 = 100; %s return x0; }" % rs


# ---------------------------------------------------------------- switch labels
def switches():
    """Label kinds, groupings, orders and conditions of switches, every value tried."""
    labs = {"1": 1, "2": 2, "3": 3, "'\\x01'": None, "K1": 1, "K2": 2, "E1": 1, "E2": 2, "9": 9, "0x2": 2}
    labs = {k: v for k, v in labs.items() if v is not None}
    ids = list(labs)
    for g in itertools.permutations(ids, 3):
        if len({labs[x] for x in g}) != 3: continue
        for grouping in ((1, 1, 1), (2, 1), (1, 2), (3,)):
            for dflt in (False, True):
                gs = []; k = 0
                for z in grouping:
                    gs.append(g[k:k + z]); k += z
                cs = "switch (OS.vv(0)) { " + " ".join("case %s: { OS.vt(%d); }" % (", ".join(x), i + 1) for i, x in enumerate(gs))
                rs = "int q = vv(0); " + " else ".join("if (%s) { vt(%d); }" % (" || ".join("q == %d" % labs[y] for y in x), i + 1) for i, x in enumerate(gs))
                if dflt:
                    cs += " default: { OS.vt(77); }"; rs += " else { vt(77); }"
                cs += " }"
                yield "{ %s OS.vt(5); return 0; }" % cs, "{ %s vt(5); return 0; }" % rs
    for g in ((), ("1",), ("2", "9")):
        cs = "switch (OS.vv(0)) { %sdefault: { OS.vt(77); } }" % ("case %s: { OS.vt(1); } " % ", ".join(g) if g else "")
        rs = "int q = vv(0); if (%s) { vt(1); } else { vt(77); }" % (" || ".join("q == " + y for y in g) or "0")
        yield "{ %s OS.vt(5); return 0; }" % cs, "{ %s vt(5); return 0; }" % rs
    for g in ((), ("a",), ("b", "z")):
        cs = "switch str (OS.vsv(0)) { %sdefault: { OS.vt(77); } }" % ("case %s: { OS.vt(1); } " % ", ".join('"%s"' % x for x in g) if g else "")
        rs = "int q = vsi(0); if (%s) { vt(1); } else { vt(77); }" % (" || ".join("q == %d" % "abcz".index(y) for y in g) or "0")
        yield "{ %s OS.vt(5); return 0; }" % cs, "{ %s vt(5); return 0; }" % rs
    # strings
    lit = {'"a"': 0, '"b"': 1, '"c"': 2, 'SA': 0, 'SB': 1, '"zz"': 7, '""': 8, '"z"': 3}
    ids = list(lit)
    for g in itertools.permutations(ids, 3):
        if len({lit[x] for x in g}) != 3: continue
        for grouping in ((1, 1, 1), (2, 1), (1, 2), (3,)):
            for dflt in (False, True):
                gs = []; k = 0
                for z in grouping:
                    gs.append(g[k:k + z]); k += z
                cs = "switch str (vs) { " + " ".join("case %s: { OS.vt(%d); }" % (", ".join(x), i + 1) for i, x in enumerate(gs))
                rs = "int q = vidx(); " + " else ".join("if (%s) { vt(%d); }" % (" || ".join("q == %d" % lit[y] for y in x), i + 1) for i, x in enumerate(gs))
                if dflt:
                    cs += " default: { OS.vt(77); }"; rs += " else { vt(77); }"
                cs += " }"
                yield "{ %s OS.vt(5); return 0; }" % cs, "{ %s vt(5); return 0; }" % rs


def body(c):
    top = 5 if c.thorough else 4
    depth = 9 if c.thorough else 7
    for n in range(1, top + 1):
        run_batches(c, "flow%d" % n, gen(n), depth)
    run_batches(c, "forms", forms(), depth)
    run_batches(c, "counts", counts(), 3)
    run_batches(c, "scopes", itertools.chain(scopes(1, 3), scopes(2, 2)) if c.thorough else itertools.chain(scopes(1, 2), scopes(2, 1), itertools.islice(scopes(2, 2), 0, None, 8)), 6)
    run_batches(c, "labels", switches(), 3,
                "#define K1 1\n#define K2 2\nenum { E0, E1, E2 };\n#define SA \"a\"\n#define SB \"b\"\n"
                "int keep() { return E0 + E1 + E2 + K1 + K2 + (int) strlen(SA) + (int) strlen(SB); }\n"
                "pub int keep2() { return keep(); }")


if __name__ == "__main__":
    main("C02", body, ["gcc's reading of fully braced C with explicit breaks is the reference",
                       "a break directly inside a 'switch str' body is not covered (the language does not define what it leaves)"])
