"""C01: expressions keep their meaning through translation.

Enumerates all expression trees within bounds, writes each once in the che
language (minimal parentheses / all parentheses) and once in fully
parenthesised C, runs both over a grid of operand values and compares results
and side effects."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PREC = {}
for lvl, ops in enumerate(["||", "&&", "|", "^", "&", "== !=", "< > <= >=", "<< >>", "+ -", "* / %"]):
    for o in ops.split():
        PREC[o] = lvl + 1
UNARY = 20
POST = 30
ATOM = 40
ARITH = "+ - * / % << >> & ^ |".split()
CMP = "< > <= >= == !=".split()
LOGIC = "&& ||".split()
ALL = ARITH + CMP + LOGIC


# A node: ('v', name) | ('b', op, l, r) | ('u', op, e)
def prec(e):
    if e[0] == 'v': return ATOM
    if e[0] == 'b': return PREC[e[1]]
    return UNARY


def show_min(e):
    if e[0] == 'v': return e[1]
    if e[0] == 'u':
        x = show_min(e[2])
        if prec(e[2]) < UNARY: x = "(%s)" % x
        elif x[0] == e[1]: x = " " + x
        return e[1] + x
    l, r = show_min(e[2]), show_min(e[3])
    if prec(e[2]) < prec(e): l = "(%s)" % l
    if prec(e[3]) <= prec(e): r = "(%s)" % r
    return "%s %s %s" % (l, e[1], r)


def show_tight(e):
    s = show_min(e)
    # no spaces unless they separate tokens that would merge
    out = ""
    for i, ch in enumerate(s):
        if ch == " ":
            nxt = s[i + 1]
            if out and out[-1] == nxt and nxt in "-&+": out += " "
            continue
        out += ch
    return out


def show_full(e):
    if e[0] == 'v': return e[1]
    if e[0] == 'u': return "(%s(%s))" % (e[1], show_full(e[2]))
    return "((%s) %s (%s))" % (show_full(e[2]), e[1], show_full(e[3]))


def typ(e):
    """'i', 'b' or None when che's typing rules don't admit it."""
    if e[0] == 'v': return 'i'
    if e[0] == 'u':
        t = typ(e[2])
        if t is None: return None
        if e[1] == '!': return 'b'
        return 'i' if t == 'i' else None
    a, b = typ(e[2]), typ(e[3])
    if a is None or b is None: return None
    if e[1] in LOGIC: return 'b'
    if a == b == 'i': return 'i' if e[1] in ARITH else 'b'
    if a == b == 'b' and e[1] in ("==", "!="): return 'b'
    return None


def shapes(n):
    if n == 0:
        yield None
        return
    for k in range(n):
        for l in shapes(k):
            for r in shapes(n - 1 - k):
                yield (l, r)


def fill(shape, ops, names):
    if shape is None:
        return ('v', names.pop(0))
    op = ops.pop(0)
    l = fill(shape[0], ops, names)
    r = fill(shape[1], ops, names)
    return ('b', op, l, r)


def trees(n, ops):
    for s in shapes(n):
        for o in itertools.product(ops, repeat=n):
            e = fill(s, list(o), list("abcdefgh"))
            if typ(e): yield e


def decorate(e, k):
    """All ways to put at most k unary operators on nodes of e (at most two stacked)."""
    if k == 0:
        yield e, 0
        return
    def rec(x, left):
        if x[0] == 'v':
            subs = [(x, 0)]
        elif x[0] == 'b':
            subs = []
            for l, ul in rec(x[2], left):
                for r, ur in rec(x[3], left - ul):
                    subs.append((('b', x[1], l, r), ul + ur))
        for y, u in subs:
            yield y, u
            if u < left:
                for o in "-~!":
                    yield ('u', o, y), u + 1
                    if u + 1 < left:
                        for o2 in "-~!":
                            yield ('u', o2, ('u', o, y)), u + 2
    for y, u in rec(e, k):
        if typ(y): yield y, u


HARNESS = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
typedef int fn(void);
extern int A,B,C,D,E; extern fn *rtab[]; extern const char *txt[]; extern int nref;
int rd(double x){ long q; memcpy(&q,&x,8); if(x!=x) return 12345; return (int)(q^(q>>29)^(q>>47)); }
double dv(int k){ return k==-3?1e16:k==0?0.1:k==1?3.0:k==2?-1e16:1e-3; }
long iv(int k){ return k==-3?2147483647L:k==0?1:k==1?3:k==2?-2147483647L:100; }
static sigjmp_buf jb; static void fpe(int s){ siglongjmp(jb,1); }
static int call(fn *f, int *trap){ *trap=0; if(sigsetjmp(jb,0)){*trap=1;return 0;} return f(); }
void drive(fn **tab, int n, int *a,int *b,int *c,int *d,int *e){
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=fpe; sa.sa_flags=SA_NODEFER; sigaction(SIGFPE,&sa,0);
  static const int V[]={-3,0,1,2,7};
  if(n!=nref){printf("VIOL count number of functions %d != %d\n",n,nref);}
  long ev=0; int bad=0;
  for(int i=0;i<n;i++){
    int nv = 0; const char *t=txt[i]; for(const char*p=t;*p;p++) if(*p>='a'&&*p<='e'&&*p-'a'+1>nv) nv=*p-'a'+1;
    int tot=1; for(int k=0;k<nv;k++) tot*=5;
    for(int q=0;q<tot;q++){ int x=q,v[5]={1,1,1,1,1}; for(int k=0;k<nv;k++){v[k]=V[(x+k)%5];x/=5;}
      *a=v[0];*b=v[1];*c=v[2];*d=v[3];*e=v[4]; int t1,t2; int r1=call(tab[i],&t1);
      A=v[0];B=v[1];C=v[2];D=v[3];E=v[4]; int r2=call(rtab[i],&t2); ev++;
      if(r1!=r2||t1!=t2||*a!=A||*b!=B||*c!=C||*d!=D||*e!=E){
        if(bad++<20) printf("VIOL expr '%s' with a=%d b=%d c=%d d=%d e=%d: got %d%s (a=%d b=%d c=%d), want %d%s (a=%d b=%d c=%d)\n",t,v[0],v[1],v[2],v[3],v[4],r1,t1?" trap":"",*a,*b,*c,r2,t2?" trap":"",A,B,C); break; }
    }
  }
  printf("STAT %d %ld %d\nDONE\n",n,ev,n); fflush(stdout); _exit(0);
}
'''


def int_batch(c, part, items, idx):
    """items: list of (che text, C text) expressions or statements over globals a..e."""
    d = sub("c01_%s_%d" % (part, idx))
    che_src = ["#include <shim.h>", "typedef int fn_t();"] + ["int %s = 0;" % v for v in "abcde"]
    ref = ["#include <stdint.h>\n#include <stddef.h>\n#include <stdbool.h>\nint rd(double); double dv(int); long iv(int);\ntypedef int fn(void); int A,B,C,D,E;", "#define a A", "#define b B", "#define c C", "#define d D", "#define e E"]
    txt = []
    for i, (cs, rs) in enumerate(items):
        che_src.append("int f%d() { return %s; }" % (i, cs) if not cs.startswith("{") else "int f%d() %s" % (i, cs))
        ref.append("int r%d(void) { return %s; }" % (i, rs) if not rs.startswith("{") else "int r%d(void) %s" % (i, rs))
        txt.append(cs)
    n = len(items)
    che_src.append("fn_t *tab[] = {%s};" % ", ".join("f%d" % i for i in range(n)))
    che_src.append("int main() { OS.drive(tab, %d, &a, &b, &c, &d, &e); return 0; }" % n)
    ref.append("#undef a\n#undef b\n#undef c\n#undef d\n#undef e")
    ref.append("fn *rtab[]={%s}; int nref=%d;" % (",".join("r%d" % i for i in range(n)), n))
    ref.append("const char *txt[]={%s};" % ",".join('"%s"' % t.replace("\\", "\\\\").replace('"', '\\"') for t in txt))
    rp = d + "/ref.c"; hp = d + "/h.c"
    open(rp, "w").write("\n".join(ref)); open(hp, "w").write(HARNESS)
    try:
        return build_driver("c01_%s_%d" % (part, idx), "\n".join(che_src) + "\n", [rp, hp], san=False, opt="-O0",
                            shim_h="void drive(); int rd(double); double dv(int); long iv(int);\n")
    except BuildFailure as e:
        return e


def run_batches(c, part, items, size=1500, builder=int_batch):
    items = list(items)
    if items:
        c.sample("%s: %s  |  %s" % (part, items[len(items) // 3][0], items[len(items) * 2 // 3][0]))
    batches = [items[i:i + size] for i in range(0, len(items), size)]
    def one(t):
        i, b = t
        e = builder(c, part, b, i)
        return i, b, e
    exes = []
    for i, b, e in pmap(one, list(enumerate(batches))):
        if isinstance(e, BuildFailure):
            narrow(c, part, b, i, builder, e)
        else:
            exes.append((i, e))
    for i, e in exes:
        c.harness(part, e, timeout=300)


def narrow(c, part, b, i, builder, err):
    """Find one input the translation of which is rejected."""
    lo = b
    k = 0
    while len(lo) > 1 and k < 14:
        k += 1
        h = len(lo) // 2
        e = builder(c, part, lo[:h], 100000 + i * 100 + k)
        if isinstance(e, BuildFailure): lo = lo[:h]; err = e
        else: lo = lo[h:]
    c.violation("%s: valid expression is not translated to valid C: %s" % (part, lo[0][0]), str(err))


# ---------------------------------------------------------------- pointers, fields, calls
PH_DECL = r'''
typedef struct S { int x; int *p; struct S *n; int arr[4]; int (*fn)(int); } S;
extern int I[64]; extern S T[64]; extern int *PP[64]; extern S *SP[64];
extern int k; int inc(int); int *pick(int); S *spick(int);
'''
# types: i, pi, ppi, s, ps, pps ; lvalue flag
PTR = {'i': 'pi', 'pi': 'ppi', 's': 'ps', 'ps': 'pps'}
DER = {v: kk for kk, v in PTR.items()}


def ptr_exprs(depth):
    """All (text_min, text_full, prec, type, is_lvalue, effects) with exactly up to depth operators."""
    base = [("p", 'pi'), ("q", 'ppi'), ("s", 's'), ("t", 'ps'), ("u", 'pps'), ("v", 'i')]
    level = [(n, n, ATOM, t, True, 0) for n, t in base]
    allv = list(level)
    for d in range(depth):
        new = []
        for m, f, pr, t, lv, ef in level:
            um = m if pr >= UNARY else "(%s)" % m
            pm = m if pr >= POST else "(%s)" % m
            def U(op, t2, lv2, e2=0):
                body = um if not (um[0] == op[-1] and op[-1] in "-&+") else " " + um
                new.append((op + body, "(%s(%s))" % (op, f), UNARY, t2, lv2, ef + e2))
            def P(suf, t2, lv2, e2=0):
                new.append((pm + suf, "((%s)%s)" % (f, suf), POST, t2, lv2, ef + e2))
            if t in DER: U("*", DER[t], True)
            if t in PTR and lv: U("&", PTR[t], False)
            if t == 'i':
                U("-", 'i', False); U("!", 'i', False); U("~", 'i', False)
            if t in ('pi', 'ppi', 'ps', 'pps', 'i') and lv and ef < 2:
                U("++", t, False, 1); U("--", t, False, 1)
                P("++", t, False, 1); P("--", t, False, 1)
            if t in DER:
                P("[1]", DER[t], True)
                P("[v - 1]", DER[t], True)
            if t == 's':
                P(".x", 'i', lv); P(".p", 'pi', lv); P(".n", 'ps', lv); P(".arr[2]", 'i', True); P(".fn(3)", 'i', False)
            if t == 'ps':
                P("->x", 'i', True); P("->p", 'pi', True); P("->n", 'ps', True); P("->arr[1]", 'i', True); P("->fn(4)", 'i', False)
            if t in ('pi', 'ppi', 'ps', 'pps'):
                new.append(("(%s + 1)" % (m if pr > PREC["+"] else "(%s)" % m), "((%s) + 1)" % f, ATOM, t, False, ef))
            if t in ('pi', 'ppi', 'ps'):
                ct = {'pi': 'int *', 'ppi': 'int **', 'ps': 'S *'}[t]
                new.append(("(%s) %s" % (ct, um), "((%s)(%s))" % (ct, f), UNARY, t, False, ef))
        allv += new
        level = new
    return allv


HARNESS_P = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <shim.h>
typedef long fn(void);
int I[64]; S T[64]; int *PP[64]; S *SP[64]; int k;
int inc(int x){ k=k*31+x; return x*10+1; }
int *pick(int i){ k=k*31+i; return I+20+i; }
S *spick(int i){ k=k*31+i; return T+20+i; }
static void reset(void){ k=1; for(int i=0;i<64;i++){ I[i]=i*7+3; PP[i]=I+8+(i*5)%40; SP[i]=T+8+(i*7)%40; memset(&T[i],0,sizeof(S));
  T[i].x=1000+i*3; T[i].p=I+8+(i*11)%40; T[i].n=T+8+(i*13)%40; for(int j=0;j<4;j++)T[i].arr[j]=i*4+j+5000; T[i].fn=inc; } }
extern fn *rtab[]; extern const char *txt[]; extern int nref; void rset(void), rget(long*);
static int I1[64]; static S T1[64]; static int *PP1[64]; static S *SP1[64];
void drive(fn **tab, int n, void (*set)(void), void (*get)(long*)){
  int bad=0;
  for(int i=0;i<n;i++){
    long g1[16],g2[16]; memset(g1,0,sizeof g1); memset(g2,0,sizeof g2);
    reset(); set(); long r1=tab[i](); get(g1); int k1=k; memcpy(I1,I,sizeof I);memcpy(T1,T,sizeof T);memcpy(PP1,PP,sizeof PP);memcpy(SP1,SP,sizeof SP);
    reset(); rset(); long r2=rtab[i](); rget(g2);
    if(r1!=r2||k1!=k||memcmp(g1,g2,sizeof g1)||memcmp(I1,I,sizeof I)||memcmp(T1,T,sizeof T)||memcmp(PP1,PP,sizeof PP)||memcmp(SP1,SP,sizeof SP)){
      if(bad++<20) printf("VIOL expr '%s': result or side effects differ from the grouping written in the source (got %ld want %ld)\n",txt[i],r1,r2); }
  }
  printf("STAT %d %d %d\nDONE\n",n,2*n,n); fflush(stdout); _exit(0);
}
'''


def ptr_batch(c, part, items, idx):
    name = "c01_%s_%d" % (part, idx)
    d = sub(name)
    os.makedirs(d + "/pinc", exist_ok=True)
    open(d + "/pinc/ph.h", "w").write(PH_DECL)
    setb = "p = OS.I + 30; q = OS.PP + 30; s = *(OS.T + 30); t = OS.T + 31; u = OS.SP + 30; v = 2;"
    rsetb = "p = I + 30; q = PP + 30; s = *(T + 30); t = T + 31; u = SP + 30; v = 2;"
    src = ["#include <shim.h>", "#include <ph.h>", "#type S", "typedef int64_t fn_t();",
           "int *p = NULL;", "int **q = NULL;", "S s = {0};", "S *t = NULL;", "S **u = NULL;", "int v = 0;"]
    ref = ["#include <shim.h>\n#include <ph.h>\ntypedef long fn(void); static int *p; static int **q; static S s; static S *t; static S **u; static int v;"]
    for i, (m, f) in enumerate(items):
        src.append("int64_t f%d() { return (int64_t) %s; }" % (i, m))
        ref.append("long r%d(void) { return (long) %s; }" % (i, f))
    n = len(items)
    src.append("fn_t *tab[] = {%s};" % ", ".join("f%d" % i for i in range(n)))
    src.append("void set() { %s }" % setb)
    src.append("void get(int64_t *g) { g[0] = (int64_t) p; g[1] = (int64_t) q; g[2] = (int64_t) s.x; g[3] = (int64_t) s.p; g[4] = (int64_t) s.n; g[5] = (int64_t) t; g[6] = (int64_t) u; g[7] = (int64_t) v; g[8] = (int64_t) s.arr[2]; }")
    src.append("int main() { OS.drive(tab, %d, set, get); return 0; }" % n)
    ref.append("void rset(void) { %s }" % rsetb)
    ref.append("void rget(long *g) { g[0] = (long)p; g[1] = (long)q; g[2] = s.x; g[3] = (long)s.p; g[4] = (long)s.n; g[5] = (long)t; g[6] = (long)u; g[7] = v; g[8] = s.arr[2]; }")
    ref.append("fn *rtab[]={%s}; int nref=%d;" % (",".join("r%d" % i for i in range(n)), n))
    ref.append("const char *txt[]={%s};" % ",".join('"%s"' % m for m, f in items))
    open(d + "/ref.c", "w").write("\n".join(ref)); open(d + "/h.c", "w").write(HARNESS_P.replace("#include <shim.h>", "#include <shim.h>\n#include <ph.h>"))
    try:
        return build_driver(name, "\n".join(src) + "\n", [d + "/ref.c", d + "/h.c"], san=False, opt="-O0", incs=[d + "/pinc"])
    except BuildFailure as e:
        return e


def ptr_items(depth):
    seen = set()
    for m, f, pr, t, lv, ef in ptr_exprs(depth):
        if t == 's': continue
        # an address of a module variable is not comparable; skip roots that expose it
        if "&" in m and not exposes_ok(m): continue
        if (m, f) in seen: continue
        seen.add((m, f))
        yield (m if pr >= UNARY else "(%s)" % m), f


def exposes_ok(m):
    # &p, &q, &s, &t, &u, &v and s.member addresses live in per-side storage
    import re
    return not re.search(r"&\s*\(*\s*[pqstuv](?![\w\[>-])", m)


# ---------------------------------------------------------------- casts / widths
CT = ["int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "size_t", "char", "double", "float", "int"]


def cast_items():
    for t in CT:
        for op in ["+", "-", "*", "<", "=="]:
            if t == "char" and op in "+-*": continue
            yield "(int64_t) ((%s) a %s (%s) b)" % (t, op, t), "(long) (((%s)(a)) %s ((%s)(b)))" % (t, op, t)
        yield "(int64_t) (%s) (a + b)" % t, "(long) ((%s)((a) + (b)))" % t
        yield "(int64_t) (%s) -a" % t, "(long) ((%s)(-(a)))" % t
        yield "(int64_t) (%s) a * 3" % t, "((long) ((%s)(a))) * 3" % t
        if t not in ("double", "float"):
            yield "(int64_t) ~(%s) a" % t, "(long) (~((%s)(a)))" % t
            yield "(int64_t) -(%s) a" % t, "(long) (-((%s)(a)))" % t
        for t2 in CT:
            yield "(int64_t) (%s) (%s) (a * 4097 + b)" % (t, t2), "(long) ((%s)((%s)((a) * 4097 + (b))))" % (t, t2)
        yield "(int64_t) sizeof(%s) * a" % t, "((long) sizeof(%s)) * a" % t
        yield "(int64_t) sizeof(%s *) + a" % t, "((long) sizeof(%s *)) + a" % t
    for e in ["a", "a + 1", "&a", "*(&a)"]:
        yield "(int64_t) sizeof(%s) - a" % e, "((long) sizeof(%s)) - a" % e


def cast_ok(items):
    for m, f in items:
        yield m.replace("(int64_t)", "(int)", 1), f.replace("(long)", "(int)", 1)


# ---------------------------------------------------------------- assignment statements
def assign_items():
    asg = "= += -= *= /= %= &= ^= |= <<= >>=".split()
    for op in asg:
        for o2 in ARITH:
            yield "{ a %s b %s c; return a; }" % (op, o2), "{ a %s ((b) %s (c)); return a; }" % (op, o2)
            yield "{ a %s (b %s c); return a; }" % (op, o2), "{ a %s ((b) %s (c)); return a; }" % (op, o2)
        for o2 in asg:
            yield "{ a %s b %s c; return a; }" % (op, o2), "{ a %s (b %s c); return a; }" % (op, o2)
            yield "{ a %s (b %s c); return a; }" % (op, o2), "{ a %s (b %s c); return a; }" % (op, o2)
        for u in ["-", "~", "!"]:
            yield "{ a %s %sb; return a; }" % (op, u), "{ a %s (%s(b)); return a; }" % (op, u)
        for inc in ["b++", "b--", "++b", "--b", "b++ - c", "c - b--", "c - --b", "c + ++b", "-b++", "-++b", "- --b", "!b--", "~--b",
                    "b-- - --c", "b++ + ++c"]:
            yield "{ a %s %s; return a; }" % (op, inc), "{ a %s (%s); return a; }" % (op, {
                "b++ - c": "(b++) - c", "c - b--": "c - (b--)", "c - --b": "c - (--b)", "c + ++b": "c + (++b)", "-b++": "-(b++)", "-++b": "-(++b)",
                "- --b": "-(--b)", "!b--": "!(b--)", "~--b": "~(--b)", "b-- - --c": "(b--) - (--c)", "b++ + ++c": "(b++) + (++c)"}.get(inc, inc))
        yield "{ int *p = &a; *p %s b; return a; }" % op, "{ int *p = &a; (*p) %s b; return a; }" % op
        yield "{ int x[3] = {1, 2, 3}; x[1] %s b; x[0] %s x[1] - c; return x[0] * 7 + x[1] * 3 + x[2]; }" % (op, op), \
              "{ int x[3] = {1, 2, 3}; x[1] %s b; x[0] %s (x[1] - c); return x[0] * 7 + x[1] * 3 + x[2]; }" % (op, op)
        yield "{ int *p = &a; (*p)++; *p %s b; --*p; return (*p)--; }" % op, "{ int *p = &a; (*p)++; (*p) %s b; --(*p); return (*p)--; }" % op
    for i, l in enumerate(["1", "0", "42", "0x1F", "010", "'a'", "7UL", "3L"]):
        for op in ["+", "-", "*", "&", "|", "^", "==", "<"]:
            if l == "'a'" and op not in ("==",): continue
            yield "a %s %s" % (op, l), "(a) %s (%s)" % (op, l)
            yield "%s %s a" % (l, op), "(%s) %s (a)" % (l, op)
            if l != "'a'":
                yield "a %s -%s" % (op, l), "(a) %s (-(%s))" % (op, l)
                yield "-%s %s a" % (l, op), "(-(%s)) %s (a)" % (l, op)
    yield "- -a", "-(-a)"
    yield "-(-(-a))", "-(-(-a))"
    yield "a - -b", "a - (-b)"
    yield "a - - -b", "a - (-(-b))"
    yield "a-(-b)", "a - (-b)"


# ---------------------------------------------------------------- typed operands
def typed_trees(n, ops, kinds, admit):
    """Trees over leaves of given kinds: (tree with names x, y, z, w; declarations)."""
    for s in shapes(n):
        for o in itertools.product(ops, repeat=n):
            for k in itertools.product(kinds, repeat=n + 1):
                e = fill(s, list(o), list("xyzwv"))
                if admit(e, dict(zip("xyzwv", k))): yield e, k


def btyp(e, env):
    if e[0] == 'v': return env[e[1]]
    if e[0] == 'u': return 'b' if e[1] == '!' else None
    a, b = btyp(e[2], env), btyp(e[3], env)
    if a is None or b is None: return None
    if e[1] in LOGIC: return 'b'
    if a == b == 'i': return 'b' if e[1] in CMP else 'i'
    return 'b' if a == b and e[1] in ("==", "!=") else None


def bool_items(thorough):
    """Comparisons of comparisons: operands are booleans and integers."""
    pools = [(1, ALL), (2, ALL), (3, CMP + LOGIC if thorough else "== != <= &&".split())]
    for n, ops in pools:
        for e, k in typed_trees(n, ops, "ib", lambda e, env: 'b' in env.values() and btyp(e, env) == 'b'):
            ds = ["%s %s = %s;" % ("int" if t == 'i' else "bool", v, g if t == 'i' else g + " > 0") for v, g, t in zip("xyzwv", "abcde", k)]
            yield "{ %s return (int) (%s); }" % (" ".join(ds), show_min(e)), "{ %s return (%s); }" % (" ".join(ds), show_full(e))


def mtyp(e, env):
    """Numeric class: + and - want one class on both sides, * and / also mix integers with floats."""
    if e[0] == 'v': return {"f": 'f', "d": 'f', "u": 'u', "i": 's'}[env[e[1]][0]]
    a, b = mtyp(e[2], env), mtyp(e[3], env)
    if a is None or b is None: return None
    if a == b: return a
    return 'f' if e[1] in "*/" and 'f' in (a, b) else None


def mixed_items(thorough):
    """Arithmetic on mixed widths and on floating-point numbers, where regrouping changes the value."""
    get = {"int": "(int) %siv(%s)", "int64_t": "%siv(%s)", "float": "(float) %sdv(%s)", "double": "%sdv(%s)", "uint8_t": "(uint8_t) %siv(%s)", "uint32_t": "(uint32_t) %siv(%s)"}
    kinds = list(get) if thorough else ["int", "int64_t", "float", "double"]
    for n in (1, 2):
        for e, k in typed_trees(n, "+ - * /".split(), kinds, mtyp):
            cs = " ".join("%s %s = %s;" % (t, v, get[t] % ("OS.", g)) for v, g, t in zip("xyzwv", "abcde", k))
            rs = " ".join("%s %s = %s;" % (t, v, get[t] % ("", g)) for v, g, t in zip("xyzwv", "abcde", k))
            yield "{ %s return OS.rd((double) (%s)); }" % (cs, show_min(e)), "{ %s return rd((double) (%s)); }" % (rs, show_full(e))
    # long chains, both groupings, of floating-point and narrow operands
    for op, o2 in itertools.product("+ - *".split(), repeat=2):
        for n in range(3, 12):
            def chain(left):
                xs = ["x", "y", "z"]
                e = ('v', xs[0])
                for i in range(1, n):
                    o = op if i % 2 else o2
                    e = ('b', o, e, ('v', xs[i % 3])) if left else ('b', o, ('v', xs[i % 3]), e)
                return e
            for left in (True, False):
                for t in ("float", "double", "int64_t"):
                    cs = " ".join("%s %s = %s;" % (t, v, get[t] % ("OS.", g)) for v, g in zip("xyz", "abc"))
                    rs = " ".join("%s %s = %s;" % (t, v, get[t] % ("", g)) for v, g in zip("xyz", "abc"))
                    e = chain(left)
                    yield "{ %s return OS.rd((double) (%s)); }" % (cs, show_min(e)), "{ %s return rd((double) (%s)); }" % (rs, show_full(e))


def deep_items():
    """Every operator (pair) nested far to the left and far to the right; parentheses and unary operators stacked deep."""
    for o1 in ARITH:
        for o2 in ARITH:
            for n in (4, 5, 8, 16, 33):
                for left in (True, False):
                    e = ('v', "a")
                    for i in range(1, n):
                        o = o1 if i % 2 else o2
                        v = ('v', "abcde"[i % 5])
                        e = ('b', o, e, v) if left else ('b', o, v, e)
                    yield show_min(e), show_full(e)
    for n in range(1, 70):
        yield "(" * n + "a - b" + ")" * n + " - c", "(a - b) - c"
        yield "c - " + "(" * n + "a - b" + ")" * n, "c - (a - b)"
    for n in range(1, 12):
        for us in itertools.product("-~", repeat=min(n, 4)):
            e = ('v', 'a')
            for i in range(n): e = ('u', us[i % len(us)], e)
            yield show_min(e), show_full(e)


def body(c):
    # two operators with unary decoration
    k = 2 if c.thorough else 1
    def two():
        for e in trees(0, ALL):
            for y, _ in decorate(e, 3):
                yield show_min(y), show_full(y)
        for e in trees(1, ALL):
            for y, _ in decorate(e, 3 if c.thorough else 2):
                yield show_min(y), show_full(y)
                if c.thorough: yield show_full(y), show_full(y)
        for e in trees(2, ALL):
            for y, u in decorate(e, k):
                yield show_min(y), show_full(y)
                if u == 0:
                    yield show_tight(y), show_full(y)
                    yield show_full(y), show_full(y)
    run_batches(c, "ops2", two())
    rep = "+ - * / % << >> < >= == & ^ | && ||".split() if c.thorough else "- / % << < == & ^ | && ||".split()
    run_batches(c, "ops3", ((show_min(e), show_full(e)) for e in trees(3, rep)))
    if c.thorough:
        run_batches(c, "ops4", ((show_min(e), show_full(e)) for e in trees(4, "- / << < == & ^ | && ||".split())))
    run_batches(c, "bools", bool_items(c.thorough))
    run_batches(c, "mixed", mixed_items(c.thorough))
    run_batches(c, "deep", deep_items())
    run_batches(c, "assign", assign_items())
    run_batches(c, "casts", cast_ok(cast_items()))
    run_batches(c, "pointers", ptr_items(4 if c.thorough else 3), builder=ptr_batch)


if __name__ == "__main__":
    main("C01", body, ["gcc's reading of fully parenthesised C is the reference for an expression's meaning",
                       "operands are ints from {-3,0,1,2,7} (pointer part: fixed linked heap); 32-bit wraparound semantics (-fwrapv)"])
