"""C03: literals keep their value, and comments and whitespace none at all.

Strings, character and number literals are enumerated over alphabets of
spelling atoms, translated by the real che in several contexts, compiled, and
compared byte by byte with values computed independently (strings) or by gcc
from the same literal (numbers). Layout: a corpus covering the syntax is
re-spelled with every separator between every pair of adjacent tokens; the
translation must be the same (or at least behave the same)."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

HEX = "0123456789abcdefABCDEF"
ESC = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "f": 12, "v": 11, "\\": 92, '"': 34, "'": 39, "?": 63}


def decode(t):
    """The bytes of one string part as C reads it, or None if C doesn't."""
    b = t.encode("utf-8"); o = bytearray(); i = 0
    while i < len(b):
        if b[i:i + 1] != b"\\": o.append(b[i]); i += 1; continue
        i += 1; c = chr(b[i])
        if c == "x":
            j = i + 1
            while j < len(b) and chr(b[j]) in HEX: j += 1
            if j == i + 1 or int(b[i + 1:j], 16) > 255: return None
            o.append(int(b[i + 1:j], 16)); i = j
        elif c in "01234567":
            j = i
            while j < len(b) and j < i + 3 and chr(b[j]) in "01234567": j += 1
            if int(b[i:j], 8) > 255: return None
            o.append(int(b[i:j], 8)); i = j
        else: o.append(ESC[c]); i += 1
    return bytes(o)


ATOMS = ["a", "\\\"", "\\\\", "\\n", "\\t", "\\x41", "\\0", "\\101", "\n", "%", "'", "//", "/*", "*/", "#", "é", " ", "\t", "1", "\\'", "{", ";"]
SEPS = ["", " ", "\n", "\t \r\n", "\n\n  ", "/*\"*/", " // \"\n"]


def strings(c):
    """(spelling, bytes) of all strings in bounds."""
    n = 4 if c.thorough else 3
    small = ["a", "\\\"", "\\\\", "\\n", "\\x41", "\\0", "\n", "//", "é", "1"]
    for k in range(0, n + 1):
        for t in itertools.product(ATOMS if k <= 3 and (c.thorough or k <= 2) else small + ["*/", "/*", "#"] if k <= 3 else small, repeat=k):
            s = "".join(t); d = decode(s)
            if d is not None: yield '"%s"' % s, d
    parts = [""] + ATOMS
    for a, b in itertools.product(parts, repeat=2):
        for sp in SEPS:
            da, db = decode(a), decode(b)
            yield '"%s"%s"%s"' % (a, sp, b), da + db
    p2 = ["", "a", "\\x4", "\\1", "\\\"", "\\\\", "1", "\\0", "g", "\\\\1", "\\x4\\\\", "\\n"]
    for k in (3,) + ((4,) if c.thorough else ()):
        for t in itertools.product(p2 if k == 3 else p2[:9], repeat=k):
            yield " ".join('"%s"' % x for x in t), b"".join(decode(x) for x in t)
    for x in ["\\x4", "\\x41", "\\1", "\\12", "\\101", "\\0", "\\\\x4", "\\\\1", "\\\\\\x4"]:
        for y in HEX + "gG _-":
            yield '"%s" "%s"' % (x, y), decode(x) + decode(y)
            d = decode(x + y)
            if d is not None: yield '"%s%s"' % (x, y), d


def short(s): return s.count('"') <= 4 and len(s) <= 8


def carr(b): return "{" + "".join("%d," % x for x in b) + "0}"


HARN = r"""
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
extern const unsigned char *want[]; extern const int wantn[];
long done, bad;
static void no(int i, const char *w, const void *p, long n) { bad++; printf("BAD %d %s got", i, w); for (long k = 0; k < n && k < 20; k++) printf(" %02x", ((unsigned char *)p)[k]); puts(""); }
void va(int i, const char *p, unsigned long n) { done++; if (n != (unsigned long) wantn[i] + 1 || memcmp(p, want[i], n)) no(i, "array", p, n); }
void vp(int i, const char *p) { done++; if (memcmp(p, want[i], wantn[i] + 1)) no(i, "pointer", p, wantn[i] + 1); }
const char *vw(int i) { return (const char *) want[i]; }
void vm(int i, int m, int exp) { done++; if (m != exp) { bad++; printf("BAD %d switch label, got %d\n", i, m); } }
void vx(int i, int a, int ch) { done++; if ((unsigned char) a != (unsigned char) want[i][ch]) no(i, "index", &a, 1); }
"""


def str_batch(c, part, idx, items, allctx):
    d = sub("s%s%d" % (part, idx))
    fns, mods = [], []
    for lo in range(0, len(items), 60):
        b = ["pub void f%d() {" % lo]
        for i in range(lo, min(lo + 60, len(items))):
            s, w = items[i]
            b.append("\tchar a%d[] = %s;\n\tOS.va(%d, a%d, sizeof(a%d));" % (i, s, i, i, i))
            if allctx:
                b.append("\tOS.vp(%d, %s);" % (i, s))
                b.append("\tconst char *p%d = %s;\n\tOS.vp(%d, p%d);" % (i, s, i, i))
                b.append("\trec_t r%d = { .n = 1, .s = %s, .e = \"q\" };\n\tOS.vp(%d, r%d.s);" % (i, s, i, i))
                b.append("\tOS.vp(%d, m%d);" % (i, i))
                b.append("\tOS.vp(%d, arr%d[%d]);" % (i, lo, i - lo))
                mods.append("const char *m%d = %s;" % (i, s))
                if w: b.append("\tOS.vx(%d, (%s)[%d], %d);" % (i, s, len(w) - 1, len(w) - 1))
                if 0 not in w:
                    b.append("\tint z%d = 0;\n\tswitch str (OS.vw(%d)) { case \"\\x7f\": { z%d = 1; } default: { z%d = 2; } }\n\tOS.vm(%d, z%d, 2);" % (i, i, i, i, i, i))
                    b.append("\tint y%d = 0;\n\tswitch str (OS.vw(%d)) { case \"\\x7f\", %s: { y%d = 1; } default: { y%d = 2; } }\n\tOS.vm(%d, y%d, 1);" % (i, i, s, i, i, i, i))
        if allctx:
            mods.append("const char *arr%d[] = {%s};" % (lo, ", ".join(items[i][0] for i in range(lo, min(lo + 60, len(items))))))
        b.append("}\n")
        fns.append("\n".join(b))
    src = "#include <shim.h>\n" + ("typedef { int n; const char *s; const char *e; } rec_t;\n" if allctx else "") + "\n".join(mods) + "\n" + "\n".join(fns) + \
        "int main() {\n" + "".join("\tf%d();\n" % lo for lo in range(0, len(items), 60)) + "\tOS.fin();\n\treturn 0;\n}\n"
    ref = HARN + "void fin() { printf(\"DONE %ld\\n\", done); }\n" + "".join("static const unsigned char w%d[] = %s;\n" % (i, carr(w)) for i, (s, w) in enumerate(items)) + \
        "const unsigned char *want[] = {%s};\nconst int wantn[] = {%s};\n" % (",".join("w%d" % i for i in range(len(items))), ",".join(str(len(w)) for s, w in items))
    return finish_batch(c, part, d, src, ref, items, "void va(); void vp(); void vx(); const char *vw(int); void vm(); void fin();\n")


def finish_batch(c, part, d, src, ref, items, hdr, opt="-O0"):
    with open(d + "/m.c", "w", newline="") as f: f.write(src)
    with open(d + "/ref.c", "w") as f: f.write(ref)
    os.makedirs(d + "/inc", exist_ok=True)
    with open(d + "/inc/shim.h", "w") as f: f.write(hdr)
    r, files = genc(d + "/m.c", d + "/c")
    if r.rc != 0:
        if len(items) > 1: return None
        c.violation("%s: refused: %r: %s" % (part, items[0][0], (r.err + r.out)[:200]), src); return 0
    q = run(["gcc", "-std=c99", "-w", opt, "-I", d + "/inc", "-o", d + "/x"] + files + [d + "/ref.c"], timeout=300)
    if q.rc != 0:
        if len(items) > 1: return None
        c.violation("%s: the C for %r doesn't compile: %s" % (part, items[0][0], q.err[:300]), src); return 0
    q = run([d + "/x"], timeout=120)
    m = re.search(r"^DONE (\d+)", q.out, re.M)
    for l in q.out.splitlines():
        if l.startswith("BAD "):
            i = int(l.split()[1]); c.violation("%s: literal %r: %s" % (part, items[i][0], l), "literal %r expected %r\n%s" % (items[i][0], items[i][1], l))
    if not m or q.rc != 0:
        if len(items) > 1: return None
        c.violation("%s: program with %r ended abnormally rc=%s" % (part, items[0][0], q.rc), src); return 0
    shutil.rmtree(d)
    return int(m.group(1))


def run_all(c, part, items, f, n):
    """Batches; a batch that fails as a whole is split down to the culprit."""
    items = list(dict.fromkeys(items))
    todo = [items[i:i + n] for i in range(0, len(items), n)]
    c.count(part, states=len(items))
    k = 0
    while todo:
        res = pmap(lambda a: f(c, part, a[0], a[1]), [(k + i, t) for i, t in enumerate(todo)]); k += len(todo)
        nxt = []; broken = 0
        for t, r in zip(todo, res):
            if r is None: nxt += [t[:len(t) // 2], t[len(t) // 2:]] if len(t) > 4 else [[x] for x in t]
            else: c.count(part, transitions=r, traces=r)
        todo = nxt[:32] if len(c.viols) < 20 else []
    if items: c.sample("%s: %r = %r" % (part, items[len(items) // 2][0], items[len(items) // 2][1]))


def num_items(c):
    """Number literals C and che both admit."""
    ints = set()
    dg = "0179" if not c.thorough else "012579"
    for k in (1, 2, 3):
        for t in itertools.product(dg, repeat=k):
            s = "".join(t)
            if s[0] == "0" and any(x in "89" for x in s): continue
            ints.add(s)
    for k in (1, 2, 3):
        for t in itertools.product("019AfFc" if k < 3 else "0aF", repeat=k): ints.add("0x" + "".join(t))
    ints |= {"2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "0x7fffffff", "0x80000000", "0xFFFFFFFF", "0x100000000", "0xFFFFFFFFFFFFFFFF", "0xfedcba9876543210", "1234567890123456789", "017777777777", "0377", "0xdeadbeef", "0xCAFEBABE"}
    for s in sorted(ints):
        for suf in ["", "U", "L", "UL", "LU", "LL", "ULL"]:
            yield s + suf, 'i'
    for ip in ["0", "1", "12", "007", "9"]:
        for fr in ["", ".", ".0", ".5", ".25", ".001", ".9"]:
            for ex in ["", "e0", "e1", "e-1", "E2", "E-2", "e+3", "E+1", "e10", "e-10", "e308", "e-300"]:
                if fr == "" and ex == "": continue
                for suf in ["", "L"] + (["f"] if fr else []):
                    if suf == "f" and "30" in ex: continue
                    yield ip + fr + ex + suf, 'f'
    for s in ["3.14159265358979323846", "0.1", "1.7976931348623157e308", "2.2250738585072014E-308", "123456789.123456789", "0.30000000000000004"]:
        yield s, 'f'


CTX = [("%s", "%s"), ("-%s", "(-(%s))"), ("- -%s", "(-(-(%s)))"), ("%s+1", "((%s) + 1)"), ("1-%s", "(1 - (%s))"), ("%s*%s", "((%s) * (%s))")]


def num_batch(c, part, idx, items):
    d = sub("n%s%d" % (part, idx)); che = []; ref = ["#include <stdio.h>\n#include <string.h>\nlong done;\nstruct w { unsigned long sz; unsigned long long v; long double f; int isf; };\nstatic struct w W[];\n"
        "void vi(int i, unsigned long sz, unsigned long long v) { done++; if (sz != W[i].sz || v != W[i].v) printf(\"BAD %d size %lu value %llu\\n\", i, sz, v); }\n"
        "void vf(int i, unsigned long sz, long double v) { done++; if (sz != W[i].sz || v != W[i].f) printf(\"BAD %d size %lu value %.20Lg\\n\", i, sz, v); }\nvoid fin() { printf(\"DONE %ld\\n\", done); }\nstatic struct w W[] = {\n"]
    for i, ((m, cx), k) in enumerate(items):
        a, b = CTX[cx]; n = a.count("%s"); x = a % ((m,) * n); y = b % ((m,) * n)
        if k == 'i':
            che.append("\tOS.vi(%d, sizeof(%s), (uint64_t) (%s));" % (i, x, x)); ref.append("{sizeof(%s), (unsigned long long) (%s), 0, 0},\n" % (y, y))
        else:
            che.append("\tOS.vf(%d, sizeof(%s), %s);" % (i, x, x)); ref.append("{sizeof(%s), 0, (long double) (%s), 1},\n" % (y, y))
    ref.append("};\n")
    src = "#include <shim.h>\n" + "\n".join("void f%d() {\n%s\n}" % (lo, "\n".join(che[lo:lo + 200])) for lo in range(0, len(che), 200)) + \
        "\nint main() {\n" + "".join("\tf%d();\n" % lo for lo in range(0, len(che), 200)) + "\tOS.fin();\n\treturn 0;\n}\n"
    return finish_batch(c, part, d, src, "".join(ref), items, "typedef long double ld_t; void vi(int, unsigned long, unsigned long long); void vf(int, unsigned long, long double); void fin();\n")


def char_items():
    for x in range(32, 127):
        ch = chr(x)
        if ch in "'\\": continue
        yield "'%s'" % ch, x
    for e, v in list(ESC.items()) + [("0", 0)]: yield "'\\%s'" % e, v


def char_batch(c, part, idx, items):
    d = sub("c%s%d" % (part, idx)); b = []
    for i, (s, v) in enumerate(items):
        b.append("\tOS.vi(%d, %s);" % (i, s))
        b.append("\tchar a%d = %s;\n\tOS.vi(%d, a%d);" % (i, s, i, i))
        b.append("\tchar t%d[3] = {'x', %s, 'y'};\n\tOS.vi(%d, t%d[1]);\n\tOS.vx(%d, t%d[2]);" % (i, s, i, i, i, i))
        b.append("\tint q%d = 0;\n\tswitch (OS.vv(%d)) { case '\\x', %s: { q%d = 1; } default: { q%d = 2; } }\n\tOS.vb(%d, q%d);".replace("'\\x', ", "" ) % (i, i, s, i, i, i, i))
        b.append("\tOS.vb(%d, %s == OS.vv(%d));" % (i, s, i))
    src = "#include <shim.h>\nint main() {\n" + "\n".join(b) + "\n\tOS.fin();\n\treturn 0;\n}\n"
    ref = "#include <stdio.h>\nlong done; static int W[] = {%s};\n" % ",".join(str(v) for s, v in items) + \
        "void vi(int i, int v) { done++; if (v != W[i]) printf(\"BAD %d got %d\\n\", i, v); }\nvoid vx(int i, int v) { done++; if (v != 'y') printf(\"BAD %d following literal got %d\\n\", i, v); }\n" \
        "int vv(int i) { return W[i]; }\nvoid vb(int i, int v) { done++; if (v != 1) printf(\"BAD %d doesn't compare equal\\n\", i); }\nvoid fin() { printf(\"DONE %ld\\n\", done); }\n"
    return finish_batch(c, part, d, src, ref, items, "void vi(int, int); void vx(int, int); int vv(int); void vb(int, int); void fin();\n")


# ---------------------------------------------------------------- layout
CORPUS = [r'''
#include <shim.h>
#define K 3
enum { A = 1, B, C = B + 5 }
typedef { int x, *y; char s[10]; } rec_t;
typedef int fn_t(int, const char *);
int g[] = {1, 2, 3};
pub int add(int a, b, char *s) { if (s == NULL) return a + b; else return a - -b; }
int two(int a, const char *s) { return a * g[1] + (int) s[0]; }
pub int run(int n) {
 rec_t r = { .x = n, .s = "ab" "c" };
 int t[4] = { [1] = 5, [K] = 7 };
 fn_t *f = two;
 r.y = &r.x;
 int acc = 0;
 for (int i = 0; i < n; i++) { if (i == 2) continue; acc += *r.y + t[i % 4]; while (acc > 1000) { acc -= 100; break; } }
 switch (n) { case 5, A: { acc++; } case B: { acc = acc << 2; } default: { acc ^= 1; } }
 switch str (r.s) { case "abc": { acc += sizeof(rec_t *); } default: { return 0; } }
 rec_t *p = &r;
 p->x += f(acc, "z") >= 0 && !(n == 4) || 'q' == n;
 return acc + p->x + add(1, 2, NULL) + (int) sizeof(r.s) - (int) C + ~n + 0x1F + 1.5e1;
}
int main() { for (int i = 0; i < 6; i++) { OS.out(run(i)); } return 0; }
''', r'''
#include <shim.h>
typedef { union { int i; char c[4]; } v; double d; } u_t;
pub enum { P, Q }
const char *names[] = { "x", "y" };
void put(const char *fmt, ...) { va_list l = {0}; va_start(l, fmt); OS.out(OS.vint(&l)); va_end(l); }
bool odd(int k) { return (k & 1) == 1; }
int main(int argc, char **argv) {
 u_t u = {};
 u.v.i = 0x41424344;
 int k = argc;
 while (true) { k++; if (k > 5) break; else if (odd(k)) { put("%d", k); } else OS.out(-k); }
 OS.out(u.v.c[0]); OS.out(names[Q][0]); OS.out(argv[0] != NULL);
 int *m = calloc!(3, sizeof(int)); m[2] = 4; OS.out(m[0] + m[2]--); OS.out(m[2]); free(m);
 u_t *w = &u; (*w).d = 2.5; w->d *= 2; OS.out((int) w->d % 3); OS.out(k > 5); 
 return 0; }
''']
SEP = [" ", "\n", "\r\n", "\t", "  \n\t ", "/**/", "/* x */", "/***/", "// c\n", "//\n", "/* \" ' */", "// \" ' /*\n", "/*\n//\n*/", "/* ;{} */ // }\n", "\n\n\n", "/*//*/", "// \\n é\n", "/*é*/"]
TOK = re.compile(r'#[^\n]*\n|[A-Za-z_]\w*!?|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'])\'|0x[0-9A-Fa-f]+|\d+(?:\.\d+)?(?:[eE][+-]?\d+)?|<<=|>>=|\.\.\.|\+\+|--|->|<<|>>|<=|>=|&&|\|\||[-+*/%&^|=!]=|[^\s]')


def tokens(t): return TOK.findall(t)


def join_tight(tt):
    o = ""
    for t in tt:
        if o and (re.search(r"\w$", o) and re.match(r"\w", t) or o[-1] + t[0] in ("++", "--", "&&", "||", "<<", ">>", "->", "==", "//", "/*", "..") or (t == "=" and o[-1] in "+-*/%&^|=!<>") or (t in ("==",) and o[-1] in "<>!=+-*/") or (o[-1].isdigit() and t[0] == ".") or (t[0] == "#" and o[-1] != "\n")):
            o += "\n" if t[0] == "#" else " "
        o += t
    return o


def layout(c):
    for ci, text in enumerate(CORPUS):
        tt = tokens(text)
        base = " ".join(tt).replace("\n ", "\n")
        variants = [base, join_tight(tt), text, text.replace("\n", "\r\n"), text + "// end", text + "/* end */", text + "//", text.rstrip(), text + "\n\n\n", "\n\n" + text, "// top\n" + text, "/* top */" + text, text.replace("\n", "\n\n"), text.replace("\n", "   \n\t")]
        seps = SEP if c.thorough else SEP
        for i in range(1, len(tt)):
            for s in seps:
                pre, post = tt[:i], tt[i:]
                if post[0][0] == "#" and not s.endswith("\n"): continue
                a = " ".join(pre).replace("\n ", "\n"); b = " ".join(post).replace("\n ", "\n")
                # the separator alone stands between the tokens where that is enough to part them
                variants.append(a + s + b)
        for s in SEP:
            o = tt[0]
            for x in tt[1:]: o += (s if s.endswith("\n") or x[0] != "#" else s + "\n") + x
            variants.append(o)
        if c.thorough:
            for i in range(1, len(tt)):
                for s, s2 in itertools.product(SEP, repeat=2):
                    if tt[i][0] == "#": continue
                    variants.append(" ".join(tt[:i]).replace("\n ", "\n") + s + s2 + " ".join(tt[i:]).replace("\n ", "\n"))
        variants = list(dict.fromkeys(variants))
        d = sub("lay%d" % ci); jobs = []
        for k, v in enumerate(variants):
            e = "%s/%d" % (d, k); os.makedirs(e)
            with open(e + "/m.c", "w", newline="") as f: f.write(v)
            jobs.append((e, [che(), "genc", "m.c", "c"]))
        c.count("layout", states=len(variants), transitions=len(variants) * len(tt))
        res = multirun(jobs)
        def gen(k):
            p = "%s/%d/c" % (d, k)
            return "".join(open(p + "/" + f).read() for f in sorted(os.listdir(p))) if os.path.isdir(p) else ""
        inc = sub("layinc"); open(inc + "/shim.h", "w").write("#include <stdio.h>\n#include <stdarg.h>\nstatic int vint(va_list *l) { return va_arg(*l, int); }\nstatic void out(long x) { printf(\"%ld\\n\", x); }\n")
        cache = {}
        def behave(k):
            fs = ["%s/%d/c/%s" % (d, k, f) for f in sorted(os.listdir("%s/%d/c" % (d, k))) if f.endswith(".c")]
            x = "%s/%d/x" % (d, k)
            q = run(["gcc", "-w", "-I", inc, "-o", x] + fs + ["-lm"])
            if q.rc != 0: return "doesn't compile: " + q.err[:200]
            q = run([x]); return "rc=%s %s" % (q.rc, q.out)
        if res[0].rc != 0:
            c.violation("layout: corpus %d refused: %s" % (ci, (res[0].err + res[0].out)[:300]), variants[0]); continue
        want = behave(0); wtext = gen(0)
        if not want.startswith("rc=0 "): c.violation("layout: corpus %d: %s" % (ci, want), variants[0]); continue
        exp = EXPECT[ci]
        if want.split(" ", 1)[1].split() != exp.split(): c.violation("layout: corpus %d prints %r, expected %r" % (ci, want, exp), variants[0])
        differ = []
        for k, r in enumerate(res):
            if r.rc != 0: c.violation("layout: refused after re-spelling: %s" % ((r.err + r.out)[:200]), variants[k])
            elif gen(k) != wtext: differ.append(k)
            else: c.count("layout", traces=1)
        c.sample("layout: %d re-spellings of a %d-token program" % (len(variants), len(tt)))
        for k, b in zip(differ, pmap(behave, differ)):
            c.count("layout", traces=1)
            if b != want: c.violation("layout: re-spelling changes the program: %s, expected %s" % (b[:200], want[:200]), variants[k])
        shutil.rmtree(d)


EXPECT = ["61 62 96 70 84 93 ", "-2 3 -4 5 68 121 1 4 3 2 1"]


def body(c):
    ss = list(strings(c))
    run_all(c, "strings", ss, lambda c, p, i, t: str_batch(c, p, i, t, False), 600)
    run_all(c, "string contexts", [x for x in ss if short(x[0])], lambda c, p, i, t: str_batch(c, p, i, t, True), 240)
    run_all(c, "chars", char_items(), char_batch, 40)
    nums = []
    for m, k in num_items(c):
        for x in range(len(CTX) if c.thorough or len(m) <= 4 else 2): nums.append(((m, x), k))
    run_all(c, "numbers", nums, num_batch, 1500)
    layout(c)


if __name__ == "__main__":
    main("C03", body, ["gcc's reading of a number literal and C's escape rules (recomputed in Python) are the reference",
                       "backslash-newline, trigraphs, universal character names and spellings che doesn't accept (lowercase suffixes, '\\x41') are outside the alphabet"])
