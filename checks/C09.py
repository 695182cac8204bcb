"""C09: what the language adds at run time: panic, calloc!, nelem, main.

Programs hold every kind of panic site, one per statement context, message and
layout, in the main and in an imported module; every site is triggered in a run
of its own. calloc! is run for a grid of counts and sizes and with the k-th
allocation failing for every k. nelem is computed for every shape of array,
main for every way to end and every argument list."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

MARK = "\u00ab"
CTX = ["@", "if (n) {\n\t@\n}", "if (n) @", "if (!n) { after(); } else {\n\t@\n}", "if (!n) after(); else @", "while (n) {\n\t@\n}", "while (n) @", "for (int i = 0; i < 3; i++) {\n\tif (i == 2) {\n\t\t@\n\t}\n}", "for (int i = 0; i < 3; i++) @",
       "switch (n) {\ncase 7: {\n\t@\n}\ndefault: {\n\tafter();\n}\n}", "switch (n) {\ncase 8: {\n\tafter();\n}\ndefault: {\n\t@\n}\n}", "switch str (s) {\ncase \"str\": {\n\t@\n}\ndefault: {\n\tafter();\n}\n}", "switch str (s) {\ncase \"x\": {\n\tafter();\n}\ndefault: {\n\t@\n}\n}",
       "if (n) {\n\tif (n > 8) {\n\t\tafter();\n\t} else {\n\t\twhile (true) {\n\t\t\t@\n\t\t}\n\t}\n}", "if (n) if (n > 8) after(); else @", "switch (n) { case 6, 7: { @ } }"]
MSG = [("panic(\"plain\")", "plain"), ("panic(\"\")", ""), ("panic(\"%d\", n)", "7"), ("panic(\"a %d b %s c\", n * 2, s)", "a 14 b str c"), ("panic(\"%s\", \"100%\")", "100%"), ("panic(\"%%d\")", "%d"), ("panic(\"%c%c%c\", 'x', 'y', 'z')", "xyz"), ("panic(\"%d %d %d %d %d %d %d %d\", 1, 2, 3, 4, 5, 6, 7, 8)", "1 2 3 4 5 6 7 8"),
       ("panic(\"%.2f %x\", 1.25, 255)", "1.25 ff"), ("panic(\"tab\\there\")", "tab\there"), ("panic(\"two\\nlines %d\", n)", "two\nlines 7"), ("panic(\"q\\\"uote\\\\\")", "q\"uote\\"), ("panic(\"long\" \" string\")", "long string"), ("panic(\"%s\", act(\"arg\"))", "arg"), ("panic(s)", "str"), ("panic (\"%5d|\", -n)", "   -7|"), ("panic(\"\u00e9\")", "\u00e9")]
LAY = ["", "   ", "/* c */ ", "\t"]


def panics(c):
    sites = []
    for ci, ctx in enumerate(CTX):
        for mi, (m, want) in enumerate(MSG):
            for li, lay in enumerate(LAY):
                if not c.thorough and (ci + mi + li) % 3: continue
                sites.append((ctx, m, want, lay))
    # programs of up to 60 sites
    for b in range(0, len(sites), 60):
        chunk = sites[b:b + 60]
        for inmod in (False, True):
            d = sub("p%d%d" % (b, inmod))
            fname = "deep/mod-x.c" if inmod else "main.c"
            text = "const char *act(const char *s) { printf(\"act\"); return s; }\nvoid after() { puts(\"AFTER\"); }\n"
            for i, (ctx, m, want, lay) in enumerate(chunk):
                text += "%svoid site%d(int n, const char *s) {\n\tprintf(\"before %%d %%s|\", n, s);\n%s\n\tafter();\n}\n" % ("pub " if inmod else "", i, "\t" + ctx.replace("@", lay + MARK + m + ";"))
            text += "const char *actuse() { return act(\"\"); }\n" if False else ""
            disp = "".join("\tif (k == %d) { %ssite%d(7, \"str\"); }\n" % (i, "mod-x." if inmod else "", i) for i in range(len(chunk)))
            ns = "mod-x."
            main = "int main(int argc, char *argv[]) {\n\tif (argc < 2) { return 99; }\n\tint k = atoi(argv[1]);\n%s\tputs(\"END\");\n\treturn 0;\n}\n"
            pos = []
            out = ""; line = 1; col = 1
            for ch in text:
                if ch == MARK: pos.append((line, col)); continue
                out += ch
                if ch == "\n": line += 1; col = 1
                else: col += 1
            if "act(\"arg\")" not in out: out = out.replace("const char *act(const char *s) { printf(\"act\"); return s; }", "", 1)
            os.makedirs(d + "/deep", exist_ok=True)
            if inmod:
                fname = "deep/modx.c"
                open(d + "/deep/modx.c", "w").write(out)
                open(d + "/main.c", "w").write("#import deep/modx.c\n" + main % disp.replace("mod-x.", "modx."))
            else:
                open(d + "/main.c", "w").write(out + main % disp)
            r = run_che(["genc", "main.c", "gen"], cwd=d)
            if r.rc: raise BuildFailure("panic program refused: " + r.err[:500])
            fs = [d + "/gen/" + f for f in os.listdir(d + "/gen")]
            q = run(["gcc", "-std=c99", "-w", "-o", d + "/x"] + fs + ["-lm"])
            if q.rc: raise BuildFailure("panic program doesn't compile: " + q.err[:800])
            # one run per site
            rs = multirun([(d, [d + "/x", str(i)]) for i in range(len(chunk))])
            for i, ((ctx, m, want, lay), r, p) in enumerate(zip(chunk, rs, pos)):
                c.count("panic", states=1, transitions=1, traces=1)
                exp = "*** panic at %s:%d:%d ***\n%s\n" % (fname, p[0], p[1], want)
                what = "%s in %r" % (m, ctx)
                rep = "expected stderr %r\ngot rc=%s stderr=%r stdout=%r" % (exp, r.rc, r.err, r.out)
                if r.rc != 1: c.violation("panic: %s: exit status %s" % (what, r.rc), rep)
                elif r.err != exp: c.violation("panic: %s: wrote %r, expected %r" % (what, r.err, exp), rep)
                elif "AFTER" in r.out or "END" in r.out: c.violation("panic: %s: the program went on" % what, rep)
                elif not r.out.startswith("before 7 str|"): c.violation("panic: %s: earlier output lost: %r" % (what, r.out), rep)
                elif r.out != "before 7 str|" + ("act" if "act(" in m else ""): c.violation("panic: %s: arguments evaluated wrongly: %r" % (what, r.out), rep)
            c.sample("panic: %s in %r" % (chunk[0][1], chunk[0][0]))
            shutil.rmtree(d)


def callocs(c):
    NS = [0, 1, 2, 3, 7, 64, 1000]; SZ = ["1", "sizeof(int)", "sizeof(st_t)", "sizeof(st_t *)", "3", "4096"]
    d = sub("calloc")
    body = ""; k = 0; want = []
    fns = ""
    for n in NS:
        for s in SZ:
            fns += "void t%d() {\n\tuint8_t *p = calloc!(%d, %s);\n\tuint8_t *q = calloc!(%d, %s);\n\tOS.chk(%d, p, q, %d * %s);\n\tfree(p);\n\tfree(q);\n}\n" % (k, n, s, n, s, k, n, s)
            body += "\tt%d();\n" % k; k += 1
    # in every expression place
    PL = ["st_t *a = calloc!(1, sizeof(st_t)); a->x = 5; OS.num((int) a->y + a->x); free(a);", "st_t b = { .p = calloc!(2, 4) }; OS.num(b.p[0] + b.p[1] + 5); free(b.p);", "OS.take(calloc!(4, 4), calloc!(5, 5));", "if (calloc!(1, 1)) { OS.num(5); }", "char *s[2] = { calloc!(1, 9), calloc!(1, 9) }; OS.num((int) s[0][8] + (int) s[1][8] + 5); free(s[0]); free(s[1]);",
          "st_t *v = NULL; v = calloc!(3, sizeof(st_t)); OS.num(v[2].y + 5); free(v);", "int n = 5; int *w = calloc!(n, sizeof(*w)); OS.num(w[4] + 5); free(w);", "OS.num(mk()->x + 5);", "for (int *w = calloc!(1, 4); w; w = NULL) { OS.num(*w + 5); free(w); }", "OS.num(5 + *(int *) calloc!(1, sizeof(int)));"]
    pls = "st_t *mk() { return calloc!(1, sizeof(st_t)); }\nvoid places(int k) {\n" + "".join("\tif (k == %d) {\n\t\t%s\n\t}\n" % (i, p) for i, p in enumerate(PL)) + "}\n"
    open(d + "/main.c", "w").write("#include <shim.h>\n#import m2.c\ntypedef { int x, y; int *p; } st_t;\n" + fns + pls + "int main(int argc, char *argv[]) {\n\tif (argc > 1) {\n\t\tplaces(atoi(argv[1]));\n\t\tOS.num(m2.get());\n\t\tputs(\"END\");\n\t\treturn 0;\n\t}\n%s\tputs(\"END\");\n\treturn 0;\n}\n" % body)
    open(d + "/m2.c", "w").write("pub int get() {\n\tint *p = calloc!(1, sizeof(int));\n\tint r = *p + 5;\n\tfree(p);\n\treturn r;\n}\n")
    os.makedirs(d + "/inc", exist_ok=True)
    open(d + "/inc/shim.h", "w").write("void chk(int, unsigned char *, unsigned char *, unsigned long); void num(int); void take(void *, void *);\n")
    open(d + "/inc/s.c", "w").write(r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static long cnt, fail = -1; static int ready;
void *__real_calloc(size_t, size_t);
static void load(void) { if (!ready) { ready = 1; char *e = getenv("FAILAT"); if (e) fail = atol(e); } }
void *__wrap_calloc(size_t n, size_t s) { load(); if (cnt++ == fail) { printf("FAILED\n"); return 0; } void *p = __real_calloc(n, s); return p; }
void chk(int k, unsigned char *p, unsigned char *q, unsigned long n) { if (!p || !q || p == q) { printf("BAD %d pointers\n", k); return; } for (unsigned long i = 0; i < n; i++) if (p[i] || q[i]) { printf("BAD %d not zero at %lu\n", k, i); return; } memset(p, 0xff, n); for (unsigned long i = 0; i < n; i++) if (q[i]) { printf("BAD %d overlap\n", k); return; } memset(q, 0xff, n); printf("ok %d\n", k); }
void num(int n) { printf("num %d\n", n); }
void take(void *a, void *b) { num(a && b && a != b ? 5 : 0); free(a); free(b); }
''')
    r = run_che(["genc", "main.c", "gen"], cwd=d)
    if r.rc: raise BuildFailure("calloc! program refused: " + r.err[:500])
    q = run(["gcc", "-std=c99", "-w", "-g", "-fsanitize=address", "-I", d + "/inc", "-Wl,--wrap=calloc", "-o", d + "/x"] + [d + "/gen/" + f for f in os.listdir(d + "/gen")] + [d + "/inc/s.c", "-lm"])
    if q.rc: raise BuildFailure("calloc! program doesn't compile: " + q.err[:800])
    E = {"ASAN_OPTIONS": ASAN_OPTS}
    r = run([d + "/x"], extra_env=E)
    c.count("calloc!", states=k, transitions=2 * k, traces=1)
    exp = "".join("ok %d\n" % i for i in range(k)) + "END\n"
    if r.rc or r.out != exp: c.violation("calloc!: rc=%s %s" % (r.rc, [l for l in r.out.splitlines() if "BAD" in l][:3]), r.out[-2000:] + r.err[-2000:])
    def one(a):
        mode, at = a
        return run([d + "/x"] + ([str(mode)] if mode is not None else []), extra_env=dict(E, FAILAT=str(at)))
    jobs = [(None, i) for i in range(0, 2 * k)] + [(m, i) for m in range(len(PL)) for i in range(-1, 4)]
    for (mode, at), r in zip(jobs, pmap(one, jobs)):
        c.count("calloc! failing", states=1, transitions=1, traces=1)
        what = "place %s, allocation %d fails" % (mode, at)
        if "FAILED" in r.out:
            if r.rc != 1: c.violation("calloc!: %s: exit status %s" % (what, r.rc), r.out[-500:] + r.err[-1500:])
            elif not r.err.strip(): c.violation("calloc!: %s: no message" % what, r.out[-500:])
            elif not r.out.endswith("FAILED\n"): c.violation("calloc!: %s: the program went on" % what, r.out[-500:])
        else:
            if r.rc or not r.out.endswith("END\n"): c.violation("calloc!: %s: rc=%s" % (what, r.rc), r.out[-500:] + r.err[-1500:])
            elif mode is not None and (r.out.count("num 5") != 2): c.violation("calloc!: %s: %r" % (what, r.out), "")
    c.sample("calloc!: every allocation of every place failing in turn")
    shutil.rmtree(d)


def nelems(c):
    TY = ["int", "char", "double", "uint64_t", "bool", "st_t", "int *", "const char *", "size_t", "al_t"]
    SZ = [1, 2, 3, 7, 100]
    decl = "typedef { int x; char c[5]; } st_t;\ntypedef int al_t[4];\nenum { N = 6 }\n"
    body = ""; want = []; k = 0
    fns = ""
    def val(t): return "{}" if t in ("st_t", "al_t") else "NULL" if "*" in t else "1"
    for ti, t in enumerate(TY):
        base, star = (t[:-2], "*") if t.endswith("*") else (t, "")
        for n in SZ:
            decl += "%s %sg%d_%d[%d] = {};\n" % (base, star, ti, n, n)
            fns += "void f%d() {\n\t%s %sl[%d] = {};\n\t%s %sm[] = { %s };\n\tsizes_t s = {};\n\tOS.out(nelem(g%d_%d));\n\tOS.out(nelem(l));\n\tOS.out(nelem(m));\n\tOS.out(nelem(s.a%d));\n\tsizes_t *p = &s;\n\tOS.out(nelem(p->a%d));\n\tfor (size_t i = 0; i < nelem(l); i++) { if (i + 1 == nelem(l)) { OS.out(i); } }\n\tint w[2 + nelem(l)] ;\n\tOS.out(nelem(w) + 1 - nelem(l));\n}\n" % (k, base, star, n, base, star, ", ".join([val(t)] * n), ti, n, ti, ti)
            want += [n, n, n, ti + 2, ti + 2, n - 1, 3]
            body += "\tf%d();\n" % k; k += 1
        fns += ""
    fields = "typedef {\n" + "".join("\t%s %sa%d[%d];\n" % ((t[:-2], "*", i, i + 2) if t.endswith("*") else (t, "", i, i + 2)) for i, t in enumerate(TY)) + "} sizes_t;\n"
    fns += "void more() {\n\tint m[][2] = { {1, 2}, {3, 4}, {5, 6} };\n\tOS.out(nelem(m));\n\tOS.out(nelem(m[0]));\n\tint e[N * 2] = {};\n\tOS.out(nelem(e));\n\tint x[] = { [N] = 1 };\n\tOS.out(nelem(x));\n\tal_t q = {};\n\tOS.out(nelem(q));\n\tOS.out(-1 + (int) nelem(q) * 2);\n\tOS.out(20 / nelem(q));\n\tOS.out(nelem(q) - 1);\n\tchar s[] = \"hello\";\n\tOS.out(nelem(s));\n}\n"
    want += [3, 2, 12, 7, 4, 7, 5, 3, 6]
    body += "\tmore();\n"
    d = sub("nelem")
    os.makedirs(d + "/inc", exist_ok=True)
    open(d + "/inc/shim.h", "w").write("void out(long);\n"); open(d + "/inc/s.c", "w").write("#include <stdio.h>\nvoid out(long n) { printf(\"%ld\\n\", n); }\n")
    open(d + "/main.c", "w").write("#include <shim.h>\n" + decl.split("\n")[0] + "\n" + fields + "\n".join(decl.split("\n")[1:]) + fns + "int main() {\n" + body + "}\n")
    r = run_che(["genc", "main.c", "gen"], cwd=d)
    if r.rc: raise BuildFailure("nelem program refused: " + r.err[:500])
    q = run(["gcc", "-std=c99", "-w", "-I", d + "/inc", "-o", d + "/x"] + [d + "/gen/" + f for f in os.listdir(d + "/gen")] + [d + "/inc/s.c", "-lm"])
    if q.rc: raise BuildFailure("nelem program doesn't compile: " + q.err[:800])
    r = run([d + "/x"])
    got = [int(x) for x in r.out.split()]
    c.count("nelem", states=len(want), transitions=len(want), traces=1)
    if r.rc: c.violation("nelem: main without return ended with %s" % r.rc, r.err)
    if got != want:
        i = [a == b for a, b in zip(got + [None] * len(want), want)].index(False)
        c.violation("nelem: result %d is %s, expected %s" % (i, got[i] if i < len(got) else None, want[i]), "")
    shutil.rmtree(d)


def mains(c):
    progs = [("int main() { return %s; }" % e, lambda a, v=v: (v & 255, "")) for e, v in [("0", 0), ("1", 1), ("255", 255), ("2 + 3", 5), ("-1", -1), ("256", 256), ("'a'", 97), ("true", 1)]]
    progs += [("int main() {\n\tputs(\"x\");\n}", lambda a: (0, "x\n")), ("int main() {\n\tif (f() > 2) {\n\t\treturn 4;\n\t}\n\tputs(\"q\");\n}\nint f() { return 1; }", lambda a: (0, "q\n")), ("int main() {\n\tif (f() > 2) {\n\t\treturn 4;\n\t}\n\tputs(\"q\");\n}\nint f() { return 3; }", lambda a: (4, "")),
              ("int main() {\n\twhile (n < 3) { n++; }\n}\nint n = 0;", lambda a: (0, "")), ("int main() {}", lambda a: (0, "")), ("int main() {\n\texit(9);\n}", lambda a: (9, "")), ("int main() {\n\tfor (int i = 0; i < 300; i++) { if (i == 44) { return i; } }\n}", lambda a: (44, "")),
              ("int main(int argc, char *argv[]) {\n\tfor (int i = 1; i < argc; i++) { puts(argv[i]); }\n\treturn argc;\n}", lambda a: (len(a) + 1, "".join(x + "\n" for x in a))), ("int main(int argc, char **argv) {\n\tfor (int i = 1; i < argc; i++) { printf(\"[%s]\", argv[i]); }\n}", lambda a: (0, "".join("[%s]" % x for x in a)))]
    argl = [[]] + [list(x) for n in (1, 2) for x in itertools.product(["a", "", "-x", "a b", "\u00e9", "*"], repeat=n)]
    def build(x):
        i, (t, f) = x
        d = sub("m%d" % i)
        open(d + "/main.c", "w").write(t + "\n")
        r = run_che(["build", "main.c", "x"], cwd=d)
        return r, d
    # builds share the temporary directory of the home: one at a time
    for i, (t, f) in enumerate(progs):
        r, d = build((i, (t, f)))
        if r.rc: c.violation("main: refused: %r: %s" % (t, r.err + r.out), t); continue
        rs = multirun([(d, [d + "/x"] + a) for a in argl])
        for a, q in zip(argl, rs):
            c.count("main", states=1, transitions=1, traces=1)
            w = f(a)
            if (q.rc, q.out) != w: c.violation("main: %r with arguments %r gave %s %r, expected %s %r" % (t, a, q.rc, q.out, *w), t)
        shutil.rmtree(d)
    c.sample("main: " + progs[9][0])


if __name__ == "__main__":
    c = Check("C09", ["panic messages are compared byte by byte; stdout of the program is a pipe"])
    try:
        panics(c); callocs(c); nelems(c); mains(c)
    except BuildFailure as e:
        c.violation(str(e).split("\n")[0], str(e))
    sys.exit(c.finish())
