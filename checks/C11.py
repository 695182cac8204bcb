"""C11: che exports prints the public interface, all of it and nothing else.

Modules with every combination of declarations, public and private, in every
order are given to che exports; the printed constants, types and function
signatures are compared token by token with the declarations."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

TOK = re.compile(r"\.\.\.|[A-Za-z_0-9.]+|\S")


def toks(s): return TOK.findall(s)


# kind: (text with %(p)s for pub and %(n)s for a number, constants, types, functions)
D = {
    "enum": ("%(p)senum { A%(n)s, B%(n)s = 4, C%(n)s }\n", ["A%(n)s", "B%(n)s", "C%(n)s"], [], [], "A%(n)s + B%(n)s + C%(n)s"),
    "enum1": ("%(p)senum {\n\tONLY%(n)s = 1 + 2,\n}\n", ["ONLY%(n)s"], [], [], "ONLY%(n)s"),
    "struct": ("%(p)stypedef { int x, *y; } st%(n)s_t;\n", [], ["st%(n)s_t"], [], "(int) sizeof(st%(n)s_t)"),
    "alias": ("%(p)stypedef int al%(n)s_t;\n", [], ["al%(n)s_t"], [], "(int) sizeof(al%(n)s_t)"),
    "array alias": ("%(p)stypedef char ar%(n)s_t[5];\n", [], ["ar%(n)s_t"], [], "(int) sizeof(ar%(n)s_t)"),
    "function type": ("%(p)stypedef int fn%(n)s_t(int, char *);\n", [], ["fn%(n)s_t"], [], "(int) sizeof(fn%(n)s_t *)"),
    "C struct": ("%(p)stypedef struct tm tm%(n)s_t;\n", [], ["tm%(n)s_t"], [], "(int) sizeof(tm%(n)s_t)"),
    "function": ("%(p)sint f%(n)s() { return 1; }\n", [], [], ["int f%(n)s ()"], "f%(n)s()"),
    "void function": ("%(p)svoid v%(n)s(int a) { putchar(a); }\n", [], [], ["void v%(n)s (int a)"], None),
    "pointer function": ("%(p)sconst char *p%(n)s(const char *s, size_t n) { return s + n; }\n", [], [], ["const char *p%(n)s (const char *s, size_t n)"], None),
    "list function": ("%(p)sint l%(n)s(int a, b, char *s, *t) { if (s || t) { return a; } return b; }\n", [], [], ["int l%(n)s (int a, b, char *s, *t)"], None),
    "variadic": ("%(p)sint va%(n)s(const char *fmt, ...) { if (fmt) { return 1; } return 2; }\n", [], [], ["int va%(n)s (const char *fmt, ...)"], None),
    "array function": ("%(p)sint arr%(n)s(int v[], char *argv[], int m[3]) { return v[0] + m[0] + (int) argv[0][0]; }\n", [], [], ["int arr%(n)s (int v[], char *argv[], int m[3])"], None),
    "deep pointers": ("%(p)schar **pp%(n)s(void **x, int ***y) { if (x || y) { return NULL; } return NULL; }\n", [], [], ["char **pp%(n)s (void **x, int ***y)"], None),
    "own types": ("%(p)stypedef { int q; } own%(n)s_t;\n%(p)sown%(n)s_t *mk%(n)s(own%(n)s_t *a, bool b) { if (b) { return a; } return NULL; }\n", [], ["own%(n)s_t"], ["own%(n)s_t *mk%(n)s (own%(n)s_t *a, bool b)"], None),
    "imported types": ("%(p)slib.l_t *im%(n)s(lib.l_t *a, const lib.l_t *b) { if (b) { return a; } return NULL; }\n", [], [], ["lib.l_t *im%(n)s (lib.l_t *a, const lib.l_t *b)"], None),
    "variable": ("int var%(n)s = 3;\n", [], [], [], "var%(n)s"),
    "define": ("#define DEF%(n)s 4\n", [], [], [], "DEF%(n)s"),
}


CALLS = {"void function": "v%(n)s(1)", "pointer function": "p%(n)s(\"\", 0)", "list function": "l%(n)s(1, 2, NULL, NULL)", "variadic": "va%(n)s(NULL)", "array function": "arr%(n)s(NULL, NULL, NULL)", "deep pointers": "pp%(n)s(NULL, NULL)", "own types": "mk%(n)s(NULL, true)", "imported types": "im%(n)s(NULL, NULL)"}


def module(combo):
    text = ""; cs = []; ts = []; fs = []; uses = ""
    for n, (k, pub) in enumerate(combo):
        t, a, b, f, use = D[k]
        m = {"p": "pub " if pub else "", "n": str(n)}
        text += t % m
        if pub and k not in ("variable", "define"):
            cs += [x % m for x in a]; ts += [x % m for x in b]; fs += [x % m for x in f]
        if use: uses += "\tputchar(%s);\n" % (use % m)
        elif k in CALLS: uses += "\t%s;\n" % (CALLS[k] % m)
    text += "pub void usage() {\n%s\tputs(\"\");\n}\n" % uses
    fs.append("void usage ()")
    imp = "#import lib.c\n" if "lib." in text else ""
    return imp + text, cs, ts, fs


def parse(out):
    sec = None; res = {"mod": [], "constants": [], "types": [], "functions": []}; mods = []
    for line in out.splitlines():
        if line.startswith("mod "):
            res = {"mod": [line[4:]], "constants": [], "types": [], "functions": []}; mods.append(res); sec = None
        elif line in ("constants", "types", "functions"): sec = line
        elif line.startswith("\t") and sec: res[sec].append(line.strip())
        else: return None
    return mods


def main_(c):
    kinds = list(D)
    combos = [[]] + [[(k, p)] for k in kinds for p in (0, 1)] + [[(a, p), (b, q)] for a in kinds for b in kinds for p in (0, 1) for q in (0, 1)]
    if c.thorough: combos += [[(a, 1), (b, q), (d, 1)] for a in kinds for b in kinds for d in kinds for q in (0, 1)]
    combos += [[(k, (i + j) % 2) for i, k in enumerate(kinds)] for j in (0, 1)] + [[(k, 1) for k in kinds], [(k, 1) for k in reversed(kinds)], [(k, 1) for k in kinds * 3]]
    jobs = []; wants = []
    for b in range(0, len(combos), 40):
        d = sub("e%d" % b)
        open(d + "/lib.c", "w").write("pub typedef { int x; } l_t;\n")
        for i, cb in enumerate(combos[b:b + 40]):
            t, cs, ts, fs = module(cb)
            open("%s/m%d.c" % (d, i), "w").write(t)
            jobs.append((d, [che(), "exports", "m%d.c" % i])); wants.append(([("m%d.c" % i, cs, ts, fs)], t))
        # several at once
        k = len(combos[b:b + 40])
        jobs.append((d, [che(), "exports"] + ["m%d.c" % i for i in range(k)])); wants.append(([("m%d.c" % i,) + module(cb)[1:] for i, cb in enumerate(combos[b:b + 40])], ""))
    for (d, av), (want, t), r in zip(jobs, wants, multirun(jobs, extra_env={"CHELANG_HOME": home()})):
        c.count("exports", states=len(want), transitions=len(want), traces=1)
        rep = "%s\n--- output (rc %s)\n%s%s" % (t, r.rc, r.out, r.err)
        if r.rc != 0: c.violation("exports: exit status %s: %s" % (r.rc, r.err[:200]), rep); continue
        got = parse(r.out)
        if got is None or len(got) != len(want): c.violation("exports: unreadable output for %s" % av[2:5], rep); continue
        for g, (p, cs, ts, fs) in zip(got, want):
            if g["mod"] != [p]: c.violation("exports: module named %s instead of %s" % (g["mod"], p), rep); break
            if g["constants"] != cs: c.violation("exports: constants %s, expected %s" % (g["constants"], cs), rep); break
            if g["types"] != ts: c.violation("exports: types %s, expected %s" % (g["types"], ts), rep); break
            if [toks(x) for x in g["functions"]] != [toks(x) for x in fs]: c.violation("exports: functions %s, expected %s" % (g["functions"], fs), rep); break
    c.sample("exports: " + module([("list function", 1), ("enum", 0)])[0])
    # numbers of things: parameters (with and without ...), constants, types, functions
    d = sub("counts"); jobs = []; wants = []
    for n in list(range(0, 21)) + [40, 99, 100, 101, 300]:
        for var in (0, 1):
            if var and not n: continue
            ts = ["int", "char *", "const char *", "size_t", "double **"]
            one = ", ".join("%s%sp%d" % (ts[i % 5], "" if ts[i % 5].endswith("*") else " ", i) for i in range(n)) + (", ..." if var else "")
            grp = ", ".join(("int p%d" if i % 3 == 0 else "*p%d" if i % 3 == 1 else "p%d") % i for i in range(n)) + (", ..." if var else "")
            t = "".join("pub int %s(%s) {\n%s\treturn 1;\n}\n" % (f, ps, "".join("\tOS.use(p%d);\n" % i for i in range(n))) for f, ps in (("f", one), ("g", grp)))
            open("%s/p%d_%d.c" % (d, n, var), "w").write(t)
            jobs.append("p%d_%d.c" % (n, var)); wants.append(([], [], ["int f (%s)" % one, "int g (%s)" % grp]))
        t = "pub enum {\n%s\tLAST\n}\n" % "".join("\tC%d%s,\n" % (i, " = %d" % i if i % 3 == 0 else "") for i in range(n)) + "".join("pub typedef int t%d_t;\n" % i for i in range(n)) + "".join("pub void f%d() { puts(\"\"); }\nvoid h%d() { f%d(); }\npub void k%d() { h%d(); }\n" % (i, i, i, i, i) for i in range(n))
        open("%s/m%d.c" % (d, n), "w").write(t)
        jobs.append("m%d.c" % n); wants.append((["C%d" % i for i in range(n)] + ["LAST"], ["t%d_t" % i for i in range(n)], [x % i for i in range(n) for x in ("void f%d ()", "void k%d ()")]))
    for f, (cs, ts, fs), r in zip(jobs, wants, multirun([(d, [che(), "exports", f]) for f in jobs], extra_env={"CHELANG_HOME": home()})):
        c.count("counts", states=1, transitions=len(cs) + len(ts) + len(fs), traces=1)
        rep = "%s\n--- output (rc %s)\n%s%s" % (open(d + "/" + f).read(), r.rc, r.out, r.err)
        g = parse(r.out) if r.rc == 0 else None
        if not g or len(g) != 1: c.violation("exports of %s: exit status %s: %s" % (f, r.rc, r.err[:200]), rep); continue
        g = g[0]
        if g["constants"] != cs or g["types"] != ts or [toks(x) for x in g["functions"]] != [toks(x) for x in fs]:
            bad = [x for x in zip(g["constants"] + g["types"] + g["functions"], cs + ts + fs) if toks(x[0]) != toks(x[1])][:1] or "numbers differ"
            c.violation("exports of %s: %s" % (f, str(bad)[:300]), rep)
    # every library module: what is listed can be imported and reached, constants and types by name
    mods = []
    for root, _, files in os.walk(REPO + "/lib"):
        mods += [os.path.join(root, f) for f in sorted(files) if f.endswith(".c") and not f.endswith(".test.c")]
    for m, r in zip(mods, multirun([(REPO, [che(), "exports", m]) for m in mods], extra_env={"CHELANG_HOME": home()})):
        c.count("library", states=1, transitions=1, traces=1)
        if r.rc: continue  # a module that does not translate by itself is the business of other checks
        g = parse(r.out)
        src = open(m).read()
        want = re.findall(r"^pub (?!enum|typedef)[^;{]*?(\w+)\s*\(", src, re.M)
        if g is None or len(g) != 1: c.violation("library: unreadable exports of %s" % m, r.out); continue
        names = [re.search(r"(\w+) \(", f).group(1) for f in g[0]["functions"]]
        if names != want: c.violation("library: functions of %s: %s, expected %s" % (os.path.relpath(m, REPO), names, want), r.out)


if __name__ == "__main__":
    c = Check("C11", ["signatures are compared by tokens, the order is that of the source"])
    main_(c)
    sys.exit(c.finish())
