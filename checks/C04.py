"""C04: declarations keep their types, layout and initial values.

All bounded combinations of struct fields, unions, enums, module variables,
composite literals, typedefs, parameter lists and declaration orders; each is
written in che and, one declarator at a time, in plain C; sizes, offsets,
signedness, values and stored state are compared."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from pairs import *

# ---------------------------------------------------------------- structs
# A field entry: (che text, C text, [(path, kind)]) with %p = name prefix; kind: i integer lvalue, f float, p pointer, a aggregate
ENT = [
    ("char %pa;", "char %pa;", [("%pa", "i")]),
    ("int %pa;", "int %pa;", [("%pa", "i")]),
    ("double %pa;", "double %pa;", [("%pa", "f")]),
    ("uint8_t %pa;", "uint8_t %pa;", [("%pa", "i")]),
    ("uint32_t %pa, %pb;", "uint32_t %pa; uint32_t %pb;", [("%pa", "i"), ("%pb", "i")]),
    ("char *%pa;", "char *%pa;", [("%pa", "p")]),
    ("const char *%pa, **%pb;", "const char *%pa; const char **%pb;", [("%pa", "p"), ("%pb", "p")]),
    ("int %pa, *%pb, %pc[3];", "int %pa; int *%pb; int %pc[3];", [("%pa", "i"), ("%pb", "p"), ("%pc", "a"), ("%pc[1]", "i"), ("%pc[2]", "i")]),
    ("char %pa[5];", "char %pa[5];", [("%pa", "a"), ("%pa[4]", "i")]),
    ("int16_t %pa[2][3], %pb;", "int16_t %pa[2][3]; int16_t %pb;", [("%pa", "a"), ("%pa[1]", "a"), ("%pa[1][2]", "i"), ("%pb", "i")]),
    ("bool %pa;", "bool %pa;", [("%pa", "i")]),
    ("int64_t %pa;", "int64_t %pa;", [("%pa", "i")]),
    ("size_t %pa;", "size_t %pa;", [("%pa", "i")]),
    ("float %pa;", "float %pa;", [("%pa", "f")]),
    ("union { int i; char c[6]; double *d; } %pa;", "union { int i; char c[6]; double *d; } %pa;", [("%pa", "a"), ("%pa.i", "i"), ("%pa.c[5]", "i"), ("%pa.d", "p")]),
    ("union { uint8_t b; } %pa[2];", "union { uint8_t b; } %pa[2];", [("%pa", "a"), ("%pa[1].b", "i")]),
    ("in_t %pa;", "in_t %pa;", [("%pa", "a"), ("%pa.x", "i"), ("%pa.y", "i")]),
    ("in_t %pa[2], *%pb;", "in_t %pa[2]; in_t *%pb;", [("%pa", "a"), ("%pa[1].y", "i"), ("%pb", "p")]),
    ("cb_t *%pa;", "cb_t *%pa;", [("%pa", "p")]),
    ("%T *%pa;", "%T *%pa;", [("%pa", "p")]),
    ("vec_t %pa;", "vec_t %pa;", [("%pa", "a"), ("%pa[1]", "i")]),
    ("char %pa[KN + 1];", "char %pa[KN + 1];", [("%pa", "a"), ("%pa[3]", "i")]),
]
PRE_CHE = "enum { KN = 3 }\ntypedef { char x; int y; } in_t;\ntypedef int cb_t(int, const char *);\ntypedef int vec_t[2];\n"
PRE_C = "enum { KN = 3 };\ntypedef struct { char x; int y; } in_t;\ntypedef int cb_t(int, const char *);\ntypedef int vec_t[2];\n"


def struct_items(seqs):
    for n, seq in enumerate(seqs):
        for ispub in (False,) + ((True,) if n % 7 == 0 else ()):
            T = "s%d%s_t" % (n, "p" if ispub else "")
            che, cc, acts, cacts = [], [], [], []
            k = "%ID"
            acts.append("%s x = {};" % T); acts.append("%s *q = &x;" % T); acts.append("OS.out(%s, sizeof(%s));" % (k, T)); acts.append("OS.out(%s, sizeof(x));" % k)
            cacts.append("%s x; memset(&x, 0, sizeof x); %s *q = &x;" % (T, T)); cacts.append("out(%s, sizeof(%s));" % (k, T)); cacts.append("out(%s, sizeof(x));" % k)
            for j, e in enumerate(seq):
                p = "abcdefg"[j]
                f = lambda s: s.replace("%p", p).replace("%T", T)
                che.append(f(e[0])); cc.append(f(e[1]))
                for path, kind in e[2]:
                    path = f(path)
                    acts.append("OS.out(%s, (char *) &x.%s - (char *) &x);" % (k, path)); cacts.append("out(%s, (char *) &x.%s - (char *) &x);" % (k, path))
                    acts.append("OS.out(%s, sizeof(x.%s));" % (k, path)); cacts.append("out(%s, sizeof(x.%s));" % (k, path))
                    if kind == "i":
                        for a, b in (("q->%s = (int8_t) -2;" % path, None), ("OS.out(%s, x.%s);" % (k, path), "out(%s, x.%s);" % (k, path))):
                            acts.append(a); cacts.append(b or a)
                    elif kind == "f":
                        acts.append("q->%s = 2.5;" % path); cacts.append("q->%s = 2.5;" % path)
                        acts.append("OS.out(%s, x.%s * 4);" % (k, path)); cacts.append("out(%s, x.%s * 4);" % (k, path))
                    elif kind == "p":
                        acts.append("OS.out(%s, x.%s == NULL);" % (k, path)); cacts.append("out(%s, x.%s == NULL);" % (k, path))
            acts.append("OS.out(%s, ((uint8_t *) q)[sizeof(x) - 1]);" % k); cacts.append("out(%s, ((uint8_t *) q)[sizeof(x) - 1]);" % k)
            yield ["%stypedef { %s } %s;" % ("pub " if ispub else "", " ".join(che), T), "\n".join("\t" + a for a in acts),
                   "typedef struct %s_s %s; struct %s_s { %s };" % (T, T, T, " ".join(cc)), "\n".join("\t" + a for a in cacts)]


def with_ids(items):
    for i, it in enumerate(items): yield tuple(x.replace("%ID", str(i)) for x in it)


# ---------------------------------------------------------------- enums
def enum_items(maxn):
    vals = [None, "0", "1", "-1", "7", "0x10", "'c'", "%P + 1", "%P * 2", "1 << 3", "-(%P)", "1000000", "(2 + 3) * 4"]
    n = 0
    for k in range(1, maxn + 1):
        for t in itertools.product(vals if k <= 2 else [None, "3", "-1", "%P + 2", "1 << 3"], repeat=k):
            if t[0] and "%P" in t[0]: continue
            for v in range(2 if k <= 2 else 1):
                che, cc, acts, cacts = [], [], [], []
                for j, x in enumerate(t):
                    nm = "E%d_%d%s" % (n, j, "abcd"[v]); pv = "E%d_%d%s" % (n, j - 1, "abcd"[v])
                    che.append(nm + (" = " + x.replace("%P", pv) if x else "")); cc.append(nm + (" = " + x.replace("%P", pv) if x else ""))
                    acts.append("\tOS.out(%%ID, %s);" % nm); cacts.append("\tout(%%ID, %s);" % nm)
                acts.append("\tint z[E%d_0%s - E%d_0%s + 2] = {};\n\tOS.out(%%ID, sizeof(z));" % (n, "abcd"[v], n, "abcd"[v])); cacts.append("\tout(%ID, 8);")
                yield ["%senum { %s%s }%s" % ("pub " if v else "", ", ".join(che), "," if n % 2 else "", ";" if n % 3 == 0 else ""), "\n".join(acts),
                       "enum { %s };" % ", ".join(cc), "\n".join(cacts)]
            n += 1


# ---------------------------------------------------------------- initialisers (module variables and locals)
PT = ("typedef { int x, y; char s[4]; } pt_t;\ntypedef { pt_t a; int n; const char *t; int v[3]; } big_t;\nenum { I0, I1, I2, I3 }\nint addf(int a) { return a + 1; }\nint subf(int a) { return a - 1; }\ntypedef int op_t(int);\n"
      "typedef { op_t *f; int k; } ent_t;\n",
      "typedef struct { int x; int y; char s[4]; } pt_t;\ntypedef struct { pt_t a; int n; const char *t; int v[3]; } big_t;\nenum { I0, I1, I2, I3 };\nstatic int addf(int a) { return a + 1; }\nstatic int subf(int a) { return a - 1; }\ntypedef int op_t(int);\n"
      "typedef struct { op_t *f; int k; } ent_t;\n")
USE_PT = ("\tOS.out(%ID, I0 + I1 + I2 + I3);\n\tent_t e[2] = { { .f = addf, .k = 1 }, { subf, 2 } };\n\tOS.out(%ID, e[0].f(e[1].f(10)) + e[1].k);\n\tbig_t b = {};\n\tOS.out(%ID, b.n);",
          "\tout(%ID, 6);\n\tent_t e[2] = { { .f = addf, .k = 1 }, { subf, 2 } };\n\tout(%ID, e[0].f(e[1].f(10)) + e[1].k);\n\tout(%ID, 0);")


def lits(kind, depth):
    """Composite literals for int arrays of 4 and for pt_t."""
    if kind == "arr":
        ent = ["1", "-2", "3 + 4", "[2] = 5", "[I1] = 6", "[3] = -1", "[1 + 1] = 8", "[0] = 9"]
        size = 4
    else:
        ent = ["1", ".y = 2", ".x = -3", '.s = "ab"', "4 - 1"]
        size = 3
    for k in range(0, depth + 1):
        for t in itertools.product(ent, repeat=k):
            # positions must stay inside the object
            pos = 0; ok = True
            for x in t:
                m = {"[2] = 5": 2, "[I1] = 6": 1, "[3] = -1": 3, "[1 + 1] = 8": 2, "[0] = 9": 0, ".y = 2": 1, ".x = -3": 0, '.s = "ab"': 2}.get(x, pos)
                if m >= size: ok = False; break
                if kind == "pt" and m == 2 and x[0] != ".": ok = False; break
                pos = m + 1
            if ok:
                yield "{" + ", ".join(t) + ("," if len(t) % 2 else "") + "}"


def init_items(depth):
    n = 0
    for kind in ("arr", "pt"):
        for l in lits(kind, depth):
            cl = l if l not in ("{}",) else "{0}"
            n += 1
            v = "g%s%d" % (kind, n)
            if kind == "arr":
                obs = lambda o, x: "\n".join("\t%s(%%ID, %s[%d]);" % (o, x, j) for j in range(4)) + "\n\t%s[1] += 5;\n\t%s(%%ID, %s[1]);\n\t%s(%%ID, sizeof(%s));" % (x, o, x, o, x)
                d1 = "int %s[4] = %s;" % (v, l); d2 = "static int %s[4] = %s;" % (v, cl)
                l1 = "\tint w[4] = %s;\n" % l; l2 = "\tint w[4] = %s;\n" % cl
            else:
                obs = lambda o, x: "\t%s(%%ID, %s.x);\n\t%s(%%ID, %s.y);\n\t%s(%%ID, %s.s[0]);\n\t%s(%%ID, %s.s[1]);\n\t%s.x--;\n\t%s(%%ID, %s.x);" % (o, x, o, x, o, x, o, x, x, o, x)
                d1 = "pt_t %s = %s;" % (v, l); d2 = "static pt_t %s = %s;" % (v, cl)
                l1 = "\tpt_t w = %s;\n" % l; l2 = "\tpt_t w = %s;\n" % cl
            yield [d1, l1 + obs("OS.out", v) + "\n" + obs("OS.out", v) + "\n" + obs("OS.out", "w"), d2, l2 + obs("out", v) + "\n" + obs("out", v) + "\n" + obs("out", "w")]
    # unsized, nested and mixed
    nested = ["{}", "{ .n = 5 }", '{ .t = "q", .n = 2 }', '{ .a = { .x = 3 }, .v = {1, 2} }', '{ { 1, 2, "s" }, 9, "t", { [1] = 4 } }', '{ .v = {[2] = 7}, .a = {.s = "xyz", .x = 1} }', '{ { .y = 6 }, .t = "uv" }', '{ .v = {1}, .n = 3, .a = {} }']
    for l in nested:
        n += 1; v = "gb%d" % n
        cl = l.replace("{}", "{0}")
        obs = lambda o, x: "".join("\t%s(%%ID, %s.%s);\n" % (o, x, f) for f in ["a.x", "a.y", "a.s[0]", "a.s[1]", "a.s[2]", "n", "v[0]", "v[1]", "v[2]", "t == NULL"]) + "\tif (%s.t) %s(%%ID, %s.t[0]);\n" % (x, o, x)
        yield ["big_t %s = %s;" % (v, l), obs("OS.out", v) + "\tbig_t w = %s;\n" % l + obs("OS.out", "w"), "static big_t %s = %s;" % (v, cl), obs("out", v) + "\tbig_t w = %s;\n" % cl + obs("out", "w")]
    forms = [("int %s[] = {1, 2, 3};", 3), ("int %s[] = {[4] = 1};", 5), ("char %s[] = \"abc\";", 4), ("char %s[6] = \"abc\";", 6), ("char %s[] = {'a', 'b'};", 2), ("int %s[2][3] = {{1, 2, 3}, {4, 5, 6}};", 6),
             ("int %s[][2] = {{1, 2}, {3}, {}};", 6), ("pt_t %s[] = {{1, 2}, {.y = 5}, {}};", 3), ("const char *%s[] = {\"a\", NULL, \"bc\"};", 3), ("op_t *%s[] = {addf, subf};", 2), ("double %s[] = {1, 2.5, -3e1};", 3), ("uint8_t %s[256] = {[I3] = 255, 0x7F};", 256)]
    for f, cnt in forms:
        n += 1; v = "gf%d" % n
        tail = lambda o, x: "\t%s(%%ID, sizeof(%s));\n\t%s(%%ID, nelem(%s));\n" % (o, x, o, x)
        dump = lambda x: "\tchar *b%s = (char *) %s;\n\tfor (size_t i = 0; i < sizeof(%s); i++) { %%O(%%ID, b%s[i]); }\n" % (x, x, x, x)
        isptr = "*" in f
        def body(o, x):
            s = tail(o, x)
            if "const char *" in f: s += "".join("\t%s(%%ID, %s[%d] == NULL);\n" % (o, x, j) for j in range(3)) + "\t%s(%%ID, %s[2][1]);\n" % (o, x)
            elif "op_t" in f: s += "\t%s(%%ID, %s[0](5));\n\t%s(%%ID, %s[1](5));\n" % (o, x, o, x)
            elif "pt_t" in f: s += "".join("\t%s(%%ID, %s[%d].x);\n\t%s(%%ID, %s[%d].y);\n" % (o, x, j, o, x, j) for j in range(3))
            else: s += dump(x).replace("%O", o)
            return s
        ff = f.replace("{}", "{0}")
        yield [f % v, body("OS.out", v) + "\t" + f % "w" + "\n" + body("OS.out", "w"), "static " + ff % v, body("out", v).replace("nelem", "NEL") + "\t" + ff % "w" + "\n" + body("out", "w").replace("nelem", "NEL")]
    scal = [("int", ["5", "-5", "1 << 4", "I2 + 1", "sizeof(int)", "'a'", "0x7fffffff", "!3", "~0", "(2 + 3) * 4", "7 - 3 - 2", "7 - (3 - 2)", "3 > 2"]), ("uint8_t", ["255", "-1", "300"]), ("double", ["1.5", "-2", "1e3"]), ("char *", ["NULL", '"lit"']), ("bool", ["true", "false", "5"]),
            ("size_t", ["sizeof(pt_t)", "0"]), ("int64_t", ["-9000000000L", "1L << 40"]), ("op_t *", ["addf", "NULL", "subf"])]
    for t, vv in scal:
        for x in vv:
            n += 1; v = "gs%d" % n
            ob = lambda o, z: ("\t%s(%%ID, %s == NULL);\n" % (o, z) if "*" in t else "\t%s(%%ID, %s * 2);\n\t%s++;\n\t%s(%%ID, %s);\n" % (o, z, z, o, z) if t not in ("bool",) else "\t%s(%%ID, %s);\n" % (o, z)) + "\t%s(%%ID, sizeof(%s));\n" % (o, z)
            dd = "%s%s%s = %s;" % (t, "" if t.endswith("*") else " ", v, x)
            yield [dd, ob("OS.out", v) + ob("OS.out", v), "static " + dd, ob("out", v) + ob("out", v)]


# ---------------------------------------------------------------- functions and parameter lists
def param_items(maxn):
    types = ["int", "char", "double", "uint8_t", "int64_t"]
    forms = ["%s", "*%s", "%s[]", "%s[4]", "**%s"]
    n = 0
    def groups(k):
        if k == 0: yield []; return
        for g in range(1, k + 1):
            for rest in groups(k - g): yield [g] + rest
    for k in range(0, maxn + 1):
        for gs in groups(k):
            ts = itertools.product(types if k <= 2 else types[:3], repeat=len(gs))
            for tt in ts:
                fs = itertools.product(range(len(forms)) if k <= 2 else (0, 1), repeat=k)
                for ff in fs:
                    n += 1
                    che, cc, names = [], [], []
                    it = iter(ff); argt = []
                    for g, t in zip(gs, tt):
                        one = []
                        for _ in range(g):
                            nm = "p%d" % len(names); fi = next(it)
                            one.append(forms[fi] % nm); names.append((nm, t, fi)); cc.append("%s %s" % (t, forms[fi] % nm))
                        che.append("%s %s" % (t, ", ".join(one)))
                    use, cuse, args, dec = [], [], [], []
                    for j, (nm, t, fi) in enumerate(names):
                        ex = {0: nm, 1: "*" + nm, 2: nm + "[1]", 3: nm + "[1]", 4: "**" + nm}[fi]
                        use.append("\tOS.out(%%ID, %s);\n\tOS.out(%%ID, sizeof(%s));" % (ex, nm)); cuse.append("\tout(%%ID, %s);\n\tout(%%ID, sizeof(%s));" % (ex, nm))
                        val = "%d" % (j * 3 + 2)
                        dec.append("\t%s l%d[2] = {%s, %s};" % (t, j, val, "%d" % (j * 3 + 3)))
                        if fi == 4: dec.append("\t%s *k%d = l%d;" % (t, j, j))
                        args.append({0: "l%d[0]" % j, 1: "l%d" % j, 2: "l%d" % j, 3: "l%d" % j, 4: "&k%d" % j}[fi])
                    ret = ["void", "int", "char *", "double"][n % 4]
                    rv = {"void": "", "int": "\treturn %d;" % n, "char *": "\treturn NULL;", "double": "\treturn %d.5;" % n}[ret]
                    rn = ret if ret.endswith("*") else ret + " "
                    call = "fn%d(%s)" % (n, ", ".join(args))
                    cl = "\t%s;" % call if ret == "void" else "\tOS.out(%%ID, %s%s);" % (call, " == NULL" if "*" in ret else "")
                    pb = "pub " if n % 2 else ""
                    yield ["%s%sfn%d(%s) {\n%s\n%s\n}" % (pb, rn, n, ", ".join(che), "\n".join(use), rv), "\n".join(dec) + "\n" + cl,
                           "%sfn%d(%s) {\n%s\n%s\n}" % (rn, n, ", ".join(cc) or "void", "\n".join(cuse), rv), "\n".join(dec) + "\n" + cl.replace("OS.out", "out")]


# ---------------------------------------------------------------- order of declarations
def order_items(c):
    """Elements in any order: functions, variables, enums, structs that refer to one another."""
    els = ["typedef { int x; nb%N_t *next; } na%N_t;", "typedef { na%N_t *owner; int k; } nb%N_t;", "enum { EA%N = 4, EB%N }", "int gv%N = EA%N * 2;", "int ev%N(int n) { if (n == 0) return gv%N + EB%N; return od%N(n - 1) + 1; }",
           "int od%N(int n) { na%N_t a = { .x = n }; nb%N_t b = { .owner = &a, .k = 3 }; a.next = &b; if (n == 0) return b.owner->x + a.next->k; return ev%N(n - 1) * 2; }"]
    ref = "typedef struct nb%N_s nb%N_t; typedef struct { int x; nb%N_t *next; } na%N_t; struct nb%N_s { na%N_t *owner; int k; }; enum { EA%N = 4, EB%N }; static int gv%N = 8; static int od%N(int); static int ev%N(int n) { if (n == 0) return gv%N + EB%N; return od%N(n - 1) + 1; } " \
          "static int od%N(int n) { na%N_t a = { .x = n }; nb%N_t b = { .owner = &a, .k = 3 }; a.next = &b; if (n == 0) return b.owner->x + a.next->k; return ev%N(n - 1) * 2; }"
    n = 0
    for p in itertools.permutations(els):
        n += 1
        u = "".join("\tOS.out(%%ID, ev%d(%d));\n" % (n, k) for k in range(5))
        yield ["\n".join(x.replace("%N", str(n)) for x in p), u, ref.replace("%N", str(n)), u.replace("OS.", "")]


# ---------------------------------------------------------------- typedef chains
def typedef_items():
    base = [("int", 1), ("char", 1), ("double", 1), ("st_t", 0)]
    steps = ["%s %s", "%s *%s", "%s %s[3]", "%s **%s"]
    n = 0
    for b, sc in base:
        for k in (1, 2, 3):
            for t in itertools.product(range(4), repeat=k):
                # an array of an incomplete struct isn't C, and neither is an alias of one used by value before its definition
                n += 1
                prev = b; che, cc = [], []
                for j, s in enumerate(t):
                    nm = "t%d_%d" % (n, j)
                    che.append("%stypedef %s;" % ("pub " if (n + j) % 3 == 0 else "", steps[s] % (prev, nm))); cc.append("typedef %s;" % (steps[s] % (prev, nm)))
                    prev = nm
                if b == "st_t" and 2 in t and not (1 in t[:t.index(2)] or 3 in t[:t.index(2)]): continue
                a = "\tOS.out(%%ID, sizeof(%s));\n\t%s v[2] = {};\n\tOS.out(%%ID, sizeof(v));\n\tOS.out(%%ID, sizeof(v[0]));\n\tOS.out(%%ID, sizeof(%s *));" % (prev, prev, prev)
                for j in range(k): a += "\n\tOS.out(%%ID, sizeof(t%d_%d));" % (n, j)
                yield ["\n".join(che), a, "\n".join(cc), a.replace("OS.out", "out").replace("= {}", "")]


# ---------------------------------------------------------------- sizes and counts
def size_items():
    """Array sizes, pointer depths, numbers of members, entries, fields and parameters."""
    n = 0
    N = list(range(1, 26)) + [31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 200, 201, 255, 256, 257, 300]
    for b in ("int", "char", "double", "uint16_t", "void"):
        for st in range(1, 7):
            n += 1; t = "z%d_t" % n
            d = "typedef %s %s%s;" % (b, "*" * st, t)
            a = "\tOS.out(%%ID, sizeof(%s));\n\t%s v = NULL;\n\tOS.out(%%ID, v == NULL);\n" % (t, t)
            if b != "void" or st > 1:
                for k in range(1, st + 1):
                    if b == "void" and k == st: break
                    a += "\tOS.out(%%ID, sizeof(v%s));\n" % ("[0]" * k)
            yield [d, a, d, a.replace("OS.", "")]
            d = "%s %sgp%d = NULL;" % (b, "*" * st, n)
            a = "\tOS.out(%%ID, sizeof(gp%d));\n\t%s %sq = gp%d;\n\tOS.out(%%ID, q == NULL);\n" % (n, b, "*" * st, n)
            yield [d, a, d, a.replace("OS.", "")]
            d = "int fp%d(%s %sx) { return x == NULL; }" % (n, b, "*" * st)
            a = "\tOS.out(%%ID, fp%d(NULL));\n" % n
            yield [d, a, d, a.replace("OS.", "")]
            d1 = "%s %sfr%d() { return NULL; }" % (b, "*" * st, n)
            a = "\tOS.out(%%ID, fr%d() == NULL);\n\tOS.out(%%ID, sizeof(fr%d()));\n" % (n, n)
            yield [d1, a, d1, a.replace("OS.", "")]
        if b == "void": continue
        for k in N:
            n += 1; t = "z%d_t" % n
            d = "typedef %s %s[%d];" % (b, t, k)
            a = "\tOS.out(%%ID, sizeof(%s));\n\t%s v = {};\n\tOS.out(%%ID, sizeof(v));\n\tOS.out(%%ID, sizeof(v[0]));\n\tv[%d] = 3;\n\tOS.out(%%ID, v[%d]);\n" % (t, t, k - 1, k - 1)
            yield [d, a, d, a.replace("OS.", "").replace("= {}", "= {0}")]
            if b not in ("int", "char"): continue
            d = "typedef { %s f[%d]; char e; } s%s;" % (b, k, t)
            a = "\ts%s v = {};\n\tOS.out(%%ID, sizeof(v));\n\tv.f[%d] = 3;\n\tOS.out(%%ID, v.e);\n\tOS.out(%%ID, v.f[%d]);\n" % (t, k - 1, k - 1)
            yield [d, a, "typedef struct { %s f[%d]; char e; } s%s;" % (b, k, t), a.replace("OS.", "").replace("= {}", "= {0}")]
            d = "%s ga%d[%d] = {};" % (b, n, k)
            a = "\t%s la[%d] = {};\n\tOS.out(%%ID, sizeof(la));\n\tOS.out(%%ID, sizeof(ga%d));\n\tOS.out(%%ID, nelem(ga%d));\n\tOS.out(%%ID, (int) la[%d] + (int) ga%d[0]);\n" % (b, k, n, n, k - 1, n)
            yield [d, a, "static " + d.replace("{}", "{0}"), a.replace("OS.", "").replace("= {}", "= {0}").replace("nelem", "NEL")]
    for k in N:
        n += 1
        # literals with k entries: positional, indexed, nested, strings
        for form, ty in (("%d" , "int"), ("[%d] = %d", "int"), ("{%d, %d}", "pair"), ('"s%d"', "const char *")):
            n += 1; v = "gl%d" % n
            if ty == "int" and form == "%d": ents = ["%d" % (x * 7 + 1) for x in range(k)]; dim = ""
            elif ty == "int": ents = ["[%d] = %d" % (k - 1 - x, x * 3 + 2) for x in range(k)]; dim = ""
            elif ty == "pair": ents = ["{%d, %d}" % (x, x + 5) for x in range(k)]; dim = "[2]"; ty = "int"
            else: ents = ['"s%d"' % x for x in range(k)]; dim = ""
            lit = "{" + ", ".join(ents) + "}"
            d = "%s%s%s[]%s = %s;" % (ty, "" if ty.endswith("*") else " ", v, dim, lit)
            a = "\tOS.out(%%ID, sizeof(%s));\n" % v
            for x in sorted({0, k // 2, k - 1, max(0, k - 2)}):
                a += "\tOS.out(%%ID, %s[%d]%s);\n" % (v, x, "[1]" if dim or "*" in ty else "")
            loc = d.replace(v, "w")
            a2 = a + "\t" + loc + "\n" + a.replace(v, "w")
            yield [d, a2, "static " + d, a2.replace("OS.", "")]
        # enums with k members, without and with values, each member read back
        if k <= 300:
            for vals in (0, 1, 2):
                n += 1
                ms = ["M%d_%d%s" % (n, x, "" if vals == 0 or (vals == 2 and x % 3) else " = %d" % (1000 - x * 3)) for x in range(k)]
                d = "enum {\n%s\n}" % ",\n".join("\t" + m for m in ms)
                pick = range(k) if k <= 26 else sorted({0, 1, k // 2, k - 3, k - 2, k - 1})
                yield [d, "".join("\tOS.out(%%ID, M%d_%d);\n" % (n, x) for x in pick) + ("" if k <= 26 else "\tint tot = 0;\n" + "".join("\ttot = tot * 3 + M%d_%d;\n" % (n, x) for x in range(k)) + "\tOS.out(%ID, tot);\n"),
                       d + ";", "".join("\tout(%%ID, M%d_%d);\n" % (n, x) for x in pick) + ("" if k <= 26 else "\tint tot = 0;\n" + "".join("\ttot = tot * 3 + M%d_%d;\n" % (n, x) for x in range(k)) + "\tout(%ID, tot);\n")]
        # structs with k fields, in entries of one and of several names
        for grp in (1, 4):
            n += 1; T = "w%d_t" % n
            fs = ["f%d" % x for x in range(k)]
            tys = ["int", "char", "double", "int16_t"]
            che = " ".join("%s %s;" % (tys[(j // grp) % 4], ", ".join(fs[j:j + grp])) for j in range(0, k, grp))
            cc = " ".join("%s %s;" % (tys[(j // grp) % 4], fs[j]) for j in range(k))
            a = "\t%s v = {};\n\tOS.out(%%ID, sizeof(v));\n" % T
            for x in sorted({0, k // 2, k - 1, max(0, k - 2)}):
                a += "\tv.f%d = %d;\n\tOS.out(%%ID, (char *) &v.f%d - (char *) &v);\n\tOS.out(%%ID, v.f%d);\n" % (x, x % 100, x, x)
            use = "\t%s q = {%s};\n\tOS.out(%%ID, q.f%d);\n" % (T, ", ".join(".f%d = %d" % (x, x % 50 + 1) for x in range(k)), k - 1)
            yield ["typedef { %s } %s;" % (che, T), a + use, "typedef struct { %s } %s;" % (cc, T), (a + use).replace("OS.", "").replace("= {}", "= {0}")]
        # functions with k parameters
        if k <= 101:
            for grp in (1, 3):
                n += 1
                ps = ["p%d" % x for x in range(k)]
                tys = ["int", "double", "char", "int64_t"]
                che = ", ".join("%s %s" % (tys[(j // grp) % 4], ", ".join(ps[j:j + grp])) for j in range(0, k, grp))
                cc = ", ".join("%s %s" % (tys[(j // grp) % 4], ps[j]) for j in range(k))
                b = "".join("\tr = r * 3 + (int64_t) p%d;\n" % x for x in range(k))
                call = "\tOS.out(%%ID, fm%d(%s));\n" % (n, ", ".join("%d" % (x % 90 + 1) for x in range(k)))
                yield ["int64_t fm%d(%s) {\n\tint64_t r = 1;\n%s\treturn r;\n}" % (n, che, b), call, "int64_t fm%d(%s) {\n\tint64_t r = 1;\n%s\treturn r;\n}" % (n, cc, b), call.replace("OS.", "")]
    # several dimensions
    for dims in itertools.chain(itertools.product((1, 2, 3), repeat=2), itertools.product((1, 2, 3), repeat=3), itertools.product((1, 2), repeat=4)):
        n += 1; ds = "".join("[%d]" % x for x in dims); last = "".join("[%d]" % (x - 1) for x in dims)
        for d, c2, v in (("int gd%d%s = {};" % (n, ds), "static int gd%d%s = {0};" % (n, ds), "gd%d" % n), ("typedef { int f%s; } sd%d_t;" % (ds, n), "typedef struct { int f%s; } sd%d_t;" % (ds, n), "v.f")):
            a = ("\tsd%d_t v = {};\n" % n if v == "v.f" else "") + "\tOS.out(%%ID, sizeof(%s));\n\tOS.out(%%ID, sizeof(%s[0]));\n\t%s%s = 5;\n\tOS.out(%%ID, %s%s);\n\tOS.out(%%ID, (char *) &%s%s - (char *) &%s);\n" % (v, v, v, last, v, last, v, last, v)
            yield [d, a, c2, a.replace("OS.", "").replace("= {}", "= {0}")]


def body(c):
    def st():
        for k in (1, 2):
            yield from itertools.product(ENT, repeat=k)
        for t in itertools.product(ENT if c.thorough else [ENT[i] for i in (0, 2, 3, 4, 7, 8, 9, 14, 16, 19)], repeat=3): yield t
        if c.thorough: yield from itertools.product([ENT[i] for i in (0, 2, 3, 7, 8, 14, 16)], repeat=4)
    first = [PRE_CHE, "\tcb_t *z = NULL;\n\tOS.out(%ID, z == NULL);\n\tOS.out(%ID, KN);", PRE_C, "\tout(%ID, 1);\n\tout(%ID, 3);"]
    prelude_pairs(c, "structs", first, struct_items(st()), 120)
    run_pairs(c, "enums", with_ids(enum_items(5 if c.thorough else 4)), 120)
    prelude_pairs(c, "initialisers", [PT[0], USE_PT[0], PT[1] + "#define NEL(x) (sizeof (x) / sizeof (x)[0])\n", USE_PT[1]], init_items(5 if c.thorough else 4), 120)
    run_pairs(c, "parameters", with_ids(param_items(5 if c.thorough else 4)), 150)
    prelude_pairs(c, "sizes", ["", "\tOS.out(%ID, 1);", "#define NEL(x) (sizeof (x) / sizeof (x)[0])\n", "\tout(%ID, 1);"], size_items(), 60)
    run_pairs(c, "order", with_ids(order_items(c)), 40)
    prelude_pairs(c, "typedefs", ["typedef { int q; char w; } st_t;", "\tst_t z = { .q = 1, .w = 2 };\n\tOS.out(%ID, z.q);", "typedef struct { int q; char w; } st_t;", "\tout(%ID, 1);"], typedef_items(), 60)


def prelude_pairs(c, part, first, items, n):
    """Every batch begins with the same declarations (and a use of them all)."""
    items = list(items)
    batches = [items[i:i + n] for i in range(0, len(items), n)]
    c.count(part, states=len(items))
    def one(b, depth=0):
        bb = [tuple(x.replace("%ID", str(k)) for x in it) for k, it in enumerate([first] + b)]
        d = sub("%s_%d" % (part, id(b)))
        err, outs = build_pair(d, bb, list(range(len(bb))), (), "")
        shutil.rmtree(d)
        if err:
            if len(b) <= 1:
                return [("%s: %s: %s" % (part, err, " ".join((b or [first])[0][:2])[:300]), "\n".join((b or [first])[0][:2]) + "\n" + err)]
            m = len(b) // 2
            return one(b[:m]) + one(b[m:])
        x, y = outs[0].splitlines(), outs[1].splitlines()
        c.count(part, transitions=len(y), traces=len(b))
        v = []
        if x != y:
            gx, gy = {}, {}
            for l in x: gx.setdefault(l.split(" ")[0], []).append(l)
            for l in y: gy.setdefault(l.split(" ")[0], []).append(l)
            for k, it in enumerate([first] + b):
                if gx.get(str(k)) != gy.get(str(k)):
                    v.append(("%s: prints %s, expected %s: %s" % (part, gx.get(str(k)), gy.get(str(k)), " ".join(it[:2])[:300]), "\n".join(it)))
            if not v: v.append((part + ": different order", ""))
        return v
    for vs in pmap(one, batches):
        for v in vs: c.violation(*v)
    if items: c.sample("%s: %s" % (part, " ".join(items[len(items) // 2][:2])[:300]))


if __name__ == "__main__":
    main("C04", body, ["gcc's layout of the same declarations written one by one is the reference",
                       "a struct containing a later struct by value, aliases declared before their target and arrays sized by later enums are outside (che leaves those to C)"])
