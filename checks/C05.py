"""C05: modules keep their names apart and share what they publish.

One identifier is declared as every kind of thing in every module of several
import topologies (all combinations), read back through its own module and,
where public, through the importing ones. All forms of access to public things
are exercised; all forms of access to private ones must be refused."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

KINDS = ["none", "fn", "pubfn", "var", "enum", "pubenum", "struct", "pubstruct", "alias", "pubalias", "local", "param"]
PUB = {"pubfn": "v", "pubenum": "v", "pubstruct": "t", "pubalias": "t"}


def declare(kind, nm, val, i):
    """(declarations, expression giving val)"""
    p = "pub " if kind.startswith("pub") else ""
    k = kind.replace("pub", "")
    if k == "none": return "", str(val)
    if k == "fn": return "%sint %s() { return %d; }\n" % (p, nm, val), "%s()" % nm
    if k == "var": return "int %s = %d;\n" % (nm, val), nm
    if k == "enum": return "%senum { %s = %d }\n" % (p, nm, val), nm
    if k == "struct": return "%stypedef { char x[%d]; } %s;\n" % (p, val, nm), "(int) sizeof(%s)" % nm
    if k == "alias": return "%stypedef char %s[%d];\n" % (p, nm, val), "(int) sizeof(%s)" % nm
    if k == "local": return "int loc%d() { int %s = %d; return %s; }\n" % (i, nm, val, nm), "loc%d()" % i
    if k == "param": return "int par%d(int %s) { return %s; }\n" % (i, nm, nm), "par%d(%d)" % (i, val)


def remote(kind, ns, nm):
    if kind == "pubfn": return "%s.%s()" % (ns, nm)
    if kind == "pubenum": return "%s.%s" % (ns, nm)
    return "(int) sizeof(%s.%s)" % (ns, nm)


TOPO = {  # name: (files, imports of main, of a, of b); ns by base name
    "fan": (("a.c", "b.c"), ["a.c", "b.c"], [], []),
    "chain": (("a.c", "b.c"), ["a.c"], ["b.c"], []),
    "diamond": (("a.c", "b.c"), ["a.c", "b.c"], ["b.c"], []),
    "reverse": (("a.c", "b.c"), ["b.c", "a.c"], [], []),
    "same name": (("x.c", "d/x.c"), ["x.c"], ["d/x.c"], []),
    "dirs": (("d/a.c", "e/b.c"), ["d/a.c", "e/b.c"], ["../e/b.c"], []),
}


def ns(path): return os.path.basename(path)[:-2]


def project(d, topo, combos, mainname):
    (fa, fb), im, ia, ib = TOPO[topo]
    src = {"m": "", "a": "", "b": ""}
    body = []; want = []
    for i, (km, ka, kb) in enumerate(combos):
        nm = "thing%d" % i
        for mod, k, base in (("a", ka, 1000), ("b", kb, 2000), ("m", km, 3000)):
            dec, ex = declare(k, nm, base + i, i)
            src[mod] += dec
            src[mod] += "pub int get_%s%d() { return %s; }\n" % (mod, i, ex)
            if k == "var": src[mod] += "pub int bump_%s%d() { %s++; return %s; }\n" % (mod, i, nm, nm)
        vis = {"m": [x for x in im], "a": list(ia), "b": list(ib)}
        ka_, kb_ = ka, kb
        # what a sees of b
        if ia and kb in PUB: src["a"] += "pub int a_b%d() { return %s; }\n" % (i, remote(kb, ns(fb), nm))
        if ia and kb == "var": src["a"] += "pub int a_bump%d() { return %s.bump_b%d(); }\n" % (i, ns(fb), i)
        if ia: src["a"] += "pub int a_get%d() { return %s.get_b%d(); }\n" % (i, ns(fb), i)
        def exp(e, v): body.append("\tOS.out(%d, %s);\n" % (i, e)); want.append("%d %d" % (i, v))
        seesb = any(os.path.basename(x) == os.path.basename(fb) and x == fb for x in im)
        na, nb = ns(fa), ns(fb)
        exp("get_m%d()" % i, 3000 + i); exp("%s.get_a%d()" % (na, i), 1000 + i)
        if seesb: exp("%s.get_b%d()" % (nb, i), 2000 + i)
        if ia: exp("%s.a_get%d()" % (na, i), 2000 + i)
        if ka in PUB: exp(remote(ka, na, nm), 1000 + i)
        if kb in PUB and seesb: exp(remote(kb, nb, nm), 2000 + i)
        if kb in PUB and ia: exp("%s.a_b%d()" % (na, i), 2000 + i)
        # state: one instance, whoever touches it
        if kb == "var":
            n = 2000 + i
            if seesb: n += 1; exp("%s.bump_b%d()" % (nb, i), n)
            if ia: n += 1; exp("%s.a_bump%d()" % (na, i), n)
            if seesb: exp("%s.get_b%d()" % (nb, i), n)
        if ka == "var": exp("%s.bump_a%d()" % (na, i), 1001 + i); exp("%s.get_a%d()" % (na, i), 1001 + i)
        if km == "var": exp("bump_m%d()" % i, 3001 + i); exp("get_m%d()" % i, 3001 + i)
        exp("get_m%d()" % i, 3000 + i + (1 if km == "var" else 0))
    os.makedirs(d, exist_ok=True)
    imp = lambda l: "".join("#import %s\n" % x for x in l)
    fns = ""; k = 0
    for j in range(0, len(body), 300):
        fns += "void run%d() {\n%s}\n" % (k, "".join(body[j:j + 300])); k += 1
    main_ = imp(im) + "#include <shim.h>\n" + src["m"] + fns + "int main() {\n" + "".join("\trun%d();\n" % j for j in range(k)) + "\treturn 0;\n}\n"
    for f, t in ((fa, imp(ia) + src["a"]), (fb, imp(ib) + src["b"]), (mainname, main_)):
        os.makedirs(os.path.dirname(d + "/" + f) or d, exist_ok=True)
        open(d + "/" + f, "w").write(t)
    return want


SHIMH = "void out(int, long);\n"
OUTC = "#include <stdio.h>\nvoid out(int i, long v) { printf(\"%d %ld\\n\", i, v); }\n"


def build_run(d, mainname):
    os.makedirs(d + "/inc", exist_ok=True)
    open(d + "/inc/shim.h", "w").write(SHIMH); open(d + "/inc/out.c", "w").write(OUTC)
    r, files = genc(d + "/" + mainname, d + "/gen")
    if r.rc != 0: return "refused: " + (r.err + r.out)[:300], None
    q = run(["gcc", "-std=c99", "-w", "-O0", "-I", d + "/inc", "-o", d + "/x"] + files + [d + "/inc/out.c", "-lm"], timeout=300)
    if q.rc != 0: return "the generated C doesn't compile: " + q.err[:500], None
    q = run([d + "/x"], timeout=60)
    if q.rc != 0: return "program ended with status %s: %s" % (q.rc, q.err[:200]), None
    return None, q.out.splitlines()


def names(c):
    combos = list(itertools.product(KINDS, repeat=3))
    mains = ["main.c", "my-prog.c", "prog.test.c", "9lives.c", "a_b.c"]
    jobs = []
    for t in TOPO:
        for n, i in enumerate(range(0, len(combos), 150)):
            jobs.append((t, combos[i:i + 150], mains[(n + len(t)) % len(mains)] if not c.thorough else mains[n % len(mains)]))
        if c.thorough:
            for m in mains:
                for i in range(0, len(combos), 150): jobs.append((t, combos[i:i + 150], m))
        jobs.append((t, [(k, k, k) for k in KINDS], "prog.test.c"))
        jobs.append((t, [(k, k, k) for k in KINDS], "my-prog.c"))
    def one(j):
        k, (t, cc, m) = j
        d = sub("n%d" % k)
        want = project(d, t, cc, m)
        err, got = build_run(d, m)
        shutil.rmtree(d)
        if err and len(cc) > 1:
            # find the combination
            for x in cc:
                d = sub("n%d" % k); w = project(d, t, [x], m); e, g = build_run(d, m); shutil.rmtree(d)
                if e: return [("names, %s, kinds main=%s a=%s b=%s, %s: %s" % (t, *x, m, e), str(x))], len(want)
        if err: return [("names, %s, %s: %s" % (t, m, err), str(cc[:3]))], len(want)
        v = []
        if got != want:
            for a, b in itertools.zip_longest(got, want):
                if a != b:
                    i = int((b or a).split()[0])
                    v.append(("names, topology %s, %s declared as main=%s a=%s b=%s: got %s, expected %s" % (t, "thing%d" % i, *cc[i], a, b), "")); break
        return v, len(want)
    for j, (v, n) in zip(jobs, pmap(one, list(enumerate(jobs)))):
        c.count("names", states=len(j[1]), transitions=n, traces=len(j[1]))
        for x in v: c.violation(*x)
    c.sample("names: 'thing' as a public function in main, a variable in a and a private struct in b, all read back, six import topologies")


# ---------------------------------------------------------------- access forms
LIBM = '''pub enum { PE = 7, PF }
enum { HE = 9 }
pub typedef { int x, y; } ps_t;
typedef { int z; } hs_t;
pub typedef int pa_t;
typedef int ha_t;
pub typedef int pf_t(int);
pub int pfn(int a) { return a + %(seed)d; }
int hfn(int a) { return a - 1; }
int state = %(seed)d;
pub int next() { state++; return state; }
pub ps_t mk(int x, y) { ps_t p = { .x = x, .y = y }; return p; }
pub int sum(ps_t *p) { hs_t h = { .z = HE }; ha_t q = 1; return p->x + p->y + h.z * 0 + hfn(q); }
pub pa_t pget() { return 4; }
pub typedef ps_t *pb_t;
pub typedef int pv_t[3];
pub void fill(int *v) { v[2] = state; }
pub pf_t *getf() { return pfn; }
'''
GOOD = [  # (declarations, statements, expected outputs)
    ("", "OS.out(0, l.pfn(1));", [101]),
    ("", "OS.out(0, l.PE + l.PF);", [15]),
    ("", "l.ps_t p = l.mk(3, 4); OS.out(0, l.sum(&p) + p.x);", [10]),
    ("", "l.ps_t p = { .x = 1, .y = l.PE }; l.ps_t *q = &p; OS.out(0, q->y + l.sum(q));", [15]),
    ("", "l.ps_t p[l.PE] = {}; OS.out(0, sizeof(p) / sizeof(l.ps_t)); OS.out(0, p[6].x);", [7, 0]),
    ("", "l.pa_t a = 5; OS.out(0, a + (l.pa_t) 2.5);", [7]),
    ("", "l.pf_t *f = l.pfn; OS.out(0, f(2)); f = l.getf(); OS.out(0, f(3));", [102, 103]),
    ("int g = l.PE * 2;", "OS.out(0, g);", [14]),
    ("enum { ME = l.PF + 1, MF }", "OS.out(0, ME * MF);", [90]),
    ("l.ps_t gp = { 5, l.PE };", "OS.out(0, gp.x + gp.y); gp.x++; OS.out(0, l.sum(&gp));", [12, 13]),
    ("l.pf_t *gf = l.pfn;", "OS.out(0, gf(1));", [101]),
    ("l.pf_t *tab[] = { l.pfn, NULL };", "OS.out(0, tab[0](1)); OS.out(0, tab[1] == NULL);", [101, 1]),
    ("typedef { l.ps_t in; l.pa_t *p; l.ps_t arr[2]; } my_t;", "my_t m = { .in = { 1, 2 }, .arr = { { 3, 4 }, l.mk(5, 6) } }; l.pa_t v = 8; m.p = &v; OS.out(0, m.in.y + *m.p + m.arr[1].y + l.sum(&m.in));", [19]),
    ("pub typedef { l.ps_t in; } my_t;\npub my_t mine() { my_t m = { .in = l.mk(1, 2) }; return m; }", "my_t q = mine(); OS.out(0, q.in.x);", [1]),
    ("typedef l.ps_t al_t;", "al_t a = { 2, 3 }; OS.out(0, l.sum(&a));", [5]),
    ("l.ps_t conv(l.ps_t *a, l.pa_t k) { l.ps_t r = *a; r.x *= k; return r; }", "l.ps_t p = l.mk(2, 3); l.ps_t q = conv(&p, 4); OS.out(0, q.x); OS.out(0, p.x);", [8, 2]),
    ("int pick(int v) { switch (v) { case l.PE: { return 1; } case 3, l.PF: { return 2; } default: { return 0; } } }", "OS.out(0, pick(7)); OS.out(0, pick(8)); OS.out(0, pick(3)); OS.out(0, pick(9));", [1, 2, 2, 0]),
    ("", "OS.out(0, l.next()); OS.out(0, k.next2()); OS.out(0, l.next());", [101, 102, 103]),
    ("", "l.ps_t p = k.made(); OS.out(0, l.sum(&p));", [30]),
    ("", "OS.out(0, sizeof(l.ps_t *)); OS.out(0, sizeof(l.ps_t)); OS.out(0, sizeof(l.pa_t));", [8, 8, 4]),
    ("", "void *v = NULL; l.ps_t *p = (l.ps_t *) v; OS.out(0, p == NULL); l.ps_t **pp = &p; OS.out(0, *pp == NULL);", [1, 1]),
    ("int l2() { int PE = 3; return PE + l.PE; }", "OS.out(0, l2());", [10]),
    ("int pfn(int a) { return a * 2 + l.pfn(0); }", "OS.out(0, pfn(1));", [102]),
    ("typedef { char c; } ps_t;", "ps_t a = {}; l.ps_t b = {}; OS.out(0, sizeof(a)); OS.out(0, sizeof(b) + b.x); OS.out(0, a.c);", [1, 8, 0]),
    ("enum { HE = 2, state }", "OS.out(0, HE + state + l.PE);", [12]),
    ("int hfn() { return 4; }\nint next() { return hfn(); }", "OS.out(0, next() + l.next());", [105]),
    ("", "for (l.pa_t i = 0; i < l.PE; i += 3) { OS.out(0, i); }", [0, 3, 6]),
    ("", "const l.ps_t *p = NULL; OS.out(0, p == NULL); const l.pa_t z = 4; OS.out(0, z);", [1, 4]),
    ("", "int x[] = { [l.PE] = 1 }; OS.out(0, nelem(x)); OS.out(0, x[l.PE]);", [8, 1]),
    ("", "OS.out(0, l.mk(4, 5).y);", [5]),
    ("", "OS.out(0, l.pget() + 1); OS.out(0, l.pget() * 2 - l.PE); if (l.pget() == 4 && l.pget() < 5) { OS.out(0, l.pget() << 1); }", [5, 1, 8]),
    ("typedef { char *x; } ps_t;", "ps_t q = {}; OS.out(0, l.mk(4, 5).x * 2); OS.out(0, q.x == NULL);", [8, 1]),
    ("typedef { l.pf_t *f; } h_t;", "h_t h = { .f = l.pfn }; OS.out(0, h.f(5)); h_t *p = &h; OS.out(0, p->f(6)); OS.out(0, l.getf()(7));", [105, 106, 107]),
    ("int ap(l.pf_t *f, int x) { return f(x) + 1; }\nint ap2(l.pf_t f, int x) { return f(x) + 2; }", "OS.out(0, ap(l.pfn, 1)); OS.out(0, ap2(l.pfn, 1));", [102, 103]),
    ("", "for (const char *s = \"abc\"; *s != '\\0'; s++) { OS.out(0, (int) *s); } const char *z = (const char *) \"q\"; OS.out(0, (int) z[0]);", [97, 98, 99, 113]),
    ("", "l.pb_t b = NULL; l.ps_t p = l.mk(6, 7); b = &p; OS.out(0, b->y); OS.out(0, l.sum(b));", [7, 13]),
    ("", "l.pv_t v = {1, 2, 3}; OS.out(0, v[2]); OS.out(0, sizeof(v)); l.fill(v); OS.out(0, v[2]);", [3, 12, 100]),
    ("", "OS.out(0, k.thru()->x); k.thru()->x = 9; OS.out(0, k.thru()->x); OS.out(0, k.thru()->y + 1);", [1, 9, 3]),
    ("", "if (l.PE == 7 && l.pfn(1) > l.PF) { OS.out(0, -l.PE); } else { OS.out(0, 0); }", [-7]),
]
BAD = [  # accesses to private or missing things of l
    ("", "OS.out(0, l.hfn(1));"), ("", "OS.out(0, l.HE);"), ("", "OS.out(0, l.state);"), ("", "l.state = 1;"), ("", "l.hs_t h = {}; OS.out(0, h.z);"), ("", "l.ha_t h = 1; OS.out(0, h);"),
    ("", "OS.out(0, sizeof(l.hs_t));"), ("", "OS.out(0, sizeof(l.ha_t));"), ("int g = l.HE;", "OS.out(0, g);"), ("enum { Q = l.HE }", "OS.out(0, Q);"), ("typedef { l.hs_t h; } t_t;", "t_t x = {}; OS.out(0, sizeof(x));"),
    ("typedef { l.hs_t *h; } t_t;", "t_t x = {}; OS.out(0, sizeof(x));"), ("typedef l.hs_t al_t;", "OS.out(0, sizeof(al_t));"), ("int f(l.hs_t *p) { return p == NULL; }", "OS.out(0, f(NULL));"), ("l.hs_t *f() { return NULL; }", "OS.out(0, f() == NULL);"),
    ("l.ha_t g = 1;", "OS.out(0, g);"), ("int f(int v) { switch (v) { case l.HE: { return 1; } default: { return 2; } } }", "OS.out(0, f(1));"), ("", "void *v = NULL; l.hs_t *p = (l.hs_t *) v; OS.out(0, p == NULL);"), ("", "OS.out(0, (l.ha_t) 2);"),
    ("", "int a[l.HE] = {}; OS.out(0, a[0]);"), ("", "l.pf_t *f = l.hfn; OS.out(0, f(1));"), ("l.pf_t *tab[] = { l.hfn };", "OS.out(0, tab[0](1));"), ("", "OS.out(0, l.nothing);"), ("", "OS.out(0, l.nothing(1));"), ("", "l.nothing_t x = {}; OS.out(0, x);"),
    ("", "l.nothing(); "), ("", "int x[] = { [l.HE] = 1 }; OS.out(0, x[0]);"), ("", "for (int i = l.HE; i < 3; i++) { OS.out(0, i); }"), ("", "while (l.state) { OS.out(0, 1); }"), ("", "OS.out(0, -l.state);"), ("", "l.state++;"), ("", "OS.out(0, l.pfn(l.HE));"),
    ("", "return l.HE;"), ("typedef int cb_t(l.hs_t *);", "cb_t *x = NULL; OS.out(0, x == NULL);"), ("typedef { union { l.hs_t a; int b; } u; } t_t;", "t_t x = {}; OS.out(0, sizeof(x));"), ("", "l.ps_t p = { .x = l.HE }; OS.out(0, p.x);"),
    ("", "panic(\"%d\", l.state);"), ("", "switch (l.state) { case 1: { OS.out(0, 1); } default: { OS.out(0, 2); } }"), ("", "l.PS_T p = {}; OS.out(0, p.x);"), ("", "OS.out(0, j.jfn());"), ("", "OS.out(0, j.JE);"), ("", "j.j_t x = {}; OS.out(0, sizeof(x));"),
]


def access(c):
    K = "#import l.c\n#import j.c\npub int next2() { return l.next(); }\npub l.ps_t made() { return l.mk(10, 20 + j.jfn() * 0); }\nl.ps_t kept = {1, 2};\npub l.ps_t *thru() { return &kept; }\n"
    J = "pub enum { JE = 1 }\npub typedef { int q; } j_t;\npub int jfn() { j_t a = { .q = JE }; return a.q; }\n"
    def proj(d, dec, st, main):
        os.makedirs(d, exist_ok=True)
        open(d + "/l.c", "w").write(LIBM % {"seed": 100}); open(d + "/k.c", "w").write(K); open(d + "/j.c", "w").write(J)
        imp = ("#import l.c\n" if "l." in dec + st or "j." in st else "") + ("#import k.c\n" if "k." in st else "")
        open(d + "/" + main, "w").write(imp + "#include <shim.h>\n" + dec + "\nint main() {\n\t" + st.replace("; ", ";\n\t") + ("\n\treturn 0;" if not st.startswith("return") else "") + "\n}\n")
    def good(a):
        i, (dec, st, want) = a
        d = sub("g%d" % i); proj(d, dec, st, "m.c"); err, got = build_run(d, "m.c"); shutil.rmtree(d)
        if err: return "access to public things: %s %s: %s" % (dec, st, err)
        if got != ["0 %d" % w for w in want]: return "access to public things: %s %s: got %s, expected %s" % (dec, st, got, want)
    for i, r in enumerate(pmap(good, list(enumerate(GOOD)))):
        c.count("access", states=1, transitions=len(GOOD[i][2]), traces=1)
        if r: c.violation(r, r)
    jobs = []
    for i, (dec, st) in enumerate(BAD):
        d = sub("b%d" % i); proj(d, dec, st, "m.c"); jobs.append((d, [che(), "genc", "m.c", "gen"]))
    for (dec, st), r, (d, _) in zip(BAD, multirun(jobs), jobs):
        c.count("refusals", states=1, transitions=1, traces=1)
        if r.rc == 0: c.violation("a private or missing name of another module is accepted: %s %s" % (dec, st), "%s\n%s" % (dec, st))
        elif r.rc != 1 or not (r.err + r.out).strip() or "panicked" in r.err: c.violation("a private name isn't refused with a message: %s %s: rc=%s %s" % (dec, st, r.rc, r.err[:200]), "%s\n%s" % (dec, st))
        elif os.path.isdir(d + "/gen") and os.listdir(d + "/gen"): c.violation("C written for a refused project: %s %s" % (dec, st), "")


# ---------------------------------------------------------------- names that resemble one another; many modules
def near(c):
    """Pairs of names in one module and across modules that share long prefixes, differ in case, in underscores, or in where
    the module's name ends and the identifier begins."""
    pairs = []
    for L in list(range(0, 41)) + [63, 64, 100, 127, 128, 200]:
        pairs.append(("n" + "x" * L + "A", "n" + "x" * L + "B"))
        pairs.append(("A" + "y" * L + "k", "B" + "y" * L + "k"))
    pairs += [("Name", "name"), ("NAME", "Name"), ("nm", "nm2"), ("nm1", "nm12"), ("_a", "a_"), ("a_b", "ab"), ("a__b", "a_b"), ("l_one", "one"), ("a", "l_a"), ("ns", "ns_0"), ("ns0_q", "q"), ("mod1_f", "f"), ("num_t", "num"), ("x", "X"), ("enum_1", "enum1"), ("int_", "int_t1")]
    kinds = ["pubfn", "fn", "var", "pubenum", "enum", "pubstruct", "struct", "pubalias", "alias", "macro", "macroenum"]
    def dec(kind, nm, val):
        if kind == "macroenum": return "#define %s %d\npub enum { e_%s = %s }\n" % (nm, val, nm, nm), "e_" + nm
        if kind == "macro": return "#define %s %d\n" % (nm, val), nm
        return declare(kind, nm, val, 0)
    jobs = [(k1, k2, across) for k1 in kinds for k2 in kinds for across in (0, 1, 2) if k1 == k2 or c.thorough or across == 1]
    def one(a):
        n, (k1, k2, across) = a
        d = sub("near%d" % n)
        A = B = ""; body = []; want = []; i = 0
        isC = lambda k: k == "macro"
        for p, q in pairs:
            i += 1
            p1, q1 = ("MM_" + p if k1.startswith("macro") else p), ("MM_" + q if k2.startswith("macro") else q)
            e1 = dec(k1, p1, 1000 + i); e2 = dec(k2, q1, 3000 + i)
            if p1 in seen_names(A) or q1 in seen_names(B if across else A): continue
            # macros are C's: one name for all modules
            if "macro" in k1 + k2 and (p1 in seen_names(B) or q1 in seen_names(A)): continue
            A += e1[0]; ga = "pub int ga%d() { return %s; }\n" % (i, e1[1]); gb = "pub int gb%d() { return %s; }\n" % (i, e2[1])
            A += ga
            if across: B += e2[0] + gb
            else: A += e2[0] + gb
            mb = "l_a" if across == 1 else "b"
            body.append("a.ga%d()" % i); want.append(1000 + i)
            body.append("%s.gb%d()" % (mb if across else "a", i)); want.append(3000 + i)
            if k1 == "macroenum": body.append("a.e_" + p1); want.append(1000 + i)
            if k2 == "macroenum": body.append("%s.e_%s" % (mb if across else "a", q1)); want.append(3000 + i)
            if k1 in PUB: body.append(remote(k1, "a", p1)); want.append(1000 + i)
            if k2 in PUB: body.append(remote(k2, mb if across else "a", q1)); want.append(3000 + i)
        mb = "l_a" if across == 1 else "b"
        open(d + "/a.c", "w").write(A)
        if across: open(d + "/%s.c" % mb, "w").write(B)
        open(d + "/m.c", "w").write("#import a.c\n" + ("#import %s.c\n" % mb if across else "") + "#include <shim.h>\nint main() {\n" + "".join("\tOS.out(%d, %s);\n" % (j, e) for j, e in enumerate(body)) + "\treturn 0;\n}\n")
        err, got = build_run(d, "m.c"); shutil.rmtree(d)
        what = "similar names declared as %s and %s%s" % (k1, k2, " in two modules" if across else "")
        if err: return what + ": " + err, len(want)
        for j, (g, w) in enumerate(itertools.zip_longest(got, ["%d %d" % (j, w) for j, w in enumerate(want)])):
            if g != w: return "%s: %s gives %s, expected %s" % (what, body[j] if j < len(body) else "?", g, w), len(want)
        return None, len(want)
    for j, (v, n) in zip(jobs, pmap(one, list(enumerate(jobs)))):
        c.count("similar names", states=len(pairs), transitions=n, traces=len(pairs))
        if v: c.violation(v, str(j))
    c.sample("similar names: pairs sharing up to 200 characters, differing in case or underscores, kinds crossed, one and two modules")


def seen_names(t):
    import re
    return set(re.findall(r"\w+", t))


def many(c):
    """1..40 modules in a chain, a fan and a binary tree, all with the same names inside; up to 200 things per module."""
    jobs = [(sh, n, m) for sh in ("chain", "fan", "tree", "net", "one name") for n in list(range(1, 14)) + [20, 40] for m in (1,)]
    jobs += [("fan", 3, m) for m in (50, 101, 200, 300)]
    def one(a):
        k, (sh, n, m) = a
        d = sub("many%d" % k)
        def imports(i):
            if sh in ("chain", "one name"): return [i + 1] if i + 1 <= n else []
            if sh == "fan": return list(range(1, n + 1)) if i == 0 else []
            if sh == "tree": return [j for j in (2 * i + 1, 2 * i + 2) if j <= n]
            return [j for j in range(i + 1, min(n, i + 4) + 1)]
        want = []
        same = sh == "one name"
        for i in range(n + 1):
            t = "".join("#import %s\n" % ("../d%d/q.c" % j if same else "q%d.c" % j) for j in imports(i))
            for x in range(m):
                t += "int state%d = %d;\nenum { E%d = %d }\npub typedef { char c[%d]; } t%d_t;\npub int get%d() { return state%d * 1000 + E%d + (int) sizeof(t%d_t); }\npub void bump%d() { state%d++; }\n" % (x, i, x, x, i + x + 1, x, x, x, x, x, x, x)
            t += "pub int total(int depth) { if (depth == 0) return state0; return 0%s; }\n" % "".join(" + q%d.total(depth - 1)" % j for j in imports(i))
            if i == 0:
                b = ""
                st = [0] * (n + 1)
                for x in range(m):
                    b += "\tOS.out(%d, get%d());\n" % (x, x); want.append((x, 0 * 1000 + x + x + 1))
                    for j in imports(0):
                        b += "\tOS.out(%d, q%d.get%d());\n" % (x, j, x); want.append((x, j * 1000 + x + j + x + 1))
                        b += "\tOS.out(%d, sizeof(q%d.t%d_t));\n" % (x, j, x); want.append((x, j + x + 1))
                for j in imports(0):
                    b += "\tq%d.bump0();\n\tOS.out(7, q%d.get0());\n" % (j, j); st[j] += 1; want.append((7, (j + 1) * 1000 + j + 1))
                val = [i2 + st[i2] for i2 in range(n + 1)]
                def tot(i2, dp): return val[i2] if dp == 0 else sum(tot(j, dp - 1) for j in imports(i2))
                for dp in range(0, min(n, 5) + 1):
                    b += "\tOS.out(8, total(%d));\n" % dp; want.append((8, tot(0, dp)))
                b += "".join("\tbump%d();\n" % x for x in range(m))
                t += "#include <shim.h>\nint main() {\n%s\treturn 0;\n}\n" % b
            if same:
                t = __import__("re").sub(r"\bq\d+\.(?!c\b)", "q.", t)
                os.makedirs(d + "/d%d" % i, exist_ok=True)
            open(d + ("/d%d/q.c" if same else "/q%d.c") % i, "w").write(t)
        err, got = build_run(d, "d0/q.c" if same else "q0.c"); shutil.rmtree(d)
        what = "%d modules (%s) with %d names each" % (n + 1, sh, m)
        if err: return what + ": " + err, len(want)
        for g, w in itertools.zip_longest(got, ["%d %d" % w for w in want]):
            if g != w: return "%s: got %s, expected %s" % (what, g, w), len(want)
        return None, len(want)
    for j, (v, n) in zip(jobs, pmap(one, list(enumerate(jobs)))):
        c.count("many modules", states=j[1], transitions=n, traces=1)
        if v: c.violation(v, str(j))


def body(c):
    names(c)
    access(c)
    near(c)
    many(c)


if __name__ == "__main__":
    main("C05", body, ["modules imported by one module have different base names; #define macros are C's and reach importers",
                       "private types in public signatures are outside the claim"])
