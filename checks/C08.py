"""C08: static errors are found wherever they hide and reported where they are.

Every kind of mistake che promises to find is put into every expression,
statement and block context, under several layouts, in the main and in an
imported module; scoping and use are decided for every sequence of
declarations, uses and blocks up to a length against a lexical model; missing
returns for every function body up to a size against a control flow model;
operand types for every operator and pair of types against the rules of the
language."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

MARK = "\u00ab"
ERR = re.compile(r"^(\S+?):(\d+):(\d+): (.+)$", re.M)


def locate(text):
    i = text.index(MARK)
    pre = text[:i]
    return text.replace(MARK, ""), pre.count("\n") + 1, i - (pre.rfind("\n") + 1) + 1


class Job:
    __slots__ = ("files", "what", "want", "key")

    def __init__(self, files, what, want, key=None):
        # want: None = accepted; else dict(file, lines=set or None, col=None or int, re=regex or None)
        self.files, self.what, self.want, self.key = files, what, want, key


def execute(c, part, jobs, compile_ok=False):
    """Gives every job to the real che."""
    for base in range(0, len(jobs), 4000):
        chunk = jobs[base:base + 4000]
        top = sub("c08_%s_%d" % (part.replace(" ", ""), base))
        cmds = []
        for i, j in enumerate(chunk):
            d = "%s/p%d" % (top, i)
            os.makedirs(d)
            for f, t in j.files.items():
                with open(d + "/" + f, "w") as fh: fh.write(t)
            cmds.append((d, [che(), "genc", "main.c", "out"]))
        oks = []
        for i, (j, r) in enumerate(zip(chunk, multirun(cmds, extra_env={"CHELANG_HOME": home()}))):
            d = "%s/p%d" % (top, i)
            c.count(part, states=1, transitions=1, traces=1)
            rep = "\n".join("--- %s\n%s" % x for x in j.files.items()) + "\nche genc: rc=%s\n%s%s" % (r.rc, r.err, r.out)
            if r.rc not in (0, 1):
                c.violation("%s: %s: che ended with %s" % (part, j.what, r.rc), rep); continue
            wrote = os.path.isdir(d + "/out") and any(f.endswith(".c") for f in os.listdir(d + "/out"))
            if j.want is None:
                if r.rc != 0: c.violation("%s: %s: refused: %s" % (part, j.what, r.err.strip()[:200]), rep)
                elif compile_ok: oks.append((j, d, rep))
                continue
            if r.rc == 0:
                c.violation("%s: %s: accepted" % (part, j.what), rep); continue
            if wrote: c.violation("%s: %s: C files were written in spite of the error" % (part, j.what), rep)
            m = ERR.search(r.err + "\n" + r.out)
            w = j.want
            if w.get("any"): continue
            if not m: c.violation("%s: %s: no position in the message: %s" % (part, j.what, r.err.strip()[:200]), rep); continue
            if os.path.basename(m.group(1)) != w["file"]: c.violation("%s: %s: reported in %s, is in %s" % (part, j.what, m.group(1), w["file"]), rep); continue
            if w.get("lines") and int(m.group(2)) not in w["lines"]:
                c.violation("%s: %s: reported at line %s, is at %s" % (part, j.what, m.group(2), sorted(w["lines"])), rep); continue
            if w.get("col") and int(m.group(3)) != w["col"]:
                c.violation("%s: %s: reported at column %s, is at %s" % (part, j.what, m.group(3), w["col"]), rep); continue
            if w.get("re") and not re.search(w["re"], m.group(4)):
                c.violation("%s: %s: unexpected message: %s" % (part, j.what, m.group(4)), rep)
        if oks:
            def cc(x):
                j, d, rep = x
                fs = sorted(d + "/out/" + f for f in os.listdir(d + "/out") if f.endswith(".c"))
                q = run(["gcc", "-std=c99", "-Wall", "-Wextra", "-Werror", "-Wno-parentheses", "-pedantic-errors", "-fsyntax-only"] + fs, timeout=60)
                return None if q.rc == 0 else q.err
            for x, e in zip(oks, pmap(cc, oks)):
                if e: c.violation("%s: %s: accepted, but the C compiler refuses the result: %s" % (part, x[0].what, e.strip()[:300]), x[2])
        shutil.rmtree(top)


# ---------------------------------------------------------------- errors in contexts
HEAD = """typedef { int x; int *p; } st_t;
int id(int a) { return a; }
int var(int a, ...) { return a; }
enum { K1 = 1, K2 }
"""
FUNC = """int probe(int n) {
	bool b = n > K1;
	int arr[4] = {1, 2, 3, K2};
	st_t s = { .x = n };
	st_t *q = &s;
	int *ip = &n;
	double d = 1.5;
	char ch = 'a';
	const char *str = "s";
%s
	printf("%%d %%d %%d %%d %%f %%c %%s", b, arr[0], q->x, *ip, d, ch, str);
	return var(n) + id(n);
}
"""
TAIL = "int main() { return probe(1); }\n"

EXPRCTX = ["@", "(@)", "-@", "!@", "~@", "@ + 1", "n - @", "@ * n", "n %% @", "@ == 1", "1 < @", "@ && b", "b || @", "id(@)", "id(id(@))", "var(1, n, @)", "var(@, 2)", "printf(\"%d\", @)", "arr[@]", "(int) @",
           "sizeof(n + @)", "q->p[@]", "OS.abs(@)", "@ | 1", "n ^ @", "@ << 2", "@ >= n", "@ != 2", "nelem(arr) + @" if False else "2 / @", "*ip + @", "s.x - @", "((int) @) + 1"]
EXPRCTX = [x.replace("%%", "%") for x in EXPRCTX]
STCTX = ["@;", "n = @;", "n += @;", "int v = @; n += v;", "if (@) { n++; }", "if (b) { n = @; }", "if (b) { n++; } else { n = @; }", "if (b) n = @;", "if (b) n++; else n = @;", "if (b) { n++; } else if (@) { n--; }", "while (@) { n++; }",
         "while (b) { n = @; }", "while (b) n = @;", "for (int i = @; i < 3; i++) { n++; }", "for (int i = 0; i < @; i++) { n++; }", "for (int i = 0; i < 3; i += @) { n++; }", "for (int i = 0; i < 3; i++) { n = @; }", "for (n = @; n < 3; n++) { id(n); }",
         "return @;", "switch (@) { case 1: { n++; } }", "switch (n) { case 1: { n = @; } }", "switch (n) { case 1: { n++; } default: { n = @; } }", "switch str (str) { case \"x\": { n = @; } }", "switch str (str) { case \"x\": { n++; } default: { n = @; } }",
         "int v[2] = {1, @}; n += v[0];", "st_t v = { .x = @ }; n += v.x;", "int v[] = { [K1] = @ }; n += v[0];", "int v[@] = {}; n += v[0];", "panic(\"%d\", @);", "arr[@] = 1;", "q->x = @;", "*ip = @;", "int *v = calloc!(1, @); free(v);",
         "if (b) { while (n) { for (int i = 0; i < 3; i++) { n = @; } } }"]
# (fragment, regex, column known, kinds of contexts where the fragment isn't an int)
EXPRERR = [
    (MARK + "nope", "nope", 1), ("id(" + MARK + "nope)", "nope", 1), (MARK + "nope(1)", "nope", 1), (MARK + "nope[0]", "nope", 1), (MARK + "nope->x", "nope", 1), (MARK + "nope.x", "nope", 1), ("arr[" + MARK + "nope]", "nope", 1),
    ("id" + MARK + "()", "1", 0), ("id" + MARK + "(1, 2)", "1", 0), ("var" + MARK + "()", "1", 0), ("strcmp" + MARK + "(str)", "2", 0), ("toupper" + MARK + "(1, 2)", "1", 0), ("n" + MARK + "(1)", "", 0), ("K1" + MARK + "(1)", "", 0), ("str" + MARK + "(1)", "", 0),
    (MARK + "*n", "", 0), ("*" + MARK + "*ip", "", 0), (MARK + "*K1", "", 0), ("(int) " + MARK + "*s.x", "", 0), ("id(" + MARK + "ip * 2)", "", 0), ("id(str " + MARK + "+ str)", "", 0), ("id(ip " + MARK + "== n)", "", 0), ("id(b " + MARK + "+ 1)", "", 0), ("id(d " + MARK + "&& b)", "", 0), ("id(b " + MARK + "|| ch)", "", 0), ("id(s " + MARK + "< 1)", "", 0),
    ("(" + MARK + "nope_t) n", "", 0), ("sizeof(" + MARK + "nope)", "nope", 1), ("(" + MARK + "nope_t *) ip == NULL", "", 0),
]
LAYOUT = ["", "\n\n", "// \u00e9\u00e8 comment \"\n", "/* two\nlines */ ", "\t\t", "#define ZZ1 1\n"]


def contexts(c):
    jobs = []
    full = c.thorough
    def program(st, layout, imported):
        body = HEAD + FUNC % st + ("int zz() { return ZZ1; }\nint zz2() { return zz2() + zz(); }\n" if "ZZ1" in layout else "")
        text = layout + body
        if imported:
            t = text.replace("int probe(", "pub int probe(")
            return t, "mod.c"
        return text + TAIL, "main.c"
    def add(st, what, rx, col, layout, imported):
        text, f = program(st, layout, imported)
        text, line, column = locate(text)
        files = {f: text}
        if imported: files["main.c"] = "#import mod.c\nint main() { return mod.probe(1); }\n"
        jobs.append(Job(files, what, dict(file=f, lines={line}, col=column if col else None, re=rx or None)))
    for si, st in enumerate(STCTX):
        for ei, (e, rx, col) in enumerate(EXPRERR):
            for xi, x in enumerate(EXPRCTX):
                if "i < @" in st and x == "b || @": continue
                if not full and x != "@" and (si + ei + xi) % 4: continue
                frag = e
                if x != "@" and ("==" in e or e.startswith("(")) : frag = "(" + e + ")"
                if x == "@" and st == "@;" and (e.startswith("(") or e.startswith(MARK + "*")): continue
                if x.startswith("-") and "sizeof" in e: continue
                s = "\t" + st.replace("@", x.replace("@", frag))
                lay = LAYOUT[(si + ei + xi) % len(LAYOUT)]
                add(s, "%s in %s" % (e.replace(MARK, ""), st.replace("@", x)), rx, col, lay, (si + xi) % 2 == 1)
    execute(c, "errors in contexts", jobs)
    c.sample("errors in contexts: " + jobs[len(jobs) // 2].what)

    # statement level errors in every block
    BLOCKS = ["@", "if (b) {\n@\n}", "if (b) {\nn++;\n} else {\n@\n}", "while (b) {\n@\n}", "for (int i = 0; i < n; i++) {\n@\n}", "switch (n) {\ncase 1: {\n@\n}\n}", "switch (n) {\ncase 1: {\nn++;\n}\ndefault: {\n@\n}\n}", "switch str (str) {\ncase \"a\", \"b\": {\n@\n}\n}",
              "switch str (str) {\ncase \"a\": {\nn++;\n}\ncase \"c\": {\n@\n}\ndefault: {\nn--;\n}\n}", "switch str (str) {\ncase \"a\": {\nn++;\n}\ndefault: {\n@\n}\n}", "switch (n) {\ncase 1: {\nn++;\n}\ncase K2, 7: {\n@\n}\n}", "if (b) {\nn++;\n} else if (n) {\n@\n}"]
    STERR = [("int %sz = 1;", "z is unused", 1), ("const char *%sz = \"\";", "z is unused", 0), ("int *%sz;", "z is unused", 0), ("int %sz[3] = {};", "z is unused", 1), ("st_t %sz = {};", "z is unused", 1),
             ("int z = 1;\nint %sz = 2;\nn += z;", "z", 1), ("int z = 1;\nn += z;\nchar *%sz = NULL;\nfree(z);", "z", 0), ("%snope_t z = {};\nid(z);", None, 0), ("%snope_t *z = NULL;\nfree(z);", "nope_t", 1), ("const %snope_t *z = NULL;\nif (z) { n++; }", "nope_t", 1),
             ("for (int %sj = 0; n < 3; n++) {\nn++;\n}", "j is unused", 1), ("for (int j = 0; j < 3; j++) {\nint %sj2 = 1;\n}", "j2 is unused", 1), ("for (int j = 0; j < 3; j++) {\nn++;\n}\nn += %sj;", "j", 1), ("if (n) {\nint z = 1;\nn += z;\n}\nn += %sz;", "z", 1),
             ("n += %sz;\nint z = 1;\nn += z;", "z", 1), ("while (%sd) {\nn++;\n}", "condition", 0), ("while (%ss) {\nn++;\n}", "condition", 0), ("while (%sch) {\nn++;\n}", "condition", 0), ("for (int j = 0; %sd; j++) {\nn++;\n}", "condition", 0), ("for (int j = 0; %sarr; j++) {\nn++;\n}", "condition", 0),
             ("switch (n) {\ncase %snope: {\nn++;\n}\n}", "nope", 1), ("switch (n) {\ncase 1, %snope: {\nn++;\n}\n}", "nope", 1), ("switch str (str) {\ncase \"a\", %snope: {\nn++;\n}\n}", "nope", 1), ("switch str (%snope) {\ncase \"a\": {\nn++;\n}\n}", "nope", 1), ("%snope();", "nope", 1), ("panic(%snope);", "nope", 1), ("panic(\"%%d\", %snope);", "nope", 1)]
    jobs = []
    for (bi, b), (bj, b2) in itertools.product(enumerate(BLOCKS), repeat=2):
        for ei, (e, rx, col) in enumerate(STERR):
            if not c.thorough and bi and bj and (bi + bj + ei) % 3: continue
            outer = b.replace("@", b2.replace("@", e.replace("%s", MARK).replace("%%", "%")).replace("int i", "int k").replace("i < n", "k < n").replace("i++", "k++") if bi == 4 else b2.replace("@", e.replace("%s", MARK).replace("%%", "%")))
            text, f = program(outer, LAYOUT[(bi + bj + ei) % len(LAYOUT)], (bi + ei) % 2 == 1)
            text, line, column = locate(text)
            files = {f: text}
            if f == "mod.c": files["main.c"] = "#import mod.c\nint main() { return mod.probe(1); }\n"
            jobs.append(Job(files, "%r inside %r" % (e, b.replace("@", b2)), dict(file=f, lines={line}, col=column if col else None, re=rx, any=rx is None)))
    execute(c, "errors in blocks", jobs)
    # the same texts without the mistake are accepted
    jobs = []
    for si, st in enumerate(STCTX):
        for xi, x in enumerate(EXPRCTX):
            if st == "@;" and x != "@" and not re.match(r"^\w+\(", x): continue
            if st == "panic(\"%d\", @);": continue
            for g in ["id(n)", "n"]:
                if st == "@;" and g == "n": continue
                if "i < @" in st and x in ("!@", "@ == 1", "1 < @", "b || @", "@ && b", "sizeof(n + @)", "@ | 1", "n ^ @", "@ >= n", "@ != 2"): continue
                if "v[@]" in st: continue
                if x.startswith("(") and st == "@;": continue
                t, f = program("\t" + st.replace("@", x.replace("@", g)), LAYOUT[(si + xi) % len(LAYOUT)], si % 2 == 1)
                files = {f: t}
                if f == "mod.c": files["main.c"] = "#import mod.c\nint main() { return mod.probe(1); }\n"
                jobs.append(Job(files, "%s in %s" % (g, st.replace("@", x)), None))
    for b in BLOCKS:
        for g in ["int z = 1; n += z;", "int n = 2; id(n);", "st_t *z = NULL; free(z);", "for (int j = 0; j < 3; j++) { n++; }\nfor (int j = 0; j < 3; j++) { n++; }", "if (n) { int z = 1; n += z; }\nint z = 2; n += z;", "while (ip) { n++; }", "while (n) { n++; }", "while (b) { n++; }", "for (;;) { n++; break; }", "while (true) { n++; break; }"]:
            t, f = program(b.replace("@", g), "", False)
            jobs.append(Job({f: t}, "%r inside %r" % (g, b), None))
    execute(c, "correct texts", jobs)


# ---------------------------------------------------------------- module level
def modlevel(c):
    jobs = []
    def bad(text, what, rx=None, col=1, extra=None, file="main.c"):
        for li, lay in enumerate(LAYOUT[:5]):
            t, line, column = locate(lay + text)
            files = {file: t}
            if extra: files.update(extra)
            jobs.append(Job(files, what, dict(file=file, lines={line}, col=column if col else None, re=rx)))
    def ok(text, what, extra=None):
        files = {"main.c": text}
        if extra: files.update(extra)
        jobs.append(Job(files, what, None))
    M = "int main() {\n\treturn %s;\n}\n"
    DECL = {"function": ("%sint thing() { return 1; }\n", "thing()"), "function with parameters": ("%sint thing(int a, char *b) { return a + (int) b[0]; }\n", "thing(1, \"\")"), "pointer function": ("%schar *thing() { return NULL; }\n", "thing() == NULL"),
            "variable": ("%sint thing = 1;\n", "thing"), "array": ("%sint thing[] = {1, 2};\n", "thing[0]"), "constant": ("enum { %sthing = 4 }\n", "thing"), "second constant": ("enum { %sother, thing }\n", "other + thing"), "define": ("%s#define thing 4\n", "thing"), "void function": ("%svoid thing() { puts(\"\"); }\n", None)}
    for k, (d, use) in DECL.items():
        col = 0
        bad(d % MARK + M % "0", "unused " + k, "unused", col)
        bad(M % "0" + d % MARK, "unused " + k + " at the end", "unused", col) if k != "define" else None
        # used only through something else of the same name
        if use:
            ok(d % "" + M % use, "used " + k)
            ok(M % use + d % "", "used before its place: " + k) if k != "define" else None
            if k not in ("define",):
                for sh in ["\tint thing = 2;\n\treturn thing;\n", "\tfor (int thing = 0; thing < 3; thing++) { putchar(thing); }\n\treturn 0;\n"]:
                    bad(d % MARK + "int main() {\n" + sh + "}\n", "%s hidden by a local one" % k, "unused", 0)
                bad(d % MARK + "int use(int thing) { return thing; }\n" + M % "use(1)", "%s hidden by a parameter" % k, "unused", 0)
            ok(d % "" + "int main() {\n\tif (%s) {\n\t\tint thing = 1;\n\t\treturn thing;\n\t}\n\treturn 1;\n}\n" % use, "%s used and hidden" % k)
        if k not in ("define", "second constant"):
            p = "pub " + d % ""
            if "variable" not in k and "array" not in k: ok(p + M % "0", "public %s without uses" % k)
        # repeated
        for k2, (d2, use2) in DECL.items():
            if use and use2 and k != "second constant" and k2 != "second constant":
                bad(d % "" + "int sep() { return 0; }\n" + d2 % MARK + M % ("sep() + (%s)" % use), "%s and %s of one name" % (k, k2), "thing", 0)
    for pub in ("", "pub "):
        bad("%sint f(int %sa) { return 1; }\n" % (pub, MARK) + M % "f(1)", "unused parameter", "a is unused")
        bad("%sint f(int a, char *%sb) { return a; }\n" % (pub, MARK) + M % "f(1, NULL)", "unused second parameter", "b is unused", 0)
        bad("%sint f(int a, %sb) { return a; }\n" % (pub, MARK) + M % "f(1, 2)", "unused parameter of a list", "b is unused")
        bad("%sint f(int a, %sa) { return a; }\n" % (pub, MARK) + M % "f(1, 2)", "repeated parameter", "a")
        bad("%sint f(int a, char *%sa) { return a == NULL; }\n" % (pub, MARK) + M % "f(1, 2)", "repeated parameter", "a", 0)
        bad("%sint f(%snope_t a) { return a; }\n" % (pub, MARK) + M % "f(1)", "unknown parameter type", "nope_t")
        bad("%s%snope_t f() { return 1; }\n" % (pub, MARK) + M % "f()", "unknown return type", "nope_t")
        bad("%s%snope_t *f() { return NULL; }\n" % (pub, MARK) + M % "f() == NULL", "unknown return type", "nope_t")
        bad("%stypedef { %snope_t a; } t_t;\n" % (pub, MARK) + M % "(int) sizeof(t_t)", "unknown field type", "nope_t")
        bad("%stypedef { int b; %snope_t *a; } t_t;\n" % (pub, MARK) + M % "(int) sizeof(t_t)", "unknown field type", "nope_t")
        bad("%stypedef { union { int b; %snope_t a; } u; } t_t;\n" % (pub, MARK) + M % "(int) sizeof(t_t)", "unknown union field type", "nope_t")
        bad("%stypedef %snope_t t_t;\n" % (pub, MARK) + M % "(int) sizeof(t_t *)", "unknown aliased type", "nope_t")
        bad("%stypedef int t_t(%snope_t *);\n" % (pub, MARK) + "t_t *x = NULL;\n" + M % "x == NULL", "unknown type in a function type", "nope_t")
        bad("%senum { A = %snope }\n" % (pub, MARK) + M % "A", "undefined name in a constant", "nope")
        bad("%stypedef { int a[%snope]; } t_t;\n" % (pub, MARK) + M % "(int) sizeof(t_t)", "undefined name in a field size", "nope")
    bad("%snope_t x = {};\n" % MARK + M % "x", "unknown variable type", "nope_t")
    bad("int x = %snope;\n" % MARK + M % "x", "undefined name in an initialiser", "nope")
    bad("int x[] = { 1, %snope };\n" % MARK + M % "x[0]", "undefined name in an initialiser", "nope")
    bad("int x[%snope] = { 1 };\n" % MARK + M % "x[0]", "undefined name in a size", "nope")
    bad("int x[] = { [%snope] = 1 };\n" % MARK + M % "x[0]", "undefined name in an index", "nope")
    bad("int f() { return %sloc; }\nint main() {\n\tint loc = 1;\n\treturn loc + f();\n}\n" % MARK, "a local name of another function", "loc")
    bad("int f(int par) { return par; }\nint main() {\n\treturn f(1) + %spar;\n}\n" % MARK, "a parameter of another function", "par")
    L = {"l.c": "pub enum { LE = 1 }\npub typedef { int x; } l_t;\npub int lf(int a) { return a; }\n"}
    for lay in LAYOUT[:5]:
        jobs.append(Job(dict(L, **{"main.c": lay + "#import l.c\nint main() { return 0; }\n"}), "unused import", dict(file="main.c", lines=None, re="unused import.*l")))
        jobs.append(Job(dict(L, **{"main.c": lay + "#import l.c\n#import strings\nint main() { return l.LE; }\n"}), "unused import of two", dict(file="main.c", lines=None, re="unused import.*strings")))
        jobs.append(Job(dict(L, **{"main.c": lay + "#import m.c\nint main() { return m.f(); }\n", "m.c": "#import l.c\npub int f() { return 1; }\n"}), "unused import in a module", dict(file="m.c", lines=None, re="unused import.*l")))
    for use in ["return l.LE;", "return l.lf(1);", "l.l_t x = {}; return x.x;", "return (int) sizeof(l.l_t);", "void *p = NULL; return (l.l_t *) p == NULL;", "int a[l.LE] = {}; return a[0];", "switch (1) { case l.LE: { return 1; } } return 0;"]:
        ok("#import l.c\nint main() { %s }\n" % use.replace("; ", ";\n"), "import used: " + use, L)
    ok("#import l.c\ntypedef { l.l_t *x; } t_t;\nint main() { t_t x = {}; return x.x == NULL; }\n", "import used in a field", L)
    ok("#import l.c\nint main() { return f(NULL); }\nint f(l.l_t *x) { return x == NULL; }\n", "import used in a parameter", L)
    bad("#import l.c\n" + M % ("l.lf%s()" % MARK), "call of an imported function without arguments", None, 0, L)
    bad("#import l.c\n" + M % ("l.lf%s(1, 2)" % MARK), "call of an imported function with too many arguments", None, 0, L)
    bad("#import l.c\n" + M % ("l.LE%s(1)" % MARK), "call of an imported constant", None, 0, L)
    bad("pub int %sx = 1;\n" % MARK + M % "x", "public variable", None, 0)
    # argument counts: functions of n parameters called with m arguments, directly and through pointers
    for n in range(5):
        for ell in (0, 1):
            if n == 0 and ell: continue
            ps = ", ".join("int p%d" % i for i in range(n)) + (", ..." if ell else "")
            f = "int f(%s) { return 0%s; }\n" % (ps, "".join(" + p%d" % i for i in range(n)))
            td = "typedef int f_t(%s);\n" % (", ".join(["int"] * n) + (", ..." if ell else ""))
            for m in range(7):
                args = ", ".join(str(i) for i in range(m))
                good = m >= n if ell else m == n
                for how, text in [("direct", f + M % ("f" + MARK + "(%s)" % args)), ("pointer", f + td + "int main() {\n\tf_t *q = &f;\n\treturn q%s(%s);\n}\n" % (MARK, args)), ("pointer parameter", f + td + "int ap(f_t *q) { return q%s(%s); }\n" % (MARK, args) + M % "ap(f)"),
                                  ("pointer variable", f + td + "f_t *gq = &f;\n" + M % ("gq%s(%s)" % (MARK, args)))]:
                    if good: ok(text.replace(MARK, ""), "%s call, %d%s parameters, %d arguments" % (how, n, "+" if ell else "", m))
                    else: bad(text, "%s call, %d%s parameters, %d arguments" % (how, n, "+" if ell else "", m), None, 0)
    for name, n, ell in [("strlen", 1, 0), ("strcmp", 2, 0), ("strncmp", 3, 0), ("memcpy", 3, 0), ("printf", 1, 1), ("fprintf", 2, 1), ("free", 1, 0), ("calloc", 2, 0), ("realloc", 2, 0), ("getchar", 0, 0), ("exit", 1, 0), ("fopen", 2, 0), ("fread", 4, 0), ("snprintf", 3, 1), ("isdigit", 1, 0), ("sqrt", 1, 0), ("pow", 2, 0), ("strchr", 2, 0), ("fputc", 2, 0), ("puts", 1, 0), ("calloc!", 2, 0)]:
        for m in range(6):
            t = "int main() {\n\tvoid *v = NULL;\n\t%s%s(%s);\n\treturn v == NULL;\n}\n" % (name, MARK, ", ".join(["v"] * m))
            if (m >= n if ell else m == n): ok(t.replace(MARK, ""), "%s with %d arguments" % (name, m))
            else: bad(t, "%s with %d arguments" % (name, m), None, 0)
    execute(c, "module level", jobs)
    c.sample("module level: a private constant whose only use is hidden by a parameter of the same name")


# ---------------------------------------------------------------- scopes
def scopes(c):
    """All sequences of declare / use / open / close over one name, under every
    kind of block, with the name also being a parameter, a variable of the
    module or nothing."""
    N = 10 if c.thorough else 8
    seqs = []
    def gen(s, depth):
        if depth == 0 and s: seqs.append(s)
        if len(s) + depth >= N: return
        for e in "du":
            if len(s) + depth + 1 <= N: gen(s + e, depth)
        if len(s) + depth + 2 <= N and depth < 3: gen(s + "(", depth + 1)
        if depth and s[-1] != "(" : gen(s + ")", depth - 1)
    gen("", 0)
    seqs = sorted(set(s for s in seqs if "()" not in s))
    OPEN = ["if (b) {", "while (b) {", "for (int k%d = 0; k%d < 3; k%d++) {", "switch (n) { case 1: {", "if (b) { n++; } else {", "switch (n) { case 1: { n++; } default: {", "switch str (\"\") { case \"q\": {", "for (;;) {"]
    CLOSE = ["}", "}", "}", "} }", "}", "} }", "} }", "}"]
    outer = ["", "param", "var", "fn"]
    jobs = []
    for qi, s in enumerate(seqs):
        for oi, o in enumerate(outer):
            if not c.thorough and len(s) >= N - 1 and (qi + oi) % 4: continue
            if o == "param" and re.sub(r"\([^()]*\)", "", re.sub(r"\([^()]*\)", "", re.sub(r"\([^()]*\)", "", s))).count("d"): continue  # left open
            lines = []; env = []  # scopes: dict name -> [line, used]
            bad = {}
            head = {"": "int probe(bool b, int n) {", "param": "int probe(bool b, int n, int x) {", "var": "int x = 3;\nint probe(bool b, int n) {", "fn": "int x() { return 1; }\nint probe(bool b, int n) {"}[o]
            lines = head.split("\n")
            modsc = {}; par = {}
            if o in ("var", "fn"): modsc["x"] = [1, False]
            if o == "param": par["x"] = [len(lines), False]
            env = [modsc, par, {}]
            stack = []; nb = qi
            for e in s:
                ln = len(lines) + 1
                if e == "d":
                    lines.append("int x = %d;" % ln)
                    if "x" in env[-1]: bad.setdefault(ln, "already defined"); break
                    env[-1]["x"] = [ln, False]
                elif e == "u":
                    for sc in reversed(env):
                        if "x" in sc: sc["x"][1] = True; lines.append("n += (int) sizeof(x);" if sc is modsc and o == "fn" else "n += x;"); break
                    else:
                        lines.append("n += x;"); bad.setdefault(ln, "undefined"); break
                elif e == "(":
                    k = nb % len(OPEN); nb = nb * 3 + 1
                    if OPEN[k].startswith("for (int"): lines.append(OPEN[k].replace("%d", str(ln)))
                    else: lines.append(OPEN[k])
                    stack.append(k); env.append({})
                else:
                    sc = env.pop()
                    if "x" in sc and not sc["x"][1]: bad[sc["x"][0]] = "unused"; lines.append(CLOSE[stack.pop()]); break
                    lines.append(CLOSE[stack.pop()])
            while stack: lines.append(CLOSE[stack.pop()])
            if not bad:
                for sc in env[::-1]:
                    if "x" in sc and not sc["x"][1]: bad[sc["x"][0]] = "unused"
            lines += ["if (b) { n++; }", "return n;", "}"]
            args = "true, 1" + (", 2" if o == "param" else "")
            lines += ["int main() { return probe(%s); }" % args]
            # later mistakes of a text cut short by an earlier one may be reported instead: collect every wrong line
            want = None
            if bad:
                allbad = set(bad)
                # unfinished scopes at the point of the first mistake
                for sc in env:
                    if "x" in sc and not sc["x"][1]: allbad.add(sc["x"][0])
                want = dict(file="main.c", lines=allbad, re=r"\bx\b")
            jobs.append(Job({"main.c": "\n".join(lines) + "\n"}, "events %s, x also a %s" % (s, o or "nothing"), want))
    # C rules for a parameter and a local of one name differ: the body is a scope of its own in che
    execute(c, "scopes", jobs)
    c.sample("scopes: events d(du)u with x also a parameter; %d sequences" % len(seqs))


# ---------------------------------------------------------------- spellings and numbers of names
def spellings(c):
    """The rules hold whatever a name looks like and however many names there are."""
    NAMES = ["_z", "__z", "z_", "Z", "z9", "z_t", "camelCase", "UPPER_CASE", "_", "_1", "i", "ii", "unused", "unused_z", "ignore", "dummy", "argc", "self", "z" * 31, "z" * 64, "z" * 200, "zmain", "main_", "err", "tmp", "_unused", "str_", "t", "result", "e2", "x0f", "pubz", "intz", "importz", "ret", "nelemz", "OSz"]
    jobs = []
    def bad(text, what, rx):
        t, line, col = locate(text)
        jobs.append(Job({"main.c": t}, what, dict(file="main.c", lines={line}, re=rx)))
    M = "int main() {\n\treturn 0;\n}\n"
    for z in NAMES:
        w = re.escape(z)
        bad("int main() {\n\tint %s%s = 1;\n\treturn 0;\n}\n" % (MARK, z), "unused local " + z[:40], w)
        bad("int main() {\n\tfor (int %s%s = 0;;) {\n\t\tbreak;\n\t}\n\treturn 0;\n}\n" % (MARK, z), "unused loop variable " + z[:40], w)
        bad("int main() {\n\tif (getpid() == 0) {\n\t\tchar *%s%s = NULL;\n\t}\n\treturn 0;\n}\n" % (MARK, z) if False else "int main() {\n\tif (true) {\n\t\tchar %s%s[3] = {};\n\t}\n\treturn 0;\n}\n" % (MARK, z), "unused local in a block " + z[:40], w)
        bad("%sint %s() { return 1; }\n" % (MARK, z) + M, "unused function " + z[:40], w)
        bad("%sint %s = 1;\n" % (MARK, z) + M, "unused variable " + z[:40], w)
        bad("enum { %s%s }\n" % (MARK, z) + M, "unused constant " + z[:40], w)
        bad("int f(int %s%s) { return 1; }\nint main() { return f(1); }\n" % (MARK, z), "unused parameter " + z[:40], w)
        bad("int main() {\n\treturn %s%s;\n}\n" % (MARK, z), "undefined " + z[:40], w)
        bad("int main() {\n\treturn %s%s(1);\n}\n" % (MARK, z), "undefined function " + z[:40], w)
        bad("int main() {\n\tint %s = 1;\n\tint %s%s = 2;\n\treturn %s;\n}\n" % (z, MARK, z, z), "redefined " + z[:40], w)
        bad("int main() {\n\t%s%s v = {};\n\tOS.use(v);\n\treturn 0;\n}\n" % (MARK, z + "_t"), "undefined type " + z[:40], "")
        jobs.append(Job({"main.c": "int main() {\n\tint %s = 1;\n\treturn %s;\n}\n" % (z, z)}, "used local " + z[:40], None))
        jobs.append(Job({"main.c": "int %s(int v) { return v; }\nint main() {\n\treturn %s(1);\n}\n" % (z, z)}, "used function " + z[:40], None))
    # the k-th of n names is the wrong one
    for n in (1, 2, 3, 9, 10, 11, 33, 65, 130):
        for k in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            ds = "".join("\tint %sv%d = %d;\n" % (MARK if i == k else "", i, i) for i in range(n)); us = "".join("\tr += v%d;\n" % i for i in range(n) if i != k)
            bad("int main() {\n\tint r = 0;\n%s%s\treturn r;\n}\n" % (ds, us), "local %d of %d unused" % (k, n), "v%d\\b" % k)
            ds = "".join("%sint f%d() { return %d; }\n" % (MARK if i == k else "", i, i) for i in range(n)); us = "".join("\tr += f%d();\n" % i for i in range(n) if i != k)
            bad("%sint main() {\n\tint r = 0;\n%s\treturn r;\n}\n" % (ds, us), "function %d of %d unused" % (k, n), "f%d\\b" % k)
            ps = ", ".join("int %sp%d" % (MARK if i == k else "", i) for i in range(n)); us = "".join("\tr += p%d;\n" % i for i in range(n) if i != k)
            bad("int f(%s) {\n\tint r = 0;\n%s\treturn r;\n}\nint main() { return f(%s); }\n" % (ps, us, ", ".join("1" for _ in range(n))), "parameter %d of %d unused" % (k, n), "p%d\\b" % k)
            us = "".join("\tr += %s;\n" % (MARK + "nope" if i == k else "r") for i in range(n))
            bad("int main() {\n\tint r = 0;\n%s\treturn r;\n}\n" % us, "statement %d of %d uses an undefined name" % (k, n), "nope")
            us = ", ".join(MARK + "nope" if i == k else "1" for i in range(n))
            bad("int main() {\n\tOS.use(%s);\n\treturn 0;\n}\n" % us, "argument %d of %d undefined" % (k, n), "nope")
            bad("int main() {\n\tint a[] = {%s};\n\treturn a[0];\n}\n" % us, "entry %d of %d undefined" % (k, n), "nope")
            ps = ", ".join("int p%d" % i for i in range(n)); us = "".join("\tr += p%d;\n" % i for i in range(n))
            for m in sorted({k, n + 1, n + 2}):
                bad("int f(%s) {\n\tint r = 0;\n%s\treturn r;\n}\nint main() {\n\treturn f%s(%s);\n}\n" % (ps, us, MARK, ", ".join("1" for _ in range(m))), "%d arguments for %d parameters" % (m, n), "")
                if m < n: bad("int f(%s, ...) {\n\tint r = 0;\n%s\treturn r;\n}\nint main() {\n\treturn f%s(%s);\n}\n" % (ps, us, MARK, ", ".join("1" for _ in range(m))), "%d arguments for %d parameters and more" % (m, n), "")
            for m in (n, n + 1, n + 3):
                jobs.append(Job({"main.c": "int f(%s, ...) {\n\tint r = 0;\n%s\treturn r;\n}\nint main() {\n\treturn f(%s);\n}\n" % (ps, us, ", ".join("1" for _ in range(m)))}, "%d arguments for %d parameters and more" % (m, n), None))
            cs = "".join("\tcase %d: { %s }\n" % (i, "r++;" if i == k else "return 1;") for i in range(n))
            t = "int f(int r) {\n\tswitch (r) {\n%s\tdefault: { return 2; }\n\t}\n}\nint main() { return f(1); }\n" % cs
            jobs.append(Job({"main.c": t}, "case %d of %d doesn't return" % (k, n), dict(file="main.c", lines={1}, re="return")))
            t = "int f(int r) {\n\t%s else { return 2; }\n}\nint main() { return f(1); }\n" % " else ".join("if (r == %d) { %s }" % (i, "r++;" if i == k else "return 1;") for i in range(n))
            jobs.append(Job({"main.c": t}, "branch %d of %d doesn't return" % (k, n), dict(file="main.c", lines={1}, re="return")))
    execute(c, "spellings and numbers", jobs)
    c.sample("spellings and numbers: " + jobs[len(jobs) // 2].what)


# ---------------------------------------------------------------- returns
def returns(c):
    B = 5 if c.thorough else 4
    memo = {}
    def bodies(n, loop):  # lists of statements, total size n
        k = ("b", n, loop)
        if k in memo: return memo[k]
        out = [[]] if n == 0 else []
        for f in range(1, n + 1):
            for s in stmts(f, loop):
                for r in bodies(n - f, loop): out.append([s] + r)
        memo[k] = out
        return out
    def stmts(n, loop):
        k = ("s", n, loop)
        if k in memo: return memo[k]
        out = []
        if n == 1:
            out = [("e",), ("r",), ("p",)] + ([("b",)] if loop else [])
        m = n - 1
        if m >= 1:
            for b in bodies(m, loop): out.append(("if", b))
            for b in bodies(m, "l"): out += [("while", b), ("true", b), ("for", b)]
            for b in bodies(m, loop or "s"): out.append(("sw1", b)); out.append(("swd", b))
            for a in range(0, m + 1):
                for x in bodies(a, loop):
                    for y in bodies(m - a, loop):
                        if x or y:
                            out.append(("ie", x, y))
                for x in bodies(a, loop or "s"):
                    for y in bodies(m - a, loop or "s"):
                        if x and y: out.append(("sw", x, y)); out.append(("ss", x, y))
        memo[k] = out
        return out
    # model: set of ways a statement list may end: 'fall', 'break'
    def flow(body):
        br = False
        for s in body:
            f, b = flow1(s)
            br |= b
            if not f: return False, br
        return True, br
    def flow1(s):
        k = s[0]
        if k == "e": return True, False
        if k in "rp": return False, False
        if k == "b": return False, True
        if k == "if": f, b = flow(s[1]); return True, b
        if k == "ie":
            f, b = flow(s[1]); g, d = flow(s[2]); return f or g, b or d
        if k in ("while", "for"): return True, False
        if k == "true": f, b = flow(s[1]); return b, False
        if k == "sw1": return True, False
        if k == "swd": f, b = flow(s[1]); return f or b, False
        if k == "sw": f, b = flow(s[1]); g, d = flow(s[2]); return f or g or b or d, False
        if k == "ss":  # an if-else chain: break leaves the loop around it
            f, b = flow(s[1]); g, d = flow(s[2]); return f or g, b or d
    def hasstr_break(s):  # break directly in a switch str outside of a loop isn't C
        return s[0] == "ss" and any(flow(x)[1] for x in s[1:])
    def text(body, ind):
        out = []
        p = "\t" * ind
        for s in body:
            k = s[0]
            if k == "e": out.append(p + "n++;")
            elif k == "r": out.append(p + "return n;")
            elif k == "p": out.append(p + "panic(\"x\");")
            elif k == "b": out.append(p + "break;")
            else:
                h = {"if": "if (n) {", "ie": "if (n) {", "while": "while (n) {", "true": "while (true) {", "for": "for (int i = 0; i < n; i++) {", "sw1": "switch (n) { case 1: {", "swd": "switch (n) { default: {", "sw": "switch (n) { case 1, 2: {", "ss": "switch str (s) { case \"1\": {"}[k]
                out.append(p + h); out.append(text(s[1], ind + 1))
                if k == "ie": out += [p + "} else {", text(s[2], ind + 1)]
                if k in ("sw", "ss"): out += [p + "} default: {", text(s[2], ind + 1)]
                out.append(p + ("} }" if k.startswith("s") else "}"))
        return "\n".join(x for x in out if x)
    # texts a careful programmer writes: a last statement that always returns, nothing dead
    def canon(body):
        if not body: return False
        for s in body[:-1]:
            if not flow1(s)[0]: return False
        s = body[-1]
        if s[0] in "rp": return True
        if s[0] == "ie": return canon(s[1]) and canon(s[2])
        if s[0] in ("sw", "ss"): return canon(s[1]) and canon(s[2]) and (s[0] == "ss" or not brk(s[1]) and not brk(s[2]))
        if s[0] == "swd": return canon(s[1]) and not brk(s[1])
        if s[0] == "true": return not brk(s[1])
        return False
    def brk(body):  # a break of the loop around, reachable or not
        return any(s[0] == "b" or (s[0] in ("if", "ie", "ss") and any(brk(x) for x in s[1:])) for s in body)
    def anystr(body):
        for s in body:
            if s[0] == "ss": return True
            if any(anystr(x) for x in s[1:]): return True
        return False
    def badbreak(body, inl):  # a break of a switch str not within a real loop or switch
        for s in body:
            if s[0] == "b" and not inl: return True
            nl = inl
            if s[0] in ("while", "true", "for", "sw", "sw1", "swd"): nl = True
            if any(badbreak(x, nl) for x in s[1:]): return True
        return False
    jobs = []
    accept = 0
    for n in range(0, B + 1):
        for b in bodies(n, ""):
            if badbreak(b, False): continue
            ss = anystr(b)
            t = "int probe(int n%s) {\n%s\n}\nint main() { return probe(1%s); }\n" % (", const char *s" if ss else "", "\tif (n) { n--; }\n" + text(b, 1), ", \"\"" if ss else "")
            falls = flow(b)[0]
            if falls: want = dict(file="main.c", lines={1}, re="return")
            elif canon(b): want = None
            else: continue
            jobs.append(Job({"main.c": t}, "body %s" % text(b, 0).replace("\n", " "), want))
    if len(jobs) > 120000: jobs = jobs[:120000]
    execute(c, "returns", jobs, compile_ok=False)
    # return types: void needs none, pointers to void do, main needs none
    jobs = []
    for ty, must in [("void", 0), ("int", 1), ("char *", 1), ("void *", 1), ("void **", 1), ("t_t", 1), ("t_t *", 1), ("size_t", 1), ("bool", 1), ("double", 1), ("a_t", 1)]:
        for pub in ("", "pub "):
            for body in ["puts(\"\");", "", "if (q) { puts(\"\"); }", "while (q) { puts(\"\"); }", "for (;;) { puts(\"\"); break; }", "switch (q) { case 1: { puts(\"\"); } }"]:
                uq = "int u = q; puts((u) ? 0 : 0);" if False else ""
                t = "typedef { int x; } t_t;\ntypedef int a_t;\nt_t gt = {};\na_t ga = 1;\n%s%s f(int q) {\n\tif (q) { q++; }\n\t%s\n}\nint main() {\n\tf(gt.x + ga);\n}\n" % (pub, ty, body)
                jobs.append(Job({"main.c": t}, "function of %s with body %r" % (ty, body), dict(file="main.c", lines={5}, re="return") if must else None))
    execute(c, "returns", jobs)
    c.sample("returns: " + jobs[0].what)


# ---------------------------------------------------------------- operand types
VALS = {  # class: declarations and an expression
    "number": ["7", "0x1F", "1.5"], "int": ["vi", "vi8", "vi16", "vi32", "vi64"], "unsigned": ["vsz", "vu8", "vu16", "vu32", "vu64"], "float": ["vf", "vd"], "char": ["vc", "'x'"], "bool": ["vb", "true"], "pointer": ["vp", "vs", "\"lit\"", "&vi"], "array": ["va"], "struct": ["vst"],
}
DECLS = "\tint vi = 1; int8_t vi8 = 1; int16_t vi16 = 1; int32_t vi32 = 1; int64_t vi64 = 1; size_t vsz = 1; uint8_t vu8 = 1; uint16_t vu16 = 1; uint32_t vu32 = 1; uint64_t vu64 = 1; float vf = 1; double vd = 1; char vc = 'c'; bool vb = true; int *vp = &vi; const char *vs = \"s\"; int va[3] = {}; st_t vst = {}; al_t vi2 = 1; alp_t vp2 = &vi; alu_t vu2 = 1; ald_t vd2 = 1; alc_t vc2 = 'c';\n"
ALIAS = {"int": "vi2", "pointer": "vp2", "unsigned": "vu2", "float": "vd2", "char": "vc2"}
NUM = ("number", "int", "unsigned", "float")


def arith_ok(a, b):
    if a == b: return a in NUM
    if {a, b} <= set(NUM): return True
    return {a, b} == {"char", "number"}


def plus_ok(op, a, b):
    if a == b: return a in NUM or (a == "pointer" and op == "-")
    if "number" in (a, b) and {a, b} <= set(NUM): return True
    for x, y in ((a, b), (b, a)):
        if x in ("pointer", "array") and y in ("number", "int", "unsigned"): return True
    return False


def cmp_ok(a, b):
    if a == b: return a in NUM + ("char", "bool", "pointer")
    if "number" in (a, b) and {a, b} <= set(NUM + ("char",)): return True
    return {a, b} == {"char", "int"}


def bool_ok(a, b): return {a, b} <= {"int", "unsigned", "bool", "pointer"}


def operands(c):
    rules = {}
    for op in ["*", "/", "%", "<<", ">>", "&", "|", "^"]: rules[op] = arith_ok
    for op in ["+", "-"]: rules[op] = lambda a, b, op=op: plus_ok(op, a, b)
    for op in ["==", "!=", "<", ">", "<=", ">="]: rules[op] = cmp_ok
    for op in ["&&", "||"]: rules[op] = bool_ok
    jobs = []
    use = "\tOS.use(vi, vi8, vi16, vi32, vi64, vsz, vu8, vu16, vu32, vu64, vf, vd, vc, vb, vp, vs, va, vst, vi2, vp2, vu2, vd2, vc2);\n"
    td = "typedef { int x; } st_t;\ntypedef int al_t;\ntypedef int *alp_t;\ntypedef uint16_t alu_t;\ntypedef double ald_t;\ntypedef char alc_t;\n"
    for op, rule in rules.items():
        for a, b in itertools.product(VALS, repeat=2):
            good = rule(a, b)
            xs = VALS[a] + ([ALIAS[a]] if a in ALIAS and op not in ("&&", "||") else [])
            ys = VALS[b] + ([ALIAS[b]] if b in ALIAS and op not in ("&&", "||") else [])
            if not c.thorough: pairs = [(x, y) for i, x in enumerate(xs) for j, y in enumerate(ys) if i == 0 or j == 0 or (i + j) % 3 == 0]
            else: pairs = list(itertools.product(xs, ys))
            for x, y in pairs:
                if (x + y).count("'x'") and op in ("/", "%"): pass
                for ctx in (["OS.use(%s);"] if not c.thorough else ["OS.use(%s);", "vb = (%s);", "if (%s) { vi++; }", "OS.use(1, (int) (%s));"]):
                    st = ctx % ("%s %s%s %s" % (x, MARK, op, y))
                    t, line, col = locate(td + "int main() {\n" + DECLS + "\t" + st + "\n" + use + "\treturn 0;\n}\n")
                    jobs.append(Job({"main.c": t}, "%s %s %s (%s, %s)" % (x, op, y, a, b), None if good else dict(file="main.c", lines={line})))
    for a, xs in VALS.items():
        for x in xs:
            if x in ("\"lit\"", "&vi", "vp", "vs"): good = True
            else: good = False
            t, line, col = locate(td + "int main() {\n" + DECLS + "\tOS.use(%s*(%s));\n" % (MARK, x) + use + "\treturn 0;\n}\n")
            if a not in ("array",): jobs.append(Job({"main.c": t}, "*(%s)" % x, None if good else dict(file="main.c", lines={line})))
            good = a in ("int", "unsigned", "bool", "pointer")
            for ctx in ["while (%s%s) { vi++; }", "for (int i = 0; %s%s; i++) { vi++; }", "for (; %s%s;) { vi++; }"]:
                t, line, col = locate(td + "int main() {\n" + DECLS + "\t" + ctx % (MARK, x) + "\n" + use + "\treturn 0;\n}\n")
                if re.match(r"^[0-9\"']|^&", x) and not good: want = dict(file="main.c", any=1)
                else: want = None if good else dict(file="main.c", lines={line})
                jobs.append(Job({"main.c": t}, ctx % ("", x), want))
            t = td + "int main() {\n" + DECLS + "\tif (%s) { vi++; }\n\tif (!vi) { vi--; }\n" % x + use + "\treturn 0;\n}\n"
            if a in ("int", "unsigned", "bool", "pointer", "number", "float", "char"): jobs.append(Job({"main.c": t}, "if (%s)" % x, None))
    execute(c, "operand types", jobs)
    c.sample("operand types: " + jobs[100].what)


if __name__ == "__main__":
    c = Check("C08", ["columns are asserted for names, lines for everything else", "while (true) is the only endless loop che has to recognise", "functions that only call themselves are left open"])
    try:
        contexts(c); modlevel(c); spellings(c); scopes(c); returns(c); operands(c)
    except BuildFailure as e:
        c.violation(str(e).split("\n")[0], str(e))
    sys.exit(c.finish())
