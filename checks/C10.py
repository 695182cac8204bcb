"""C10: the commands do what they say and tell by their exit status.

Every command is run for every combination of source, output place and kind of
program, in scratch projects with a home of their own: what is built, where,
what it does, what is left alone after an error. che run is given every
argument list and status, che test every small tree of test files."""
import itertools, os, stat, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

KINDS = {  # kind: (text, builds, output, status)
    "good": ("int main() {\n\tputs(\"good\");\n\treturn 3;\n}\n", True, "good\n", 3),
    "args": ("int main(int argc, char *argv[]) {\n\tfor (int i = 1; i < argc; i++) { puts(argv[i]); }\n\tint c = getchar();\n\twhile (c != EOF) {\n\t\tputchar(c);\n\t\tc = getchar();\n\t}\n\treturn argc;\n}\n", True, "", 1),
    "lib": ("#import strings\nint main() {\n\tif (strings.starts_with(\"abc\", \"ab\")) { puts(\"yes\"); }\n\treturn 0;\n}\n", True, "yes\n", 0),
    "mod": ("#import side/m.c\nint main() {\n\treturn m.seven();\n}\n", True, "", 7),
    "math": ("int main() {\n\tprintf(\"%.3f\\n\", sqrt(2.0));\n\treturn 0;\n}\n", True, "1.414\n", 0),
    "thread": ("#import side/t.c\nint main() {\n\treturn t.go();\n}\n", True, "in thread\n", 5),
    "syntax": ("int main() {\n\treturn (1;\n}\n", False, None, None),
    "semantic": ("int main() {\n\treturn nope;\n}\n", False, None, None),
    "modsemantic": ("#import side/bad.c\nint main() {\n\treturn bad.f();\n}\n", False, None, None),
    "cerror": ("int main() {\n\treturn OS.no_such_symbol + 1;\n}\n", False, None, None),
    "link": ("#include <shimdecl.h>\nint main() {\n\treturn OS.nope_fn();\n}\n", False, None, None),
    "noimport": ("#import nofile.c\nint main() {\n\treturn nofile.f();\n}\n", False, None, None),
    "nolib": ("#import nosuchlib\nint main() {\n\treturn nosuchlib.f();\n}\n", False, None, None),
    "loop": ("#import side/l1.c\nint main() {\n\treturn l1.f();\n}\n", False, None, None),
}
SIDE = {"m.c": "pub int seven() { return 7; }\n", "bad.c": "pub int f() {\n\tint unused = 1;\n\treturn 2;\n}\n", "l1.c": "#import l2.c\npub int f() { return l2.f(); }\n", "l2.c": "#import l1.c\npub int f() { return l1.f(); }\n",
        "t.c": "#include <pthread.h>\n#type pthread_t\n#link pthread\nvoid *body(void *arg) {\n\tputs(\"in thread\");\n\treturn arg;\n}\npub int go() {\n\tpthread_t t = {0};\n\tOS.pthread_create(&t, NULL, body, NULL);\n\tOS.pthread_join(t, NULL);\n\treturn 5;\n}\n"}


def newhome(d):
    os.makedirs(d + "/lib_home"); h = d + "/lib_home"
    os.symlink(REPO + "/lib", h + "/lib"); os.makedirs(h + "/bin")
    return h


def project(d, src, text):
    os.makedirs(os.path.dirname(os.path.join(d, src)), exist_ok=True)
    open(os.path.join(d, src), "w").write(text)
    s = os.path.join(os.path.dirname(os.path.join(d, src)), "side"); os.makedirs(s, exist_ok=True)
    for f, t in SIDE.items(): open(s + "/" + f, "w").write(t)


def snapshot(d, skip=("lib_home",)):
    out = {}
    for root, dirs, files in os.walk(d):
        if root == d: dirs[:] = [x for x in dirs if x not in skip]
        for f in files:
            p = os.path.join(root, f); out[os.path.relpath(p, d)] = open(p, "rb").read()
        for x in dirs: out[os.path.relpath(os.path.join(root, x), d) + "/"] = b""
    return out


def builds(c):
    SRC = ["prog.c", "dir/prog.c", "./dir/prog.c", "ABS/prog.c", "prog.x.c", "my-prog.c", "dir.d/a b.c"]
    OUT = [None, "out", "sub/out", "ABS/o.bin", "prog"]
    jobs = [(cmd, k, s, o, old) for cmd in ("build", "install") for k in KINDS for s in SRC for o in (OUT if cmd == "build" else [None]) for old in (0, 1)]
    if not c.thorough: jobs = [j for i, j in enumerate(jobs) if i % 4 == 0 or (j[1] in ("good", "semantic") and i % 2 == 0)]
    def one(a):
        n, (cmd, k, s, o, old) = a
        d = sub("b%d" % n); h = newhome(d); os.makedirs(d + "/sub"); os.makedirs(d + "/work")
        text, builds_, wout, wst = KINDS[k]
        src = s.replace("ABS", d + "/absd"); out = o.replace("ABS", d + "/absd") if o else None
        cwd = d
        project(d, src, text)
        base = os.path.basename(src)[:-2]
        place = os.path.join(d, out) if out else os.path.join(h + "/bin" if cmd == "install" else d, base)
        os.makedirs(os.path.dirname(place), exist_ok=True)
        if old: open(place, "w").write("#!/bin/sh\necho old\n"); os.chmod(place, 0o755)
        before = snapshot(d)
        r = run_che([cmd, src] + ([out] if out else []), cwd=cwd, extra_env={"CHELANG_HOME": h}, timeout=120)
        v = []
        what = "che %s %s%s (%s program%s)" % (cmd, s, " " + o if o else "", k, ", output exists" if old else "")
        rep = "rc=%s\nstdout: %s\nstderr: %s" % (r.rc, r.out, r.err)
        after = snapshot(d)
        rel = os.path.relpath(place, d)
        if builds_:
            if r.rc != 0: v.append((what + ": exit status %s" % r.rc, rep))
            else:
                if not os.access(place, os.X_OK) or not os.path.isfile(place): v.append((what + ": nothing executable at " + rel, rep))
                else:
                    q = run([place], cwd=d, stdin="")
                    if (q.rc, q.out) != (wst, wout): v.append((what + ": the program gave %s %r, expected %s %r" % (q.rc, q.out, wst, wout), rep))
                extra = {p for p in after if after[p] != before.get(p)} - {rel}
                gone = set(before) - set(after)
                if extra or gone: v.append((what + ": also changed %s" % sorted(extra | gone), rep))
        else:
            if r.rc != 1: v.append((what + ": exit status %s" % r.rc, rep))
            if not (r.err + r.out).strip(): v.append((what + ": no message", rep))
            cc = k in ("cerror", "link")
            extra = {p for p in set(after) | set(before) if after.get(p) != before.get(p)} - ({rel} if cc else set())
            if extra: v.append((what + ": changed %s" % sorted(extra), rep))
            if cc and not old and os.path.exists(place): v.append((what + ": left an output", rep))
        shutil.rmtree(d)
        return v
    for v in pmap(one, list(enumerate(jobs))):
        c.count("build and install", states=1, transitions=2, traces=1)
        for x in v: c.violation(*x)
    c.sample("build and install: che build dir/prog.c sub/out with a semantic error and an existing output, which stays")


def runs(c):
    """che run keeps its executable in one fixed place: one at a time."""
    had = os.path.exists("/tmp/chebuild")
    d = sub("runs"); h = newhome(d)
    argl = [[], ["a"], ["a", "b c"], ["", "x"], ["-h"], ["--", "*"], ["build"], ["\u00e9", "$HOME", "'"]]
    ins = [None, "", "text\nmore", "\x00\x01"]
    project(d, "prog.c", KINDS["args"][0])
    n = 0
    for i, a in enumerate(argl):
        for s in ins if (c.thorough or i < 2) else ins[i % 2 + 1:i % 2 + 2]:
            r = run_che(["run", "prog.c"] + a, cwd=d, extra_env={"CHELANG_HOME": h}, stdin=s)
            w = (len(a) + 1, "".join(x + "\n" for x in a) + (s or ""))
            c.count("run", states=1, transitions=1, traces=1)
            if (r.rc, r.out) != w: c.violation("run: arguments %r, input %r: got %s %r, expected %s %r" % (a, s, r.rc, r.out, *w), r.err)
    for st in [0, 1, 2, 7, 126, 127, 128, 200, 255]:
        project(d, "prog.c", "int main() {\n\tputs(\"s%d\");\n\treturn %d;\n}\n" % (st, st))
        r = run_che(["run", "prog.c"], cwd=d, extra_env={"CHELANG_HOME": h})
        c.count("run", states=1, transitions=1, traces=1)
        if (r.rc, r.out) != (st, "s%d\n" % st): c.violation("run: status %d came out as %s, output %r" % (st, r.rc, r.out), r.err)
    project(d, "prog.c", "int main() {\n\tputs(\"x\");\n\tfflush(stdout);\n\tabort();\n}\n" if False else "int main() {\n\tint *p = NULL;\n\tpanic(\"p %d\", p == NULL);\n}\n")
    r = run_che(["run", "prog.c"], cwd=d, extra_env={"CHELANG_HOME": h})
    if r.rc != 1 or "prog.c:3:2" not in r.err: c.violation("run: a panic: %s %r" % (r.rc, r.err), "")
    for k, (text, ok, out, st) in KINDS.items():
        project(d, "prog.c", KINDS["good"][0]); run_che(["run", "prog.c"], cwd=d, extra_env={"CHELANG_HOME": h})
        project(d, "prog.c", text)
        r = run_che(["run", "prog.c"], cwd=d, extra_env={"CHELANG_HOME": h}, stdin="")
        c.count("run", states=1, transitions=2, traces=1)
        if ok:
            if (r.rc, r.out) != (st, out): c.violation("run: %s program gave %s %r, expected %s %r" % (k, r.rc, r.out, st, out), r.err)
        else:
            if r.rc != 1: c.violation("run: %s program: exit status %s" % (k, r.rc), r.err)
            if "good" in r.out: c.violation("run: %s program: the previous program was run" % k, r.out)
            if not (r.err + r.out).strip(): c.violation("run: %s program: no message" % k, "")
    if not had and os.path.exists("/tmp/chebuild"): os.unlink("/tmp/chebuild")
    c.sample("run: arguments ['a', 'b c'], input 'text\\nmore'")
    shutil.rmtree(d)


def tests(c):
    T = {"none": None, "pass": ("int main() { return 0; }\n", 0, ""), "out": ("int main() {\n\tputs(\"all fine\");\n\treturn 0;\n}\n", 0, "all fine"), "fail": ("int main() {\n\tputs(\"went wrong\");\n\treturn 1;\n}\n", 1, "went wrong"), "fail200": ("int main() { return 200; }\n", 1, ""), "panic": ("int main() {\n\tpanic(\"oh no\");\n}\n", 1, "oh no"), "crash": ("int main() {\n\tint *p = NULL;\n\tif (p == NULL) { OS.abort(); }\n\treturn 0;\n}\n", 1, ""), "broken": ("int main() {\n\treturn nope;\n}\n", 2, "nope"), "nottest": ("this is not che\n", 0, "")}
    SLOT = ["a", "sub/b", "sub/deep/c"]
    jobs = []
    for combo in itertools.product(T, repeat=3):
        if not c.thorough and sum(hash_(x) for x in combo) % 3 and len(set(combo)) > 2: continue
        jobs.append((combo, [""]))
    for combo in itertools.product(["pass", "fail", "none"], repeat=3): jobs.append((combo, ["sub", "sub/deep"])); jobs.append((combo, ["other", ""]))
    jobs.append((("fail", "fail", "fail"), ["", "", ""]))
    def one(a):
        n, (combo, dirs) = a
        d = sub("t%d" % n); h = newhome(d); os.makedirs(d + "/tree/sub/deep"); os.makedirs(d + "/tree/other"); os.makedirs(d + "/cwd")
        paths = []
        for s, k in zip(SLOT, combo):
            if T[k] is None: continue
            p = "tree/" + s + (".c" if k == "nottest" else ".test.c")
            open(d + "/" + p, "w").write(T[k][0])
            if k != "nottest": paths.append((p, k))
        open(d + "/tree/notes.txt", "w").write("x"); open(d + "/tree/test.c", "w").write("not a test")
        args = ["../tree/" + x if x else "../tree" for x in dirs]
        r = run_che(["test"] + args, cwd=d + "/cwd", extra_env={"CHELANG_HOME": h}, timeout=200)
        shutil.rmtree(d)
        what = "tree %s, che test %s" % (dict(zip(SLOT, combo)), dirs)
        rep = "rc=%s\n%s\n%s" % (r.rc, r.out, r.err)
        v = []
        fails = broken = 0
        lines = r.out.splitlines()
        exp = []
        for x in dirs:
            for p, k in paths:
                if ("../" + p).startswith("../tree/" + (x + "/" if x else "")):
                    exp.append(("OK " if T[k][1] == 0 else "FAIL ") + "../" + p)
                    if T[k][1] == 1: fails += 1
                    if T[k][1] == 2: broken += 1
        got = sorted(l.split(":")[0] for l in lines if l.startswith("OK ../") or l.startswith("FAIL ../"))
        if got != sorted(exp): v.append((what + ": reported %s, expected %s" % (got, sorted(exp)), rep, None))
        for x in set(x for x in exp):
            k = [k for p, k in paths if "../" + p == x.split(" ")[1]][0]
            if T[k][2] and T[k][2] not in r.out + r.err: v.append((what + ": the output of %s isn't shown" % x, rep, None))
        if (r.rc != 0) != (fails + broken > 0):
            v.append((what + ": exit status %s with %d failed and %d unbuildable tests" % (r.rc, fails, broken), rep, "test-unbuildable" if broken and not fails and r.rc == 0 else None))
        elif not broken and fails and ("fails: %d, total: %d" % (fails, len(exp))) not in r.out: v.append((what + ": wrong summary: %s" % lines[-1:], rep, None))
        elif not broken and not fails and ("OK %d tests" % len(exp)) not in r.out: v.append((what + ": wrong summary: %s" % lines[-1:], rep, None))
        return v
    for v in pmap(one, list(enumerate(jobs))):
        c.count("test", states=1, transitions=1, traces=1)
        for d, rep, key in v: c.violation(d, rep, key)
    c.sample("test: a passes, sub/b panics, sub/deep/c is no test")


def hash_(s): return sum(map(ord, s))


def usage(c):
    d = sub("usage"); h = newhome(d)
    project(d, "prog.c", KINDS["good"][0])
    cases = [[], ["nosuch"], ["nosuch", "prog.c"], ["--help"], ["build"], ["build", "prog.c", "x", "y"], ["run"], ["install"], ["install", "prog.c", "x"], ["genc"], ["genc", "prog.c"], ["genc", "prog.c", "a", "b"], ["deptree"], ["deptree", "prog.c", "x"], ["BUILD", "prog.c"], ["buil", "prog.c"], ["builds", "prog.c"], [""],
             ["build", "nofile.c"], ["install", "nofile.c"], ["genc", "nofile.c", "o"], ["deptree", "nofile.c"], ["exports", "nofile.c"], ["exports", "prog.c", "nofile.c"], ["build", "side"], ["deptree", "side"], ["exports", "side"]]
    for a in cases:
        before = snapshot(d)
        r = run_che(a, cwd=d, extra_env={"CHELANG_HOME": h})
        after = snapshot(d)
        c.count("usage", states=1, transitions=1, traces=1)
        rep = "rc=%s %r %r" % (r.rc, r.out, r.err)
        if r.rc != 1: c.violation("usage: che %s: exit status %s" % (" ".join(a), r.rc), rep)
        if not r.err.strip(): c.violation("usage: che %s: no message" % " ".join(a), rep)
        if "panicked" in r.err: c.violation("usage: che %s: crashed" % " ".join(a), rep)
        new = {p for p in after if p not in before and p.endswith((".c", "x"))}
        if new: c.violation("usage: che %s: made %s" % (" ".join(a), sorted(new)), rep)
    shutil.rmtree(d)


def repeat(c):
    """Translation is a function of the sources: every library module and some
    programs, translated by several processes, into the same bytes."""
    mods = []
    for root, _, files in os.walk(REPO + "/lib"):
        for f in sorted(files):
            if f.endswith(".c") and not f.endswith(".test.c"): mods.append(os.path.join(root, f))
    for root, _, files in os.walk(REPO + "/prog"):
        for f in sorted(files):
            if f == "main.c" or os.path.basename(root) == "prog": mods.append(os.path.join(root, f))
    mods.sort()
    n = 4 if c.thorough else 3
    def one(a):
        i, m = a
        res = []
        for k in range(n):
            d = sub("r%d" % i) + "/o%d" % k
            r, fs = genc(m, d)
            res.append((r.rc, r.err, {os.path.basename(f): open(f, "rb").read() for f in fs}))
            shutil.rmtree(d, ignore_errors=True)
        return all(x == res[0] for x in res), res[0][0], len(res[0][2])
    for m, (same, rc, k) in zip(mods, pmap(one, list(enumerate(mods)))):
        c.count("repeatable", states=1, transitions=n, traces=n)
        if not same: c.violation("repeatable: %s is translated differently each time" % os.path.relpath(m, REPO), m)
    c.sample("repeatable: %d modules of the repository, %d translations each" % (len(mods), n))


def links(c):
    """Every library named by any module of the program is linked, whichever module names it and however often."""
    libs = ["vpq", "vp", "vpqr", "q"]
    ld = sub("libs")
    for l in libs:
        open("%s/%s.c" % (ld, l), "w").write("int fn_%s(void) { return %d; }\n" % (l, 10 + libs.index(l)))
        r = run(["sh", "-c", "cd %s && gcc -c %s.c -o %s.o && ar rcs lib%s.a %s.o" % (ld, l, l, l, l)])
        if r.rc: raise Exception(r.err)
    open(ld + "/decl.h", "w").write("".join("int fn_%s(void);\n" % l for l in libs))
    # which of the modules main, a, b names which libraries, in which order
    subs = [p for k in range(0, 3) for p in itertools.permutations(libs[:3], k)] if not c.thorough else [p for k in range(0, 4) for p in itertools.permutations(libs, k)]
    jobs = [(x, y, z) for x in subs for y in subs for z in ((), ("vp",), ("vpq", "vpqr"))]
    if not c.thorough: jobs = [j for i, j in enumerate(jobs) if i % 3 == 0]
    def one(a):
        n, j = a
        d = sub("k%d" % n); h = newhome(d)
        ws = []
        for nm, ls in zip(("a", "b", "main"), j):
            t = "#include <decl.h>\n" + "".join("#link %s\n" % l for l in ls) + ("#import a.c\n#import b.c\n" if nm == "main" else "")
            e = " + ".join(["0"] + ["OS.fn_%s()" % l for l in ls])
            if nm == "main": t += "int main() {\n\tprintf(\"%%d %%d %%d\\n\", a.get(), b.get(), %s);\n\treturn 0;\n}\n" % e
            else: t += "pub int get() { return %s; }\n" % e
            open("%s/%s.c" % (d, nm), "w").write(t)
            ws.append(sum(10 + libs.index(l) for l in ls))
        r = run_che(["build", "main.c", "x"], cwd=d, extra_env={"CHELANG_HOME": h, "LIBRARY_PATH": ld, "CPATH": ld}, timeout=120)
        v = None
        if r.rc or not os.path.exists(d + "/x"): v = "exit status %s: %s" % (r.rc, (r.err + r.out)[-200:])
        else:
            q = run([d + "/x"])
            if q.out != "%d %d %d\n" % tuple(ws): v = "printed %r" % q.out
        shutil.rmtree(d)
        return v
    for j, v in zip(jobs, pmap(one, list(enumerate(jobs)))):
        c.count("links", states=1, transitions=1, traces=1)
        if v: c.violation("links: a names %s, b %s, main %s: %s" % (*j, v), str(j))
    c.sample("links: modules naming the libraries vp, vpq and vpqr in every order")


if __name__ == "__main__":
    c = Check("C10", ["programs that the C compiler refuses may lose an existing output", "che run is exercised one run at a time: it uses one fixed place for the executable"])
    usage(c); builds(c); links(c); tests(c); runs(c); repeat(c)
    sys.exit(c.finish())
