"""C06: import graphs. Every import graph over a few modules is written out and
given to che: graphs whose part reachable from the main module has no loop are
accepted, with every reachable module translated exactly once and the
dependency tree printed as it is; graphs with a reachable loop are refused."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def reach(adj, s=0):
    seen = set(); st = [s]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); st += adj[x]
    return seen


def cyclic(adj, nodes):
    col = {}
    def dfs(x):
        col[x] = 1
        for y in adj[x]:
            if col.get(y) == 1 or (y not in col and dfs(y)): return True
        col[x] = 2
        return False
    return dfs(0)


def tree(adj, names, x=0, d=0):
    yield (d, names[x])
    for y in adj[x]: yield from tree(adj, names, y, d + 1)


def mod_src(i, adj, names, spell):
    s = []
    for j in adj[i]: s.append("#import %s" % spell(i, j))
    s.append("pub int get(int x) { return x + %d%s; }" % (i, "".join(" + m%d.get(x)" % j for j in adj[i])))
    if i == 0: s.append("int main() { return get(1); }")
    return "\n".join(s) + "\n"


def run_graphs(c, part, graphs, n, layout, deptree=True, batch=4000, arg=""):
    """graphs: iterable of adjacency lists; layout: (dir of module i, spelling fn)."""
    root = sub("c06_" + part)
    dirs, spell = layout
    todo = []
    def flush():
        jobs = []; meta = []
        for k, adj in enumerate(todo):
            d = "%s/g%d" % (root, k)
            for i in range(n):
                md = os.path.join(d, dirs[i]); os.makedirs(md, exist_ok=True)
                open(os.path.join(md, "m%d.c" % i), "w").write(mod_src(i, adj, None, spell))
            main = arg[2:] + "m0.c" if dirs[0] == "w" else os.path.join(dirs[0], "m0.c")
            wd = d + "/w" if dirs[0] == "w" else d
            jobs.append((wd, [che(), "genc", main, d + "/out"]))
            if deptree: jobs.append((wd, [che(), "deptree", main]))
        rs = multirun(jobs)
        st = 2 if deptree else 1
        for k, adj in enumerate(todo):
            d = "%s/g%d" % (root, k)
            r = rs[k * st]
            seen = reach(adj)
            cyc = cyclic(adj, seen)
            files = os.listdir(d + "/out") if os.path.isdir(d + "/out") else []
            desc = " ".join("%d->%s" % (i, ",".join(map(str, adj[i]))) for i in range(n))
            if cyc:
                if r.rc != 1 or not r.err.strip():
                    c.violation("%s: import loop not refused (rc=%d): %s" % (part, r.rc, desc), r.err[-500:])
                elif files:
                    c.violation("%s: C files written for a refused project: %s" % (part, desc), "")
            else:
                if r.rc != 0:
                    c.violation("%s: valid import graph refused (rc=%d): %s: %s" % (part, r.rc, desc, r.err[-200:]), r.err)
                elif len(files) != len(seen):
                    c.violation("%s: %d modules reachable, %d C files written: %s" % (part, len(seen), len(files), desc), str(files))
                if deptree:
                    q = rs[k * st + 1]
                    got = []
                    for line in q.out.splitlines():
                        t = line.lstrip(" "); ind = len(line) - len(t)
                        if t.startswith("- "): t = t[2:]
                        got.append((ind // 2, os.path.basename(t)))
                    want = list(tree(adj, ["m%d.c" % i for i in range(n)]))
                    if q.rc != 0 or got != want:
                        c.violation("%s: deptree differs for %s: %s" % (part, desc, got), q.out + q.err)
            c.count(part, states=1, transitions=st, traces=st)
            shutil.rmtree(d)
    for g in graphs:
        todo.append(g)
        if len(todo) >= batch:
            flush(); todo.clear()
    flush()


def all_graphs(n, selfloops):
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j or selfloops]
    for bits in range(1 << len(pairs)):
        adj = [[] for _ in range(n)]
        for k, (i, j) in enumerate(pairs):
            if bits >> k & 1: adj[i].append(j)
        yield adj


def body(c):
    same = (["."] * 8, lambda i, j: "m%d.c" % j)
    for n in (1, 2, 3):
        run_graphs(c, "loops%d" % n, all_graphs(n, True), n, same)
    run_graphs(c, "graphs4", all_graphs(4, False), 4, same)
    # import order reversed
    run_graphs(c, "graphs4_rev", ([l[::-1] for l in g] for g in all_graphs(4, False) if not cyclic(g, None)), 4, same)
    # directories and spellings of the same path
    dirs = ["p", "p/a", "p/b"]
    def sp1(i, j):
        rel = os.path.relpath(dirs[j], dirs[i])
        return os.path.join(rel, "m%d.c" % j)
    run_graphs(c, "dirs3", all_graphs(3, True), 3, (dirs, sp1))
    def sp2(i, j):
        rel = os.path.relpath(dirs[j], dirs[i])
        return "./" + rel + "/../" + os.path.basename(dirs[j]) + "/./m%d.c" % j if j else rel + "/../p/m0.c"
    run_graphs(c, "spellings3", all_graphs(3, True), 3, (dirs, sp2), deptree=False)
    def sp3(i, j):
        rel = os.path.relpath(dirs[j], dirs[i])
        alt = ["%s/m%d.c", "./%s/m%d.c", "../../p/../" + "p/%.0s" + os.path.relpath(dirs[j], "p") + "/m%d.c"][(i + j) % 2]
        return alt % (rel, j)
    run_graphs(c, "mixed3", all_graphs(3, True), 3, (dirs, sp3), deptree=False)
    # one directory: dots and doubled slashes in front, the main module named with and without them
    for k, (sa, sb) in enumerate(itertools.permutations(["", "./", "././", ".//", "../w/", "./../w/"], 2)):
        def sp4(i, j, sa=sa, sb=sb): return (sa, sb)[(i + j) % 2] + "m%d.c" % j
        for arg in ("", "./", "../w/", "././"):
            gs = [g for g in all_graphs(4, False) if not cyclic(g, None) and len(reach(g)) == 4 and sum(map(len, g)) >= 4] if c.thorough else \
                 [[[1, 2], [3], [3], []], [[1, 2, 3], [2, 3], [3], []], [[1], [2, 3], [3], []], [[1, 2], [3], [3], [1]], [[1], [2], [0], []]]
            run_graphs(c, "dots", gs, 4, (["w"] * 4, sp4), deptree=False, arg="w/" + arg if arg else "")
    # long chains and ladders: every module imports all of the next level
    for depth in range(1, 41 if c.thorough else 25):
        n = 2 * depth + 1
        adj = [[1, 2]] + [[] for _ in range(n - 1)]
        for l in range(depth - 1):
            for k in (1, 2): adj[2 * l + k] = [2 * l + 3, 2 * l + 4]
        run_graphs(c, "ladders", [adj], n, (["."] * n, same[1]), deptree=depth < 8)
        ch = [[i + 1] if i + 1 < n else [] for i in range(n)]
        run_graphs(c, "chains", [ch], n, (["."] * n, same[1]))
        ch = [[i + 1] if i + 1 < n else [n // 2] for i in range(n)]
        run_graphs(c, "chains", [ch], n, (["."] * n, same[1]))
    if c.thorough:
        run_graphs(c, "graphs4_self", all_graphs(4, True), 4, same, deptree=False)
    missing(c)


def missing(c):
    """A module that imports something that isn't there is refused, wherever it is."""
    part = "missing"
    root = sub("c06_missing")
    k = 0
    jobs = []
    for depth in range(0, 4):
        for name in ("nope", "nope.c", "sub/nope.c", "../nope.c", "strings.c", "os/nope", "STRINGS"):
            d = "%s/g%d" % (root, k); k += 1
            os.makedirs(d)
            for i in range(depth + 1):
                s = "#import m%d.c\n" % (i + 1) if i < depth else "#import %s\n" % name
                open("%s/m%d.c" % (d, i), "w").write(s + "pub int get() { return %s; }\nint main() { return get(); }\n" % ("m%d.get()" % (i + 1) if i < depth else "nope.f()"))
            jobs.append((d, [che(), "genc", "m0.c", "out"]))
    for (d, _), r in zip(jobs, multirun(jobs)):
        c.count(part, 1, 1, 1)
        if r.rc != 1 or not r.err.strip() or (os.path.isdir(d + "/out") and os.listdir(d + "/out")):
            c.violation("%s: import of a missing module is not refused: %s" % (part, open(d + "/m0.c").read()[:80]), r.err)


if __name__ == "__main__":
    main("C06", body, ["modules import by relative path or from $CHELANG_HOME/lib; a symbolic link is not another spelling of a path"])
