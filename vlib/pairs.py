"""Comparing che programs with reference C programs item by item. An item is
(che declarations, che statements, C declarations, C statements); both sides
print lines 'id value' through out(id, value) and the streams must agree."""
from vp import *

SHIM = "void out(int, long); void outs(int, const char *);\n"
OUT = "#include <stdio.h>\n#include <stdint.h>\n#include <stdbool.h>\n#include <stddef.h>\n#include <string.h>\n#include <stdlib.h>\nvoid out(int i, long v) { printf(\"%d %ld\\n\", i, v); }\nvoid outs(int i, const char *s) { printf(\"%d %s\\n\", i, s); }\n"


def build_pair(d, items, ids, cheflags, hdr, mainsig="int main()", raw=None):
    che = "#include <shim.h>\n" + "".join(i[0] + "\n" for i in items)
    ref = OUT + hdr + "".join(i[2] + "\n" for i in items)
    for k, i in zip(ids, items):
        che += "void run%d() {\n%s\n}\n" % (k, i[1]); ref += "void run%d() {\n%s\n}\n" % (k, i[3])
    che += "int main() {\n" + "".join("\trun%d();\n" % k for k in ids) + "\treturn 0;\n}\n"
    ref += "int main() {\n" + "".join("\trun%d();\n" % k for k in ids) + "\treturn 0;\n}\n"
    os.makedirs(d + "/inc", exist_ok=True)
    open(d + "/m.c", "w").write(che); open(d + "/ref.c", "w").write(ref); open(d + "/inc/shim.h", "w").write(SHIM)
    open(d + "/out.c", "w").write(OUT)
    r, files = genc(d + "/m.c", d + "/c")
    if r.rc != 0: return "refused: " + (r.err + r.out)[:300], None
    fl = ["gcc", "-std=gnu99", "-w", "-O0", "-fwrapv"] + list(cheflags)
    q = run(fl + ["-I", d + "/inc", "-o", d + "/x"] + files + [d + "/out.c", "-lm"], timeout=300)
    if q.rc != 0: return "the generated C doesn't compile: " + q.err[:400], None
    q2 = run(fl + ["-o", d + "/y", d + "/ref.c", "-lm"], timeout=300)
    if q2.rc != 0: raise EnvFailure("reference doesn't compile: " + q2.err[:1500])
    a, b = run([d + "/x"], timeout=60), run([d + "/y"], timeout=60)
    if b.rc != 0: raise EnvFailure("reference program failed rc=%s" % b.rc)
    if a.rc != 0: return "the program ended with status %s %s" % (a.rc, a.err[:200]), None
    return None, (a.out, b.out)


def run_pairs(c, part, items, n=80, hdr="", cheflags=()):
    items = list(items)
    c.count(part, states=len(items))
    todo = [list(range(i, min(i + n, len(items)))) for i in range(0, len(items), n)]
    rnd = 0
    while todo:
        rnd += 1
        def one(a):
            k, ids = a
            d = sub("%s_%d_%d" % (part.replace(" ", "_"), rnd, k))
            r = build_pair(d, [items[i] for i in ids], ids, cheflags, hdr)
            shutil.rmtree(d)
            return r
        nxt = []
        for ids, (err, outs) in zip(todo, pmap(one, list(enumerate(todo)))):
            if err:
                if len(ids) == 1:
                    it = items[ids[0]]
                    c.violation("%s: %s: %s" % (part, err, (it[0] + it[1])[:300]), "che:\n%s\n%s\n%s" % (it[0], it[1], err))
                else:
                    m = max(1, len(ids) // 6)
                    nxt += [ids[i:i + m] for i in range(0, len(ids), m)]
                continue
            a, b = outs[0].splitlines(), outs[1].splitlines()
            c.count(part, transitions=len(b), traces=len(ids))
            if a != b:
                ga, gb = {}, {}
                for l in a: ga.setdefault(l.split(" ")[0], []).append(l)
                for l in b: gb.setdefault(l.split(" ")[0], []).append(l)
                hit = False
                for i in ids:
                    if ga.get(str(i)) != gb.get(str(i)):
                        hit = True; it = items[i]
                        c.violation("%s: prints %s, expected %s: %s" % (part, ga.get(str(i)), gb.get(str(i)), (it[0] + it[1])[:300]),
                                    "che:\n%s\n%s\ngot %s\nwant %s" % (it[0], it[1], ga.get(str(i)), gb.get(str(i))))
                if not hit: c.violation("%s: actions in a different order" % part, "")
        todo = nxt if len(c.viols) < 20 else []
    if items: c.sample("%s: %s" % (part, (items[len(items) // 2][0] + " " + items[len(items) // 2][1])[:300]))
