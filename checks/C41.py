"""C41: the text filters convert every input exactly."""
import csv as pycsv, io, itertools, json, os, sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def pairs(line):
    return json.loads(line.decode("utf-8"), object_pairs_hook=lambda p: ("obj", tuple(p)))


def show(b):
    r = repr(b)
    return r if len(r) < 300 else r[:200] + " ... " + r[-60:] + " (%d bytes)" % len(b)


class Filter:
    """One program; jobs (args, stdin, judge), judge(rc, out, err) -> None or what is wrong."""
    def __init__(self, c, name):
        self.c, self.name, self.jobs = c, name, []
        self.exe = prog_driver(name, os.path.join(REPO, "prog", name, name + ".c"))

    def add(self, args, inp, judge):
        self.jobs.append((args, inp, judge))

    def go(self):
        bad = 0
        seen = {}
        for a, i, j in self.jobs: seen.setdefault((tuple(a), i), (a, i, j))
        jobs = list(seen.values())
        for (a, i, judge), (rc, out, err) in zip(jobs, progrun(self.exe, [(a, i) for a, i, _ in jobs])):
            if rc == -1000: continue
            if rc == 99 or rc < 0: w = "ends abnormally (rc=%d): %s" % (rc, next((l for l in err.decode("latin1").splitlines() if "ERROR" in l or "runtime error" in l), err[-200:]))
            else:
                try: w = judge(rc, out, err)
                except Exception as e: w = "unreadable output %s (%s)" % (show(out), e)
            key = None
            if isinstance(w, tuple): w, key = w           # a failure that known_findings.txt may list
            if key in self.c.known: self.c.violation(w, key=key); continue
            if w and bad < 3:
                bad += 1
                self.c.violation("%s: %s [arguments %s, input %s]" % (self.name, w, a, show(i)), "arguments: %r\ninput: %r\noutput: %r\nerrors: %r\n" % (a, i[:20000], out[:20000], err[:4000]))
        self.c.count(self.name, states=len(jobs), transitions=sum(1 + i.count(b"\n") for _, i, _ in jobs), traces=len(jobs))
        for k in (len(jobs) // 3, len(jobs) // 2): self.c.sample("%s %s %s" % (self.name, jobs[k][0], show(jobs[k][1])))


def exact(want, rc0=0):
    def j(rc, out, err):
        if rc != rc0: return "exit status %d: %s" % (rc, err[-200:])
        if out != want: return "prints %s, not %s" % (show(out), show(want))
    return j


def objs(want):
    want = [("obj", tuple(w)) for w in want]
    def j(rc, out, err):
        if rc != 0: return "exit status %d: %s" % (rc, err[-200:])
        if want and not out.endswith(b"\n"): return "the last line isn't complete"
        got = [pairs(l) for l in out.split(b"\n")[:-1]]
        if got != want: return "%d objects %s, not %d %s" % (len(got), show(got), len(want), show(want))
    return j


# ---- csv2json
def qcell(s, force=0):
    return '"%s"' % s.replace('"', '""') if force or any(x in s for x in ',"\n\r') else s


def csv2json(c):
    f = Filter(c, "csv2json")
    cells = ["a", "", "x y", 'q"', "c,d", "l\nm", "\u00e9", "name12345"]
    def put(head, rows, force=0, end="\n", args=()):
        lines = ([head] if head is not None else []) + rows
        t = "\n".join(",".join(qcell(x, force) for x in r) for r in lines) + end
        names = list(head or []) + ["col%d" % i for i in range(len(head or []), 100)]
        f.add(list(args), t.encode(), objs([[(names[i], v) for i, v in enumerate(r)] for r in rows]))
    th = c.thorough
    for h in itertools.product(cells[:6], repeat=2):
        for r in itertools.product(cells, repeat=2):
            put(list(h), [list(r)])
            put(None, [list(h), list(r)], args=["-n"])
    for h in itertools.product(cells, repeat=3):
        put(list(h), [["1", "2", "3"], list(h)], force=1)
        put(list(h), [["1", "2", "3"], ["4", "5"], ["6", "7", "8", "9"]], end="" if len(h[0]) else "\n")
    for n in list(range(1, 120)):
        r = ["v%d" % i for i in range(n)]
        if n <= 100:
            put(["h%d" % i for i in range(n)], [r, r]); put(None, [r, r], args=["-n"])
            put(["head"], [r])
        else:                                             # over the limit: refused
            t = (",".join(r) + "\n").encode()
            f.add([], t + b"1\n", lambda rc, out, err: None if rc and err else "too many columns accepted")
            f.add(["-n"], t, lambda rc, out, err: None if rc and err else "too many columns accepted")
    for L in list(range(1, 70)) + [100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 9000]:
        put(["k" * L, "b"], [["v", "w" * L], ["w" * L, ""]])
        put(["k" * L, "b"], [["v", "w" * L]], force=1)
    for n in (10, 100, 1000): put(["n", "sq"], [[str(i), str(i * i)] for i in range(n)])
    f.go()


# ---- jsonl2csv
def jsonl2csv(c):
    f = Filter(c, "jsonl2csv")
    vals = ["", "a", "q\"q", "c,d", "l\nm", "\u00e9\u20ac", 0, 1, -5, 2.5, 123456789, True, False, None, [], [1, "x"], {"k": [None]}]
    MISS = object()
    def put(head, rows, end="\n", keep=None):
        lines = [json.dumps(dict((k, v) for k, v in zip(head, r) if v is not MISS), ensure_ascii=False) for r in rows]
        t = "\n".join(lines) + end
        def j(rc, out, err):
            if rc != 0: return "exit status %d %s" % (rc, err[-200:])
            got = list(pycsv.reader(io.StringIO(out.decode("utf-8"), newline=""), strict=True))
            if len(got) != len(rows): return "%d rows, not %d: %s" % (len(got), len(rows), show(out))
            for g, r in zip(got, rows):
                if len(g) != len(head): return "%d columns: %s" % (len(g), show(out))
                for x, v in zip(g, r):
                    if v is MISS or v is None: ok = x == ""
                    elif isinstance(v, str): ok = x == v
                    elif isinstance(v, bool): ok = x == ("true" if v else "false")
                    elif isinstance(v, (int, float)): ok = float(x) == v
                    else: ok = json.loads(x) == v
                    if not ok: return "%s is written as %s" % (show(v), show(x))
        f.add([], t.encode(), j)
    for a, b in itertools.product(vals, repeat=2):
        put(["x", "y"], [[a, b]]); put(["x", "y"], [["1", "2"], [b, MISS], [MISS, a], [MISS, MISS]])
    for a, b, d in itertools.product(vals[:13:2], repeat=3): put(["p", "q", "r"], [[a, b, d], [d, a, b]], end="" if a == "" else "\n")
    for n in range(1, 101): put(["k%d" % i for i in range(n)], [[i for i in range(n)], ["s%d" % i for i in range(n)]])
    f.add([], json.dumps({("k%d" % i): i for i in range(101)}).encode() + b"\n", lambda rc, out, err: None if rc and err and not out else "more than 100 columns")
    for L in list(range(1, 30)) + [255, 256, 1000, 4080, 4084, 4085, 4086, 4087, 4088, 4089, 4090, 4095, 4096, 4097, 8192, 20000]:
        put(["k", "v"], [["a" * L, 1], ["b", "q\"," * (L // 3 + 1)]]); put(["k" * L], [["v"], [MISS]])
    for n in (10, 100, 2000): put(["n", "m"], [[i, "r%d" % i] for i in range(n)])
    # lines that are not JSON are reported and left out
    for bad in ("x", "{", "{\"a\":}", "nope"):
        def j(rc, out, err):
            if rc or out.count(b"\n") != 2 or not err: return "lines beside a broken one: %s %s" % (show(out), show(err))
        f.add([], ("{\"a\":1}\n%s\n{\"a\":2}\n" % bad).encode(), j); f.add([], ("%s\n{\"a\":1}\n{\"a\":2}\n" % bad).encode(), j)
    f.add([], b"", lambda rc, out, err: None if rc and not out else "empty input accepted")
    f.go()


# ---- subtitles
def stamp(ms, sep):
    return "%02d:%02d:%02d%s%03d" % (ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, sep, ms % 1000)


TEXTS = ["x", "a b", "two\nlines", "q\"\\", "\u00e9\t!", "three\nshort\nlines", "0", "-->"]


def srt2jsonl(c):
    f = Filter(c, "srt2jsonl")
    def put(bl, end="\n\n"):
        t = "\n\n".join("%d\n%s --> %s\n%s" % (n, stamp(a, ","), stamp(b, ","), x) for n, a, b, x in bl) + end
        f.add([], t.encode(), objs([[("n", n), ("range", "%s --> %s" % (stamp(a, ","), stamp(b, ","))), ("text", x)] for n, a, b, x in bl]))
    for k in range(1, 4):
        for ts in itertools.product(TEXTS, repeat=k):
            put([(i + 1, 1000 * i, 1000 * i + 999, x) for i, x in enumerate(ts)], end=["\n\n", "\n", ""][len(ts[0]) % 3])
    for n in (0, 1, 9, 10, 999, 1000, 65536, 2147483647): put([(n, 0, 359999999, "x")])
    for n in (20, 300): put([(i, i * 777, i * 777 + 5, "t%d" % i) for i in range(n)])
    for L in (50, 97, 98, 99, 100, 101, 500, 900): put([(1, 5, 6, "w" * L), (2, 7, 8, "b" * L + "\n" + "c")]) if 2 * L + 10 < 990 else put([(1, 5, 6, "w" * L)])
    f.go()
    f = Filter(c, "vtt2jsonl")
    def putv(bl, end="\n\n", head="WEBVTT\n\n", tail=""):
        t = head + "\n\n".join("%s --> %s%s\n%s" % (stamp(a, "."), stamp(b, "."), tail, x) for a, b, x in bl) + (end if bl else "")
        f.add([], t.encode(), objs([[("range", "%s --> %s" % (stamp(a, "."), stamp(b, "."))), ("text", x)] for a, b, x in bl]))
    tx = [t for t in TEXTS]
    for k in range(0, 4):
        for ts in itertools.product(tx, repeat=k):
            putv([(1000 * i, 1000 * i + 999, x) for i, x in enumerate(ts)], tail=["", " align:start position:0%"][k % 2], head=["WEBVTT\n\n", "WEBVTT\nKind: captions\nLanguage: en\n\n"][k // 2 % 2])
    for n in (20, 300): putv([(i * 777, i * 777 + 5, "t%d" % i) for i in range(n)])
    for L in (97, 98, 99, 100, 101, 199, 200, 201, 900, 3000): putv([(5, 6, "w" * L), (7, 8, "b" * L + "\n" + "c" * L)])
    for b in ("x\n", "WEBVTT\n\nbad\n", "WEBVTT\n\n00:00:01.000 -> 00:00:02.000\nx\n\n"): f.add([], b.encode(), lambda rc, out, err: None if rc == 1 and err and not out else "a broken file: exit status %d" % rc)
    f.go()


def srtadjust(c):
    f = Filter(c, "srtadjust")
    T = [0, 1, 999, 1000, 61001, 600000, 3599999, 3600000, 7261003, 35999999]
    P = [0, 1000, 60000, 61001, 600123, 3600000, 7200456] if c.thorough else [0, 1000, 61001, 600123, 7200456]
    for h1, w1, h2, w2 in itertools.product(P, repeat=4):
        if h1 >= h2 or w1 >= w2: continue
        k = Fraction(w2 - w1, h2 - h1)
        ts = [t for t in T + [h1, h2, (h1 + h2) // 2] if 0 <= w1 + (t - h1) * k < 359999000]
        blk = [(i + 1, t, t2) for i, (t, t2) in enumerate(zip(ts, ts[1:] + ts[:1]))]
        inp = "".join("%d\n%s --> %s\ntext %d\n\n" % (n, stamp(a, ","), stamp(b, ","), n) for n, a, b in blk).encode()
        def j(rc, out, err, blk=blk, h1=h1, w1=w1, k=k):
            if rc: return "exit status %d" % rc
            o = out.decode().split("\n\n")
            if o[-1] != "" or len(o) != len(blk) + 1: return "%d subtitles, not %d" % (len(o) - 1, len(blk))
            for s, (n, a, b) in zip(o, blk):
                l = s.split("\n")
                if len(l) != 3 or l[0] != str(n) or l[2] != "text %d" % n: return "subtitle %d is %s" % (n, show(s))
                for got, t in zip(l[1].split(" --> "), (a, b)):
                    x = w1 + (t - h1) * k
                    lo = x.numerator // x.denominator; hi = lo if x == lo else lo + 1
                    if got not in (stamp(lo, ","), stamp(hi, ",")): return "%s becomes %s, not %s" % (stamp(t, ","), got, stamp(lo, ","))
        f.add([stamp(x, ",") for x in (h1, w1, h2, w2)], inp, j)
    for n in range(0, 7):
        if n != 4: f.add(["00:00:01,000"] * n, b"", lambda rc, out, err: None if rc and not out else "a wrong number of arguments is accepted")
    f.go()


# ---- numbers and log lines
def zipranges(c):
    f = Filter(c, "zipranges")
    def put(v, sep="\n", end="\n"):
        r = []
        for x in v:
            if r and r[-1][1] + 1 == x: r[-1][1] = x
            else: r.append([x, x])
        f.add([], (sep.join(map(str, v)) + (end if v else "")).encode(), exact(("".join("%d-%d " % (a, b) for a, b in r) + "\n").encode()))
    for n in range(0, 6 if c.thorough else 5):
        for v in itertools.product([1, 2, 3, 4, 7, -1, 0][:7 if n < 5 else 5], repeat=n): put(v)
    for n in range(1, 1200 if c.thorough else 300): put(list(range(n))); put(list(range(0, 2 * n, 2)), sep=" " if n % 2 else "\n")
    for n in (3999, 4000, 4001, 5000, 20000): put([3 * i for i in range(n)]); put([i + i // 2 for i in range(n)])
    for v in ([2147483647], [2147483646, 2147483647], [2147483647, -2147483648], [-2147483648, -2147483647], [-2, -1, 0, 1]): put(v); put(v, end="")
    for b in (b"x\n", b"1\nx\n", b"1 2 y"): f.add([], b, lambda rc, out, err: None if rc and err else "what is not a number is accepted")
    f.go()


def decompose(c):
    f = Filter(c, "decompose")
    names = ["a", "web_1", "api-2"] + ["n" * L for L in (20, 98, 99, 100, 101, 150, 1000, 5000)]
    msgs = ["hello", "", "{\"a\":1}", "{}", "two words", "| bar", "x" * 5000]
    for nm in names:
        for sp in (" ", "   "):
            for col in ("", "\x1b[36m", "\x1b[36;1m"):
                for msg in msgs:
                    for nl in ("\n", ""):
                        rest = (msg + nl) if msg.strip() else ""
                        e = "\x1b[0m" if col else ""
                        t = "%s%s%s|%s %s%s" % (col, nm, sp, e, msg, nl)
                        if msg.startswith("{"): w = '{"container":"%s",%s' % (nm, msg[1:] + nl)
                        elif msg == "": w = "[%s] " % nm
                        else: w = "[%s] %s%s" % (nm, msg, nl)
                        f.add([], t.encode(), exact(w.encode()))
                        if nl: f.add([], (t * 3).encode(), exact((w * 3).encode()))
    for b in ("", "abc", "abc\n", "n" * 300, " ", "\x1b", "\x1b[", "\x1b[1", "|"): f.add([], b.encode(), lambda rc, out, err: None)
    f.go()


def noext(c):
    f = Filter(c, "noext")
    words = ["".join(w) for n in range(0, 5 if not c.thorough else 6) for w in itertools.product("a./", repeat=n)]
    def strip(s):
        i = s.rfind(".")
        return s[:i] if i > 0 else s
    for s in words: f.add([s], b"", exact((strip(s) + "\n").encode()))
    for s in itertools.product(["a.b", "x", ".c", "d.tar.gz", "e.", ""], repeat=3): f.add(list(s), b"", exact("".join(strip(x) + "\n" for x in s).encode()))
    for L in (100, 255, 256, 4096): f.add(["n" * L + ".txt", "m" * L], b"", exact(("n" * L + "\n" + "m" * L + "\n").encode()))
    f.add([], b"", exact(b"")); f.go()


# ---- json-table
def cell(v):
    if v is None: return "null"
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, int):
        s = str(v)
        if v > 10000:
            s = s[::-1]; s = "`".join(s[i:i + 3] for i in range(0, len(s), 3))[::-1]
        return s
    return v


def table(rows):
    if not rows: return ""
    head = list(max(rows, key=len).keys())
    ws = [max([len(k.encode())] + [len(cell(r[k]).encode()) for r in rows if k in r]) for k in head]
    pad = lambda s, w: s + " " * (w - len(s.encode()))
    line = "-" * (sum(ws) + 3 * max(0, len(head) - 1)) + "\n"
    o = "%d rows\n" % len(rows) + line + " | ".join(pad(k, w) for k, w in zip(head, ws)) + "\n" + line
    for r in rows: o += " | ".join(pad(cell(r[k]) if k in r else "", w) for k, w in zip(head, ws)) + "\n"
    return o + line


def jsontable(c):
    f = Filter(c, "json-table")
    vals = [0, 7, 10000, 10001, 123456, 1234567, 2147483647, 2147483648, 5000000000, 123456789012345, -5, -20000, "", "s", "two words", "\u00e9", True, False, None]
    d = lambda o: json.dumps(o, ensure_ascii=False)
    def put(parts, end="\n"):
        """parts: ('t', rows), ('i', rows) or text lines"""
        t, w = "", ""
        for k, p in enumerate(parts):
            last = end if k == len(parts) - 1 else "\n"
            if p[0] == "t": t += "\n".join(map(d, p[1])) + last; w += table(p[1])
            elif p[0] == "i": t += d(p[1]) + last; w += table(p[1])
            else: t += p[1] + last; w += p[1] + last
        f.add([], t.encode(), exact(w.encode()))
    for a, b in itertools.product(vals, repeat=2):
        for kind in "ti": put([(kind, [{"a": a, "b": b}])]); put([(kind, [{"a": a}, {"a": b, "longer": 1}, {}])])
    rows = [{"a": 1}, {"a": "xx", "b": None}, {"c": True, "b": 5, "a": ""}, {}]
    for n in range(1, 4):
        for rs in itertools.product(rows, repeat=n):
            put([("t", list(rs))]); put([("i", list(rs))], end="")
    parts = [("t", rows[:2]), ("i", rows[1:3]), ("x", "log line"), ("x", ""), ("x", "5"), ("x", "[1,2]"), ("x", "{broken"), ("x", "null"), ("x", "[broken"), ("x", "[5,{}]")]
    for n in range(1, 5 if c.thorough else 4):
        for ps in itertools.product(parts, repeat=n):
            if any(a[0] == "t" == b[0] for a, b in zip(ps, ps[1:])): continue
            put(list(ps))
            if n < 3: put(list(ps), end="")
    for n in list(range(1, 40)) + [98, 99, 100, 101, 102, 150, 250]:
        r = {("k%d" % i): i for i in range(n)}
        put([("t", [r, {"k0": "x"}])]); put([("i", [r])])
    for L in (10, 100, 1000, 3000, 4000, 4070): put([("t", [{"a": "v" * L}])]); put([("t", [{"k" * L: 1}])]); put([("i", [{"a": "v" * L}])])
    for L in (4094, 4095, 4096, 5000, 9000): put([("x", "l" * L), ("t", [{"a": 1}])])
    for n in (10, 100, 1500): put([("t", [{"n": i, "v": "r%d" % i} for i in range(n)])])
    f.go()


def body(c):
    for p in (csv2json, jsonl2csv, srt2jsonl, srtadjust, zipranges, decompose, noext, jsontable): p(c)


if __name__ == "__main__":
    main("C41", body, ["texts are UTF-8 without NUL bytes; CSV has no blank lines; JSON objects have different names in a row and numbers a double holds exactly", "the programs run from a fork server around their main function, compiled with AddressSanitizer and UBSan"])
