"""C44: programs for logs, numbers and file tidying report exactly what their input contains."""
import itertools, json, math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *
from C41 import Filter, exact, show


def refused(rc, out, err):
    if rc == 0 or not err: return "accepted (exit status %d, prints %s)" % (rc, show(out))


class Files:
    def __init__(self, name):
        self.d, self.n = sub("files_" + name), 0
    def new(self, data):
        p = os.path.join(self.d, "f%d" % self.n); self.n += 1
        with open(p, "wb") as f: f.write(data)
        return p


# ---- trim
WS = b" \t\v\f"

def trimmed(data, lf):
    """the expected contents, or None when the file can't be handled"""
    out, p = b"", 0
    while p < len(data):
        m = re.compile(b"[\r\n]").search(data, p)
        if not m: line, end, p = data[p:], b"", len(data)
        elif m.group() == b"\n": line, end, p = data[p:m.start()], b"\n", m.end()
        elif data[m.end():m.end() + 1] == b"\n": line, end, p = data[p:m.start()], b"\r\n", m.end() + 1
        else: return None
        out += line.rstrip(WS) + {"unix": b"\n", "win": b"\r\n", "same": end}[lf]
    return out


def trim(c):
    f, fs = Filter(c, "trim"), Files("trim")
    def put(datas, lf):
        ps = [fs.new(d) for d in datas]
        want = [trimmed(d, lf or "unix") for d in datas]
        def j(rc, out, err):
            lines, stop = b"", False
            for p, d, w in zip(ps, datas, want):
                got = open(p, "rb").read()
                if w is None: stop = True
                if stop or w is None:
                    if got != d and (w is None or got != w): return "a file with a line end that isn't known is changed from %s to %s" % (show(d), show(got))
                elif got != w: return "the file becomes %s, not %s" % (show(got), show(w))
                elif w != d: lines += p.encode() + b"\n"
            if stop: return None if rc and err else "a line end that isn't known is not reported (exit status %d)" % rc
            if rc: return "exit status %d: %s" % (rc, show(err))
            if out != lines: return "the changed files are listed as %s, not %s" % (show(out), show(lines))
        f.add((["-l", lf] if lf else []) + ps, b"", j)
    lfs = (None, "unix", "win", "same")
    alpha = [b"a", b" ", b"\t", b"\n", b"\r\n", b"\xe9", b"\r"]
    for n in range(0, 6 if c.thorough else 5):
        for t in itertools.product(alpha, repeat=n):
            for lf in (lfs[1:] if n < 4 or c.thorough else ("same",) if sum(t[0]) % 2 else ("unix",)) if n else lfs: put([b"".join(t)], lf)
    for b in range(256):
        for lf in lfs: put([b"x" + bytes([b]) + b"y " + bytes([b]) + b"\nz \n"], lf); put([bytes([b])], lf); put([b"q\n" + bytes([b]) + b"\n"], lf)
    for n in list(range(0, 40)) + [31, 32, 33, 63, 64, 65, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 100000]:
        for e in (b"\n", b"\r\n", b""): put([b"v" * n + e + b"w  " + e], "unix"); put([b"v" + b" " * n + e + b"w" + e], "same"); put([b"v" + b" \t" * n + b"w" + e], "win")
    for n in (1, 2, 100, 5000): put([b"line \n" * n], "unix"); put([b"line\r\n" * n + b"end"], "same"); put([b"line\n" * n], "win")
    some = [b"ok\n", b"x \n", b"", b"a\rb\n", b"r\r\n", b"e"]
    for n in (2, 3):
        for t in itertools.product(some, repeat=n): put(list(t), "unix"); put(list(t), "same")
    d = os.path.join(fs.d, "dir"); os.makedirs(d, exist_ok=True)
    p = fs.new(b"x \n")
    f.add([d, p], b"", lambda rc, out, err: None if rc == 0 and out == p.encode() + b"\n" and open(p, "rb").read() == b"x\n" else "with a directory before the file: exit status %d, prints %s" % (rc, show(out)))
    f.add([os.path.join(fs.d, "missing")], b"", lambda rc, out, err: None if rc and not os.path.exists(os.path.join(fs.d, "missing")) else "a missing file is not reported")
    q = fs.new(b"x \n")
    f.add(["-l", "mac", q], b"", lambda rc, out, err: None if rc and err and open(q, "rb").read() == b"x \n" else "an unknown line format is accepted")
    f.add([], b"", exact(b""))
    f.go()


# ---- stats
def num(s): return float(s)

def near(text, v, digits, slack=1e-9):
    if math.isnan(v): return "nan" in text
    x = float(text)
    if x == v: return True
    return abs(x - v) <= 0.5000001 * 10 ** -digits + slack * max(1, abs(v)) and len(text.partition(".")[2]) == digits

def stats(c):
    f = Filter(c, "stats")
    def put(rows, sep="\t", end="\n"):
        cols = [[float(r[i]) for r in rows] for i in range(len(rows[0]))]
        def j(rc, out, err):
            if rc: return "exit status %d: %s" % (rc, show(err))
            L = out.decode().split("\n")
            ps = [5, 25, 33, 50, 66, 75, 95, 99]
            names = ["avg", "min", "max", "N", "sum"] + ["0.%02d" % p for p in ps] + [""]
            if [l.split("\t")[0] for l in L] != names: return "prints the lines %s" % [l.split("\t")[0] for l in L]
            for l in L[:-1]:
                if len(l.split("\t")) != len(cols) + 1: return "%d columns instead of %d" % (len(l.split("\t")) - 1, len(cols))
            for i, v in enumerate(cols):
                t = {n: l.split("\t")[i + 1].strip() for n, l in zip(names, L)if n}
                n, s, so = len(v), math.fsum(v), sorted(v)
                m = s / n
                a, pm, sd = t["avg"].partition(" \u00b1 ")
                if not near(a, m, 2) or not pm: return "column %d: average %s, not %.2f" % (i, t["avg"], m)
                if n > 1:
                    d = math.sqrt(math.fsum((x - m) ** 2 for x in v) / (n - 1))
                    if not near(sd, d, 2, 1e-7): return "column %d: deviation %s, not %.2f" % (i, sd, d)
                if not near(t["min"], so[0], 2) or not near(t["max"], so[-1], 2): return "column %d: from %s to %s, not %.2f to %.2f" % (i, t["min"], t["max"], so[0], so[-1])
                if t["N"] != str(n): return "column %d: %s values, not %d" % (i, t["N"], n)
                if not near(t["sum"], s, 6): return "column %d: sum %s, not %f" % (i, t["sum"], s)
                for p in ps:
                    want = so[min(n * p // 100, n - 1)]
                    if not near(t["0.%02d" % p], want, 1): return "column %d: %d%% at %s, not %.1f" % (i, p, t["0.%02d" % p], want)
        f.add([], ("\n".join(sep.join(r) for r in rows) + end).encode(), j)
    vals = ["0", "1", "-1", "2.5", "1e3", "-0.01", "100000", "7"]
    for n in range(1, 5):
        for t in itertools.product(vals if n < 4 else vals[:5], repeat=n): put([[x] for x in t]); put([[x, t[0]] for x in t], sep=" ", end="")
    for k in range(1, 11):
        for n in (1, 2, 3, 7): put([["%d.%d" % (i * k + r, r) for i in range(k)] for r in range(n)], sep="\t" if n % 2 else "  ")
    for n in list(range(1, 130)) + [199, 200, 201, 999, 1000, 1001, 3000]:
        put([["%d" % (i * 7919 % n)] for i in range(n)]); put([["%d" % (n - i), "%d.5" % i] for i in range(n)])
    for k in range(11, 40): f.add([], ("\t".join("%d" % i for i in range(k)) + "\n").encode() * 2, refused); f.add([], ("1 2\n" + " ".join("%d" % i for i in range(k)) + "\n").encode(), refused)
    for a, b in itertools.product(range(1, 11), repeat=2):
        if a != b: f.add([], (" ".join("1" * a) + "\n" + " ".join("2" * b) + "\n").encode(), refused)
    for t in (b"", b"\n", b"x\n", b"1\n\n2\n", b"1\nx\n"): f.add([], t, refused)
    f.go()


# ---- avg
def avg(c):
    f = Filter(c, "avg")
    def stamp(i): return "20%02d-%02d-%02dT%02d:%02d:%02d" % (i % 100, 1 + i % 12, 1 + i % 28, i % 24, i % 60, (i * 7) % 60)
    def put(vals, w, ms=None, end="\n"):
        rows = [(stamp(i), ".%03d" % ((i * 37 + ms) % 1000) if ms is not None else "", v) for i, v in enumerate(vals)]
        want = []
        n = 5 if w is None else w
        for i in range(len(vals) - n + 1):
            t, m, _ = rows[i + n // 2]
            want.append((t + (m or ".000") + "Z", sum(vals[i:i + n]), n))
        def j(rc, out, err):
            if rc: return "exit status %d: %s" % (rc, show(err))
            L = out.decode().split("\n")
            if len(L) != len(want) + 1 or L[-1]: return "prints %d lines, not %d" % (len(L) - 1, len(want))
            for k, (l, (t, s, n)) in enumerate(zip(L, want)):
                a, tab, b = l.partition("\t")
                if a != t or not tab: return "line %d is for %s, not %s" % (k, a, t)
                if abs(float(b) * n - s) > 0.0500001 * n or not re.match(r"-?\d+\.\d$", b): return "line %d gives %s, not %d/%d" % (k, b, s, n)
        f.add(["-w", str(w)] if w is not None else [], ("\n".join("%s%sZ\t%d" % r for r in rows) + (end if rows else "")).encode(), j)
    vs = [0, 1, -1, 7, 1000000, 2147483647, -2147483648]
    for w in (None, 1, 2, 3, 4, 5, 6, 10):
        for n in range(0, 14): put([(i * 31) % 17 for i in range(n)], w); put([(-1) ** i * i * 1001 for i in range(n)], w, ms=n, end="")
    for w in (1, 2, 3):
        for n in range(1, 5):
            for t in itertools.product(vs if n < 4 else vs[:4], repeat=n): put(list(t), w)
    for w in (1, 2, 7, 64, 100, 101, 500): put([i * i % 1009 for i in range(600)], w, ms=5)
    f.add(["-w", "0"], b"2026-01-16T20:01:17Z\t5\n", refused)
    for t in (b"2026-01-16T20:01:17Z\n", b"2026-01-16T20:01:17Z", b"2026-01-16T20:01:17Z\t5\n2026-01-16T20:01:18Z\n", b"2026-01-16T20:01:17Z\tx\n", b"2026-01-16T20:01:17Z 5\n"): f.add(["-w", "1"], t, refused)
    f.go()


# ---- hist
def hist(c):
    f = Filter(c, "hist")
    def bars(out, w):
        L = out.decode().split("\n")
        if not L[0].startswith("value (>=)-") and not L[0].startswith("value (>=) ") or not L[0].endswith(" count") or L[-1]: return None, "no header: %s" % show(out)
        rows = []
        for l in L[1:-1]:
            m = re.match(r"( *)(\S+) \|(\u2588*)( *) (\d+)$", l)
            if not m: return None, "a line %r" % l
            rows.append((m.group(2), int(m.group(5)), len(m.group(1)) + len(m.group(2)), len(m.group(3)), len(m.group(4))))
        if len(set(r[2] for r in rows)) > 1: return None, "labels aren't aligned: %s" % show(out)
        if len(set(r[3] + r[4] for r in rows)) > 1 or (rows and rows[0][3] + rows[0][4] != w): return None, "the bars take %s columns, not %d" % (sorted(set(r[3] + r[4] for r in rows)), w)
        for a, b in itertools.combinations(rows, 2):
            if (a[1] - b[1]) * (a[3] - b[3]) < 0: return None, "bars of %d and %d for the counts %d and %d" % (a[3], b[3], a[1], b[1])
        mx = max([1] + [r[1] for r in rows])
        for r in rows:
            k = r[1] if mx <= w else r[1] * w / mx
            if (r[3] != r[1]) if mx <= w else not k - 1.001 <= r[3] <= k + 0.001: return None, "a bar of %d for the count %d (the largest is %d)" % (r[3], r[1], mx)
        return [(r[0], r[1]) for r in rows], None
    def put(vals, n=None, w=None):
        v = [float(x) for x in vals]
        N = n if n is not None else 10
        args = (["-n", str(n)] if n is not None else [])
        def raw(rc, out, err):
            if rc: return "exit status %d: %s" % (rc, show(err))
            rows = [l.split("\t") for l in out.decode().split("\n")]
            if rows.pop() != [""] or len(rows) != N: return "prints %d bins, not %d" % (len(rows), N)
            lo, cnt = [float(r[0]) for r in rows], [int(r[1]) for r in rows]
            if sum(cnt) != len(v): return "%d values counted, not %d" % (sum(cnt), len(v))
            if any(b < a for a, b in zip(lo, lo[1:])): return "the bins aren't in order: %s" % lo
            if not v: return
            step = (lo[-1] - lo[0]) / (N - 1)
            tol = 2e-5 * max(abs(lo[0]), abs(lo[-1]))     # printed with 6 digits
            if step <= 0 and tol == 0: return "the bins have no width"
            for i in range(N):
                if abs(lo[0] + i * step - lo[i]) > tol: return "bins of different widths: %s" % lo
            if min(v) < lo[0] - tol or max(v) > lo[-1] + step + tol: return "the bins from %g to %g don't hold the values from %g to %g" % (lo[0], lo[-1] + step, min(v), max(v))
            for i in range(N):
                up = lo[i + 1] if i + 1 < N else math.inf
                sure = sum(1 for x in v if x >= lo[i] + tol and x < up - tol)
                may = sum(1 for x in v if x >= lo[i] - tol and x < up + tol)
                if not sure <= cnt[i] <= may: return "bin %g counts %d values, not %d" % (lo[i], cnt[i], sure)
        def ascii(rc, out, err):
            if rc: return "exit status %d: %s" % (rc, show(err))
            rows, e = bars(out, 30 if w is None else w)
            if e: return e
            if sum(k for _, k in rows) != len(v): return "%d values counted, not %d" % (sum(k for _, k in rows), len(v))
            if len(rows) > N or (rows and rows[-1][1] == 0): return "%d lines" % len(rows)
        t = "\n".join(vals).encode() + (b"\n" if vals else b"")
        if w is None: f.add(args + ["-r"], t, raw)
        f.add(args + (["-w", str(w)] if w is not None else []), t, ascii)
    vs = ["0", "1", "-1", "2.5", "9.99", "10", "1000", "-0.3", "0.7", "0.001", "123456", "-2500000", "3e9", "-1e-9"]
    for n in range(0, 4 if c.thorough else 3):
        for t in itertools.product(vs, repeat=n): put(list(t)); put(list(t), 2); put(list(t), 7)
    for t in itertools.product(vs[:6], repeat=3): put(list(t))
    for k in range(1, 1001 if c.thorough else 400):                    # every first value at some scales
        for e in (("", "e-1", "e-2", "e-3", "e3") if k < 100 else ("e-2",)): put(["%d%s" % (k, e), "%d%s" % (k + 3, e)])
        put(["-%de-2" % k, "%de-1" % k], 5)
    for n in (2, 3, 4, 5, 16, 30, 100, 999): put([str(i * 37 % 101) for i in range(200)], n)
    for n in (1, 10, 29, 30, 31, 32, 100, 300, 3000):
        put(["5"] * n); put(["1"] * n + ["9", "9"]); put([str(i) for i in range(n)])
        for w in (0, 1, 2, 5, 9, 10, 29, 30, 31, 80): put(["1"] * n + ["9", "9", "14"], w=w)
    for b in ("0", "1"): f.add(["-n", b], b"1\n2\n", refused)
    for t in (b"x\n", b"1\nx\n", b"1 2 y"): f.add([], t, refused)
    f.go()


# ---- multicut
def multicut(c):
    f = Filter(c, "multicut")
    def cols(l):
        r = re.split(rb"[ \t\v\f\r\n]+", l)
        return r[:-1] if len(r) > 1 and r[-1] == b"" else r
    def put(sel, lines, end=b"\n"):
        want = b""
        for l in lines:
            k = cols(l)
            want += b"\t".join(k[s - 1] if 1 <= s <= len(k) else b"" for s in sel) + b"\n"
        f.add([str(s) for s in sel], b"\n".join(lines) + end, exact(want))
    toks = [b"a", b"bc", b" ", b"\t", b"  ", b"\xc3\xa9", b"x,y"]
    for n in range(0, 6 if c.thorough else 5):
        for t in itertools.product(toks, repeat=n):
            put([2, 1, 3], [b"".join(t)])
            if n < 3: put([1], [b"".join(t), b"q r", b"".join(t)]), put([2, 9, 0, -1, 2], [b"".join(t) + b"\r"])
    for k in range(0, 11): put([i + 1 for i in range(k)], [b"1 2 3 4 5 6 7 8 9 10 11", b"x"]); put([k + 1], [b"1\t2\t3\t4\t5\t6\t7\t8\t9\t10\t11"], end=b" \n"); put([k], [b"p q r s", b"t u"], end=b"\n" if k % 2 else b" ")
    for k in range(1, 101): put([1, k, k - 1, k + 1], [b" ".join(b"v%d" % i for i in range(k))])
    for k in range(101, 130): f.add(["1"], b" ".join(b"v%d" % i for i in range(k)) + b"\n", refused)
    for k in (11, 12, 20, 50): f.add(["1"] * k, b"a b\n", refused)
    for s in ("x", "", "a1", "-"): f.add([s], b"a b\n", refused)
    for L in (100, 2047, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 5000, 8190, 8191, 8192, 20000):
        put([1, 2, 3], [b"a" * L + b" b c"]); put([2, 3], [b"a " + b"b" * L + b" c", b"q w e"]); put([3], [b"a" + b" " * L + b"b\tc", b"x y z"]); put([1], [b"a" * L])
    for n in (0, 1, 100, 3000): put([2], [b"l%d c%d" % (i, i) for i in range(n)], end=b"\n" if n else b"")
    f.go()


# ---- logfmt
DIM, RESET, BRIGHT = "\x1b[2m", "\x1b[0m", "\x1b[1m"

def lval(v):
    if v is None: return "null"
    if v is True or v is False: return str(v).lower()
    if isinstance(v, str): return v
    if isinstance(v, list): return "(array)"
    if isinstance(v, dict): return ";".join("%s:%s" % (k, lval(x)) for k, x in v.items())
    return "%.0f" % v if abs(v) < 2 ** 53 and v == round(v) else "%.17g" % v

def lkv(k, v):
    if isinstance(v, dict): return " ".join(lkv("%s.%s" % (k, i), x) for i, x in v.items())
    return "%s=%s" % (k, lval(v))

def entry(o, excl):
    s = o.get("level")
    if isinstance(s, str): out = {"error": "\x1b[31m", "info": "\x1b[34m"}.get(s if s in ("error", "info") else {"ERROR": "error", "INFO": "info"}.get(s, ""), "\x1b[33m") + s.lower() + RESET
    else: out = "none"
    out += " " + DIM
    for k in ("t", "timestamp", "@timestamp"):
        if isinstance(o.get(k), str):
            m = re.match(r"\d+-\d+-\d+T(\d+):(\d+):(\d+)(?:\.(\d+))?Z$", o[k])
            out += "%s:%s:%s.%s" % (m.group(1), m.group(2), m.group(3), ((m.group(4) or "") + "000")[:3]); break
    out += RESET + " " + BRIGHT
    for k in ("msg", "message"):
        if k in o: out += lval(o[k]); break
    out += RESET + " " + DIM
    for k, v in o.items():
        if k not in ("level", "t", "timestamp", "@timestamp", "msg", "message", "data") and k not in excl: out += " " + lkv(k, v)
    out += RESET
    if "data" in o: out += "\n" + lval(o["data"])
    return out + "\n"

def logfmt(c):
    f = Filter(c, "logfmt")
    def put(lines, excl=None, end="\n"):
        t, w = "", ""
        for i, l in enumerate(lines):
            e = end if i == len(lines) - 1 else "\n"
            if isinstance(l, dict): t += json.dumps(l, ensure_ascii=False) + e; w += entry(l, (excl or "").split(","))
            else: t += l + e; w += l + e
        f.add(["-x", excl] if excl is not None else [], t.encode(), exact(w.encode()))
    levels = [None, "info", "INFO", "error", "ERROR", "Warn", "", 5, "Info"]
    times = [None, ("t", "2026-01-16T20:01:17.278Z"), ("timestamp", "2025-12-08T00:00:00Z"), ("@timestamp", "2024-02-29T23:59:59.9Z"), ("t", 12)]
    msgs = [None, ("msg", "hello"), ("message", "there"), ("msg", 7), ("msg", {"a": 1, "b": {"c": "x"}})]
    rest = [{}, {"a": 1}, {"a": None, "b": True, "c": False, "d": "s p", "e": [1], "f": 2.5, "g": -9007199254740991, "h": 0.1}, {"o": {"x": 1, "y": {"z": "q", "w": {}}}}, {"data": "text"}, {"data": {"k": 1, "l": [2]}, "k": "v"}, {"levels": 1, "ts": 2, "": 3, "Msg": 4}]
    for l, t, m, r in itertools.product(levels, times, msgs, rest):
        o = {}
        if l is not None: o["level"] = l
        if t: o[t[0]] = t[1]
        if m: o[m[0]] = m[1]
        put([{**o, **r}]); 
        if l == "info": put([{**r, **o}], excl="a,o")
    for a, b in itertools.permutations([("t", "2026-01-16T20:01:17Z"), ("timestamp", "2025-12-08T01:02:03Z"), ("@timestamp", "2024-02-29T23:59:59Z"), ("msg", "m1"), ("message", "m2")], 2): put([dict([a, b])])
    vs = [0, 1, -1, 1.5, 0.1, 1e15, 123456789012, 1e21, 1e300, 5e-7, "", "\u00e9", "a\"b", "back\\slash", True, None, [], {}, [1, 2], {"a": {}}]
    for a, b in itertools.product(vs, repeat=2): put([{"x": a, "msg": "m", "y": b}]); put([{"o": {"p": a, "q": b}}]); put([{"data": {"p": a, "q": b}}])
    parts = [{"msg": "m"}, {}, "text", "", "{broken", "5", "[1,2]", "\"str\"", "null", "true", "[]", {"level": "info", "a": 1}]
    for n in range(1, 4):
        for t in itertools.product(parts, repeat=n): put(list(t)); n < 3 and put(list(t), end="")
    keys = ["a", "b", "ab", "c.d", "level"]
    for n in range(0, 4):
        for t in itertools.product(keys, repeat=n): put([{"a": 1, "b": 2, "ab": 3, "c.d": 4, "level": "x", "abc": 5}], excl=",".join(t))
    for n in list(range(1, 110)) + [150, 300]:
        ks = ["k%d" % i for i in range(n)]
        put([{k: i for i, k in enumerate(ks)}]); put([{k: i for i, k in enumerate(ks + ["z"])}], excl=",".join(ks)) if n <= 100 else f.add(["-x", ",".join(ks)], b"text\n", exact(b"text\n"))
        o = 1
        for i in range(n): o = {"n%d" % (i % 10): o}
        if n <= 110: put([{"deep": o}])
    for L in list(range(1, 130)) + [255, 256, 1000, 4095, 4096, 9000]: put([{"k" * L: {"j" * L: 1}}]); put([{"a": {"k" * L: {"b": "v" * L}}}]); put([{"msg": "m" * L}]); put(["t" * L, {"a": 1}])
    for n in (10, 1000): put([{"msg": "m%d" % i, "n": i} for i in range(n)])
    f.go()


# ---- bencode
def benc(v):
    if isinstance(v, int): return b"i%de" % v
    if isinstance(v, bytes): return b"%d:%s" % (len(v), v)
    if isinstance(v, list): return b"l" + b"".join(map(benc, v)) + b"e"
    return b"d" + b"".join(benc(k) + benc(x) for k, x in v.items()) + b"e"

PINNED = set()            # what prog/bencode/1.snapshot has recorded: see known_findings.txt

def bstr(s):
    """what can't be printed comes in hexadecimal, 22 bytes at most"""
    if all(32 <= x < 127 for x in s): return s
    if "hex" in PINNED: return ("".join("%x" % x for x in s[:22]) + ("...%d more..." % (len(s) - 21) if len(s) >= 22 else "")).encode()
    return ("".join("%02x" % x for x in s[:22]) + ("...%d more..." % (len(s) - 22) if len(s) > 22 else "")).encode()

def bshow(v, ind=0):
    if isinstance(v, int): return b"%d" % (((v + 2 ** 31) % 2 ** 32 - 2 ** 31) if "num" in PINNED else v)
    if isinstance(v, bytes): return bstr(v)
    pad = b"_ " * (ind + 1)
    if isinstance(v, list):
        return b"[\n" + b"".join(pad + b"%d: " % i + bshow(x, ind + 1) + (b"," if i + 1 < len(v) else b"") + b"\n" for i, x in enumerate(v)) + b"_ " * ind + b"]"
    return b"{\n" + b"".join(pad + bstr(k) + b": " + bshow(x, ind + 1) + (b"," if i + 1 < len(v) else b"") + b"\n" for i, (k, x) in enumerate(v.items())) + b"_ " * ind + b"}"

def bencode(c):
    f, fs = Filter(c, "bencode"), Files("bencode")
    def put(*vs):
        forms = []
        for pins in ((), ("num",), ("hex",), ("num", "hex")):
            PINNED.clear(); PINNED.update(pins)
            forms.append((b"".join(map(bshow, vs)), pins))
        PINNED.clear()
        def j(rc, out, err):
            if rc: return "exit status %d: %s" % (rc, show(err))
            for t, pins in forms:
                if out == t: return None if not pins else ("prints %s, not %s" % (show(out), show(forms[0][0])), "bencode-" + pins[0])
            return "prints %s, not %s" % (show(out), show(forms[0][0]))
        f.add([fs.new(b"".join(map(benc, vs)))], b"", j)
    nums = [0, 1, -1, 9, 10, 2147483647, 2147483648, -2147483648, -2147483649, 4294967296, 10 ** 12, 2 ** 63 - 1, -2 ** 63 + 1]
    strs = [b"", b"a", b"name", b"two words", b"\n", b"\xff", b"a\x00b", b"\x01\x0f", b"~\x7f"]
    for v in nums + strs: put(v); put([v]); put(v, v); put([v, v]); put({b"k": v})
    lvl = [7, b"s", b"\x10", {}, []]
    for depth in range(3):
        nxt = []
        for k in "dl":
            for n in (1, 2, 3):
                pool = lvl if len(lvl) ** n <= 2500 else lvl[:: max(1, len(lvl) // 12)] if n == 2 else lvl[:6]
                for t in itertools.product(pool, repeat=n):
                    v = dict(zip([b"a", b"bb", b"\x11c"], t)) if k == "d" else list(t)
                    put(v); nxt.append(v)
        lvl = [7, b"s"] + nxt[:: max(1, len(nxt) // 25)]
    for n in list(range(1, 60)) + [99, 100, 1000, 70000]: put(b"p" * n); put(b"\x80" * n); put(bytes(i % 256 for i in range(n)))
    for n in list(range(1, 130)) + [200, 1000, 5000]: put({b"k" * n: 1, b"\x90" * n: b"v"})
    for b in range(256): put(bytes([b])); put(b"x" + bytes([b]))
    for n in (10, 300): put(list(range(n)))
    def deep(n):
        v = 1
        for i in range(n): v = [v]
        return v
    for n in range(1, 11): put(deep(n))
    for n in range(11, 30): f.add([fs.new(b"l" * n + b"e" * n)], b"", refused)
    f.add([os.path.join(fs.d, "missing")], b"", refused)
    f.go()


def body(c):
    for p in (trim, stats, avg, hist, multicut, logfmt, bencode): p(c)


if __name__ == "__main__":
    main("C44", body, ["time stamps are in UTC and the programs run with TZ=UTC0; JSON objects have different names in a row and numbers a double holds exactly", "the programs run from a fork server around their main function, compiled with AddressSanitizer and UBSan"])
