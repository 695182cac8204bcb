"""C45: the web server serves exactly the files below its directory, and no client can end it."""
import itertools, os, re, resource, signal, socket, stat, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *


def build(name):
    src = os.path.join(REPO, "prog", name, name + ".c")
    d = sub("prog_" + name)
    r, files = genc(src, os.path.join(d, "c"), cwd=os.path.dirname(src))
    if r.rc != 0: raise BuildFailure("che genc of %s failed (rc=%s):\n%s%s" % (name, r.rc, r.out[-2000:], r.err[-2000:]))
    flags = ["-std=gnu99", "-w", "-g", "-O1", "-fwrapv", "-fno-strict-aliasing"] + SAN
    jobs = [(s, os.path.join(d, "o%d.o" % i)) for i, s in enumerate(files)]
    for j, r in zip(jobs, pmap(lambda j: run(["gcc"] + flags + ["-c", j[0], "-o", j[1]], timeout=300), jobs)):
        if r.rc != 0: raise BuildFailure("gcc failed on %s:\n%s" % (j[0], r.err[-3000:]))
    exe = os.path.join(d, name + ".exe")
    r = run(["gcc"] + flags + [j[1] for j in jobs] + ["-o", exe, "-lm", "-lpthread"], timeout=300)
    if r.rc != 0: raise BuildFailure("link failed for %s:\n%s" % (name, r.err[-3000:]))
    return exe


class Bad(Exception): pass


class Server:
    def __init__(self, c, exe, home):
        self.c, self.home, self.n = c, home, 0
        for attempt in range(20):
            s = socket.socket(); s.bind(("127.0.0.1", 0)); self.port = s.getsockname()[1]; s.close()
            self.err = open(os.path.join(os.path.dirname(exe), "stderr"), "w+b")
            def limits(): resource.setrlimit(resource.RLIMIT_NOFILE, (200, 200)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            self.p = subprocess.Popen([exe, "-a", "127.0.0.1:%d" % self.port], cwd=home, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=self.err, preexec_fn=limits,
                                      env={"PATH": os.environ["PATH"], "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0"})
            for i in range(400):
                if self.p.poll() is not None: break
                try: socket.create_connection(("127.0.0.1", self.port), 2).close(); return
                except OSError: time.sleep(0.05)
            if self.p.poll() is None: self.p.kill()
        raise EnvFailure("the web server doesn't start: %s" % self.errors())
    def errors(self):
        self.err.seek(0); return self.err.read().decode("latin1")
    def dead(self, what):
        for i in range(20):
            if self.p.poll() is not None: break
            time.sleep(0.05)
        e = self.errors()
        if self.p.poll() is not None: return "%s: the server has ended (status %s) %s" % (what, self.p.returncode, next((l for l in e.splitlines() if "ERROR" in l or "runtime error" in l), e[-300:]))
        return None
    def conn(self):
        for i in range(200):
            try:
                s = socket.create_connection(("127.0.0.1", self.port), 20); s.settimeout(20); s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); return s
            except (ConnectionResetError, socket.timeout): time.sleep(0.02)
            except OSError as e:
                w = self.dead("connecting")
                raise Bad(w or "no connection: %s" % e)
        raise Bad("no connection")
    def answer(self, s, what):
        """reads one answer: (status, headers, body)"""
        b = b""
        def more():
            nonlocal b
            try: x = s.recv(65536)
            except OSError as e: raise Bad(self.dead(what) or "%s: no answer (%s)" % (what, e))
            if not x: raise Bad(self.dead(what) or "%s: the answer ends after %d bytes %r" % (what, len(b), b[:300]))
            b += x
        while True:
            m = re.search(rb"\r?\n\r?\n", b)
            if m: break
            more()
        head = re.split(rb"\r?\n", b[:m.start()]); body = b[m.end():]
        st = re.match(rb"HTTP/1\.[01] (\d+)( .*)?$", head[0])
        if not st: raise Bad("%s: the status line is %r" % (what, head[0]))
        hs = {}
        for h in head[1:]:
            k, sep, v = h.partition(b": ")
            if not sep: raise Bad("%s: a header line %r" % (what, h))
            hs[k.lower().decode()] = v.decode("latin1")
        if not re.match(r"\d+$", hs.get("content-length", "")): raise Bad("%s: Content-Length is %r" % (what, hs.get("content-length")))
        n = int(hs["content-length"]); b = body
        while len(b) < n: more()
        if len(b) > n: raise Bad("%s: %d bytes after an answer of %d" % (what, len(b) - n, n))
        self.n += 1
        return int(st.group(1)), hs, b
    def get(self, path, s=None, query="", headers="Host: h\r\n"):
        own = s is None
        if own: s = self.conn()
        try: s.sendall(("GET %s%s HTTP/1.0\r\n%s\r\n" % (path, query, headers)).encode())
        except OSError: pass
        r = self.answer(s, "GET %s" % path[:200])
        if own: s.close()
        return r
    def quiet(self, what):
        """the server still answers"""
        st, hs, b = self.get("/a.txt")
        if st != 200 or b != b"A\n": raise Bad("%s: afterwards /a.txt gives %d %r" % (what, st, b[:100]))


def put(p, data=b"", mode=0o644):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f: f.write(data)
    os.chmod(p, mode)


SCRIPTS = {}

def world():
    top = sub("world"); home = os.path.join(top, "www")
    for n, d in (("a.txt", b"A\n"), ("b.bin", bytes(range(256))), ("dir/c.html", b"<p>"), ("dir/deep/d.css", b"d{}"), ("noext", b"n"), ("empty.txt", b""), ("x.png", b"\x89PNG\r\n\r\n\0")): put(os.path.join(home, n), d)
    for n in (1, 4095, 4096, 4097, 65536, 100001, 3000000): put(os.path.join(home, "size%d" % n), bytes((i * 7 + i // 251) % 256 for i in range(min(n, 100001))) + b"z" * max(0, n - 100001))
    for n in ("secret.txt", "www2/s.txt", "www.txt", "ww/s.txt", "wwwx/www/a.txt"): put(os.path.join(top, n), b"SECRET " + n.encode())
    put(os.path.join(home, "www2/s.txt"), b"inner s")
    for n, t in (("lin", "a.txt"), ("ldir", "dir"), ("lout", "../secret.txt"), ("lsib", "../www2"), ("ltop", ".."), ("lself", "../www"), ("lnone", "nothing"), ("lloop", "lloop"), ("dir/lup", "../a.txt")): os.symlink(t, os.path.join(home, n))
    put(os.path.join(home, "run.sh"), b"#!/bin/sh\ntouch %s/ran\necho 'Status: 200'\necho\n" % top.encode(), 0o755)
    put(os.path.join(top, "www2/out.sh"), b"#!/bin/sh\ntouch %s/ran\necho 'Status: 200'\necho\n" % top.encode(), 0o755)
    def script(name, text, want):
        put(os.path.join(home, "cgi-bin", name), b"#!/bin/sh\n" + text, 0o755); SCRIPTS[name] = want
    T = b"printf 'Content-Type: text/x\\n\\n'\n"
    script("ok", T + b"echo body\n", (200, b"body\n"))
    script("nobody", T, (200, b""))
    script("crlf", b"printf 'Content-Type: text/x\\r\\nX-A: b c\\r\\n\\r\\nhi\\r\\n'\n", (200, b"hi\r\n"))
    for n in list(range(1, 40)) + [4000, 4050, 4070, 4071, 4072, 4073, 4074, 4075, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 200000]: script("out%d" % n, T + b"head -c %d /dev/zero | tr '\\0' k\n" % n, (200, b"k" * n))
    script("slow", b"printf 'Content-'\nsleep 0.1\nprintf 'Type: text/x\\n'\nsleep 0.1\nprintf '\\nab'\nsleep 0.1\nprintf cd\n", (200, b"abcd"))
    script("st200", b"printf 'Status: 200\\nContent-Type: text/x\\n\\nx'\n", (200, b"x"))
    for st in (b"404 Not Found", b"201 Created", b"503 Busy", b"302 Found"): script("st" + st[:3].decode(), b"printf 'Content-Type: text/x\\nStatus: " + st + b"\\n\\nx'\n", (int(st[:3]), b"x"))
    script("length", b"printf 'Content-Type: text/x\\nContent-Length: 3\\n\\nxyz'\n", (200, b"xyz"))
    for n in (1, 2, 7, 127, 255): script("exit%d" % n, T + b"exit %d\n" % n, (500, None))
    for n in (9, 15, 11): script("kill%d" % n, T + b"kill -%d $$\n" % n, (500, None))
    script("nohead", b"echo no head at all\n", (500, None))
    script("silent", b"true\n", (500, None))
    script("input", T + b"cat; echo end\n", (200, b"end\n"))
    script("env", T + b"echo \"$QUERY_STRING|$REQUEST_METHOD|$SCRIPT_NAME|$REQUEST_URI|$SCRIPT_FILENAME|$HTTP_HOST|$HTTP_USER_AGENT|$CONTENT_TYPE\"\n", None)
    put(os.path.join(home, "cgi-bin/plain.txt"), b"not executable\n"); SCRIPTS["plain.txt"] = (500, None)
    put(os.path.join(home, "cgi-bin/sub/deep"), b"#!/bin/sh\n" + T + b"echo deep\n", 0o755); SCRIPTS["sub/deep"] = (200, b"deep\n")
    return top, home


def model(home, path):
    """(kind, data) of a request path"""
    if path == "/": return "list", None
    full = home + "/" + path
    try: os.stat(full)
    except OSError: return "404", None
    real = os.path.realpath(full)
    if not real.startswith(home + "/") or os.path.isdir(real): return "404", None
    if real.startswith(home + "/cgi-bin/"): return "cgi", os.path.relpath(real, home + "/cgi-bin")
    return "file", open(real, "rb").read()


def judge(home, path, r):
    kind, data = model(home, path)
    st, hs, b = r
    if kind == "404": return None if st == 404 else "gives %d %r, not 404" % (st, b[:100])
    if kind == "file": return None if st == 200 and b == data else "gives %d and %d bytes %r, not the file's %d bytes %r" % (st, len(b), b[:60], len(data), data[:60])
    if kind == "cgi":
        w = SCRIPTS.get(data)
        if w and (st != w[0] or w[1] is not None and b != w[1]): return "gives %d and %d bytes %r, not %d %r" % (st, len(b), b[:60], w[0], (w[1] or b"")[:60])
        return None
    names = sorted(re.findall(rb'href="([^"]*)"', b))
    want = sorted(n.encode() for n in os.listdir(home))
    if st != 200 or [n for n in names if n not in (b".", b"..")] != want: return "lists %r (%d), not %r" % (names, st, want)


def body(c):
    exe = build("webserver")
    top, home = world()
    home = os.path.realpath(home); top = os.path.realpath(top)
    s = Server(c, exe, home)
    th = c.thorough
    def part(name, jobs, f, workers=8):
        """f(job) -> number of transitions; raises Bad"""
        bad, steps = [], 0
        jobs = list(jobs)
        def one(j):
            if len(bad) >= 3: return 0
            try: return f(j) or 1
            except Bad as e: bad.append((j, str(e))); return 0
        with ThreadPoolExecutor(workers) as ex: steps = sum(ex.map(one, jobs))
        try:
            if not bad: s.quiet("after " + name)
        except Bad as e: bad.append((jobs[-1], str(e)))
        for j, w in bad[:3]: c.violation("%s: %s" % (name, w), "job: %r\n%s\nserver errors:\n%s\n" % (j, w, s.errors()[-4000:]))
        c.count(name, states=len(jobs), transitions=steps, traces=len(jobs))
        for k in (len(jobs) // 2, len(jobs) - 1): c.sample("%s %r" % (name, jobs[k]))
        return not bad
    def get(path):
        w = judge(home, path, s.get(path))
        if w: raise Bad("GET %s %s" % (path[:200], w))
    def paths():
        seg = ["a.txt", "dir", "c.html", "..", ".", "", "www", "www2", "s.txt", "secret.txt", "lin", "lout", "ldir", "lsib", "ltop", "lself", "lup", "cgi-bin", "ok", "run.sh", "missing"]
        deep = ["..", "dir", "www", "a.txt", "www2", "s.txt", "cgi-bin", "lself"]
        for n in range(1, 4):
            for t in itertools.product(seg, repeat=n): yield "/" + "/".join(t)
        for n in (4, 5, 6) if th else (4,):
            for t in itertools.product(deep if n < 5 else deep[:5], repeat=n): yield "/" + "/".join(t)
        for p in ("a.txt", "dir/c.html", "../secret.txt", "/a.txt/", "/a.txt/..", "/lnone", "/lloop", "/a.txt?x=1", "/wwwx", "/../ww/s.txt", "/../www.txt", "/../wwwx/www/a.txt", "/cgi-bin/../run.sh", "/dir/../cgi-bin/ok", "/cgi-bin/../../www2/out.sh", "/noext", "/empty.txt", "/b.bin", "/x.png"): yield p
    def fget(p):
        q = p.partition("?")[0]
        w = judge(home, q, s.get(p))
        if w: raise Bad("GET %s %s" % (p, w))
    try:
        ok = part("paths", dict.fromkeys(paths()), fget)
        if os.path.exists(os.path.join(top, "ran")): c.violation("paths: a program outside of cgi-bin was run")
        types = {"/a.txt": "text/plain", "/dir/c.html": "text/html", "/dir/deep/d.css": "text/css", "/x.png": "image/png", "/noext": "text/plain", "/size1": "text/plain"}
        def typed(p):
            st, hs, b = s.get(p)
            if hs.get("content-type") != types[p]: raise Bad("%s has the type %r, not %r" % (p, hs.get("content-type"), types[p]))
        ok = ok and part("types", types, typed)
        ok = ok and part("sizes", ["/size%d" % n for n in (1, 4095, 4096, 4097, 65536, 100001, 3000000)], get)
        # lengths of paths: the longest are refused, never overrun
        def long(n):
            x = s.conn()
            p = "/" + "./" * (n // 2) + "a.txt"
            try: x.sendall(("GET %s HTTP/1.0\r\nHost: h\r\n\r\n" % p).encode())
            except OSError: pass
            try: st, hs, b = s.answer(x, "path of %d" % n)
            except Bad as e:
                w = s.dead("a path of %d bytes" % len(p))
                if w: raise Bad(w)
                if n < 900: raise
                st, b = 0, b""
            x.close()
            if st == 200 and b != b"A\n" or st not in (0, 200, 404): raise Bad("a path of %d bytes gives %d %r" % (len(p), st, b[:80]))
            if n < 900 and st != 200: raise Bad("a path of %d bytes gives %d" % (len(p), st))
        ok = ok and part("long", list(range(0, 1100, 20)) + list(range(2000, 5200, 50 if not th else 2)) + [10000, 70000], long)
        # scripts
        def cgi(j):
            name, i = j
            if name == "env":
                st, hs, b = s.get("/cgi-bin/env", query="?a=%d&b=c" % i, headers="Host: host%d\r\nUser-Agent: me %d\r\nContent-Type: t/x\r\n" % (i, i))
                w = "a=%d&b=c|GET|/cgi-bin/env|/cgi-bin/env?a=%d&b=c|%s/cgi-bin/env|host%d|me %d|t/x\n" % (i, i, home, i, i)
                if st != 200 or b != w.encode(): raise Bad("a script's environment gives %r, not %r" % (b[:300], w))
                return
            st, hs, b = s.get("/cgi-bin/" + name)
            w = SCRIPTS[name]
            if st != w[0] or w[1] is not None and b != w[1]: raise Bad("script %s gives %d and %d bytes %r, not %d %r" % (name, st, len(b), b[:60], w[0], (w[1] or b"")[:60]))
            if w[0] == 200 and hs.get("content-type") != "text/x": raise Bad("script %s: the header is lost: %r" % (name, hs))
        ok = ok and part("scripts", [(n, i) for i in range(3) for n in SCRIPTS], cgi)
        # clients that leave at every point of a request and of an answer
        req = b"GET /a.txt?q=1 HTTP/1.0\r\nHost: h\r\nUser-Agent: x y\r\n\r\n"
        def leave(j):
            k, how, target, got = j
            x = s.conn()
            try:
                x.sendall((req if target is None else b"GET %s HTTP/1.0\r\nHost: h\r\n\r\n" % target)[:k])
                if how == "half": x.shutdown(socket.SHUT_WR); x.recv(100000)
                if got: x.recv(got)
            except OSError: pass
            if how == "reset": x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            x.close()
            time.sleep(0.002)
            s.quiet("a client that left (%s) after %d bytes of %r" % (how, k, (target or req)[:30]))
            return 3
        jobs = [(k, how, None, 0) for k in range(len(req) + 1) for how in ("close", "reset", "half")]
        jobs += [(1000, how, t, g) for how in ("close", "reset") for t in (b"/size3000000", b"/size100001", b"/", b"/missing", b"/a.txt", b"/cgi-bin/out200000", b"/cgi-bin/ok") for g in (0, 1, 100, 5000, 70000) if g < 1000 or b"size" in t or b"out" in t for i in range(3)]
        ok = ok and part("leaving", jobs, leave, 4)
        # requests that aren't any
        def broken(b):
            x = s.conn(); x.settimeout(0.5)
            try:
                x.sendall(b); x.shutdown(socket.SHUT_WR)
                while x.recv(65536): pass
            except OSError: pass
            x.close()
            s.quiet("the request %r" % b[:60])
            return 2
        junk = [b"", b"\r\n", b"\n", b"G", b"GET", b"GET \r\n\r\n", b"GET /a.txt\r\n\r\n", b"GET /a.txt HTTP/1.0\n\n", b" / HTTP/1.0\r\n\r\n", b"GET  / HTTP/1.0\r\n\r\n", b"GET /a.txt HTTP/1.0\r\nNoColon\r\n\r\n", b"GET /a.txt HTTP/1.0\r\n: v\r\n\r\n", b"GET /a.txt HTTP/1.0\r\nA:b\r\n\r\n", b"\0\0\0\0", b"GET /\0a HTTP/1.0\r\n\r\n", b"POST /a.txt HTTP/1.0\r\nContent-Length: 3\r\n\r\nabc", b"GET %s HTTP/1.0\r\n\r\n", b"GET /%s%n%x HTTP/1.0\r\nA: %s%n\r\n\r\n", b"GET /a.txt %s%n\r\n\r\n"]
        for n in (1, 5, 9, 10, 11, 63, 64, 65, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 20000):
            junk += [b"M" * n + b" /a.txt HTTP/1.0\r\n\r\n", b"GET /" + b"p" * n + b" HTTP/1.0\r\n\r\n", b"GET /a.txt?" + b"q" * n + b" HTTP/1.0\r\n\r\n", b"GET /a.txt HTTP/" + b"1" * n + b"\r\n\r\n", b"GET /a.txt HTTP/1.0\r\n" + b"N" * n + b": v\r\n\r\n", b"GET /a.txt HTTP/1.0\r\nN: " + b"v" * n + b"\r\n\r\n", b"x" * n, b"GET /cgi-bin/env?" + b"e" * n + b" HTTP/1.0\r\nUser-Agent: " + b"u" * n + b"\r\n\r\n"]
        for n in range(0, 130): junk.append(b"GET /a.txt HTTP/1.0\r\n" + b"".join(b"H%d: v\r\n" % i for i in range(n)) + b"\r\n")
        sym = [b"GET", b" ", b"/a.txt", b"HTTP/1.0", b"\r\n", b":"]
        for n in range(1, 6 if th else 5):
            for t in itertools.product(sym, repeat=n): junk.append(b"".join(t))
        ok = ok and part("broken", dict.fromkeys(junk), broken, 16)
        # several requests of one client
        kinds = ["/a.txt", "/missing", "/", "/size100001", "/cgi-bin/ok", "/../secret.txt", "/empty.txt", "/cgi-bin/exit1"]
        def keep(t):
            x = s.conn()
            for p in t:
                w = judge(home, p, s.get(p, x))
                if w: raise Bad("requests %s on one connection: %s %s" % (list(t), p, w))
            x.close()
            return len(t)
        ok = ok and part("sequences", [t for n in (1, 2, 3) for t in itertools.product(kinds if n < 3 or th else kinds[:5], repeat=n)] + [("/a.txt", "/missing") * 200], keep)
        def keepenv(t):
            x = s.conn()
            for q, h in t:
                st, hs, b = s.get("/cgi-bin/env", x, q, "".join("%s: %s\r\n" % kv for kv in h))
                d = dict(h)
                w = "%s|GET|/cgi-bin/env|/cgi-bin/env%s|%s/cgi-bin/env|%s|%s|%s\n" % (q[1:], q, home, d.get("Host", ""), d.get("User-Agent", ""), d.get("Content-Type", ""))
                if st != 200 or b != w.encode(): raise Bad("requests %s on one connection: the environment is %r, not %r" % (t, b[:300], w))
            x.close()
            return len(t)
        envs = [("", ()), ("?a=1", (("Host", "h"),)), ("?longer=22&x", (("Content-Type", "t"), ("User-Agent", "u v"))), ("?", (("Host", "other"), ("X", "y")))]
        ok = ok and part("environments", [t for n in (1, 2, 3) for t in itertools.product(envs, repeat=n)], keepenv)
        # two clients, their requests and answers interleaved in every order
        def orders(a, b):
            if not a or not b: yield (0,) * a + (1,) * b; return
            for o in orders(a - 1, b): yield (0,) + o
            for o in orders(a, b - 1): yield (1,) + o
        def inter(j):
            pair, order = j
            xs = [s.conn(), s.conn()]; at = [0, 0]
            for who in order:                                  # connect has happened; 3 pieces, then the answer
                r = ("GET %s HTTP/1.0\r\nHost: h%d\r\n\r\n" % (pair[who], who)).encode()
                cut = [0, 5, len(r) - 3, len(r)]
                k = at[who]; at[who] += 1
                if k < 3: xs[who].sendall(r[cut[k]:cut[k + 1]])
                else:
                    w = judge(home, pair[who], s.answer(xs[who], "GET " + pair[who]))
                    if w: raise Bad("two clients asking for %s in the order %s: %s" % (pair, order, w))
            for x in xs: x.close()
            return len(order)
        ok = ok and part("two clients", [(p, o) for p in itertools.product(["/a.txt", "/missing", "/size100001", "/cgi-bin/ok", "/b.bin"], repeat=2) for o in orders(4, 4)], inter)
        # clients that stay connected don't keep others out
        def idle(n):
            xs = []
            for i in range(n):                                  # over the server's limit some have to wait outside
                if n < 100: xs.append(s.conn()); continue
                x = socket.socket(); x.setblocking(False); xs.append(x)
                try: x.connect(("127.0.0.1", s.port))
                except OSError: pass
                time.sleep(0.001)
            if n < 100: s.quiet("%d idle clients" % n)
            for x in xs: x.close()
            s.quiet("%d clients that were connected" % n)
            return n
        ok = ok and part("idle", list(range(1, 21)) + [90, 180, 190, 195, 200, 205, 220, 260, 10], idle, 1)
        if os.path.exists(os.path.join(top, "ran")): c.violation("a program outside of cgi-bin was run")
        if ok:
            s.p.send_signal(signal.SIGINT)
            try: rc = s.p.wait(20)
            except subprocess.TimeoutExpired: rc = None
            if rc != 0 or "ERROR" in s.errors() or "runtime error" in s.errors(): c.violation("the server ends with %s when interrupted" % rc, s.errors()[-4000:])
    finally:
        if s.p.poll() is None: s.p.kill()
        s.p.wait()


if __name__ == "__main__":
    main("C45", body, ["clients send one GET request at a time and read the answer before the next one", "the server runs in a scratch directory on the loopback network with 200 file descriptors, compiled with AddressSanitizer and UBSan"])
