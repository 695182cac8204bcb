"""Shared machinery of the checks: building che from /repo, compiling drivers
against che-translated library modules, collecting counts, reporting."""
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = min(8, os.cpu_count() or 1)

ENV = dict(os.environ)
ENV.update(HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="")
ENV["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
ENV.pop("CARGO_TARGET_DIR", None)
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV["CARGO_INCREMENTAL"] = "0"

SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
ASAN_OPTS = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"


class BuildFailure(Exception):
    """The code under test does not translate or compile for its callers."""


class EnvFailure(Exception):
    """The sandbox cannot build the translator at all: an error, not a verdict."""


def _srchash():
    h = hashlib.sha256()
    for f in ["Cargo.toml", "Cargo.lock"]:
        h.update(open(os.path.join(REPO, f), "rb").read())
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


_che = None


def che():
    """Builds the translator from /repo's working tree and returns the binary's path."""
    global _che
    if _che:
        return _che
    import fcntl
    tgt = os.path.join(BUILD, "target")
    os.makedirs(tgt, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        want = _srchash()
        out = os.path.join(BUILD, "che-" + want[:16])
        if not os.path.exists(out):
            fp = os.path.join(tgt, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("che-"):
                        shutil.rmtree(os.path.join(fp, d))
            env = dict(ENV, CARGO_TARGET_DIR=tgt)
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", REPO + "/Cargo.toml",
                                "--config", "profile.dev.opt-level=1", "--config", "profile.dev.debug=0"],
                               env=env, capture_output=True, text=True, timeout=800)
            if r.returncode != 0:
                raise EnvFailure("cargo build failed:\n" + r.stderr[-4000:])
            for f in os.listdir(BUILD):
                if f.startswith("che-"):
                    os.unlink(os.path.join(BUILD, f))
            shutil.copy(os.path.join(tgt, "debug", "che"), out + ".tmp")
            os.rename(out + ".tmp", out)
        _che = os.path.join(tmpdir(), "che")
        shutil.copy(out, _che)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    return _che


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vp_", dir="/tmp")
        atexit.register(lambda d=_tmp, p=os.getpid(): shutil.rmtree(d, ignore_errors=True) if os.getpid() == p else None)
    return _tmp


def sub(name):
    d = os.path.join(tmpdir(), name)
    os.makedirs(d, exist_ok=True)
    return d


_home = None


def home():
    """A scratch CHELANG_HOME whose lib is /repo's lib."""
    global _home
    if _home is None:
        h = sub("home")
        os.symlink(os.path.join(REPO, "lib"), os.path.join(h, "lib"))
        os.makedirs(h + "/tmp", exist_ok=True)
        os.makedirs(h + "/bin", exist_ok=True)
        _home = h
    return _home


class R:
    """Result of a bounded run."""
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def _limits(mem_mb, cpu):
    import resource
    def f():
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, cwd=None, env=None, stdin=None, timeout=60, mem_mb=None, cpu=None, text=True, extra_env=None):
    e = dict(ENV if env is None else env)
    e.setdefault("CHELANG_HOME", home())
    if extra_env:
        e.update(extra_env)
    pre = _limits(mem_mb, cpu)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=pre)
    to = False
    try:
        o, er = p.communicate(stdin if (stdin is None or isinstance(stdin, bytes)) else stdin.encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
    if text:
        o = o.decode("utf-8", "replace"); er = er.decode("utf-8", "replace")
    return R(p.returncode, o, er, to)


def run_che(args, cwd=None, timeout=60, mem_mb=4096, extra_env=None, stdin=None):
    return run([che()] + args, cwd=cwd, timeout=timeout, mem_mb=mem_mb, extra_env=extra_env, stdin=stdin)


def pmap(f, xs, n=NCPU):
    xs = list(xs)
    with cf.ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(f, xs))


def genc(src, outdir, cwd=None, timeout=120):
    """Translates; returns (R, list of C files)."""
    if os.path.isdir(outdir):
        shutil.rmtree(outdir)
    r = run_che(["genc", src, outdir], cwd=cwd, timeout=timeout)
    files = []
    if os.path.isdir(outdir):
        files = sorted(os.path.join(outdir, f) for f in os.listdir(outdir) if f.endswith(".c"))
    return r, files


def build_driver(name, shim, harness, san=True, opt="-O1", libs=("m", "pthread"), extra=(), cwd=None, incs=(), shim_h="void drive();\n", lib_flags=()):
    """shim: che source text importing the modules under test and handing them to
    drive(); harness: paths of plain C files with the model and the enumeration.
    Returns the executable's path."""
    d = sub(name)
    shimp = os.path.join(cwd or d, "shim_%s.c" % name)
    with open(shimp, "w") as f:
        f.write(shim)
    inc = os.path.join(d, "inc")
    os.makedirs(inc, exist_ok=True)
    with open(inc + "/shim.h", "w") as f:
        f.write(shim_h)
    r, files = genc(shimp, os.path.join(d, "c"))
    if r.rc != 0:
        raise BuildFailure("che genc of driver %s failed (rc=%s):\n%s%s" % (name, r.rc, r.out[-2000:], r.err[-2000:]))
    flags = ["-std=gnu99", "-w", "-g", opt, "-fwrapv", "-fno-strict-aliasing"] + (SAN if san else []) + list(extra)
    objs = []
    jobs = []
    for i, s in enumerate(list(files) + list(harness)):
        o = os.path.join(d, "o%d.o" % i)
        jobs.append((s, o)); objs.append(o)

    def cc(j):
        return run(["gcc"] + flags + (list(lib_flags) if j[0] in files else []) + ["-I", inc] + [x for i in incs for x in ("-I", i)] +
                   ["-I", os.path.join(VERIF, "drivers"), "-c", j[0], "-o", j[1]], timeout=300)
    for (j, r) in zip(jobs, pmap(cc, jobs)):
        if r.rc != 0:
            raise BuildFailure("gcc failed on %s:\n%s" % (j[0], r.err[-3000:]))
    exe = os.path.join(d, name + ".exe")
    r = run(["gcc"] + flags + objs + ["-o", exe] + ["-l" + l for l in libs], timeout=300)
    if r.rc != 0:
        raise BuildFailure("link failed for %s:\n%s" % (name, r.err[-3000:]))
    return exe


WRAP = ["-Wl," + ",".join("--wrap=" + f for f in "exit abort malloc calloc realloc free strdup".split())]


def lib_driver(name, imports, funcs, harness, san=True, wrap=(), pre="", extra=(), **kw):
    """Driver whose harness reaches the modules' public functions by name through a registry."""
    d = sub(name)
    shim = "".join("#import %s\n" % i for i in imports) + "#include <shim.h>\n" + pre + "int main() {\n" + \
        "".join('\tOS.vp_reg("%s", %s);\n' % (f, f) for f in funcs) + "\tOS.vp_main();\n\treturn 0;\n}\n"
    hs = [os.path.join(VERIF, "drivers", h) for h in ([harness] if isinstance(harness, str) else harness)]
    ex = WRAP + ["-Wl,--wrap=" + w for w in wrap] + list(extra)
    return build_driver(name, shim, hs + [os.path.join(VERIF, "drivers", "vp_rt.c")], san=san, extra=ex,
                        shim_h="void vp_reg(); void vp_main();\n" + kw.pop("shim_h", ""), **kw)


def prog_driver(name, src):
    """A program of the repository, translated by che, compiled with sanitizers, behind a fork server."""
    d = sub("prog_" + name)
    r, files = genc(src, os.path.join(d, "c"), cwd=os.path.dirname(src))
    if r.rc != 0:
        raise BuildFailure("che genc of %s failed (rc=%s):\n%s%s" % (name, r.rc, r.out[-2000:], r.err[-2000:]))
    flags = ["-std=gnu99", "-w", "-g", "-O1", "-fwrapv", "-fno-strict-aliasing"] + SAN
    objs = []
    def cc(j):
        return run(["gcc"] + flags + (["-Dmain=vp_prog_main"] if j[0] in files else []) + ["-c", j[0], "-o", j[1]], timeout=300)
    jobs = [(s, os.path.join(d, "o%d.o" % i)) for i, s in enumerate(list(files) + [VERIF + "/drivers/progrun.c"])]
    for j, r in zip(jobs, pmap(cc, jobs)):
        if r.rc != 0: raise BuildFailure("gcc failed on %s:\n%s" % (j[0], r.err[-3000:]))
    exe = os.path.join(d, name + ".exe")
    r = run(["gcc"] + flags + [j[1] for j in jobs] + ["-o", exe, "-lm", "-lpthread"], timeout=300)
    if r.rc != 0: raise BuildFailure("link failed for %s:\n%s" % (name, r.err[-3000:]))
    return exe


def progrun(exe, jobs, timeout=20):
    """Runs the program on jobs (args, stdin bytes); returns a list of (rc, out, err), bytes."""
    import struct
    base = exe + ".jobs"
    with open(base, "wb") as f:
        for av, inp in jobs:
            av = [b"prog"] + [a if isinstance(a, bytes) else a.encode() for a in av]
            f.write(struct.pack("<I", len(av)))
            for a in av: f.write(struct.pack("<I", len(a)) + a)
            f.write(struct.pack("<I", len(inp)) + inp)
    res = [None] * len(jobs)
    def one(i):
        o = "%s.r%d" % (base, i)
        r = run([exe, base, o, str(i), str(NCPU), str(timeout)], timeout=3600, extra_env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0"})
        if r.rc != 0: raise EnvFailure("progrun failed %s %s" % (r.rc, r.err[-300:]))
        data = open(o, "rb").read(); p = 0
        while p < len(data):
            idx, rc, n = struct.unpack_from("<IiI", data, p); p += 12
            out = data[p:p + n]; p += n
            m, = struct.unpack_from("<I", data, p); p += 4
            res[idx] = (rc, out, data[p:p + m]); p += m
        os.unlink(o)
    pmap(one, range(NCPU))
    os.unlink(base)
    return res


_mr = None


def multirun(jobs, timeout_ms=20000, extra_env=None):
    """Runs many commands (cwd, [argv]) quickly; returns a list of R."""
    import struct
    global _mr
    d = sub("multirun")
    if _mr is None:
        exe = d + "/multirun"
        r = run(["gcc", "-O1", "-w", "-o", exe, VERIF + "/drivers/multirun.c"])
        if r.rc: raise EnvFailure(r.err)
        _mr = [exe, 0]
    _mr[1] += 1
    base = "%s/j%d" % (d, _mr[1])
    with open(base, "wb") as f:
        for cwd, av in jobs:
            b = b"\0".join(x.encode() for x in [cwd or ""] + list(av)) + b"\0"
            f.write(struct.pack("<I", len(b)) + b)
    res = [None] * len(jobs)

    def one(i):
        o = "%s.r%d" % (base, i)
        r = run([_mr[0], base, o, str(i), str(NCPU), str(timeout_ms), base], timeout=7200, extra_env=extra_env)
        if r.rc != 0: raise EnvFailure("multirun failed %s" % r.rc)
        data = open(o, "rb").read(); p = 0
        while p < len(data):
            idx, rc, n = struct.unpack_from("<IiI", data, p); p += 12
            out = data[p:p + n]; p += n
            m, = struct.unpack_from("<I", data, p); p += 4
            err = data[p:p + m]; p += m
            res[idx] = R(rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), rc == -2)
        os.unlink(o)
    pmap(one, range(NCPU))
    os.unlink(base)
    return res


class Check:
    def __init__(self, pid, assumptions=()):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.parts = {}
        self.viols = []
        self.assumptions = list(assumptions)
        self.exhaustive = True
        self.notes = []
        self.known_seen = {}
        self.known = {}
        kf = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(kf):
            for line in open(kf):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == pid:
                    self.known[m.group(2)] = m.group(3).strip()

    def count(self, part, states=0, transitions=0, traces=0):
        p = self.parts.setdefault(part, {"states": 0, "transitions": 0, "traces": 0})
        p["states"] += states; p["transitions"] += transitions; p["traces"] += traces
        self.states += states; self.transitions += transitions; self.traces += traces

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, desc, replay="", key=None):
        if key is not None and key in self.known:
            self.known_seen[key] = desc
            return
        self.viols.append((desc, replay))

    def harness(self, part, exe, shards=None, args=(), timeout=600, mem_mb=None, cwd=None, extra_env=None):
        """Runs a C harness (sharded). Protocol on stdout: lines
        'STAT states transitions traces', 'SAMPLE text', 'VIOL key text'."""
        n = shards or 1
        if self.thorough:
            timeout = max(timeout, 7000)
        else:
            # an answer has to come in time, also where the code under test hangs
            gone = time.time() - self.t0
            if self.viols and gone > 300: return
            timeout = max(30, min(timeout, 860 - gone))
        def one(i):
            e = {"ASAN_OPTIONS": ASAN_OPTS, "VP_SHARD": str(i), "VP_NSHARDS": str(n),
                 "VP_TIER": self.tier}
            if extra_env:
                e.update(extra_env)
            dd = cwd or sub("run_%s_%d" % (part, i))
            return run([exe] + list(args), cwd=dd, timeout=timeout, extra_env=e, mem_mb=mem_mb)
        for i, r in enumerate(pmap(one, range(n))):
            done = False
            for line in r.out.splitlines():
                if line.startswith("STAT "):
                    a = [int(x) for x in line.split()[1:4]]
                    self.count(part, *a)
                elif line.startswith("SAMPLE "):
                    self.sample(part + ": " + line[7:])
                elif line.startswith("VIOL "):
                    _, key, text = (line + " ").split(" ", 2)
                    self.violation("%s: %s" % (part, text.strip()), "harness=%s shard=%d/%d\n%s" % (part, i, n, line), key)
                elif line.strip() == "DONE":
                    done = True
                    if self.parts.get(part) is None:
                        self.count(part)
            if r.timeout:
                self.violation("%s: did not finish within %ds (shard %d/%d); last case: %s" % (part, timeout, i, n, _last(r)),
                               r.out[-3000:] + r.err[-3000:])
            elif not done:
                self.violation("%s: execution ended abnormally (rc=%s, shard %d/%d); last case: %s" % (part, r.rc, i, n, _last(r)),
                               r.out[-3000:] + "\n" + r.err[-6000:])

    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples,
                         "parts": self.parts, "exhaustive": self.exhaustive, "notes": self.notes},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.viols),
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, v in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, v))
        print("%s %s: states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.pid, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0))
        for k, v in self.parts.items():
            print("   %-28s states=%d transitions=%d traces=%d" % (k, v["states"], v["transitions"], v["traces"]))
        if self.viols:
            os.makedirs(VERIF + "/replay", exist_ok=True)
            rp = os.path.join(VERIF, "replay", self.pid + ".txt")
            with open(rp, "w") as f:
                for d, r in self.viols[:400]:
                    f.write("== %s\n%s\n" % (d, r))
            for d, _ in self.viols[:5]:
                print("  violation: " + d[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.stdout.flush()
            sys.exit(1)
        sys.stdout.flush()
        sys.exit(0)


def _last(r):
    lines = [l for l in r.err.splitlines() if l.startswith("CASE ")]
    if lines:
        return lines[-1][:400]
    return (r.err.strip().splitlines() or ["?"])[0][:300]


def main(pid, body, assumptions=()):
    c = Check(pid, assumptions)
    che()
    tmpdir()
    home()
    try:
        body(c)
    except BuildFailure as e:
        # The code under test no longer translates/compiles for callers of its public interface.
        c.violation("does not build for its callers: " + str(e)[:800], str(e))
    c.finish()
