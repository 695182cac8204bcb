"""C29: JSON."""
import os, sys, re, json, itertools
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
json.val_t *j_parse(const char *s, char *msg, bool *set) { error.t err = {}; json.val_t *v = json.parse(s, &err); *set = err.set; msg[0] = 0; if (err.set) snprintf(msg, 200, "%s", err.msg); return v; }
int tcode(int k) { if (k == 0) return json.TNULL; if (k == 1) return json.TARR; if (k == 2) return json.TOBJ; if (k == 3) return json.TSTR; if (k == 4) return json.TNUM; return json.TBOOL; }
"""


def g17(x):
    s = "%.17g" % x
    return s


def dump(v):
    if v is None: return "n"
    if v is True: return "t"
    if v is False: return "f"
    if isinstance(v, (int, float)): return g17(float(v))
    if isinstance(v, str): return "s" + v.encode("utf-8").hex()
    if isinstance(v, list): return "[" + ",".join(dump(x) for x in v) + "]"
    return "{" + ",".join(k.encode("utf-8").hex() + "=" + dump(x) for k, x in v.items()) + "}"


class Bad(Exception):
    pass


def const(x):
    raise ValueError(x)


def classify(b):
    """(kind, dump)"""
    try:
        t = b.decode("utf-8")
    except UnicodeDecodeError:
        return "D", ""
    try:
        v = json.loads(t, parse_constant=const, parse_int=float)
        d = dump(v)
    except (ValueError, RecursionError) as e:
        try:                                   # unescaped control characters: leniency is allowed
            u = re.sub(r'\\(.)', lambda m: m.group(0) if m.group(1) in '"\\/bfnrtu' else m.group(1), t, flags=re.S)   # unknown escapes likewise
            v = json.loads(u, parse_constant=const, strict=False)
            return ("L" if isinstance(e, UnicodeEncodeError) else "D"), ""
        except UnicodeEncodeError:
            return "D", ""
        except (ValueError, RecursionError):
            return "I", ""
    if "\\u0000" in t or "inf" in d: return "D", ""
    return "V", d


TOK = ["[", "]", "{", "}", ",", ":", '"a"', '"b"', "1", "-2.5e1", "true", "null", "false"]


def viable(seq):
    """Whether some extension of the token sequence is JSON."""
    st = []; want = "v"
    for t in seq:
        if want == "end": return False
        if want in ("v", "v]") and t not in "]},:":
            if t == "[": st.append("["); want = "v]"; continue
            if t == "{": st.append("{"); want = "k}"; continue
        elif want == "v]" and t == "]": st.pop()
        elif want in ("k", "k}") and t[0] == '"': want = ":"; continue
        elif want == "k}" and t == "}": st.pop()
        elif want == ":" and t == ":": want = "v"; continue
        elif want == ",]" and t == ",": want = "v"; continue
        elif want == ",]" and t == "]": st.pop()
        elif want == ",}" and t == ",": want = "k"; continue
        elif want == ",}" and t == "}": st.pop()
        else: return False
        want = "end" if not st else ",]" if st[-1] == "[" else ",}"
    return True


def texts(th):
    # token sequences: every viable prefix and everything one token away from one
    front = [()]
    for n in range(9 if th else 7):
        nxt = []
        for s in front:
            for t in TOK:
                q = s + (t,)
                yield " ".join(q).encode()
                if n < 4: yield "".join(q).encode()
                if viable(q): nxt.append(q)
        front = nxt
        if len(front) > (200000 if th else 20000): break
    # whitespace
    for w in (" ", "\n", "\t", "\r", "\r\n \t"):
        for t in ('%s', '%s1', '1%s', '[%s]', '[1%s,2]', '[1,%s2]', '{%s}', '{"a"%s:1}', '{"a":%s1}', '{"a":1%s}', '"a"%s', '%snull%s', '{"a":1,%s"b":2}', '" %s"' if w == " " else '%s[]'):
            yield t.replace("%s", w).encode()
    # string contents
    al = ['a', '"', '\\', '/', 'n', 'u', '0', 'b', 'é', '\t', ' ', 't', 'D', '8', 'r', 'f', 'C']
    for n in range(0, 4 if th else 3):
        for s in itertools.product(al, repeat=n):
            yield ('"' + "".join(s) + '"').encode()
            if n < 3: yield ('{"' + "".join(s) + '":[]}').encode()
    for s in itertools.product(al[:8], repeat=4):
        yield ('"' + "".join(s) + '"').encode()
    for h in ["0041", "00e9", "20AC", "20ac", "FFFD", "0001", "007f", "0080", "07ff", "0800", "ffff", "d83d\\ude00", "D800\\uDC00", "DBFF\\uDFFF", "d83d", "de00", "d83dx", "d83d\\n", "d83d\\u0041", "004", "00g1", "", "0", "00", " 041", "+041", "0x41", "-001", "0022", "005c", "002f", "000a"]:
        for t in ('"\\u%s"', '"a\\u%sb"', '["\\u%s"]', '{"\\u%s":1}'):
            yield (t % h).encode()
    for c in range(1, 256):
        yield b'"' + bytes([c]) + b'"'; yield b'"\\' + bytes([c]) + b'"'; yield bytes([c]); yield b"1" + bytes([c]); yield bytes([c]) + b"1"; yield b"[" + bytes([c]) + b"]"
    # numbers
    for n in range(1, 7 if th else 6):
        for s in itertools.product("-01.e+" if n > 3 else "-01.eE+9", repeat=n):
            yield "".join(s).encode(); 
            if n < 4: yield ("[" + "".join(s) + "]").encode()
    for s in ["123456789012345678", "9007199254740993", "0.1", "0.30000000000000004", "1e22", "1e21", "123456.789e-3", "5e-324", "1.7976931348623157e308", "1e-7", "3.141592653589793", "-0", "-0.0", "1e15", "1e16", "1e17", "123456789.123456789", "0.000001", "0.0000001", "1e100", "1e300", "-1e300", "4294967296", "2147483648", "-2147483648", "1e-300", "0.1e1", "100000000000000000000", "1e400"]:
        yield s.encode(); yield ("[%s,%s]" % (s, s)).encode(); yield ('{"k":%s}' % s).encode()
    for n in (50, 90, 97, 98, 99, 100, 101, 150):
        yield b"1" * n; yield b"0." + b"1" * n
    # sizes: every length around the growth of buffers
    for n in list(range(0, 140)) + [255, 256, 257, 1000]:
        yield b'"' + b"x" * n + b'"'; yield b'"' + b"\\n" * n + b'"'
        yield b"[" + b",".join([b"1"] * n) + b"]"
        yield b"{" + b",".join(b'"k%d":%d' % (i, i) for i in range(n)) + b"}"
        yield b"[" * min(n, 200) + b"]" * min(n, 200)
        if n: yield b"[" * min(n, 200) + b"]" * (min(n, 200) - 1); yield b"[" * min(n, 200) + b"]" * (min(n, 200) + 1)
    # every escape of a small character, and of others all over the plane; pairs and halves of pairs
    for u in list(range(1, 0x300)) + list(range(0x300, 0x10000, 0x3f)):
        if 0xD800 <= u < 0xE000: continue
        yield b'"\\u%04x"' % u; yield b'["x\\u%04Xy"]' % u
    for hi in (0xD800, 0xD801, 0xD83D, 0xDBFE, 0xDBFF, 0xDC00, 0xDFFF, 0xD7FF, 0xE000):
        for lo in (0xDC00, 0xDC01, 0xDE00, 0xDFFE, 0xDFFF, 0xE000, 0xE001, 0xFFFF, 0xDBFF, 0xD800, 0x0041, 0x0001):
            yield b'"\\u%04x\\u%04x"' % (hi, lo); yield b'{"\\u%04X\\u%04X":[1]}' % (hi, lo)
    # names that share a beginning
    for n in list(range(1, 140)) + [255, 256, 257, 1000]:
        k = b"k" * n
        yield b'{"%sa":1,"%sb":2,"%s":3,"%sab":4}' % (k, k, k, k); yield b'{"%s":1,"%s":[2],"x%s":3}' % (k, k, k)
    for n in (1023, 1024, 1025, 4095, 4096, 4097, 20000, 70000):
        yield b'"' + b"x" * n + b'"'; yield b'["' + b"\\n" * (n // 2) + b'"]'; yield b'{"' + b"q" * n + b'":1}'
    for n in (500, 1023, 1025, 3000):
        yield b"[" + b",".join(b"%d" % i for i in range(n)) + b"]"; yield b"{" + b",".join(b'"k%d":%d' % (i, i) for i in range(n)) + b"}"
    # keywords and near misses
    for k in ("true", "false", "null"):
        for i in range(len(k) + 1):
            yield k[:i].encode(); yield (k[:i] + "x").encode(); yield ("[" + k[:i] + "]").encode(); yield k.upper()[:i].encode()
        for k2 in ("true", "1", '"a"', "[]", "{}"):
            yield (k + k2).encode(); yield (k + " " + k2).encode(); yield ("[" + k + k2 + "]").encode()
    # a cut at every position
    for t in ['{"a":[1,2,{"b":"c\\n\\u00e9"}],"d":null,"e":true,"f":-1.5e3}', ' [ "x" , { } , [ ] ] ']:
        for i in range(len(t) + 1):
            yield t[:i].encode(); yield (t + t[i:]).encode(); yield (t[:i] + " " + t[i:]).encode()
            for r in ("", ",", '"', "\\", "]", "}", "1"):
                yield (t[:i] + r + t[i + 1:]).encode()


def body(c):
    fs = "j_parse json.json_free json.clone json.json_put json.type json.len json.key json.val json.get json.strval json.numval json.format json.formatwr json.write_string tcode writer.new writer.free".split()
    exe = lib_driver("jsonh", ["formats/json", "error", "writer"], fs, "jsonh.c", pre=PRE)
    t = sub("jsonh") + "/table"
    seen = set()
    with open(t, "w") as f:
        for b in texts(c.thorough):
            if b in seen or b"\0" in b: continue
            seen.add(b)
            k, d = classify(b)
            if k == "I":
                # numbers with leading zeros and such: not specified
                tt = b.strip(b" []\n\t\r")
                if tt and all(x in b"-01.eE+9" for x in tt): k = "D"
            if b"\x0b" in b or b"\x0c" in b: k = "D"
            if len(b) > 90 and b.strip(b"1.0") == b"": k = "D"
            f.write("%s %s %s\n" % (b.hex(), k, d))
    n = len(seen); seen = None
    run_dir = sub("jsonrun")
    c.harness("json", exe, shards=NCPU, timeout=850, extra_env={"VP_TABLE": t}, cwd=run_dir)
    # what was written is JSON with the same value for an independent parser
    k = 0
    for i in range(NCPU):
        p = "%s/out.%d" % (run_dir, i)
        if not os.path.exists(p): continue
        bad = 0
        for line in open(p):
            w = line.rstrip("\n").split(" ")
            if len(w) != 2: continue
            try: raw = bytes.fromhex(w[1])
            except ValueError: continue          # cut short: the harness died, reported above
            k += 1
            try:
                s = raw.decode("utf-8")
                d = dump(json.loads(s, parse_constant=const, parse_int=float))
            except ValueError as e:
                d = "refused: %s" % e
            if d != w[0] and bad < 4:
                bad += 1
                c.violation("written: %r is %s for another parser, expected %s" % (raw[:200], d[:200], w[0][:200]), line)
    c.count("independent reader", k, k, k)


if __name__ == "__main__":
    main("C29", body, ["texts have no zero bytes and their strings no \\u0000; unescaped control characters, lone surrogates and numbers with leading zeros are accepted or refused safely"])
