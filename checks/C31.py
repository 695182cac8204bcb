"""C31: bencode and torrent files."""
import os, sys, hashlib, itertools
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

PRE = """
int64_t r_num(bencode.reader_t *r) { return bencode.readnum(r); }
bool w_num(bencode_writer.t *w, int64_t n) { return bencode_writer.num(w, n); }
char *t_str(torrent.info_t *t, int i) {
    if (i == 0) return t->announce;
    if (i == 1) return t->created_by;
    if (i == 2) return t->comment;
    if (i == 3) return t->name;
    if (i == 4) return t->infohash;
    char *s = calloc!(41, 1);
    for (int k = 0; k < 20; k++) sprintf(s + 2 * k, "%02x", (uint8_t) t->infohash_bytes[k]);
    strcpy(hexb, s);
    free(s);
    return hexb;
}
char hexb[41] = {};
int64_t t_int(torrent.info_t *t, int i) {
    if (i == 0) return t->creation_date;
    if (i == 1) return (int64_t) t->piece_length;
    if (i == 2) return (int64_t) t->length;
    if (i == 3) { if (t->private) return 1; return 0; }
    return (int64_t) t->nfiles;
}
char *t_fpath(torrent.info_t *t, int i) { return t->files[i].path; }
size_t t_flen(torrent.info_t *t, int i) { return t->files[i].length; }
torrent.info_t *t_make(size_t len, size_t pl, uint8_t *pc, const char *ann, const char *by, const char *com, const char *name, int date) {
    torrent.info_t *t = calloc!(1, sizeof(torrent.info_t));
    t->length = len;
    t->piece_length = pl;
    t->pieces = pc;
    t->creation_date = date;
    strcpy(t->announce, ann);
    strcpy(t->created_by, by);
    strcpy(t->comment, com);
    strcpy(t->name, name);
    return t;
}
"""


def enc(v):
    if isinstance(v, int): return b"i%de" % v
    if isinstance(v, bytes): return b"%d:%s" % (len(v), v)
    if isinstance(v, list): return b"l" + b"".join(map(enc, v)) + b"e"
    return b"d" + b"".join(enc(k) + enc(x) for k, x in v.items()) + b"e"


def dump(top):
    info = top[b"info"]
    ih = hashlib.sha1(enc(info)).hexdigest()
    files = [(b"/".join(f[b"path"]), f[b"length"]) for f in info.get(b"files", [])]
    strs = [top.get(b"announce", b""), top.get(b"created by", b""), top.get(b"comment", b""), info.get(b"name", b""), ih.encode(), ih.encode()]
    pl = info[b"piece length"]; total = sum(n for _, n in files) if files else info.get(b"length", 0)
    np = -(-total // pl)
    ints = [top.get(b"creation date", 0), pl, info.get(b"length", 0), info.get(b"private", 0), len(files), total, np, total % pl or pl]
    return ",".join(s.hex() for s in strs) + "," + "".join("%d," % i for i in ints) + "".join("%s:%d," % (p.hex(), n) for p, n in files) + info[b"pieces"][:20 * np].hex()


def pieces(n):
    return bytes((i * 31 + 7) % 256 for i in range(20 * n))


def torrents(th):
    base = {b"announce": b"http://t/a", b"info": {b"length": 10, b"name": b"x", b"piece length": 4, b"pieces": pieces(3)}}
    opt = [(b"announce-list", [[b"a", b"b"], [b"c"]]), (b"comment", b"hello"), (b"created by", b"me"), (b"creation date", 1700000000), (b"encoding", b"UTF-8"), (b"x-unknown", {b"a": [1, {b"b": b""}]})]
    for m in range(64):
        t = {b"announce": b"u"}
        for i, (k, v) in enumerate(opt):
            if m >> i & 1: t[k] = v
        t[b"info"] = base[b"info"]; yield t
        q = {b"info": base[b"info"]}; q.update(t); yield q
    for pl in range(1, 8):
        for ln in range(0, 30):
            yield {b"info": {b"length": ln, b"name": b"n%d" % ln, b"piece length": pl, b"pieces": pieces(-(-ln // pl))}}
    for ln in (2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 10 ** 11):
        pl = 2 ** 30 if ln < 10 ** 10 else 2 ** 35
        yield {b"info": {b"length": ln, b"name": b"big", b"piece length": pl, b"pieces": pieces(-(-ln // pl))}}
        yield {b"info": {b"files": [{b"length": ln, b"path": [b"a"]}, {b"length": 5, b"path": [b"b", b"c"]}], b"name": b"big", b"piece length": pl, b"pieces": pieces(-(-(ln + 5) // pl))}}
    fs = [{b"length": 3, b"path": [b"a"]}, {b"path": [b"d", b"e.txt"], b"length": 0}, {b"length": 7, b"path": [b"x" * 50, b"y" * 50, b"z"]}]
    for n in range(1, 4):
        for c in itertools.product(range(3), repeat=n):
            ff = [fs[i] for i in c]; tot = sum(f[b"length"] for f in ff)
            for pr in (None, 0, 1):
                inf = {b"files": ff, b"name": b"dir", b"piece length": 4, b"pieces": pieces(-(-tot // 4))}
                if pr is not None: inf[b"private"] = pr
                yield {b"announce": b"u", b"info": inf}
    for n in (9, 10, 11, 12, 99, 100, 101, 250, 999, 1000, 1001, 1002, 2500, 9999):
        yield {b"info": {b"files": [{b"length": i, b"path": [b"f%d" % i]} for i in range(n)], b"name": b"d", b"piece length": 10000, b"pieces": pieces(-(-(n * (n - 1) // 2) // 10000))}}
    for n in (3276, 3277, 3300, 6600, 20000):
        yield {b"announce": b"u", b"info": {b"length": n * 4, b"name": b"n", b"piece length": 4, b"pieces": pieces(n)}}
    for L in list(range(0, 8)) + list(range(190, 200)):
        yield {b"announce": b"a" * L, b"comment": b"b" * L, b"created by": b"c" * L, b"info": {b"length": 1, b"name": b"n" * L, b"piece length": 1, b"pieces": pieces(1)}}
    for a in range(1, 6):
        for L in range(190, 200):
            path = [b"p" * (L // a - 1)] * (a - 1); path.append(b"q" * (L - sum(len(x) + 1 for x in path)))
            yield {b"info": {b"files": [{b"length": 1, b"path": path}], b"name": b"n", b"piece length": 1, b"pieces": pieces(1)}}


def odd():
    for L in list(range(199, 206)) + [900, 998, 999, 1000, 1001, 1005, 3000]:
        for k in (b"announce", b"comment", b"created by"):
            yield ({k: b"a" * L, b"info": {b"length": 1, b"name": b"n", b"piece length": 1, b"pieces": pieces(1)}})
        yield ({b"info": {b"length": 1, b"name": b"n" * L, b"piece length": 1, b"pieces": pieces(1)}})
        yield ({b"k" * L: 1, b"info": {b"length": 1, b"name": b"n", b"piece length": 1, b"pieces": pieces(1)}})
        for path in ([b"p" * L], [b"p" * (L // 2), b"q" * (L - L // 2 - 1)], [b"p" * (L - 1), b""], [b"", b"p" * (L - 1)], [b"p" * (L - 2), b"q"], [b"a"] * (L // 2)):
            for nf in (2, 10): yield ({b"info": {b"files": [{b"length": 0x4142434445, b"path": path}] * nf, b"name": b"n", b"piece length": 2 ** 40, b"pieces": pieces(-(-0x4142434445 * nf // 2 ** 40))}})
            yield ({b"info": {b"files": [{b"length": 1, b"path": path}], b"name": b"n", b"piece length": 1, b"pieces": pieces(1)}})


def body(c):
    fs = """bencode.newreader bencode.freereader bencode.more bencode.type bencode.pos bencode.enter bencode.leave bencode.key bencode.strsize bencode.readbuf r_num bencode.skip
    bencode_writer.tobuf bencode_writer.tofile bencode_writer.free bencode_writer.begin bencode_writer.end bencode_writer.pos w_num bencode_writer.buf
    torrent.parse torrent.from_file torrent.free torrent.piecehash torrent.totalsize torrent.npieces torrent.lastlen torrent.writefile t_str t_int t_fpath t_flen t_make""".split()
    exe = lib_driver("bencode", ["formats/bencode", "formats/bencode_writer", "formats/torrent"], fs, "bencode.c", pre=PRE)
    d = sub("bencoderun"); t = d + "/table"
    seen = set()
    with open(t, "w") as f:
        def put(b, k, w):
            if b not in seen:
                seen.add(b); f.write("%s %s %s\n" % (b.hex(), k, w))
        first = None
        for n, x in enumerate(torrents(c.thorough)):
            b = enc(x); put(b, "V", dump(x))
            if n in (3, 60, 250, 700):                 # cut anywhere: refused; changed anywhere: safe
                for i in range(len(b)):
                    put(b[:i], "I", "")
                    for r in (b"e", b"9", b"\xff", b":", b"d"):
                        put(b[:i] + r + b[i + 1:], "D", "")
        for x in odd(): put(enc(x), "E", dump(x))                 # too long for the fields: refused, or exact
    c.harness("bencode", exe, shards=NCPU, timeout=850, extra_env={"VP_PART": "bencode"})
    c.harness("torrent", exe, shards=NCPU, timeout=850, extra_env={"VP_PART": "torrent", "VP_TABLE": t}, cwd=d)


if __name__ == "__main__":
    main("C31", body, ["bencode nested at most 9 levels deep (the reader's limit is 10)", "torrents use the keys the module knows inside info; their pieces are as many as their lengths require", "the writer writes single-file torrents"])
