"""C07: for any source text the translator ends, and says so when it refuses.

Runs the real che on every text of several exhaustively enumerated spaces:
all truncations and all single-token edits of sample modules, all token
sequences up to a length at module, statement and expression level, all short
byte strings. Every run has to end in time with success or with exit status 1
and a message; crashes (panics, signals), hangs and silent refusals are
violations."""
import itertools, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "vlib"))
from vp import *

SAMPLE = r'''
#define A 1
#type ext_t
#import strings
enum { E1, E2 = 5 };
pub typedef { int a, *b; union { int x; char y[4]; } u; } T;
typedef struct foo S;
typedef int F(int, char *);
typedef T V[3];
const char *names[] = {"a", "b"};
int tab[] = { [E1] = 1, [E2] = A };
pub int add(int a, b, const char *s, ...) {
	T t = { .a = 1, .b = NULL };
	F *f = &g;
	S *p = NULL; ext_t *q = NULL;
	if (p == NULL && q == NULL || !t.b) { return a + b * 2 - (int) strlen(s); } else return f(1, "x");
	for (int i = 0; i < 10; i++) { t.a += tab[i] << 2; if (i == 3) break; continue; }
	while (t.a > 0) t.a--;
	switch (a) { case 1, E2: { b++; } case 'c': { } default: { return sizeof(T) + sizeof(t.a); } }
	switch str (names[0]) { case "x": { puts("y"); } }
	V v = {}; t = v[0]; char *z = calloc!(1, sizeof(T)); free(z);
	if (strings.starts_with(s, "x") || ~t.a ^ 3 && -1.5e3 < 2) { panic("oops %d", (&t)->a); }
	return nelem(tab);
}
int g(int x, char *s) { return x + OS.foo(s, '\n', 0x1F, 1.5); }
int main() { return add(1, 2, ""); }
'''
SAMPLE2 = r'''
#import formats/json
#import os/misc
#include <math.h>
#link m
pub enum { RED, GREEN = RED + 2, }
typedef { json.val_t *v; size_t n[RED + 3]; } box_t;
box_t boxes[4] = {};
pub json.val_t *get(box_t *b, size_t i) {
	/* comment */ // another
	if (i >= nelem(boxes)) return NULL;
	while (true) { for (;;) { if (b->n[0] > 1) return json.get(b->v, "multi
line" " split"); } }
}
'''
AL = ["x", "int", "T", "1", "\"s\"", "'c'", "(", ")", "{", "}", "[", "]", ";", ",", "*", "=", "+", "-", "&", "!", ".", "->", "...", ":", "?", "@",
      "if", "else", "for", "while", "switch", "str", "case", "default", "break", "return", "sizeof", "typedef", "struct", "enum", "union", "pub", "const",
      "\n#import foo\n", "\n#import strings\n", "\n#define Z 1\n", "\n#include <x.h>\n", "\n#link m\n", "\n#type T2\n", "\n#define\n", "\n#define B\n", "\n#x\n", "\n#\n", "\n#type\n",
      "calloc!", "panic", "nelem", "NULL", "OS", "OS.x", "\"", "'", "/*", "*/", "//", "0x", "1e", "1.", "'a", "\\", "\u00e9", "strings.x", "strings", "main", "\"%s\\", "<<=", ">>=", "~", "++", "%", "\x00"]
TOK = r'#[^\n]*\n|//[^\n]*\n|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|calloc!|[\w]+\.\d*|\w+|<<=|>>=|\.\.\.|->|\+\+|--|&&|\|\||[-+*/%&^|=!<>]=|<<|>>|\S'


def edits(src):
    toks = re.findall(TOK, src, re.S)
    j = lambda ts: " ".join(ts)
    for i in range(len(src)): yield src[:i]
    for i in range(len(toks) + 1):
        yield j(toks[:i])
        yield j(toks[i:])
        if i < len(toks):
            yield j(toks[:i] + toks[i + 1:])
            yield j(toks[:i] + [toks[i]] + toks[i:])
            if i + 1 < len(toks): yield j(toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:])
        for a in AL:
            yield j(toks[:i] + [a] + toks[i:])
            if i < len(toks): yield j(toks[:i] + [a] + toks[i + 1:])


def seqs(alpha, n, pre, post):
    for k in range(0, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield pre + " ".join(t) + post


MOD = ["x", "int", "1", "\"s\"", "(", ")", "{", "}", "[", "]", ";", ",", "*", "=", "@", "typedef", "struct", "enum", "union", "pub", "const", "return", "\n#define Z\n", "\n#import strings\n", "...", "'", "/*", "OS", "void", "."]
STM = ["x", "int", "1", "\"s\"", "(", ")", "{", "}", ";", ",", "=", "if", "else", "for", "while", "switch", "str", "case", ":", "default", "break", "return", "*", "[", "]", "@", "panic", "'"]
EXP = ["x", "1", "'c'", "\"s\"", "(", ")", "[", "]", ",", "*", "-", "&", "++", "!", ".", "->", "=", "==", "&&", "sizeof", "int", "{", "}", "?", "~", "calloc!", "NULL", "nelem", "OS", "strings"]


def byte_cases(thorough):
    for a in range(256): yield bytes([a])
    sig = [ord(c) for c in "\n\t #\"'\\/*{}()[];,.=+-<>&|^~!%?:@x0e_"] + [0, 0x7f, 0x80, 0xc3, 0xa9, 0xff]
    alls = range(256) if thorough else sig
    for a in alls:
        for b in alls: yield bytes([a, b])
    for t in itertools.product(sig[:20] if not thorough else sig, repeat=3): yield bytes(t)


def nest(n):
    for d in range(1, n):
        yield "int x = " + "(" * d + "1" + ")" * d + ";"
        yield "int x = " + "(" * d + "1"
        yield "int main() { return " + "-" + " -" * d + " 1; }"
        yield "int main() { " + "if (true) {" * d + "}" * d + " return 0; }"
        yield "int main() { " + "if (true) {" * d
        yield "int main() { return x" + "[0" * d + "]" * d + "; }"
        yield "int x = " + "{" * d + "}" * d + ";"
        yield "typedef " + "{" * d + "}" * d + " x;"
        yield "int main() { return " + "1 + " * d + "1; }"
        yield "int main() { " + "switch (1) { case 1: {" * d + "}}" * d + " }"
        yield "/*" * d + "*/" * d


def body(c):
    exe = os.path.join(sub("c07"), "cherun")
    r = run(["gcc", "-O1", "-o", exe, VERIF + "/drivers/cherun.c"])
    if r.rc: raise EnvFailure(r.err)
    t = c.thorough
    parts = [
        ("edits1", edits(SAMPLE)),
        ("edits2", edits(SAMPLE2)),
        ("module", seqs(MOD, 3, "", "")),
        ("body", seqs(STM, 3, "int x = 1; int main() { ", " }")),
        ("body_open", seqs(STM, 2, "int x = 1; int main() { ", "")),
        ("expr", seqs(EXP, 3, "#import strings\nint x = 1; int main() { x = ", "; }")),
        ("bytes", byte_cases(t)),
        ("nesting", nest(200 if t else 60)),
    ]
    if t:
        parts += [("module4", seqs(MOD[:26], 4, "", "")), ("body4", seqs(STM, 4, "int x = 1; int main() { ", " }")),
                  ("expr4", seqs(EXP[:26], 4, "#import strings\nint x = 1; int main() { x = ", "; }"))]
        for m in ["strings", "formats/json", "map"]:
            p = os.path.join(REPO, "lib", m + ".c")
            if os.path.exists(p):
                parts.append(("edits_" + m.replace("/", "_"), edits(open(p).read()[:3000])))
    for part, gen in parts:
        d = sub("c07_" + part)
        cases = []
        seen = set()
        for x in gen:
            b = x if isinstance(x, bytes) else x.encode()
            if b in seen: continue
            seen.add(b); cases.append(b)
        with open(d + "/cases", "wb") as f:
            for b in cases: f.write(struct.pack("<I", len(b)) + b)
        c.sample("%s: %r" % (part, cases[len(cases) // 2][-80:]))
        rs = pmap(lambda i: run([exe, che(), d, d + "/cases", str(i), str(NCPU), "20000"], timeout=3000, extra_env={"RUST_BACKTRACE": "0"}), range(NCPU))
        tot = 0
        for r in rs:
            m = re.search(r"DONE (\d+)", r.out)
            if not m: raise EnvFailure("runner failed: " + r.out[-500:] + r.err[-500:])
            tot += int(m.group(1))
            for line in r.out.splitlines():
                if line.startswith("R "):
                    f = line.split(" ", 4)
                    src = cases[int(f[1])]
                    what = {"T": "does not end", "K": "is killed by a signal", "P": "crashes", "S": "fails without a message"}[f[2]]
                    c.violation("%s: che %s on %r" % (part, what, src[-160:]), "source:\n%s\nstderr: %s" % (src.decode("utf-8", "replace"), f[4] if len(f) > 4 else ""))
        c.count(part, states=len(cases), transitions=tot, traces=tot)


if __name__ == "__main__":
    main("C07", body, ["a run that has not ended after 20 s is counted as a hang", "nesting depth at most 60 (quick) / 200 (thorough)"])
