"""C19: setup text is tokenised faithfully whatever the layout."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from setupgen import make, run as runsetup, describe
from vf.core import main, J, hx

WORDS = ["int", "integer", "float", "double", "real", "string", "e", "E1", "intx", "floatx", "a:b", "x:y:z", "_u", "int:a", "e1", "inte", "strin", "reals"]
NUMS = ["0", "12", "007", "1.5", ".5", "3.", "1e5", "1E-3", "2.5e+7", "1.e2", ".5e1", "1e", "1e+", "1.e", "1..2", "1.2.3", "."]
def token(r):
    x = r.random()
    if x < .2: return r.choice(WORDS)
    if x < .4: return r.choice(NUMS)
    if x < .5: return "".join(r.choice("abcxyzE_19:") for _ in range(r.choice([1, 5, 40, 126, 127, 128, 129, 250, 300]))) if r.random() < .5 else "".join(r.choice("0123456789") for _ in range(r.choice([1, 9, 60, 127, 128, 140])))
    if x < .6:
        q = r.choice("'\"")
        s = "".join(r.choice(["a", "b", " ", "\n", "\\\\", "\\" + q, "\\n", "/*", "//", "*/", "'" if q == '"' else '"', "=", "\t", "1"]) for _ in range(r.choice([0, 1, 3, 8, 30, 70, 130])))
        return q + s + q
    if x < .7: return r.choice(["/* c */", "/**/", "/***/", "/* a\n b\n */", "// x\n", "//\n", "/* // */", "/*/ */", "// /*\n", "/*" + "x" * r.choice([100, 124, 125, 126, 127, 300]) + "*/", "//" + "y" * r.choice([100, 125, 126, 127, 300]) + "\n",
                                "/*" + "\n" * 20 + "*" * 5 + "/"])
    if x < .95: return r.choice("={}();,+-*/^")
    return r.choice(["\n", "\t", " ", "\r\n", "\x01", "\x7f", "\xe9", "\n\n"])
def text(r):
    n = r.choice([1, 3, 10, 40, 90])
    s = ""
    for _ in range(n): s += token(r) + r.choice(["", "", " ", "\n", "\t"])
    # place what follows at a chosen distance from the start, near the end of the scanner's first buffers
    if r.random() < .4: s = " " * max(0, r.choice([128, 256, 384]) - r.randint(0, 6) - r.randint(0, 20)) + s
    if r.random() < .12: s += r.choice(["'abc", "\"", "/* never", "!", "@", "#", "a ? b", ":", "$x", "'\\'", "/*/", "[", "~"]) + r.choice(["", "\n", " = 2;\n", "\n\n;"])
    return s
def x8(s): return "-" if not s else "".join("%02x" % ord(ch) for ch in s)

def check(c):
    t, r = c.thorough, c.rng
    inv = ["Faithful", "SoFar", "InBuffer"]
    c.model("ScannerMC", c.cfg(spec="Spec", constants={"MaxLen": 4 if t else 3, "Alphabet": '"all"', "Buffers": "{1, 2, 3}"}, invariants=inv, deadlock=True), "all")
    c.model("ScannerMC", c.cfg(spec="Spec", constants={"MaxLen": 5 if t else 4, "Alphabet": '"few"', "Buffers": "{2, 3}"}, invariants=inv, deadlock=True), "few")
    ts = c.generate("ScannerGen", c.cfg(spec="GSpec", constants={"MaxLen": 4 if t else 3, "Alphabet": '"all"', "Buffers": "{1}"}, invariants=["Emit"]), "short")
    exe = c.compile("scanner", "scanner.cpp", lib=True)
    lines = []
    # every short text, at the start of the file and across the end of the first buffer
    alltexts = [[(0, "".join(map(chr, x)))] for x in ts]
    for i in range(0, len(ts), 8):
        g = ["".join(map(chr, x)) for x in ts[i:i + 8]]
        lines.append(J(len(g) * 2, [J(0, x8(x)) + " " + J(r.choice([0, 1, 2]), x8(" " * (128 - r.randint(0, len(x) + 1)) + x)) for x in g]))
    for _ in range(6000 if t else 900): lines.append(J(3, [J(r.choice([0, 1, 2]), x8(text(r))) for _ in range(3)]))
    out = c.drive(exe, lines, timeout=600)
    recs = [None if e is None else {"id": k, "ev": e} for k, e in enumerate(out)]
    def rerun(rec): return dict(rec, ev=c.drive(exe, [lines[rec["id"]]], tag="re")[0])
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"text": text(r)[:200]}]
    c.validate("ScannerTrace", tcfg, recs, "tokens", rerun=rerun)
    # whole setup files with long names, texts and comments, through the parser
    items = []
    for _ in range(2500 if t else 400):
        items.append(make(r, n=r.randint(1, 3), npar=3, blocks=.2, err=r.choice([0, .05, .1]), paths=.2, depth=r.choice([0, 1]), nstat=r.choice([6, 14]), funs=False, vars=.5, restrict=False, wild=True))
    recs2, rerun2 = runsetup(c, items)
    c.validate("SetupTrace", tcfg, recs2, "files", rerun=rerun2, describe=describe(items))
    if not c.violations:
        b = copy.deepcopy(next(x for x in recs if x and len(x["ev"][-1]["toks"]) > 3))
        b["ev"][-1]["toks"].pop()
        c.probe("ScannerTrace", tcfg, b, "lost", "the last token lost")
        b = copy.deepcopy(next(x for x in recs if x and len(x["ev"][-1]["toks"]) > 3))
        b["ev"][-1]["toks"][-1]["line"] += 40
        c.probe("ScannerTrace", tcfg, b, "line", "a token on another line")
    c.assumptions = ["texts up to about two thousand characters", "the line of a token that spans several lines may be any of them"]
main("C19", check)
