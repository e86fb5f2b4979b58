"""C24: text output lists every element once, in the documented layout."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main, J

def num(r): return r.choice([r.randint(-9, 9), r.randint(-999, 999), r.randint(-99999, 99999), 0])
def box(r, rank):
    while True:
        e = [r.choice([1, 1, 2, 2, 3, 4, 6]) for _ in range(rank)]; n = 1
        for x in e: n *= x
        if n <= 60: break
    lo = [r.choice([0, 0, -1, -3, 5, 40000, -70000]) for _ in e]
    return lo, [a + x - 1 for a, x in zip(lo, e)], n
def scenario(r):
    ops = []
    for _ in range(r.randint(2, 6)):
        s = r.randint(1, 2); x = r.random()
        if x < .25: n = r.choice([1, 2, 3, 4, 7, 10]); ops.append(J("array", s, n, r.choice("idl"), [num(r) for _ in range(n)]))
        elif x < .9:
            rank = r.randint(1, 5); lo, hi, n = box(r, rank)
            ops.append(J("grid", s, rank, r.choice("cfdlm"), lo, hi, [num(r) for _ in range(n)]))
        else: ops.append(J("mark", s, r.choice(["<", "x", "//"])))
    return J(len(ops), ops)

def check(c):
    t = c.thorough
    exe = c.compile("textout", "textout.cpp", lib=False)
    c.model("TextOutMC", c.cfg(spec="Spec", constants={"MaxRank": 5, "MaxExt": 3 if t else 2}, invariants=["AllCells", "Layout"]), "boxes")
    lines = [scenario(c.rng) for _ in range(6000 if t else 900)]
    out = c.drive(exe, lines, timeout=800)
    recs = [None if e is None else {"id": i, "ev": e} for i, e in enumerate(out)]
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"scenario": lines[0][:300], "events": out[0][:2] if out[0] else []}]
    c.validate("TextOutTrace", tcfg, recs, "all", rerun=lambda r: dict(r, ev=c.drive(exe, [lines[r["id"]]], tag="re")[0]))
    if not c.violations:
        b = copy.deepcopy(next(x for x in recs if x and x["ev"][-1]["op"] == "grid" and len(x["ev"][-1]["lo"]) > 1))
        e = b["ev"][-1]; e["streams"][e["s"] - 1] = e["streams"][e["s"] - 1][:-1]
        c.probe("TextOutTrace", tcfg, b, "newline", "the last newline missing")
    c.assumptions = ["index boxes are not empty", "numbers that streams print as integers, default formatting", "ranks 1 to 5 (those for which output is defined)"]
main("C24", check)
