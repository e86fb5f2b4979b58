"""C04: argument checking accepts exactly the valid indices and reports the others."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main, J


def scenario(r):
    rank = r.choice([1, 2, 2, 3, 3])
    boxes = {}
    ops = []
    def mk(g):
        lo = [r.choice([0, -1, -4, 3, 2, 0, -1, 3, 40000, -70000]) for _ in range(rank)]
        hi = [a + r.choice([0, 0, 1, 2, 4]) for a in lo]
        ops.append(J("make", g, lo, hi, r.randint(0, 1)))
        boxes[g] = lo, hi
    mk(1); mk(2)
    def point(lo, hi):
        k = r.random()
        p = [r.randint(a, b) for a, b in zip(lo, hi)]
        if k < .3:      # a corner: valid
            return [r.choice([a, b]) for a, b in zip(lo, hi)]
        if k < .75:     # one dimension just outside
            d = r.randrange(rank); p[d] = r.choice([lo[d] - 1, hi[d] + 1, lo[d] - 7, hi[d] + 9, p[d] + 256, p[d] - 65536, p[d] + 65536, p[d] - 10 ** 8])
            return p
        if k < .9:
            return [r.choice([a - 1, a, b, b + 1]) for a, b in zip(lo, hi)]
        return p
    for _ in range(14):
        k = r.random(); g = r.choice([1, 2])
        if k < .4:
            ops.append(J("debug", g, point(*boxes[g]), r.randint(0, 4)))
        elif k < .75:
            ops.append(J("assert", g, point(*boxes[g]), r.randint(0, 4)))
        elif k < .88:
            n = r.choice([1, 2, 3, 4, 6, 10])
            ops.append(J("array", n, r.choice([0, n - 1, n, n, n + 1, -1, r.randint(0, n)]), r.randint(0, 1)))
        else:
            mk(g)
    return "%d %d %s" % (rank, len(ops), " ".join(ops))

def check(c):
    exe = c.compile("index_check", "index_check.cpp", lib=False, asan=False)
    c.model("IndexCheckMC", c.cfg(spec="MSpec", invariants=["ProjectionOK", "FlagMeans"], properties=["Sticky"]), "design")
    lines = [scenario(c.rng) for _ in range(6000 if c.thorough else 700)]
    out = c.drive(exe, lines, timeout=800)
    recs = [None if e is None else {"id": i, "flag0": False, "ev": e} for i, e in enumerate(out)]
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"scenario": lines[0], "events": out[0][:6] if out[0] else []}]
    c.validate("IndexCheckTrace", tcfg, recs, "all", rerun=lambda r: dict(r, ev=c.drive(exe, [lines[r["id"]]], tag="re")[0]))
    if not c.violations:
        b = next(copy.deepcopy(r) for r in recs if r and any(e["op"] == "assert" for e in r["ev"]))
        e = next(e for e in b["ev"] if e["op"] == "assert")
        e["res"] = "abort" if e["res"] == "ok" else "ok"
        c.probe("IndexCheckTrace", tcfg, b, "fate", "fate of one asserting access inverted")
    c.assumptions = ["built with assertions enabled", "ranks 1 to 3, arrays of length 1 to 10"]

main("C04", check)
