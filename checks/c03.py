"""C03: iterating over a range visits each index exactly once, in order."""
import sys, os, copy, itertools
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main, J


def loops(rank):
    return ["loop iter", "loop post", "loop c", "loop f"] + (["loop par"] if rank <= 6 else [])

def full(r, lo, hi, how, rank):
    """every observation of one range"""
    ops = [J("set", lo, hi, how), "get"] + loops(rank)
    n = 1
    for a, b in zip(lo, hi):
        n *= max(0, b - a + 1)
    if n <= 30:
        ops += ["start"] + ["step %d" % r.randint(0, 1) for _ in range(n)]
    for _ in range(4):
        ops.append(J("inside", [r.choice([a - 1, a, (a + b) // 2, b, b + 1]) for a, b in zip(lo, hi)]))
    # the exact edges, one dimension at a time
    for d in range(rank):
        for e in (lo[d] - 1, hi[d] + 1):
            p = list(lo); p[d] = e
            ops.append(J("inside", p))
    for d in range(1, rank + 1):
        ops.append("drop %d" % d)
    ops.append("project")
    return ops

def scenario(r):
    rank = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10])
    cap = 150
    def box():
        while True:
            e = [r.choice([1, 1, 2, 3, 4, 6]) if rank < 5 else r.choice([1, 1, 2, 3]) for _ in range(rank)]
            if r.random() < .12:
                e[r.randrange(rank)] = r.choice([0, 0, -1])
            n = 1
            for x in e: n *= max(x, 1)
            if n <= cap:
                lo = [r.choice([0, -1, -5, 2, 7, -100, 1000]) for _ in range(rank)]
                return lo, [a + b - 1 for a, b in zip(lo, e)]
    lo, hi = box()
    ops = full(r, lo, hi, r.randint(0, 3), rank)
    for _ in range(3):
        how = r.randint(0, 1)
        d = [r.choice([0, 1, 2, -1]) for _ in range(rank)] if how else [r.choice([0, 1])] * rank
        l2 = [a - x for a, x in zip(lo, d)]; h2 = [a + x for a, x in zip(hi, d)]
        n = 1
        for a, b in zip(l2, h2): n *= max(1, b - a + 1)
        if n <= cap:
            lo, hi = l2, h2
            ops += [J("grow", how, d), "get", r.choice(loops(rank)), r.choice(loops(rank))]
    ops += full(r, *box(), r.randint(0, 3), rank)
    return "%s %d %d %s" % (r.choice(["int", "long"]), rank, len(ops), " ".join(ops))

LONG = {1: [(300,), (70000,)], 2: [(300, 2), (2, 300), (33000, 2), (260, 260)], 3: [(2, 2, 300), (300, 1, 3), (3, 129, 2), (40, 41, 42)], 4: [(3, 2, 2, 300), (16, 17, 18, 14)],
        6: [(2, 3, 2, 130, 2, 1), (8, 7, 6, 7, 6, 5)], 10: [(2,) * 10, (3, 2, 3, 2, 3, 2, 3, 2, 3, 2), (300,) + (1,) * 8 + (2,)]}
def tours(r):
    rank = r.choice(sorted(LONG)); e = r.choice(LONG[rank])
    lo = [r.choice([0, -1, -x // 2, 250, 32760, -70000, 10 ** 8]) for x in e]; hi = [a + x - 1 for a, x in zip(lo, e)]
    n = 1
    for x in e: n *= x
    ops = [J("set", lo, hi, r.randint(0, 3)), "get"]
    for k in ["iter", "post", "c", "f"] + (["par"] if rank <= 6 else []):
        ks = sorted({0, 1, n - 1, n, min(n - 1, 255), min(n - 1, 256), min(n - 1, 65536)} | {r.randrange(n) for _ in range(8)})
        pts = [[r.choice([a, b, r.randint(a, b)]) for a, b in zip(lo, hi)] for _ in range(6)] + [[r.choice([a, b, b + 1, a - 1]) for a, b in zip(lo, hi)] for _ in range(2)]
        ops.append(J("tour", k, len(ks), ks, len(pts), pts))
    for _ in range(6):
        p = [r.randint(a, b) for a, b in zip(lo, hi)]
        if r.random() < .6: d = r.randrange(rank); p[d] += r.choice([-1, 1]) * r.choice([256, 65536, 2 * e[d], 10 ** 6])
        ops.append(J("inside", p))
    g = r.choice([1, 200, 40000]); ops += [J("grow", 0, [g] * rank), "get"]
    return "%s %d %d %s" % (r.choice(["int", "long"]), rank, len(ops), " ".join(ops))

def space(r):
    """a box of physical space, in quarters"""
    rank = r.randint(1, 4); ops = []
    for _ in range(2):
        lo = [r.randint(-40, 40) for _ in range(rank)]; hi = [a + r.choice([0, 1, 2, 3, 4, 5, 30]) for a in lo]
        ops += [J("set", lo, hi, r.randint(0, 2)), "get"]
        for g in (0, 1):
            for _ in range(5): ops.append(J("inside", [r.choice([a - 4, a - 1, a, (a + b) // 2, b, b + 1, b + 3, b + 4]) for a, b in zip(lo, hi)]))
            for d in range(rank):
                for e in (lo[d] - 3, lo[d] - 1, hi[d] + 1, hi[d] + 2, hi[d] + 3):
                    p = list(lo); p[d] = e; ops.append(J("inside", p))
            if g == 0:
                how = r.randint(0, 1); x = [r.choice([0, 1, 2, 5]) for _ in range(rank)] if how else [r.choice([0, 1, 3, 6])] * rank
                lo = [a - y for a, y in zip(lo, x)]; hi = [a + y for a, y in zip(hi, x)]
                ops += [J("grow", how, x), "get"]
        ops += ["drop %d" % d for d in range(1, rank + 1)]
    return "%s %d %d %s" % (r.choice(["dbl", "flt"]), rank, len(ops), " ".join(ops))

def check(c):
    exe = c.compile("range_iter", "range_iter.cpp", lib=False)
    c.model("RangeIterMC", c.cfg(spec="MSpec", constants={"MaxRank": 3, "Los": "<- LosQ", "Exts": "{0,1,2,3}" if c.thorough else "{0,1,3}"},
            invariants=["ExactlyOnce", "Monotone", "SameSet", "LastFastest", "Ordered"], properties=["Ends"]), "iterate")
    lines = []
    for rank in (1, 2, 3):      # all small boxes
        for e in itertools.product((0, 1, 2, 3), repeat=rank):
            lo = [c.rng.choice([-2, 0, 1]) for _ in e]
            ops = full(c.rng, lo, [a + x - 1 for a, x in zip(lo, e)], c.rng.randint(0, 3), rank)
            lines.append("%s %d %d %s" % (c.rng.choice(["int", "long"]), rank, len(ops), " ".join(ops)))
    lines += [scenario(c.rng) for _ in range(6000 if c.thorough else 600)]
    lines += [tours(c.rng) for _ in range(400 if c.thorough else 50)]
    lines += [space(c.rng) for _ in range(1500 if c.thorough else 150)]
    out = c.drive(exe, lines, timeout=800)
    recs = [None if e is None else {"id": i, "ev": e} for i, e in enumerate(out)]
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"scenario": lines[-1][:400]}]
    c.validate("RangeIterTrace", tcfg, recs, "all", rerun=lambda r: dict(r, ev=c.drive(exe, [lines[r["id"]]], tag="re")[0]))
    if not c.violations:
        b = next(copy.deepcopy(r) for r in recs if r and any(e["op"] == "loop" and len(e["pts"]) > 2 for e in r["ev"]))
        e = next(e for e in b["ev"] if e["op"] == "loop" and len(e["pts"]) > 2)
        e["pts"][0], e["pts"][1] = e["pts"][1], e["pts"][0]
        c.probe("RangeIterTrace", tcfg, b, "swap", "first two visited points swapped")
    c.assumptions = ["point by point: up to 150 points, ranks 1 to 10 (parallel loop: 1 to 6); by samples: up to about 70000 points"]

main("C03", check)
