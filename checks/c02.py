"""C02: every index addresses its own cell, in the documented memory order, through every accessor."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main

def box(r, rank, cap):
    while True:
        e = [r.choice([1, 1, 2, 2, 3, 4, 5]) if rank > 3 else r.choice([1, 2, 3, 4, 5, 7]) for _ in range(rank)]
        if rank == 10:
            e = [r.choice([1, 2]) for _ in range(rank)]
        n = 1
        for x in e:
            n *= x
        if n <= cap:
            lo = [r.choice([0, 0, -1, -3, 2, 5, -17] if r.random() < .9 else [-129, 300, 40000, -70000, 1000000]) for _ in range(rank)]
            return lo, [a + b - 1 for a, b in zip(lo, e)]

def scenario(r, n):
    rank = r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10])
    kinds = ["cf", "cc", "ff", "ll", "kc"] if rank <= 4 else ["cf"]
    kind = r.choice(kinds)
    ops = []
    def mk(first):
        lo, hi = box(r, rank, 60 if rank < 6 else 96)
        ops.append("make %s %s %d" % (" ".join(map(str, lo)), " ".join(map(str, hi)), 0 if first else r.choice([0, 1, 1])))
        return lo, hi
    lo, hi = mk(True)
    for g in (1, 2):
        ops.append("layout %d" % g)
    for _ in range(n):
        g = r.choice([1, 2])
        p = [r.randint(a, b) for a, b in zip(lo, hi)]
        k = r.random()
        if k < .4:
            ops.append("write %d %s %d %d" % (g, " ".join(map(str, p)), r.randint(-50, 50), r.randint(0, 5)))
        elif k < .5:
            ops.append("fill %d %d" % (g, r.randint(-5, 5)))
        elif k < .65:
            s = r.choice([1, 2]) if kind != "kc" else 3 - g
            ops.append("%s %d %d" % (r.choice(["add", "sub"]), g, s))
        elif k < .85:
            ops.append("read %d %d" % (g, r.choice([0, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15])))
        elif k < .95:
            ops.append("raw %d %d" % (g, r.randint(0, 2)))
        else:
            lo, hi = mk(False)
            ops.append("layout %d" % r.choice([1, 2]))
    for g in (1, 2):
        ops.append("read %d %d" % (g, r.choice([0, 1, 11, 3])))
        ops.append("raw %d %d" % (g, r.randint(0, 2)))
    return "%s %d %d %s" % (kind, rank, len(ops), " ".join(ops))

SHAPES = {1: [(300,), (32769,), (65537,), (300000,)], 2: [(300, 3), (3, 300), (70000, 2), (2, 70000), (260, 270)],
          3: [(300, 2, 2), (2, 300, 3), (3, 2, 300), (70, 60, 50), (2, 140, 300)], 4: [(20, 20, 20, 20), (3, 2, 2, 300), (300, 2, 3, 1)]}
def vast(r):
    """many cells: single cells are written and read, the rest only enters a sum"""
    rank = r.randint(1, 4); kind = r.choice(["cf", "cc", "ff", "ll", "kc"]); ops = []
    for m in range(2):
        e = r.choice(SHAPES[rank]); lo = [r.choice([0, -1, 5, -x // 2, 40000, -70000]) for x in e]; hi = [a + x - 1 for a, x in zip(lo, e)]
        J = lambda p: " ".join(map(str, p))
        ops.append("vast %s %s %d" % (J(lo), J(hi), 0 if m == 0 else 1))
        pts = [[r.choice([a, b, r.randint(a, b), min(b, a + 256), min(b, a + 65536)]) for a, b in zip(lo, hi)] for _ in range(10)]
        for k in range(8):
            g = r.choice([1, 2])
            if k == 3: ops.append("vfill %d %d" % (g, r.randint(-3, 3)))
            elif k == 6: ops.append("%s %d %d" % (r.choice(["vadd", "vsub"]), g, 3 - g))
            else: ops.append("vwrite %d %s %d %d" % (g, J(r.choice(pts)), r.randint(-50, 50), r.randint(0, 5)))
        for g in (1, 2):
            ops.append("vread %d %d %d %s" % (g, r.choice([0, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14, 15]), len(pts), " ".join(J(p) for p in pts)))
            ops.append("vall %d %d" % (g, r.randint(0, 2)))
    return "%s %d %d %s" % (kind, rank, len(ops), " ".join(ops))

def check(c):
    exe = c.compile("grid_layout", "grid_layout.cpp", lib=False)
    c.model("GridLayoutMC", c.cfg(spec="BoxSpec", constants={"MaxRank": 3, "Los": "<- LosThorough" if c.thorough else "<- LosQuick",
            "Exts": "{1,2,3}"}, invariants=["Bijective", "Shape"], constraint=["SmallVals"]), "boxes")
    lines = [scenario(c.rng, 12) for _ in range(6000 if c.thorough else 900)]
    lines += [vast(c.rng) for _ in range(600 if c.thorough else 60)]
    out = c.drive(exe, lines, timeout=800)
    recs = [None if e is None else {"id": i, "kind": lines[i].split()[0], "ev": e} for i, e in enumerate(out)]
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"scenario": lines[0], "first_events": out[0][:3] if out[0] else []}]
    c.validate("GridLayoutTrace", tcfg, recs, "all", rerun=lambda r: dict(r, ev=c.drive(exe, [lines[r["id"]]], tag="re")[0]))
    if not c.violations:
        b = copy.deepcopy(recs[0])
        b["ev"] = b["ev"][:2]
        b["ev"][1]["st"][0] += 1
        c.probe("GridLayoutTrace", tcfg, b, "st", "stride of the first dimension changed by one")
    c.assumptions = ["cell by cell: up to 96 cells, ranks 1 to 10; by samples and sums: up to 300000 cells, ranks 1 to 4; bounds up to 10^6",
                     "grids combined by += and -= cover the same index box"]

main("C02", check)
