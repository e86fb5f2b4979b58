"""C23: grid views read and write the right cells of the underlying grid."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main, J

def scenario(r):
    rank = r.choice([1, 2, 2, 3])
    ops, views = [], {}
    lo = [r.choice([0, 0, -2, 3, 0, -2, 3, -129, 40000, -70000]) for _ in range(rank)]
    hi = [a + r.choice([0, 1, 2, 4]) for a in lo]
    def make():
        ops.append(J("make", lo, hi))
    def subbox():
        a, b = [], []
        for x, y in zip(lo, hi):
            p, q = sorted((r.randint(x, y), r.randint(x, y)))
            if r.random() < .3: p, q = x, y
            a.append(p); b.append(q)
        return a, b
    make()
    for _ in range(22):
        k = r.random(); v = r.choice([1, 2, 3])
        subs = [x for x in views if views[x][0] == "sub"]
        if k < .15 or not views:
            a, b = subbox()
            ops.append(J(r.choice(["sub", "sub", "rsub"]) if v in subs else "sub", v, a, b, r.randint(0, 3)))
            views[v] = ("sub", a, b); ops.append(J("bounds", v))
        elif k < .25:
            ops.append(J("trans", v, r.choice([2, -1, 3, 1]), r.choice([0, 5, -7]), r.randint(0, 2)))
            views[v] = ("trans",); ops.append(J("bounds", v))
        elif k < .35:
            ops.append(J("write", [r.randint(a, b) for a, b in zip(lo, hi)], r.randint(-90, 90)))
        elif k < .55 and subs:
            v = r.choice(subs); _, a, b = views[v]
            ops.append(J("poke", v, [r.randint(x, y) for x, y in zip(a, b)], r.randint(100, 190), r.randint(0, 2)))
        elif k < .62 and subs:
            ops.append(J(r.choice(["addv", "subv"]), r.choice(subs), r.randint(-5, 5)))
        elif k < .67 and subs:
            ops.append(J("fillv", r.choice(subs), r.randint(-9, 9), r.randint(0, 1)))
        elif k < .9:
            ops.append(J("read", r.choice(sorted(views)), r.randint(0, 5)))
        elif k < .97:
            ops.append("base")
        elif not subs:
            lo = [r.choice([0, -2, 3, 300, 70000]) for _ in range(rank)]; hi = [a + r.choice([0, 1, 3]) for a in lo]
            make()
            for v in views: ops.append(J("bounds", v))
    for v in views: ops.append(J("read", v, r.randint(0, 5)))
    ops.append("base")
    return "%d %s %d %s" % (rank, r.choice("aab"), len(ops), " ".join(ops))

def check(c):
    exe = c.compile("grid_views", "grid_views.cpp", lib=False)
    c.model("GridViewsMC", c.cfg(spec="MSpec", constants={"Views": "{1,2}"}, invariants=["Agree"], properties=["OnlyInside", "Seen"]), "views")
    lines = [scenario(c.rng) for _ in range(10000 if c.thorough else 1200)]
    out = c.drive(exe, lines, timeout=800)
    recs = [None if e is None else {"id": i, "ev": e} for i, e in enumerate(out)]
    tcfg = c.cfg(spec="TSpec", constants={"Views": "{1,2,3}"}, deadlock=True)
    c.samples = [{"scenario": lines[0][:400]}]
    c.validate("GridViewsTrace", tcfg, recs, "all", rerun=lambda r: dict(r, ev=c.drive(exe, [lines[r["id"]]], tag="re")[0]))
    if not c.violations:
        b = next(copy.deepcopy(r) for r in recs if r and any(e["op"] == "read" for e in r["ev"]))
        next(e for e in b["ev"] if e["op"] == "read")["vals"][0] += 1
        c.probe("GridViewsTrace", tcfg, b, "val", "one value read through a view changed")
    c.assumptions = ["sub-grid views lie inside the underlying grid", "transformed views are read only", "ranks 1 to 3"]

main("C23", check)
