"""C05: field positions and indices correspond."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main, J


def scenario(r):
    rank = r.choice([1, 1, 2, 2, 3, 4])
    ops, geo = [], {}
    units = [r.choice([-10, -8, -4, 0, 3]) for _ in range(rank)]
    shared = set()
    def mk(f, op):
        how = r.choice([0, 1, 2])
        g = []
        for _ in range(rank):
            exact = r.random() < .5       # in exact dimensions positions may sit on cell boundaries
            n = r.choice([1, 2, 4, 8, 16]) if exact else r.choice([1, 2, 3, 5, 7, 10, 11, 12])
            if rank > 2:
                n = min(n, 4 if exact else 5)
            w = r.choice([16, 64, 256]) if exact else r.choice([16, 48, 80, 112, 512])
            if rank == 1 and r.random() < .15: n = r.choice([256, 4096, 65536, 131072]) if exact else r.choice([300, 3000, 70000])
            lo = r.choice([0, 0, -3, -1, 2, 9, -40, 0, 2, -200, 40000, -70000])
            g.append((lo, lo + n - 1, r.choice([0, -w * 2, 7, -333, 1000, 64]), w, r.randint(0, 1), exact))
        gh = r.choice([0, 1, 1, 2, 3])
        ops.append(J(op, f, [J(x[:5]) for x in g], gh, how))
        if how == 2:
            g = [(0, x[1] - x[0]) + x[2:] for x in g]
        geo[f] = g, gh
        ops.append(J("bounds", f))
    mk(1, r.choice(["make", "resize"]))
    if r.random() < .4: mk(2, "make")
    for _ in range(16):
        f = r.choice(sorted(geo)); g, gh = geo[f]
        k = r.random()
        d = r.randrange(rank); lo, hi, plo, w, st, exact = g[d]
        if k < .35:
            ops.append(J("position", f, d + 1, r.choice([lo, hi, lo - gh, hi + gh, r.randint(lo - gh, hi + gh)])))
        elif k < .75:
            i = r.choice([lo, hi, lo - gh, hi + gh, r.randint(lo - gh, hi + gh), lo - 1])
            x = plo + (i - lo) * w + (w // 2 if st else 0)
            x += r.choice([0, 0, w // 2, w - 1, 1]) if exact else r.choice([w // 4, 3 * w // 4, w // 2, w // 8])
            ops.append(J("find", f, d + 1, x))
        elif k < .82:
            ops.append(J("bounds", f))
        elif k < .9:
            t = r.choice([1, 2, 3])
            if t not in shared:
                ops.append(J(r.choice(["copy", "assign"]), t, f)); geo[t] = geo[f]
                # the two share their grid from here on: neither is resized again
                shared |= {t, f}
                ops.append(J("bounds", t)); ops.append(J("bounds", f))
        elif f not in shared:
            mk(f, r.choice(["resize", "resize", "make"]))
    return "%d %s %d %s %s" % (rank, r.choice("abc"), len(ops), J(units), " ".join(ops))

def check(c):
    exe = c.compile("field_geom", "field_geom.cpp", lib=False)
    c.model("FieldGeomMC", c.cfg(spec="MSpec", constants={"MaxN": 6 if c.thorough else 4},
            invariants=["LowMapsToLow", "RoundTrip", "Nearest", "PeriodEnds"]), "geometry")
    lines = [scenario(c.rng) for _ in range(12000 if c.thorough else 1500)]
    out = c.drive(exe, lines, timeout=800)
    recs = [None if e is None else {"id": i, "ev": e} for i, e in enumerate(out)]
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"scenario": lines[0], "events": out[0][:3] if out[0] else []}]
    c.validate("FieldGeomTrace", tcfg, recs, "all", rerun=lambda r: dict(r, ev=c.drive(exe, [lines[r["id"]]], tag="re")[0]))
    if not c.violations:
        b = next(copy.deepcopy(r) for r in recs if r and any(e["op"] == "find" for e in r["ev"]))
        e = next(e for e in b["ev"] if e["op"] == "find")
        e["i"] += 1
        c.probe("FieldGeomTrace", tcfg, b, "idx", "index found for one position changed by one")
    c.assumptions = ["positions on cell boundaries are used only where the arithmetic is exact in binary floating point",
                     "fields that share a grid are not resized separately"]

main("C05", check)
