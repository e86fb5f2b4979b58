"""C06: ghost, source and inner regions of a boundary partition the grid."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main, J


def one(r, rank):
    delta = r.choice([0, 1, 1, 1, 2, 2, 3])
    if rank > 2: delta = min(delta, 2 if rank == 3 else 1)
    ops = []
    b, n = [], 1
    for _ in range(rank):
        lo = r.choice([0, -delta, -5, 3, 11])
        e = 2 * delta + r.choice([0, 1, 2, delta, 2 * delta, 3] if rank < 3 else [0, 1, 2]) or 1
        b.append((lo, lo + e - 1)); n *= e
    ops.append(J("make", b, delta, r.randint(0, 2), [r.randint(0, 1) for _ in b]))
    ops += ["domain", "inner"]
    for d in range(1, rank + 1):
        for s in ("min", "max"):
            ops += [J("ghost", d, s), J("source", d, s), J("bound", d, s, 0), J("bound", d, s, 1)]
            # a staggered view needs at least one layer
            if delta > 0:
                ops += [J("view", d, s, "grid"), J("view", d, s, "field")]
                ops += [J("poke", d, s, r.choice(["grid", "field"]), r.randrange(60), 1000 + r.randrange(100))]
    return ops

SIZES = [1, 2, 3, 127, 128, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 70000, 1 << 20, 16777217, 50000000, 200000000]
def large(r, rank):
    """Boxes and boundaries of any size: no grid is made for them."""
    delta = r.choice(SIZES); b = []
    for _ in range(rank):
        lo = r.choice([0, -delta, 3, -1, 100000, -40000, -300000000, 250000000])
        e = 2 * delta + r.choice([0, 1, delta, r.choice(SIZES)]); b.append((lo, lo + e - 1))
    ops = [J("outline", b, delta, r.randint(0, 2), [0 for _ in b]), "domain", "inner"]
    for d in range(1, rank + 1):
        for s in ("min", "max"): ops += [J("ghost", d, s), J("source", d, s), J("bound", d, s, 0), J("bound", d, s, 1)]
    return ops

def scenario(r):
    rank = r.choice([1, 2, 2, 3, 3, 4])
    ops = one(r, rank) + large(r, rank) + one(r, rank)
    return "%d %s %d %s" % (rank, r.choice("ab"), len(ops), " ".join(ops))

def check(c):
    exe = c.compile("boundary_regions", "boundary_regions.cpp", lib=False, asan=False)
    c.model("BoundaryRegionsMC", c.cfg(spec="MSpec", constants={"MaxRank": 3 if c.thorough else 2, "MaxExt": 6 if c.thorough else 8},
            invariants=["Partition", "Images"]), "regions")
    lines = [scenario(c.rng) for _ in range(3000 if c.thorough else 400)]
    out = c.drive(exe, lines, timeout=800)
    recs = [None if e is None else {"id": i, "ev": e} for i, e in enumerate(out)]
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"scenario": lines[0][:400], "events": out[0][:5] if out[0] else []}]
    c.validate("BoundaryRegionsTrace", tcfg, recs, "all", rerun=lambda r: dict(r, ev=c.drive(exe, [lines[r["id"]]], tag="re")[0]))
    if not c.violations:
        b = copy.deepcopy(recs[0])
        next(e for e in b["ev"] if e["op"] == "source")["rlo"][0] += 1
        c.probe("BoundaryRegionsTrace", tcfg, b, "src", "lower corner of one source region changed by one")
    c.assumptions = ["the grid is at least twice as wide as the boundary", "ranks 1 to 4; widths 0 to 3 with the cells of the grid, up to 2*10^8 for the regions alone"]

main("C06", check)
