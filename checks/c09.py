"""C09: accumulation folds ghost contributions into the cells they represent."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from subdiv import initop, run, first, SMALL
from vf.core import main, J

def scenario(r, np, rank):
    kind = "mpi" if np > 1 or r.random() < .4 else "serial"
    ops = []
    for _ in range(2):
        op, delta = initop(r, rank, np, kind, maxn=5, cells=4000, wide=2, delta=r.choice([0, 1, 1, 1, 2, 2] if np < 5 or rank == 1 else [1]))
        ops.append(op)
        for _ in range(r.randint(1, 2)):
            dims = r.choice([[0], [0], [r.randint(1, rank)], r.sample(range(1, rank + 1), rank)])
            for d in dims: ops += [J("fill", r.randrange(1000))] * (1 if r.random() < .7 or d == dims[0] else 0) + [J("accumulate", d)]
            if r.random() < .2: ops.append(J("exchange", 0))
    if rank == 1 and r.random() < .15:      # ghost layers and tiles of more than 255 cells
        ops += [initop(r, rank, np, kind, maxn=300, delta=r.choice([130, 260]) if np < 5 else 100, wide=2)[0], J("fill", r.randrange(1000)), J("accumulate", 0)]
    t = r.choice(SMALL + ["int", "fdouble", "field"]) if rank == 1 else r.choice(["int", "fdouble", "field"])
    return "%d %s %s %d %s" % (rank, kind, t, len(ops), " ".join(ops))

def check(c):
    c.model("ExchangeMC", c.cfg(spec="MSpec", constants={"PX": 2, "PY": 2 if c.thorough else 1, "W": 2, "Acc": "TRUE", "Delta": 1},
            invariants=["Finished", "Conserved"], deadlock=True), "messages")
    n = 120 if c.thorough else 15
    plans = {np: [scenario(c.rng, np, 1 + i % 3 if np < 7 or i % 5 == 0 else 1 + i % 2) for i in range(n if np > 1 else 2 * n)] for np in range(1, 9)}
    recs, rerun, where = run(c, plans)
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"np": where[20][0], "scenario": where[20][1][:300]}]
    c.validate("SubdivisionTrace", tcfg, recs, "all", rerun=rerun)
    if not c.violations:
        b, e = first(recs, "accumulate", lambda e: len(e["cells"]) > 1)
        e["cells"][0][0] += 1
        c.probe("SubdivisionTrace", tcfg, b, "ghost", "first cell of one process changed by one after an accumulation")
    c.assumptions = ["every tile is at least twice as wide as the ghost layer in the accumulated dimension", "1 to 8 processes, ranks 1 to 3",
                     "integer-valued contents, so that sums are exact in every element type"]
main("C09", check)
