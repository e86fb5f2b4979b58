"""C08: ghost exchange makes ghost cells the periodic image of the global field."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from subdiv import initop, run, first, SMALL
from vf.core import main, J

def scenario(r, np, rank):
    kind = "mpi" if np > 1 or r.random() < .4 else "serial"
    ops = []
    for _ in range(2):
        op, delta = initop(r, rank, np, kind, maxn=6, cells=3000)
        ops.append(op)
        for _ in range(r.randint(1, 2)):
            ops.append(J("fill", r.randrange(1000)))
            dims = r.choice([[0], [0], [0, 0], [r.randint(1, rank)], [r.randint(1, rank), 0], r.sample(range(1, rank + 1), rank)])
            ops += [J("exchange", d) for d in dims]
    if rank == 1 and r.random() < .15:      # ghost layers and tiles of more than 255 cells
        ops += [initop(r, rank, np, kind, maxn=300, delta=r.choice([130, 260]) if np < 5 else 100, wide=2)[0], J("fill", r.randrange(1000)), J("exchange", 0)]
    t = r.choice(SMALL + ["int", "fdouble", "field"]) if rank == 1 else r.choice(["int", "fdouble", "field"])
    return "%d %s %s %d %s" % (rank, kind, t, len(ops), " ".join(ops))

def check(c):
    c.model("ExchangeMC", c.cfg(spec="MSpec", constants={"PX": 3 if c.thorough else 2, "PY": 2, "W": 2 if c.thorough else 1, "Acc": "FALSE", "Delta": 1},
            invariants=["Finished", "TilesKept"], deadlock=True), "messages")
    n = 140 if c.thorough else 18
    plans = {np: [scenario(c.rng, np, 1 + i % 3) for i in range(n if np > 1 else 2 * n)] for np in range(1, 9)}
    recs, rerun, where = run(c, plans)
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"np": where[20][0], "scenario": where[20][1][:300]}]
    c.validate("SubdivisionTrace", tcfg, recs, "all", rerun=rerun)
    if not c.violations:
        b, e = first(recs, "exchange", lambda e: len(e["cells"]) > 1)
        e["cells"][0][0] += 1
        c.probe("SubdivisionTrace", tcfg, b, "ghost", "first cell of one process changed by one after an exchange")
    c.assumptions = ["every dimension has at least 2 + (processes x ghost width) cells", "1 to 8 processes, ranks 1 to 3"]
main("C08", check)
