"""C07: the domain decomposition tiles the global domain."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from subdiv import initop, run, first
from vf.core import main

def scenario(r, np, rank):
    kind = "mpi" if np > 1 or r.random() < .5 else "serial"
    ops = []
    for _ in range(r.randint(2, 4)):
        ops.append(initop(r, rank, np, kind, maxn=r.choice([40, 40, 40, {1: 200000, 2: 900, 3: 90}[rank]]), delta=r.choice([None, None, None, 0, {1: 300, 2: 12, 3: 5}[rank]]))[0])
        if r.random() < .4: ops.append("again")
    for _ in range(6):
        n = 1
        for _ in range(r.randint(0, 6)): n *= r.choice([2, 2, 2, 3, 3, 5, 7, 11])
        n = r.choice([n, n, n, r.randint(1, 200), r.choice([97, 101, 9973, 65537, 99991, 2 * 49999])])
        ops.append("factors %d %s" % (n, " ".join(str(r.choice([1, 2, 10, 100, 1000, r.randint(1, 5000)])) for _ in range(rank))))
    return "%d %s %s %d %s" % (rank, kind, r.choice(["int", "fdouble", "field"]), len(ops), " ".join(ops))

def check(c):
    c.model("DecompositionMC", c.cfg(spec="MSpec", constants={"MaxN": 26 if c.thorough else 16, "MaxP": 8 if c.thorough else 6, "MaxDelta": 3 if c.thorough else 2},
            invariants=["CutsTile", "GridProduct"]), "cuts")
    n = 250 if c.thorough else 45
    plans = {np: [scenario(c.rng, np, 1 + i % 3) for i in range(n)] for np in list(range(1, 9)) + ([12, 16] if c.thorough else [])}
    recs, rerun, where = run(c, plans)
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"np": where[-1][0], "scenario": where[-1][1][:300], "events": recs[-1]["ev"][:1] if recs[-1] else []}]
    c.validate("SubdivisionTrace", tcfg, recs, "all", rerun=rerun)
    if not c.violations:
        b, e = first(recs, "init", lambda e: len(e["procs"]) > 1)
        e["procs"][0]["ihi"][0] -= 1; e["procs"][0]["hi"][0] -= 1
        c.probe("SubdivisionTrace", tcfg, b, "gap", "one tile made one cell shorter, leaving a gap")
    c.assumptions = ["with several processes every dimension has at least 2 + (processes x ghost width) cells", "1 to 8 (thorough: also 12 and 16) processes, ranks 1 to 3, ghost widths 0 to 3",
                     "MPI: limits exclude ghost cells, serial: limits include them, as documented for each class"]
main("C07", check)
