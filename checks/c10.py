"""C10: buffer exchange and reductions deliver exact data to every process."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from subdiv import initop, run, first
from vf.core import main, J

def scenario(r, np, rank):
    kind = "mpi" if np > 1 or r.random() < .5 else "serial"
    ops = [initop(r, rank, np, kind, maxn=6)[0]]
    for _ in range(r.randint(4, 9)):
        d = r.randint(1, rank); o = r.choice([1, -1, 1, -1, 3, -2])
        k = r.randrange(3)
        if k == 0: ops.append(J("data", d, o, r.choice([0, 1, 5, 40]), r.choice([0, 1, 4, 30, 30, 30, 300]), r.randrange(10**6)))
        elif k == 1: ops.append(J("things", d, o, r.randrange(3), r.choice([1, 5, 12]), r.randrange(10**6)))
        else: ops.append(J("reduce", r.choice(["sum", "max", "min", "avg"]), r.randint(0, 1), r.randrange(10**6)))
    # one long buffer now and then, beyond the eager limit of the transport
    if r.random() < .06: ops.append(J("data", 1, r.choice([1, -1]), 0, 9000, r.randrange(10**6)))
    return "%d %s int %d %s" % (rank, kind, len(ops), " ".join(ops))

def check(c):
    c.model("BufferMC", c.cfg(spec="MSpec", constants={"P": 4 if c.thorough else 3, "MaxLen": 2}, invariants=["Delivered", "SizesMatch"], deadlock=True), "ring")
    n = 200 if c.thorough else 40
    plans = {np: [scenario(c.rng, np, 1 + i % 3) for i in range(n)] for np in list(range(1, 9)) + ([12, 16] if c.thorough else [])}
    recs, rerun, where = run(c, plans)
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"np": where[-1][0], "scenario": where[-1][1][:300]}]
    c.validate("SubdivisionTrace", tcfg, recs, "all", rerun=rerun)
    if not c.violations:
        b, e = first(recs, "data", lambda e: any(len(x) > 1 for x in e["out"]))
        x = next(x for x in e["out"] if len(x) > 1); x[0] += 1
        c.probe("SubdivisionTrace", tcfg, b, "byte", "one received byte changed")
    c.assumptions = ["1 to 8 (thorough: also 12 and 16) processes, ranks 1 to 3", "send and receive buffers are different objects", "reduced floating point values are exactly representable sums"]
main("C10", check)
