"""C15: shared data are found by name exactly where they were registered."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main, J

def scenario(r):
    style, ops, parents = r.randint(0, 1), [], []
    names = r.choice([["a", "b", "c", "d"], ["a", "b"], ["a", "a", "x"]])
    nb = r.randint(1, 9)
    def key():
        k = r.choice(["x", "x", "y", "z"])
        for _ in range(r.choice([0, 0, 1, 1, 2])): k = r.choice(names + ["app"]) + "." + k
        return k
    cur = 0
    for i in range(1, nb + 1):
        if style == 0: p = r.choice(list(range(1, i)) + ([0] if r.random() < .3 else [])) if i > 1 else 0
        else:                                             # order of appearance: any block on the path to the latest one
            path, p = [], i - 1
            while p: path.append(p); p = parents[p - 1]
            p = r.choice(path) if path else 0
        parents.append(p)
        ops.append(J("block", "app" if p == 0 else r.choice(names), p))
    used = {"int": 0, "dbl": 0, "grid": 0, "int*": 0}
    for _ in range(r.randint(4, 16)):
        if r.random() < .4:
            ty = r.choice(["int", "int", "dbl", "grid", "int*"])
            if used[ty] < 12 and not (ty == "int*" and r.random() < .6):
                used[ty] += 1
                ops.append(J("add", r.randint(1, nb), key() if r.random() < .15 else r.choice(["x", "x", "y", "z"]), ty, used[ty]))
                continue
        ops.append(J("get", r.randint(1, nb), key(), r.choice(["int", "int", "dbl", "grid"]), r.choice(["value", "pointer"])))
    return J(style, len(ops), ops)

def exhaustive(c, limit):
    """every tree and registration of the model's bound, with all lookups"""
    hs = c.generate("SharedDataGen", c.cfg(spec="Spec", constants={"MaxBlocks": 4, "MaxData": 2}, invariants=["Emit"]), "trees", limit=limit)
    out = []
    for t in hs:
        ops = [J("block", b["name"], b["parent"]) for b in t["T"]]
        ops += [J("add", d["b"], ".".join(d["key"]), d["ty"], d["x"]) for d in t["D"]]
        ops += [J("get", b, k, ty, c.rng.choice(["value", "pointer"])) for b in range(1, len(t["T"]) + 1) for k in ("x", "y", "a.x", "b.a.x") for ty in ("int", "dbl")]
        out.append(J(0, len(ops), ops))
    return out

def check(c):
    t = c.thorough
    inv = ["Honest", "Innermost", "FromEverywhere", "Dotted"]
    c.model("SharedDataMC", c.cfg(spec="Spec", constants={"MaxBlocks": 4, "MaxData": 3 if t else 2}, invariants=inv), "small trees")
    if t: c.model("SharedDataMC", c.cfg(spec="Spec", constants={"MaxBlocks": 5, "MaxData": 2}, invariants=inv), "larger trees")
    lines = exhaustive(c, 20000 if t else 2500) + [scenario(c.rng) for _ in range(15000 if t else 2500)]
    exe = c.compile("shared_data", "shared_data.cpp", lib=True)
    out = c.drive(exe, lines, timeout=600)
    recs = [None if e is None else {"id": k, "ev": e} for k, e in enumerate(out)]
    def rerun(rec): return dict(rec, ev=c.drive(exe, [lines[rec["id"]]], tag="re")[0])
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"scenario": lines[-1][:400]}]
    c.validate("SharedDataTrace", tcfg, recs, "all", rerun=rerun)
    if not c.violations:
        b = copy.deepcopy(next(x for x in recs[-2000:] if x and any(e["op"] == "get" and e["res"] == "ok" for e in x["ev"])))
        e = next(e for e in b["ev"] if e["op"] == "get" and e["res"] == "ok"); e["x"] += 1
        c.probe("SharedDataTrace", tcfg, b, "other", "another datum retrieved")
        b = copy.deepcopy(next(x for x in recs if x and any(e["op"] == "get" and e["res"] == "dup" for e in x["ev"])))
        e = next(e for e in b["ev"] if e["op"] == "get" and e["res"] == "dup"); e["res"] = "none"
        c.probe("SharedDataTrace", tcfg, b, "ambiguous", "an ambiguous name recorded as unknown")
    c.assumptions = ["up to nine blocks and about ten registrations", "where both an object and a pointer of the requested type are visible, either may be retrieved"]
main("C15", check)
