"""C16: dependent variables are recomputed exactly when their inputs change."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from setupgen import make, run, describe, Gen, val
from vf.core import main, J, hx

def graph(r, b, n):
    """a behaviour of the model (UpdateGen) as a setup file and operations"""
    split = r.choice([n + 1, n + 1, 4, 5])                     # the variables from here on live in an inner block
    def par(i, kind): return {"name": "x%d" % i, "ty": "int", "kind": kind, "has": True, "v": val("int", 0)}
    p1 = [par(i, "ro") for i in (1, 2)] + [par(i, "rw") for i in range(3, min(n + 1, split))]
    p2 = [par(i, "rw") for i in range(split, n + 1)]
    def w(ps): return J(len(ps), [J(p["name"], "int", {"ro": "ro", "rw": "def"}[p["kind"]], 0, 1, 0) for p in ps])
    conf = {"classes": [{"name": "Main", "real": True, "params": p1, "kids": []}, {"name": "Sub", "real": True, "params": p2, "kids": []}],
            "restrict": False, "rootname": "app", "rootcls": "Main"}
    g = Gen(r)
    g.conf, g.text, g.line, g.ev = conf, "", 1, []
    def formula(i):
        ts = [{"k": "int", "n": 1, "txt": "1"}] + [g.ident("x%d" % j) for j in b["d"][i - 3]]
        if b["al"] == i: ts.append(None)
        r.shuffle(ts)
        out = []
        for t in ts: out += ([g.op("+")] if out else []) + (g.toks("always") if t is None else [t])
        g.emit("assign", ["x%d" % i, "="] + [t["txt"] for t in out] + [";"], p=["x%d" % i], ts=g.strip(out))
    outer, inner = list(range(3, min(n + 1, split))), list(range(split, n + 1))
    r.shuffle(outer); r.shuffle(inner)
    cut = r.randint(0, len(outer))
    for i in outer[:cut]: formula(i)
    if inner:
        g.emit("open", ["Sub", "s", "{"], cls="Sub", name="s")
        for i in inner: formula(i)
        g.emit("close", ["}"])
    for i in outer[cut:]: formula(i)
    if not g.ev: g.emit("assign", ["x3", "=", "1", ";"], p=["x3"], ts=[{"k": "int", "n": 1}])
    def keys(s): s = list(s); r.shuffle(s); return J(len(s), [J(1 if i < split else 2, "x%d" % i) for i in s])
    ops, k = ["init 1"], 0
    for e in b["log"]:
        if e["op"] == "tick": ops.append("tick 5")
        elif e["op"] == "set": ops.append(J("set", 1, "x%d" % e["i"], e["v"]))
        else:
            k += 1
            ops += [J("updater", keys(e["ind"]), keys(e["dep"])), J("update", k)]
    line = "%s 0 0 app Main deck %s %d %s" % (J(2, "Main", 1, w(p1), 0, "Sub", 1, w(p2), 0), hx(g.text), len(ops), " ".join(ops))
    return line, {"conf": conf, "file": "deck", "stim": g.ev, "text": g.text}

def check(c):
    t, r = c.thorough, c.rng
    inv = ["Right", "Deterministic", "Progress", "Untouched", "OnlyDependents"]
    c.model("UpdateMC", c.cfg(spec="Spec", constants={"N": 4, "MaxOps": 4 if t else 3}, invariants=inv), "four variables")
    if t: c.model("UpdateMC", c.cfg(spec="Spec", constants={"N": 5, "MaxOps": 2}, invariants=inv), "five variables")
    items = []
    for n in (4, 5):
        bs = c.generate("UpdateGen", c.cfg(spec="GSpec", constants={"N": n, "MaxOps": 6}, invariants=["Emit"]), "n%d" % n, simulate=3000 if t else 250, depth=60)
        items += [graph(r, b, n) for b in bs]
    for _ in range(8000 if t else 1200):
        items.append(make(r, fail=r.choice([0, .05]), ops=lambda g: g.update_ops(10), n=r.randint(1, 3), npar=8, minpar=3, kinds=["def", "def", "def", "ro", "ro", "rod", "const"], blocks=.15, err=0,
             cyc=r.choice([0, 0, .3]), paths=.3, depth=r.choice([1, 1, 2]), nstat=10, reuse=.1, restrict=False, vars=.9, prefer=.85, given=.9, strings=False,
             fkinds=["one", "one", "two", "twoi", "always", "always", "none"], fun1=["count", "count", "fabs", "floor"], fun2=["both", "min", "max"]))
    recs, rerun = run(c, items)
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"setup file": items[0][1]["text"][:300], "operations": items[0][0][-200:]}, {"setup file": items[-1][1]["text"][:500]}]
    c.validate("SetupTrace", tcfg, recs, "all", rerun=rerun, describe=describe(items))
    if not c.violations:
        def ups(x): return [e for e in x["ev"] if e["op"] == "update" and e["res"] == "ok"]
        b = copy.deepcopy(next(x for x in recs[:300] if x and ups(x) and any(p["name"] == "x3" for p in ups(x)[-1]["params"][0])))
        next(p for p in ups(b)[-1]["params"][0] if p["name"] == "x3")["v"]["n"] += 1
        c.probe("SetupTrace", tcfg, b, "stale", "a dependent parameter with another value")
        b = copy.deepcopy(next(x for x in recs[len(recs) - 1200:] if x and ups(x) and ups(x)[-1]["calls"] > 0))
        ups(b)[-1]["calls"] -= 1
        c.probe("SetupTrace", tcfg, b, "skipped", "a formula evaluated once less than needed")
    c.assumptions = ["independent variables are read-only parameters of the program (the library asserts this)", "histories in which a formula fails to evaluate are not followed further"]
main("C16", check)
