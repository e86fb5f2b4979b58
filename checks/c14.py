"""C14: every block runs its lifecycle phases once, phase by phase, in file order."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from setupgen import make, run, describe, model, files
from vf.core import main, J

def tree(r):
    """a tree put together by a program"""
    style, n = r.randint(0, 1), r.choice([1, 2, 3, 4, 6, 9, 15, 30])
    shape = r.choice(["any", "deep", "wide", "any"])
    par, ops = [0], ["add 0 1"]
    for i in range(2, n + 1):
        path, p = [], i - 1
        while p: path.append(p); p = par[p - 1]
        p = r.choice(path) if style else r.randint(1, i - 1)
        if shape == "deep" and r.random() < .8: p = i - 1
        if shape == "wide" and r.random() < .8: p = 1
        par.append(p); ops.append(J("add", p, int(r.random() < .8)))
    def some(): return r.randint(1, n)
    ops.append("look")
    if r.random() < .5: ops.append("setup 1")
    else:                                                   # each on its own, as the parser does (no children yet)
        ops, look = [], 0
        for i, p in enumerate(par): ops += [J("add", p, int(r.random() < .8)), J("setup", i + 1)]
    if r.random() < .3: ops += [J("evaluate", some()), "look"]
    ops += [J("initall", some()), "look"]
    return J(style, len(ops), ops)

def trees(c):
    exe = c.compile("lifecycle", "lifecycle.cpp")
    c.model("LifecycleMC", c.cfg(spec="Spec", constants={"MaxBlocks": 5 if c.thorough else 4}, invariants=["Once", "Whole", "PhaseByPhase", "Ordered", "Known"], properties=["Ends"]), "trees")
    lines = [tree(c.rng) for _ in range(6000 if c.thorough else 800)]
    recs = [None if e is None else {"id": i, "ev": e} for i, e in enumerate(c.drive(exe, lines, timeout=800, tag="trees"))]
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.validate("LifecycleTrace", tcfg, recs, "trees", rerun=lambda x: dict(x, ev=c.drive(exe, [lines[x["id"]]], tag="retrees")[0]))
    if not c.violations:
        b = copy.deepcopy(next(x for x in recs if x and len(x["ev"]) > 30))
        k = max(i for i, e in enumerate(b["ev"]) if e["op"] == "call" and e["ph"] == "init")
        del b["ev"][k]
        c.probe("LifecycleTrace", tcfg, b, "missing", "a block without its initialisation")

def check(c):
    trees(c)
    t = c.thorough
    model(c, "blocks", 7 if t else 6)
    items = files(c, "blocks", 8 if t else 6, limit=40000 if t else 3500)
    r = c.rng
    for _ in range(8000 if t else 1200):
        items.append(make(r, n=r.randint(2, 4), npar=r.choice([1, 4]), blocks=r.choice([.4, .6]), err=r.choice([0, 0, .02]), paths=.2, depth=r.choice([0, 1]), nstat=r.choice([8, 20, 40]),
             maxdepth=r.choice([1, 4, 12]), funs=False, vars=.5, restrict=False))
    recs, rerun = run(c, items)
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"setup file": items[-1][1]["text"][:500]}]
    c.validate("SetupTrace", tcfg, recs, "all", rerun=rerun, describe=describe(items))
    if not c.violations:
        ok = [x for x in recs if x and x["ev"][-1]["op"] == "inited" and x["ev"][-1]["res"] == "ok"]
        b = copy.deepcopy(next(x for x in ok if len(x["ev"][-1]["life"]) >= 12))
        f = b["ev"][-1]["life"]; f[4], f[5] = f[5], f[4]
        c.probe("SetupTrace", tcfg, b, "swap", "two blocks swapped within a phase")
        b = copy.deepcopy(next(x for x in ok if len(x["ev"][-1]["life"]) >= 12))
        del b["ev"][-1]["life"][-1]
        c.probe("SetupTrace", tcfg, b, "lost", "one block without its last phase")
    c.assumptions = ["nesting up to twelve levels, up to about thirty blocks"]
main("C14", check)
