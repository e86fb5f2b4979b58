"""C13: the block tree mirrors the setup file and respects class restrictions."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from setupgen import make, run, describe, model, files
from vf.core import main, J

def check(c):
    t = c.thorough
    model(c, "blocks", 7 if t else 6)
    items = files(c, "blocks", 7 if t else 6, limit=30000 if t else 3500)
    r = c.rng
    for _ in range(8000 if t else 1200):
        items.append(make(r, n=r.randint(2, 4), npar=2, arrays=False, blocks=.6, err=r.choice([0, .01, .04]), paths=0, depth=0, nstat=r.choice([8, 16, 30]), maxdepth=r.choice([1, 3, 9]),
             funs=False, vars=.2, restrict=r.random() < .6))
    recs, rerun = run(c, items)
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"setup file": items[-1][1]["text"][:500]}]
    c.validate("SetupTrace", tcfg, recs, "all", rerun=rerun, describe=describe(items))
    if not c.violations:
        ok = [x for x in recs if x and x["ev"][-1]["op"] == "inited" and x["ev"][-1]["res"] == "ok"]
        b = copy.deepcopy(next(x for x in ok if any(e["op"] == "parsed" and any(n["parent"] > 1 for n in e["tree"]) for e in x["ev"])))
        next(n for e in b["ev"] if e["op"] == "parsed" for n in e["tree"] if n["parent"] > 1)["parent"] = 1
        c.probe("SetupTrace", tcfg, b, "parent", "a block attached to the root instead of its parent")
        b = copy.deepcopy(next(x for x in ok if any(len(k["names"]) > 1 for kk in x["ev"][-1]["kids"] for k in kk)))
        next(k for kk in b["ev"][-1]["kids"] for k in kk if len(k["names"]) > 1)["names"].reverse()
        c.probe("SetupTrace", tcfg, b, "order", "the children of a block in the wrong order")
    c.assumptions = ["up to four block classes with implementations; nesting up to nine levels"]
main("C13", check)
