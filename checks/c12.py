"""C12: setup declarations follow scope, type, default and read-only rules."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from setupgen import make, run, describe, model, files
from vf.core import main, J

def check(c):
    t = c.thorough
    model(c, "names", 4 if t else 3)
    model(c, "few", 6 if t else 5)
    items = files(c, "names", 3) + files(c, "few", 5 if t else 4, limit=30000 if t else 3000)
    r = c.rng
    for _ in range(9000 if t else 1200):
        items.append(make(r, fail=r.choice([0, .08]), ops=lambda g: g.look_ops(6) + [J("init", r.randint(1, 9))], n=r.randint(1, 4), npar=5, blocks=.25, err=r.choice([0, .02, .06, .15]),
             paths=.4, depth=r.choice([0, 1, 1, 2]), nstat=r.choice([5, 10, 16]), reuse=.45, restrict=r.random() < .3, vars=.75, funs=r.random() < .3))
    recs, rerun = run(c, items)
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"setup file": items[-1][1]["text"][:500]}]
    c.validate("SetupTrace", tcfg, recs, "all", rerun=rerun, describe=describe(items))
    if not c.violations:
        b = copy.deepcopy(next(x for x in recs if x and x["ev"][-1]["op"] == "parsed" and x["ev"][-1]["res"] == "parser"))
        b["ev"][-1]["res"] = "ok"
        c.probe("SetupTrace", tcfg, b, "accepted", "a rejected file recorded as accepted")
        b = copy.deepcopy(next(x for x in recs if x and any(e["op"] == "look" and e["found"][0] > 1 for e in x["ev"]) and x["ev"][-1]["op"] == "inited"))
        next(e for e in b["ev"] if e["op"] == "look" and e["found"][0] > 1)["found"][0] = 1
        c.probe("SetupTrace", tcfg, b, "outer", "an inner declaration recorded as the outer one")
    c.assumptions = ["the place of an error is checked to lie within the lines of the offending statement", "variables and block classes carry different names",
                     "what happens to a text that is not a number when it is assigned to a number is checked only for decimal notations of up to nine digits"]
main("C12", check)
