"""C11: expressions in the setup file evaluate to their mathematical value."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from setupgen import make, run, describe, Gen, val, wire, anyv
from vf.core import main, J, hx

VALS = {"i2": ("int", 2), "i7": ("int", 7), "f": ("flt", 1.5), "s": ("str", "12")}
def which(t): return "i%d" % t["n"] if t["k"] == "int" else "f" if t["k"] == "flt" else "s"

def deck(r, exprs, mode):
    """a setup file with the given expressions (token lists of the model); the operands are literals, constants, defaults or
    values only known later"""
    g = Gen(r)
    params = []
    for k, (ty, v) in VALS.items():
        params += [{"name": "c" + k, "ty": ty, "kind": "const", "has": True, "v": val(ty, v)}, {"name": "r" + k, "ty": ty, "kind": "ro", "has": True, "v": val(ty, v)},
                   {"name": "d" + k, "ty": ty, "kind": "rw", "has": True, "v": val(ty, v)}]
    kinds = {"const": "const", "ro": "ro", "rw": "def"}
    ws = [J(p["name"], p["ty"], kinds[p["kind"]], 0, 1, wire(p["ty"], VALS[p["name"][1:]][1])) for p in params]
    conf = {"classes": [{"name": "Main", "real": True, "params": params, "kids": []}], "restrict": False, "rootname": "app", "rootcls": "Main"}
    g.conf, g.text, g.line, g.ev, g.cur = conf, "", 1, [], None
    g.nodes = []
    g.cur = g.node("app", "Main", None)
    for n, ts in enumerate(exprs):
        toks, ty = [], "int"
        for t in ts:
            if t["k"] == "op": toks.append(g.op(t["s"])); continue
            w = which(t)
            ty = g.common(ty, VALS[w][0])
            m = mode if mode != "mix" else r.choice(["lit", "c", "r", "d"])
            if m == "lit":
                txt = {"i2": "2", "i7": "7", "f": r.choice(["1.5", "15e-1", "1.50"]), "s": "\"12\""}[w]
                toks.append(dict(t, txt=txt))
            else: toks.append(g.ident(m + w))
        g.emit("decl", [{"int": "int", "flt": "float", "str": "string"}[ty], "v%d" % n, "="] + [t["txt"] for t in toks] + [";"],
               ty=ty, items=[{"name": "v%d" % n, "ts": g.strip(toks)}])
    line = "%s 0 0 app Main deck %s 1 init 1" % (J(1, "Main", 1, len(ws), ws, 0), hx(g.text))
    return line, {"conf": conf, "file": "deck", "stim": g.ev, "text": g.text}

def check(c):
    L = {"MaxLen": 9 if c.thorough else 7, "Wide": "FALSE"}
    c.model("ExprMC", c.cfg(spec="Spec", constants=L, invariants=["SameValue", "NothingElse"]), "precedence")
    c.model("ExprMC", c.cfg(spec="Spec", constants={"MaxLen": 7 if c.thorough else 5, "Wide": "TRUE"}, invariants=["SameValue", "NothingElse"]), "types")
    # every expression the model accepts, replayed into the parser
    es = c.generate("ExprGen", c.cfg(spec="Spec", constants={"MaxLen": 7, "Wide": "FALSE"}, invariants=["Emit"]), "all")
    es += c.generate("ExprGen", c.cfg(spec="Spec", constants={"MaxLen": 6 if c.thorough else 5, "Wide": "TRUE"}, invariants=["Emit"]), "typed")
    # an integer expression divided by a zero stops the file: keep those apart
    items = []
    for i in range(0, len(es), 12):
        for mode in (["lit", "mix", "r"] if c.thorough else [["lit", "mix"][i // 12 % 2]]):
            items.append(deck(c.rng, es[i:i + 12], mode))
    for _ in range(8000 if c.thorough else 900):
        items.append(make(c.rng, fail=c.rng.choice([0, .05]), n=1, npar=5, blocks=0, err=.004, paths=0, depth=c.rng.choice([1, 2, 3, 4]), nstat=9, reuse=0, restrict=False,
                  vars=c.rng.choice([.1, .5, .8]), strings=c.rng.random() < .5, formulas=c.rng.random() < .7))
    recs, rerun = run(c, items)
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"setup file": items[0][1]["text"][:300]}, {"setup file": items[-1][1]["text"][:500]}]
    c.validate("SetupTrace", tcfg, recs, "all", rerun=rerun, describe=describe(items))
    if not c.violations:
        b = copy.deepcopy(next(r for r in recs if r and r["ev"][-1]["op"] == "inited" and r["ev"][-2]["vars"][0]["vars"] and
                               any(v["v"]["t"] == "int" and v["init"] and v["fixed"] for v in r["ev"][-2]["vars"][0]["vars"])))
        next(v for v in b["ev"][-2]["vars"][0]["vars"] if v["v"]["t"] == "int" and v["init"] and v["fixed"])["v"]["n"] += 1
        c.probe("SetupTrace", tcfg, b, "value", "one integer value increased by one")
    c.assumptions = ["floating point values are compared exactly where they are dyadic numbers with at most 20 binary places, functions to 1e-6 at tabulated points; elsewhere only the type is checked",
                     "operators other than + on texts are left open"]
main("C11", check)
