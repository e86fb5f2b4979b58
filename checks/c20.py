"""C20: array arithmetic is element by element and free of aliasing effects."""
import sys, os, copy, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main, J, HARN

CPP = {"Z": "Z", "I": "int", "D": "double"}
HOWS = ["=", "+", "-", "*", "/", "new"]

def number(e, leaves):
    if e["k"] in "as":
        leaves[e["k"]].append(e["ty"]); return dict(e, i=len(leaves[e["k"]]))
    if e["k"] == "u": return dict(e, x=number(e["x"], leaves))
    x = number(e["x"], leaves); return dict(e, x=x, y=number(e["y"], leaves))

def text(e, r):
    if e["k"] == "a": return ("a%d" if r.random() < .75 else "checked(a%d)") % e["i"]
    if e["k"] == "s": return "s%d" % e["i"]
    if e["k"] == "u": return "(%s%s)" % (e["op"], text(e["x"], r))
    return "(%s %s %s)" % (text(e["x"], r), e["op"], text(e["y"], r))

def typeof(e):
    if e["k"] in "as": return e["ty"]
    if e["k"] == "u": return typeof(e["x"])
    a, b = typeof(e["x"]), typeof(e["y"]); return a if a == b else "D"

def divisors(e, out):
    """the leaves by which a number that is not of type Z is divided"""
    if e["k"] == "u": divisors(e["x"], out)
    elif e["k"] == "b":
        if e["op"] == "/" and e["y"]["k"] in "as": out.add((e["y"]["k"], e["y"]["i"]))
        divisors(e["x"], out); divisors(e["y"], out)
    return out

class Shape: pass
def shapes(c, nz, nm):
    hs = c.generate("ArraysGen", c.cfg(spec="GSpec", constants={"Vals": "{0}", "MaxLevel": 0}, invariants=["Emit"]), "shapes")
    z = [e for e in hs if typeof(e) == "Z"]; m = [e for e in hs if typeof(e) != "Z"]
    flat = [e for e in z if all(e.get(q, {"k": "a"})["k"] in "as" for q in "xy")]     # one operation
    mixed = [e for e in m if typeof(e) == "D" and '"I"' in json.dumps(e)]
    kinds = {}                                                                       # operand kinds and types of the outermost operation
    for e in z + m:
        kind = lambda x: (x["k"] if x["k"] in "as" else "e", typeof(x))
        kinds.setdefault((e["k"], e["op"]) + tuple(kind(e[q]) for q in "xy" if q in e), []).append(e)
    pick = flat + [c.rng.choice(v) for _, v in sorted(kinds.items())] + c.rng.sample(z, nz) + c.rng.sample(mixed, nm) + c.rng.sample(m, nm // 2)
    out = []
    for k, e in enumerate(pick):
        s = Shape(); s.id = k; s.leaves = {"a": [], "s": []}; s.e = number(e, s.leaves); s.ty = typeof(e); s.N = c.rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
        s.family = "ZZZZ" if s.ty == "Z" else "IIIDDD"
        s.div = divisors(s.e, set()) if s.ty != "Z" else set()
        s.target = s.ty if s.ty == "Z" else c.rng.choice("ID")
        out.append(s)
    return out

def sources(c, ss, nfiles):
    d = os.path.join(c.dir, "gen"); os.makedirs(d, exist_ok=True)
    files = []
    for f in range(nfiles):
        t = '#include "%s"\nusing namespace schnek;\n' % os.path.join(HARN, "arrays.hpp")
        t += "template<class T, size_t N> static Array<T, N, ArrayAssertArgCheck> checked(const Array<T, N> &a) { return Array<T, N, ArrayAssertArgCheck>(a); }\n"
        for s in ss[f::nfiles]:
            t += "static void f%d(void *v, int how, int t, const Ints &as, const Longs &ss) {\n  Store<%d> &S = *(Store<%d>*)v; (void)as; (void)ss;\n" % (s.id, s.N, s.N)
            for i, ty in enumerate(s.leaves["a"], 1): t += "  const Array<%s, %d> &a%d = S.get((%s*)0, as[%d]);\n" % (CPP[ty], s.N, i, CPP[ty], i - 1)
            for i, ty in enumerate(s.leaves["s"], 1): t += "  const %s s%d = make<%s>(ss[%d]);\n" % (CPP[ty], i, CPP[ty], i - 1)
            t += "  statement(S.get((%s*)0, t), how, [&]() { return %s; });\n}\n" % (CPP[s.target], text(s.e, c.rng))
            t += "static Register r%d(%d, %s, f%d);\n" % (s.id, s.id, json.dumps(json.dumps(s.e)), s.id)
        p = os.path.join(d, "shapes%d.cpp" % f); open(p, "w").write(t); files.append(p)
    return files

def val(r, ty, div=False):
    if ty == "Z": return r.choice([r.randrange(10007), r.randrange(10007), r.randrange(10007), 0, 1, 10006])
    if div: return r.choice([1, -1, 2, -2, 4, -4]) * (1 if ty == "I" else r.choice([256, 128]) if True else 0)
    return r.randint(-7, 7) if ty == "I" else r.randint(-8, 8) * 128
def big(r, ty):
    """numbers that neither 16 bits nor the mantissa of a float can hold"""
    return r.choice([1, -1]) * (r.randint(1 << 16, 800000) if ty == "I" else r.randint(1 << 26, 1 << 27) | 1)
def setbig(r, N, family): return [J("set", i + 1, r.randint(0, 4), [big(r, ty) for _ in range(N)]) for i, ty in enumerate(family)]
def additive(e): return e["k"] in "as" or (e["k"] == "u" and additive(e["x"])) or (e["k"] == "b" and e["op"] in "+-" and additive(e["x"]) and additive(e["y"]))
def run_wide(r, s):
    ops = []
    first = {"I": 1, "D": 4}
    for _ in range(3):
        ops += setbig(r, s.N, s.family)
        as_ = [first[ty] + r.randint(0, 2) for ty in s.leaves["a"]]
        ops.append(J("shape", s.id, r.choice([0, 0, 1, 2, 5]), first[s.target] + r.randint(0, 2), len(as_), as_, len(s.leaves["s"]), [big(r, ty) for ty in s.leaves["s"]]))
    return J(s.N, s.family, len(ops), ops)
def wide(r):
    N, fam = r.randint(1, 10), "IIIDDD"; ops = []
    for _ in range(6):
        ops += setbig(r, N, fam); t = r.randint(1, 6); ty = fam[t - 1]; same = [i + 1 for i in range(6) if fam[i] == ty]; x = r.random()
        if x < .3: ops.append(J("array", r.choice([0, 1, 2, 5]), t, r.randint(1, 6)))
        elif x < .45: st = r.choice("ID"); ops.append(J("scalar", r.randint(1, 2), t, st, big(r, st)))
        elif x < .5: ops.append(J("elem", r.randint(1, 2), t, r.randrange(N)))
        elif x < .6: ops.append(J("fill", t, big(r, ty)))
        elif x < .7: ops.append(J("fillElem", t, r.randrange(N)))
        elif x < .9:
            y = r.choice(same); v = [big(r, ty) for _ in range(N)]; w = [u + r.choice([0, 0, 0, 1, -1]) for u in v]
            ops += [J("set", t, 0, v), J("set", y, 0, w), J("compare", t, y, r.randint(0, 1))]
        elif x < .95: ops.append(J("project", t, r.randint(1, N)))
        else: ops.append(J("without", t, r.randrange(N)))
    return J(N, fam, len(ops), ops)
def setall(r, N, family):
    # of the families' arrays the third of each type holds divisors
    return [J("set", i + 1, r.randint(0, 4), [val(r, ty, ty != "Z" and i % 3 == 2) for _ in range(N)]) for i, ty in enumerate(family)]

def run_shape(r, s):
    ops = setall(r, s.N, s.family)
    first = {"Z": 1, "I": 1, "D": 4}
    for _ in range(r.choice([1, 2, 3])):
        if s.ty == "Z": how = r.randint(0, 5)
        else: how = r.choice([0, 0, 1, 2, 5] + ([3] if s.target == "D" else []))
        t = r.randint(1, 4) if s.target == "Z" else first[s.target] + r.randint(0, 1)
        def slot(i, ty):
            if ty == "Z": return t if r.random() < .4 else r.randint(1, 4)          # often the target itself
            return first[ty] + (2 if ("a", i) in s.div else r.choice([0, 1, t - first[ty] if ty == s.target else 0]))
        as_ = [slot(i, ty) for i, ty in enumerate(s.leaves["a"], 1)]
        ss = [val(r, ty, ("s", i) in s.div) for i, ty in enumerate(s.leaves["s"], 1)]
        ops.append(J("shape", s.id, how, t, len(as_), as_, len(ss), ss))
        if s.ty != "Z": ops += setall(r, s.N, s.family)                              # values grow otherwise
    return J(s.N, s.family, len(ops), ops)

def scenario(r):
    N, fam = r.randint(1, 10), r.choice(["ZZZ", "ZZZ", "IIIDDD"])
    ops = setall(r, N, fam)
    tys = fam
    for _ in range(r.randint(3, 10)):
        t = r.randint(1, len(fam)); ty = tys[t - 1]; x = r.random()
        same = [i + 1 for i, u in enumerate(tys) if u == ty]
        if x < .2:
            how = r.randint(0, 5)
            y = r.choice(same) if ty == "Z" else r.choice([3, 6] if how == 4 else [1, 2, 3, 4, 5, 6])
            if ty != "Z" and t % 3 == 0: continue                                    # divisors stay what they are
            ops.append(J("array", how, t, y))
        elif x < .35:
            if ty != "Z" and t % 3 == 0: continue
            how = r.randint(1, 4); st = ty if ty == "Z" else r.choice("ID")
            ops.append(J("scalar", how, t, st, val(r, st, how == 4)))
        elif x < .45:
            how = r.randint(1, 4)
            if ty != "Z" and (t % 3 == 0 or how == 4): continue
            ops.append(J("elem", how, t, r.randrange(N)))
        elif x < .5: ops.append(J("fill", t, val(r, ty, True)) if r.random() < .7 or (ty != "Z" and t % 3 == 0) else J("clear", t))
        elif x < .55: ops.append(J("fillElem", t, r.randrange(N)))
        elif x < .6: ops.append(J("put", t, r.randrange(N), val(r, ty, True)))
        elif x < .75:
            y = r.choice(same)
            if r.random() < .5: ops.append(J("array", 0, t, y))                      # make them equal, then perhaps differ in one place
            if r.random() < .7: ops.append(J("put", t, r.randrange(N), val(r, ty, True)))
            ops.append(J("compare", t, y, r.randint(0, 1)))
        elif x < .82:
            if ty != "Z": ops += [J("set", t, 0, [val(r, ty, True) for _ in range(N)])]
            if ty == "Z" or N <= 5: ops.append(J("reduce", t))
        elif x < .87: ops.append(J("read", t, r.randint(0, 2)))
        elif x < .93: ops.append(J("project", t, r.randint(1, N)))
        elif x < .97: ops.append(J("without", t, r.randrange(N)))
        else: ops.append(J("constants", t))
        if ty != "Z": ops += setall(r, N, fam)
    return J(N, fam, len(ops), ops)

def check(c):
    t = c.thorough
    c.model("ArraysMC", c.cfg(spec="Spec", constants={"Vals": "{0, 1, 2, 3, 5, 7, 100, 5003, 10006, 12}", "MaxLevel": 1}, invariants=["Field", "Independent"]), "field")
    c.model("ArraysMC", c.cfg(spec="Spec", constants={"Vals": "{0, 1, 2, 3, 4, 7, 15, 16, 31}", "MaxLevel": 0}, invariants=["Trunc", "CastRound"]), "integers")
    ss = shapes(c, 500 if t else 60, 200 if t else 40)
    c.notes["expression shapes"] = len(ss)
    exe = c.compile("arrays", ["arrays_main.cpp"] + sources(c, ss, 16 if t else 8), lib=[], opt="-O0")
    lines = [run_shape(c.rng, s) for s in ss for _ in range(20 if t else 6)] + [scenario(c.rng) for _ in range(15000 if t else 2500)]
    lines += [run_wide(c.rng, s) for s in ss if s.ty != "Z" and additive(s.e) for _ in range(20 if t else 5)] + [wide(c.rng) for _ in range(3000 if t else 400)]
    out = c.drive(exe, lines, timeout=600)
    recs = [None if e is None else {"id": k, "ev": e} for k, e in enumerate(out)]
    def rerun(rec): return dict(rec, ev=c.drive(exe, [lines[rec["id"]]], tag="re")[0])
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"scenario": lines[0][:300]}, {"expression": ss[-1].e}]
    c.validate("ArraysTrace", tcfg, recs, "all", rerun=rerun)
    if not c.violations:
        b = copy.deepcopy(next(x for x in recs if x and x["ev"][-1]["op"] == "assign"))
        e = b["ev"][-1]; e["all"][e["t"] - 1][0] += 1
        c.probe("ArraysTrace", tcfg, b, "element", "one element off by one")
        b = copy.deepcopy(next(x for x in recs if x and any(e["op"] == "compare" for e in x["ev"])))
        e = next(e for e in b["ev"] if e["op"] == "compare"); e["lt"] = not e["lt"]
        c.probe("ArraysTrace", tcfg, b, "compare", "a comparison reversed")
    c.assumptions = ["expressions of two levels, drawn from all shapes over arrays and scalars", "mixed types: integers and doubles, doubles exact"]
main("C20", check)
