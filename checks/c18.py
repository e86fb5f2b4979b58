"""C18: grids spread over processes, written to HDF5 files and read back."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main, J

KINDS = [("c", t, r) for t in ("int", "float", "double") for r in (1, 2, 3)] + [("f", t, r) for t in ("int", "double") for r in (1, 2, 3)] + \
        [("field", t, r) for t in ("float", "double") for r in (1, 2, 3)] + [("c", "double", 4)]
DIAG = [("c", "int", 1), ("c", "double", 2), ("f", "double", 2), ("field", "double", 1), ("field", "double", 2), ("field", "double", 3)]

def cut(r, lo, hi, n):
    """the box lo..hi cut into n boxes"""
    if n == 1: return [(lo, hi)]
    ds = [d for d in range(len(lo)) if hi[d] > lo[d]]
    d = r.choice(ds)
    k = r.randint(1, n - 1)
    for d in r.sample(ds, len(ds)):
        for m in r.sample(range(lo[d], hi[d]), hi[d] - lo[d]):
            size = lambda a, b: 1 if not a else (b[0] - a[0] + 1) * size(a[1:], b[1:])
            h1, l2 = list(hi), list(lo)
            h1[d], l2[d] = m, m + 1
            if size(lo, h1) >= k and size(l2, hi) >= n - k:
                return cut(r, lo, h1, k) + cut(r, l2, hi, n - k)
    return None
def make(r, np, box, kind, ty):
    lo, hi = box
    ps = None
    while not ps: ps = cut(r, lo, hi, np)
    r.shuffle(ps)
    parts, g = [], r.randint(0, 2)
    for a, b in ps:
        if kind == "field": m, n = [x - g for x in a], [x + g for x in b]
        else:
            k = r.random() < .6
            m, n = [x - r.randint(0, 2) * k for x in a], [x + r.randint(0, 2) * k for x in b]
        parts.append({"llo": list(a), "lhi": list(b), "mlo": m, "mhi": n})
    return {"ty": ty, "glo": list(lo), "ghi": list(hi), "parts": parts}
def exact(g):
    """a diagnostic takes all of a grid's memory as its part"""
    for p in g["parts"]: p["mlo"], p["mhi"] = list(p["llo"]), list(p["lhi"])
def wire(k, g):
    flat = lambda p: p["llo"] + p["lhi"] + p["mlo"] + p["mhi"]
    return J(k[0], k[1], k[2], g["glo"], g["ghi"], [flat(p) for p in g["parts"]])
def line(files, kinds, grids, no, ni, ops):
    return J(len(files), files, len(grids), [wire(k, g) for k, g in zip(kinds, grids)], no, ni, len(ops), ops)
def box(r, np, rank):
    while True:
        lo = [r.randint(-3, 3) for _ in range(rank)]
        hi = [x + r.choice([0, 1, 1, 2, 3, 4] if rank < 4 else [0, 1, 2]) for x in lo]
        n = 1
        for a, b in zip(lo, hi): n *= b - a + 1
        if np <= n <= 150: return lo, hi

def name(s): return s["block"] if s["count"] < 0 else s["block"] + str(s["count"])
def stream(np): return {"f": None, "block": "data", "count": 0, "active": [1] * np}

def random_case(r, np, n):
    ranks = [r.choice([1, 2, 2, 3, 3, 4]) for _ in range(r.choice([1, 1, 2]))]
    boxes = [box(r, np, k) for k in ranks]
    kinds, grids, bs = [], [], []
    for _ in range(r.randint(2, 4)):
        b = r.choice(boxes)
        k = r.choice([k for k in KINDS if k[2] == len(b[0])])
        g = make(r, np, b, k[0], k[1])
        if k[0] == "c" and k in DIAG and r.random() < .5 or k == ("f", "double", 2) and r.random() < .5: exact(g)
        kinds.append(k); grids.append(g); bs.append(b)
    whole = [k in DIAG and (k[0] == "field" or all(p["llo"] == p["mlo"] and p["lhi"] == p["mhi"] for p in g["parts"])) for k, g in zip(kinds, grids)]
    no, ni = 2, 2
    files = ["f1", "f2", "f3"] + ["a%d" % i for i in range(3)] + ["d%d_%d" % (i, k) for i in range(3) for k in range(0, n + 2)]
    ops = ["fill %d %d" % (g + 1, r.randint(1, 999999)) for g in range(len(grids))]
    O, I = [stream(np) for _ in range(no)], [stream(np) for _ in range(ni)]
    content = {}                              # file -> {name: (box, type)}
    diag, made, steps = None, 0, 0
    who = lambda f: [s for s in O + I if s["f"] == f]
    touched = set()
    for _ in range(n):
        x = r.random()
        s = r.randrange(2)
        if x < .08: ops.append("fill %d %d" % (r.randint(1, len(grids)), r.randint(1, 999999)))
        elif x < .2:
            f = r.choice(["f1", "f2", "f3"])
            if any(t["f"] == f for t in O + I if t is not O[s]): continue
            new = r.random() < .15
            if new: O[s] = stream(np)
            ops.append(J("oopen", s + 1, f, int(new)))
            if O[s]["f"]: touched.add(O[s]["f"])
            O[s].update(f=f, count=0); content[f] = {}
        elif x < .27 and O[s]["f"]: ops.append(J("oclose", s + 1)); touched.add(O[s]["f"]); O[s]["f"] = None
        elif x < .34: b = r.choice(["x", "Ey", "rho_1"]); ops.append(J("oname", s + 1, b)); O[s].update(block=b, count=-1)
        elif x < .40:
            at = []
            for _ in range(r.randint(0, 3)):
                z = r.choice([1, 1, 2, 5])
                at.append(J(r.choice(["t", "dx", "n"]), r.choice(["int", "float", "double"]), r.randint(0, 2), z, [r.randint(-500, 500) for _ in range(z)]))
            ops.append(J("oattr", s + 1, len(at), at))
        elif x < .43 and not O[s]["f"]:
            a = [int(r.random() < .7) for _ in range(np)]
            if sum(a): ops.append(J("oactive", s + 1, a)); O[s]["active"] = a
        elif x < .45 and not I[s]["f"]:
            a = [int(r.random() < .7) for _ in range(np)]
            if sum(a): ops.append(J("iactive", s + 1, a)); I[s]["active"] = a
        elif x < .47:
            t = r.randrange(2)
            if O[t]["f"] and t != s: touched.add(O[t]["f"])
            if s != t: ops.append(J("ocopy", s + 1, t + 1, r.randint(0, 1))); O[t] = dict(O[s])
            else: ops.append(J("ocopy", s + 1, t + 1, 0))
        elif x < .49:
            t = r.randrange(2)
            if s != t: ops.append(J("icopy", s + 1, t + 1, r.randint(0, 1))); I[t] = dict(I[s])
        elif x < .68 and O[s]["f"]:
            g = r.randrange(len(grids))
            if name(O[s]) in content[O[s]["f"]]: continue
            content[O[s]["f"]][name(O[s])] = (bs[g], kinds[g][1])
            ops.append(J("owrite", s + 1, g + 1))
            O[s]["count"] = 1 if O[s]["count"] < 0 else O[s]["count"] + 1
        elif x < .76:
            f = r.choice(["f1", "f2", "f3"] + [k for k in content if k[0] in "ad"])
            if any(t["f"] == f for t in O) or diag and diag["append"] and diag["f"] == f: continue
            new = r.random() < .15
            if new: I[s] = stream(np)
            ops.append(J("iopen", s + 1, f, int(new)))
            I[s].update(f=f if f in content else None, count=0)
        elif x < .79 and I[s]["f"]: ops.append(J("iclose", s + 1)); I[s]["f"] = None
        elif x < .82:
            b = r.choice(["x", "Ey", "rho_1"])
            have = [k for k in content.get(I[s]["f"], {})]
            if have and r.random() < .6: b = r.choice(have)          # a numbered name can also be asked for directly
            ops.append(J("iname", s + 1, b)); I[s].update(block=b, count=-1)
        elif x < .9 and I[s]["f"]:
            have = content[I[s]["f"]]
            if not have: continue
            if name(I[s]) not in have:
                if r.random() < .5: continue
                b = r.choice(list(have))
                ops.append(J("iname", s + 1, b)); I[s].update(block=b, count=-1)
            b, ty = have[name(I[s])]
            gs = [g for g in range(len(grids)) if bs[g] == b and (kinds[g][1] == ty or kinds[g][1] != "int")]
            if not gs: continue
            ops.append(J("iread", s + 1, r.choice(gs) + 1))
            I[s]["count"] = 1 if I[s]["count"] < 0 else I[s]["count"] + 1
        elif x < .97 and any(whole):
            if not diag and made < 3:
                g = r.choice([g for g in range(len(grids)) if whole[g]])
                diag = {"append": r.randint(0, 1), "timed": r.randint(0, 1), "g": g, "n": 0}
                diag["f"] = ("a%d" if diag["append"] else "d%d_") % made
                made += 1
                ops.append(J("dnew", 3, g + 1, diag["append"], diag["timed"], diag["f"]))
            elif diag and r.random() < .3:
                if diag["n"]: ops.append(J("ddel", 3)); touched.add(diag["f"]) if diag["append"] else None; diag = None
            elif diag:
                steps += 1
                f = diag["f"] if diag["append"] else diag["f"] + str(diag["n"] if diag["timed"] else steps)
                if f not in files: files.append(f)
                ops.append(J("dout", 3))
                k = "data" + (str(diag["n"]) if diag["append"] and diag["n"] else "")
                if not diag["append"] or not diag["n"]: content[f] = {}
                content[f][k] = (bs[diag["g"]], kinds[diag["g"]][1])
                diag["n"] += 1
                if not diag["append"]: touched.add(f)
        elif any(whole):
            fs = [(f, g) for f in content for g in range(len(grids)) if whole[g] and "data" in content[f] and content[f]["data"][0] == bs[g] and
                  (content[f]["data"][1] == kinds[g][1] or kinds[g][1] != "int") and not who(f) and not (diag and diag["f"] == f)]
            if fs: f, g = r.choice(fs); ops.append(J("input", 3, g + 1, f))
        if r.random() < .1: ops.append("good")
        for f in sorted(touched):
            if r.random() < .5 and not who(f) and not (diag and diag["append"] and diag["f"] == f): ops.append(J("dump", f)); touched.discard(f)
    if diag: ops.append(J("ddel", 3))
    for i in range(2):
        if O[i]["f"]: ops.append(J("oclose", i + 1))
        if I[i]["f"]: ops.append(J("iclose", i + 1))
    ops += [J("dump", f) for f in sorted(content)] + ["good"] + [J("cells", g + 1) for g in range(len(grids))]
    keep = sorted(set(["f1", "f2", "f3"]) | set(content))
    conf = {"np": np, "grids": grids, "files": keep, "no": 3, "ni": 3}
    return line(keep, kinds, grids, no, ni, ops), conf

def many_case(r, np, big):
    """large grids, or many datasets in a file"""
    if big: lo = [r.randint(-2000, 2000) for _ in range(r.choice([1, 2, 3]))]; hi = [x + {1: r.randint(900, 2500), 2: r.randint(30, 45), 3: r.randint(9, 12)}[len(lo)] for x in lo]
    else: lo = [r.randint(-3, 3) for _ in range(r.choice([1, 2]))]; hi = [x + np for x in lo]
    kinds = [r.choice([k for k in KINDS if k[2] == len(lo) and k[1] == "double"]) for _ in range(2)]
    grids = [make(r, np, (lo, hi), k[0], k[1]) for k in kinds]
    n = 2 if big else r.randint(9, 24)
    b = r.choice(["", "rho", "E1"])
    ops = ["fill 2 %d" % r.randint(1, 999999), "oopen 1 f1 0"] + (["oname 1 " + b] if b else [])
    for _ in range(n): ops += ["fill 1 %d" % r.randint(1, 999999), "owrite 1 1"]
    ops += ["oclose 1", "iopen 1 f1 0"] + (["iname 1 " + b] if b else []) + ["iread 1 2"] * n + ["iclose 1", "dump f1", "cells 1", "cells 2"]
    return line(["f1"], kinds, grids, 2, 2, ops), {"np": np, "grids": grids, "files": ["f1"], "no": 3, "ni": 3}

def model_case(r, evs):
    """a history of the model: two processes, with the grids of HdfMC, of any kind"""
    parts = [[((-1, 0), (-2, 1)), ((1, 2), (0, 3))], [((-1, -1), (-1, -1)), ((0, 2), (-1, 2))]]
    ks = [r.choice([("c", "int", 1), ("c", "double", 1), ("f", "double", 1), ("field", "double", 1)]), None]
    ks[1] = ("c", ks[0][1], 1)
    grids = [{"ty": k[1], "glo": [-1], "ghi": [2], "parts": [{"llo": [p[0][0]], "lhi": [p[0][1]], "mlo": [p[1][0]], "mhi": [p[1][1]]} for p in pp]} for k, pp in zip(ks, parts)]
    ops, open_, seen = ["fill 1 %d" % r.randint(1, 99999), "fill 2 %d" % r.randint(1, 99999)], [None, None], set()
    for e in evs:
        if e["op"] == "fill": ops.append("fill %d %d" % (e["g"], r.randint(1, 99999)))
        elif e["op"] in ("oopen", "iopen"):
            ops.append(J(e["op"], 1, e["f"], 0)); open_[e["op"] == "iopen"] = e["f"]
            seen.add(e["f"])
        elif e["op"] in ("oname", "iname"): ops.append(J(e["op"], 1, e["b"]))
        elif e["op"] in ("owrite", "iread"): ops.append(J(e["op"], 1, e["g"]))
        else: ops.append(J(e["op"], 1)); open_[e["op"] == "iclose"] = None
    ops += [o for o, f in (("oclose 1", open_[0]), ("iclose 1", open_[1])) if f] + [J("dump", f) for f in sorted(seen)]
    return line(["a", "b"], ks, grids, 1, 1, ops), {"np": 2, "grids": grids, "files": ["a", "b"], "no": 3, "ni": 3}

def check(c):
    c.model("HdfMC", c.cfg(spec="Spec", constants={"MaxLen": 9 if c.thorough else 7}, invariants=["Complete", "Distinct", "ReadBack"]), "model")
    exe = c.compile("hdf", "hdf.cpp")
    hs = c.generate("HdfGen", c.cfg(spec="Spec", constants={"MaxLen": 16}, invariants=["Emit"]), "walks", simulate=200 if c.thorough else 20, depth=18, limit=2500 if c.thorough else 150)
    byn = {2: [model_case(c.rng, h) for h in hs]}
    for np, k in ((1, 100), (2, 150), (3, 150), (4, 100)) if not c.thorough else ((1, 800), (2, 1500), (3, 1500), (4, 1500), (5, 500), (6, 500), (8, 300)):
        byn.setdefault(np, []).extend(random_case(c.rng, np, c.rng.choice([10, 25, 45])) for _ in range(k))
        byn[np].extend(many_case(c.rng, np, j % 2) for j in range(40 if c.thorough else 6))
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    for np, cases in sorted(byn.items()):
        def go(idx):
            return [ev and {"id": i, "conf": cases[i][1], "ev": ev} for i, ev in zip(idx, c.drive(exe, [cases[i][0] for i in idx], np=np, timeout=900, tag="n%d" % np))]
        recs = go(range(len(cases)))
        c.validate("HdfTrace", tcfg, recs, "np%d" % np, rerun=lambda r: go([r["id"]])[0],
                   describe=lambda r, l, ev: "%d processes: %s; scenario %s" % (np, str(ev)[:400], cases[r["id"]][0][:1500]))
        if np == 2 and not c.violations:
            b = copy.deepcopy(next(r for r in recs if r and any(e["op"] == "dump" and e.get("sets") for e in r["ev"])))
            next(e for e in b["ev"] if e["op"] == "dump" and e["sets"])["sets"][0]["cells"][0] += 1
            c.probe("HdfTrace", tcfg, b, "cell", "one cell of a file changed")
        c.samples.append({"processes": np, "scenario": cases[-1][0][:500]})
    c.assumptions = ["HDF5 with parallel support (the configuration of this build)", "all processes that are active make the same calls in the same order, as HDF5 demands of collective operations",
                     "dataset names within a file are not used twice, files are read after they were closed"]
main("C18", check)
