"""C01: grid objects sharing storage stay coherent through every history."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main

def toks(a):
    op, g = a["op"], a["g"]
    s = [op, g]
    if op in ("new", "resize"):
        s += a["lo"] + a["hi"]
    elif op in ("copy", "assign", "like"):
        s += [a["s"]]
    elif op == "write":
        s += a["p"] + [a["v"]]
    elif op == "fill":
        s += [a["v"]]
    return " ".join(map(str, s))

def line(kind, rank, hist):
    return "%s %d %d %s" % (kind, rank, len(hist), " ".join(toks(a) for a in hist))

def check(c):
    exe = c.compile("grid_handles", "grid_handles.cpp", lib=False)
    mc = {"Handle": "{1,2,3}", "MaxAlloc": 3, "BoxSet": "<- BoxesMC", "Vals": "{7}", "MaxLen": 0, "Simulating": "FALSE"}
    c.model("GridHandlesGen", c.cfg(spec="MSpec", constants=mc,
            invariants=["TypeOK", "Referenced", "CellsInBox", "Coherent"],
            properties=["Isolation", "SharingIsExplicit"]), "design")
    n = 8 if c.thorough else 1
    sc = []
    # every transition of the bounded model (sampled in the quick tier), then long random behaviours
    mc2 = dict(mc, MaxLen=9, Handle="{1,2,3}" if c.thorough else "{1,2,3}")
    hs = c.generate("GridHandlesGen", c.cfg(spec="GSpec", constants=mc2, view="NoHist",
                    action_constraint=["EmitStep"]), "transitions", limit=1500 * n)
    for i, hh in enumerate(hs):
        sc.append(("transition", ["inst", "fortran", "lazy", "kokkos", "assert", "lazyf"][i % 6], 1, hh))
    for rank, bs, kinds in ((1, "Boxes1", ("inst", "fortran", "kokkos", "assert")),
                            (2, "Boxes2", ("inst", "fortran", "kokkos", "lazy", "lazyf", "assert")),
                            (3, "Boxes3", ("inst", "fortran", "kokkos", "lazy", "lazyf")),
                            (1, "BoxesLazy", ("lazy", "lazyf", "lazy"))):
        ml = 60 if bs == "BoxesLazy" else 14
        cs = {"Handle": "{1,2,3,4}", "MaxAlloc": 4, "BoxSet": "<- " + bs, "Vals": "{7,9}", "MaxLen": ml, "Simulating": "TRUE"}
        num = (100 if bs == "BoxesLazy" else 700) * n
        hs = c.generate("GridHandlesGen", c.cfg(spec="GSpec", constants=cs, invariants=["EmitEnd"]),
                        "sim-" + bs, simulate=num, depth=ml + 2)
        for i, hh in enumerate(hs):
            sc.append((bs, kinds[i % len(kinds)], rank, hh))
    # index boxes of very different size, one after the other, on storage that keeps its allocation
    import random
    rnd = random.Random(4201)
    for i in range(12 * n):
        rank = 1 + i % 3
        big = {1: 900, 2: 30, 3: 9}[rank]
        hh, v = [], 0
        def box(large):
            lo = [rnd.randint(-3, 3) for _ in range(rank)]
            w = [rnd.randint(big - big // 4, big) if large else rnd.randint(1, 3) for _ in range(rank)]
            return {"lo": lo, "hi": [a + b - 1 for a, b in zip(lo, w)]}
        hh.append(dict(box(i % 2 == 0), op="new", g=1))
        for k in range(8):
            hh.append(dict(box((k + i // 3) % rnd.choice((2, 2, 3)) == 0), op="resize", g=1))
            v += 1
            hh.append({"op": "fill", "g": 1, "v": v})
        sc.append(("large", ["lazy", "lazyf", "lazy", "lazyf", "inst", "fortran"][i // 3 % 6], rank, hh))
    lines = [line(k, r, hh) for _, k, r, hh in sc]
    out = c.drive(exe, lines, timeout=800)
    recs = [None if e is None else {"id": i, "kind": sc[i][1], "ev": e} for i, e in enumerate(out)]
    tcfg = c.cfg(spec="TSpec", constants={"Handle": "{1,2,3,4}", "MaxAlloc": 4}, deadlock=True)
    rerun = lambda r: dict(r, ev=c.drive(exe, [lines[r["id"]]], tag="re")[0])
    c.samples = [{"kind": sc[i][1], "rank": sc[i][2], "events": [{k: v for k, v in e.items() if k != "obs"} for e in recs[i]["ev"]]}
                 for i in (0, len(sc) - 1) if recs[i]]
    c.validate("GridHandlesTrace", tcfg, recs, "all", rerun=rerun,
               describe=lambda r, l, e: "%s grid: %s rejected after %s" % (r["kind"], str(e)[:400],
                        [{k: v for k, v in x.items() if k != "obs"} for x in r["ev"][:l]]))
    # binding: a wrong bound in one observation, and a wrong sharing claim, must be rejected
    import copy
    for r in recs:
        if r and not c.violations and any(e["op"] == "new" for e in r["ev"]):
            b = copy.deepcopy(r)
            e = [e for e in b["ev"] if e["op"] == "new"][0]
            o = [o for o in e["obs"] if o["g"] == e["g"]][0]
            o["hi"][0] += 1
            c.probe("GridHandlesTrace", tcfg, b, "hi", "upper bound of one grid changed by one")
            break
    c.assumptions = ["cell contents after a resize are unspecified", "index boxes are non-empty",
                     "handles: up to 4 at a time; ranks 1 to 3; int cells"]

main("C01", check)
