"""Shared by C07-C10: scenarios for the domain subdivision driver, run for 1 to 8 processes."""
import os, sys, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import J

SMALL = ["short", "long", "float", "uchar", "schar", "uint", "ushort", "ulong", "ldouble"]

def initop(r, rank, np, kind, maxn=12, delta=None, wide=1, cells=None):
    """a global box every process can get a large enough part of, whatever the process grid"""
    if delta is None:
        delta = r.choice([0, 1, 1, 1, 2, 2, 3] if rank == 1 else [0, 1, 1, 2] if rank == 2 else [1, 1, 1, 2])
    least = 2 + np * max(wide * delta, 1) if np > 1 else max(2 * delta, 1)
    base = r.random() < .15                               # initialised with a size only
    while True:
        b = []
        for _ in range(rank):
            n = least + r.choice([0, 0, 1, 2, 3, r.randint(0, maxn), r.randint(0, maxn)])
            lo = (delta if kind == "serial" else 0) if base else r.choice([0, 0, -n // 2, -7, 5, r.randint(-9, 9)])
            b.append((lo, lo + n - 1))
        vol = 1
        for x, y in b: vol *= y - x + 1 + 2 * delta
        if cells is None or vol <= cells: break
        if delta > 1: delta -= 1; least = 2 + np * max(wide * delta, 1) if np > 1 else max(2 * delta, 1)
        else: maxn = max(0, maxn // 2); cells *= 1.3
    # form 3 gives only a size: lower bound 0 (for the serial kind the limits include the ghost cells)
    zero = all(x == (delta if kind == "serial" else 0) for x, y in b)
    form = r.choice([0, 1, 2, 3] if zero else [0, 1, 2])
    phys = [(r.choice([0, 0, -3, 10]), r.choice([1, 2, 4, 8])) for _ in b]
    if r.random() < .3: phys = [(0, d) for _, d in phys]
    return J("init", b, delta, form, phys, r.randint(0, 1)), delta

def run(c, plans, events_per=None):
    """plans: np -> scenario lines. Returns the records and a re-runner."""
    exe = c.compile("subdivision", "subdivision.cpp", lib=True, asan=False)
    recs, where = [], []
    for np in sorted(plans):
        out = c.drive(exe, plans[np], np=np, timeout=800, tag="np%d" % np)
        for i, e in enumerate(out):
            recs.append(None if e is None else {"id": len(where), "np": np, "ev": e})
            where.append((np, plans[np][i]))
    def rerun(r):
        np, line = where[r["id"]]
        return dict(r, ev=c.drive(exe, [line], np=np, tag="re")[0])
    return recs, rerun, where

def first(recs, op, pred=lambda e: True):
    for r in recs:
        if r is None: continue
        for k, e in enumerate(r["ev"]):
            if e["op"] == op and pred(e):
                b = copy.deepcopy(r)
                return b, b["ev"][k]
    return None, None
