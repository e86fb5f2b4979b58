"""C17: diagnostics are written at exactly the prescribed steps and times."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main, J

def new(kind, per, delay, append, single, num, deflt=0, nested=0): return J("new", kind, per, delay, int(append), int(single), int(num), int(deflt), int(nested))

def scenario(r):
    ops, alive, made, t, s = [], [], 0, 0, 0
    kinds = r.choice([["step"], ["time"], ["step", "time"], ["step", "time"]])
    clocks = list(kinds) if r.random() < .9 else r.choice([[], ["step"], ["time"]])
    if r.random() < .2: clocks = ["step", "time"]
    r.shuffle(clocks)
    early = r.random() < .5
    if early: ops += [J("clock", w) for w in clocks]
    def diag():
        nonlocal made
        k = r.choice(kinds)
        per = r.choice([1, 2, 3, 4, 5, 7, r.choice([10, 100, 1000, 333, 65536])]) if k == "step" else r.choice([1, 2, 3, 4, 5, 8, 13, r.choice([80, 800, 1001, 100000])])
        ops.append(new(k, per, r.choice([0, 0, 0, 1, 3, 9]) if k == "time" else 0, r.random() < .3, r.random() < .25, r.random() < .85, r.random() < .1, nested := r.random() < .5))
        made += 1
        if not nested: alive.append(made)
    for _ in range(r.choice([1, 1, 2, 3, 5])): diag()
    if not early: ops += [J("clock", w) for w in clocks]
    if r.random() < .5: ops.append(J("role", r.randint(0, 1), r.randint(0, 3)))
    start = r.choice([0, 0, 0, 0, 1, 4, 100, 198, 250, 998, 9990, 32760, 65530, 99999, 1000000, 2147483000])                                  # a run may begin, or go on, at any step
    s = start; t = r.choice([0, 0, 1, 3, 16, 16, 799, 70000]) if start or r.random() < .3 else 0
    ops.append(J("tick", s, t))
    if r.random() < .7: ops.append(J("exec"))
    mode = r.choice(["plain", "adjusted", "free"])
    dt = r.choice([1, 2, 3, 4, 5, 9])
    long = r.random() < .01
    for _ in range(r.randint(260, 280) if long else r.randint(2, 14)):
        x = .5 if long else r.random()
        if x < .06 and made < 8: diag()
        elif x < .12 and alive: k = r.choice(alive); alive.remove(k); ops.append(J("del", k))
        elif x < .15: ops.append(J("role", r.randint(0, 1), r.randint(0, 3)))
        elif x < .2: ops.append(J("exec"))                                       # twice at the same time
        if mode != "plain": ops.append(J("adjust", r.choice([dt, dt, dt, 1000, 1000000, 8000000])))
        s += 1 if r.random() < .9 else r.choice([2, 3, 4, 4, 10 if start < 2000000000 else 2])
        t += dt if mode != "free" else r.choice([1, 1, 2, 3, 5, 20, 20, 100, 5000] if start > 250 else [1, 1, 2, 3, 5, 20])
        ops += [J("tick", s, t), J("exec")]
    if r.random() < .3: ops += [J("tick", -1, t), J("exec")]                      # the final output
    if r.random() < .3: ops += [J("del", k) for k in alive]
    return J(len(ops), ops)

def model_runs(c, limit):
    hs = c.generate("DiagnosticsGen", c.cfg(spec="Spec", constants={"MaxDiags": 3, "MaxExec": 5, "Dts": "{1, 3, 5}", "Pers": "{1, 2, 3, 4}", "Delays": "{0, 2, 5}"}, invariants=["Emit"]),
                    "runs", simulate=limit, depth=14)
    out = []
    for t in hs:
        ops, n, dead = [J("clock", "step"), J("clock", "time"), J("role", int(t["master"]), 0)], 0, set()
        for o in t["ops"]:
            if o["op"] == "new":
                d = o["d"]; n += 1
                ops.append(new(d["kind"], d["per"], d["next"], d["append"], d["single"], True))
            elif o["op"] == "del": ops.append(J("del", o["i"])); dead.add(o["i"])
            else: ops += [J("adjust", 3), J("adjust", 1), J("tick", o["s"], o["t"]), J("exec")]
        ops += [J("del", k) for k in range(1, n + 1) if k not in dead]
        out.append(J(len(ops), ops))
    return sorted(set(out))

def check(c):
    t = c.thorough
    inv = ["StepExact", "NeverEarly", "NeverLate", "OnTime", "AdjustSafe", "SameSchedule", "NotMine"]
    c.model("DiagnosticsMC", c.cfg(spec="Spec", constants={"MaxDiags": 2 if t else 1, "MaxExec": 3 if t else 5, "Dts": "{1, 3}", "Pers": "{1, 2, 3}", "Delays": "{0, 2}"}, invariants=inv), "runs")
    c.model("DiagnosticsMC", c.cfg(spec="Spec", constants={"MaxDiags": 2, "MaxExec": 5 if t else 3, "Dts": "{1, 5}", "Pers": "{2, 3}" if t else "{2}", "Delays": "{0}"}, invariants=inv), "two diagnostics")
    lines = model_runs(c, 8000 if t else 800)[:8000 if t else 700] + [scenario(c.rng) for _ in range(12000 if t else 1500)]
    exe = c.compile("diagnostics", "diagnostics.cpp", lib=True)
    out = c.drive(exe, lines, timeout=600)
    recs = [None if e is None else {"id": k, "ev": e} for k, e in enumerate(out)]
    def rerun(rec): return dict(rec, ev=c.drive(exe, [lines[rec["id"]]], tag="re")[0])
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"scenario": lines[-1][:400]}]
    c.validate("DiagnosticsTrace", tcfg, recs, "all", rerun=rerun)
    if not c.violations:
        b = copy.deepcopy(next(x for x in recs[-1000:] if x and any(e["op"] == "exec" and e["files"] for e in x["ev"])))
        e = next(e for e in b["ev"] if e["op"] == "exec" and e["files"]); e["files"] = e["files"][1:]
        c.probe("DiagnosticsTrace", tcfg, b, "missing", "an output missing")
        b = copy.deepcopy(next(x for x in recs if x and any(e["op"] == "adjust" and e["res"] == "ok" and e["x"] < e["dt"] for e in x["ev"])))
        e = next(e for e in b["ev"] if e["op"] == "adjust" and e["x"] < e["dt"]); e["x"] = e["dt"]
        c.probe("DiagnosticsTrace", tcfg, b, "jump", "a step over an output time")
    c.assumptions = ["times are multiples of 1/8, so that the schedule is exact in floating point", "intervals and periods are positive", "file names hold no process number"]
main("C17", check)
