"""C21: filling a field evaluates the formula at every cell's own position."""
import sys, os, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from setupgen import Gen, val
from vf.core import main, J, hx

FUN1 = ["sin", "cos", "atan", "tanh", "exp", "floor", "ceil", "fabs", "floor", "fabs", "ceil"]

class Formulas(Gen):
    """definitions of parameters and helper variables, in terms of the coordinates and of earlier definitions"""
    def power(self, d):
        t, ty = self.atom(d)
        if self.r.random() < .15 and d > 0: return [self.op("(")] + t + [self.op(")"), self.op("^")] + self.intlit(0, 3), ty
        return t, ty
    def term(self, d):
        t, ty = self.power(d)
        while self.r.random() < .33:
            u, uy = self.power(d)
            t = t + [self.op("*")] + u; ty = self.common(ty, uy)
        if self.r.random() < .1: t = t + [self.op("/"), *self.lit2()]; ty = "flt"
        return t, ty
    def call(self, d):
        if self.r.random() < .15: return [self.ident(self.r.choice(FUN1[:5])), self.op("("), *self.lit("flt"), self.op(")")], "flt"     # at a point in the table
        return super().call(d)
    def lit2(self): return [{"k": "flt", "n": 2, "e": 0, "txt": self.r.choice(["2.0", "2."])}]
    def visible(self, path=True): return self.scope
    def build(self, nc, ndef, npar):
        """returns (text, definitions as the specification has them, parameters)"""
        r = self.r
        self.formula_ok, self.line, self.text, self.ev = True, 1, "", []
        names = ["xyz"[d] for d in range(nc[0])] + ["s" + "xyz"[d] for d in range(nc[1])]
        self.scope = [(n, "flt", False, True) for n in names]
        ix = {n: i + 1 for i, n in enumerate(names)}
        kinds = ["helper"] * (ndef - npar) + ["par"] * npar
        r.shuffle(kinds)
        defs, pars = [], []
        for k, kind in enumerate(kinds, 1):
            ty = r.choice(["flt", "flt", "flt", "int"])
            left = kind == "par" and self.text and r.random() < .07                               # the parameter keeps its default
            if left: toks = [{"k": "int", "n": 4}] if ty == "int" else [{"k": "flt", "n": 5, "e": 1}]
            else:
                want = ty if kind == "helper" else r.choice([ty, None])
                toks, _ = self.expr(want, r.choice([1, 2, 2, 3]))
            name = ("F" if kind == "par" else "h") + str(k)
            if not left:
                text = [x["txt"] for x in toks]
                if kind == "par": self.emit("assign", [name, "="] + text + [";"])
                else: self.emit("decl", [{"int": "int", "flt": "float"}[ty], name, "="] + text + [";"])
            ts = []
            for i, x in enumerate(toks):
                x = {a: b for a, b in x.items() if a != "txt"}
                if x["k"] == "id": x["p"] = ix.get(x["s"], 0)                        # a function has no number
                ts.append(x)
            defs.append({"ty": ty, "ts": ts})
            if kind == "par": pars.append((k, name, ty))
            self.scope.append((name, ty, True, False)); ix[name] = len(names) + k
        return self.text, defs, pars

def scene(r, abstract=None):
    same = r.random() < .5
    nc = [r.choice([1, 1, 2, 2, 3]), r.choice([1, 2, 3])]
    if same: nc[1] = nc[0]
    g = Formulas(r, depth=3, err=0, strings=False, vars=.8, fkinds=["one", "two", "twoi", "ldexp"], fun1=FUN1, fun2=["min", "max", "both"], formulas=False, multi=0)
    text, defs, pars = g.build(nc, r.randint(2, 6), 2 if abstract else r.randint(1, 2) + 1 if r.random() < .9 else 1)
    while abstract and len(pars) < 2: text, defs, pars = g.build(nc, 4, 2)
    fields, fw = [], []
    fl = [1, 2] if abstract else [r.randint(1, 2) for _ in range(r.randint(2, 4))]
    tys = {p[2] for p in pars}
    for a in fl:
        n = nc[a - 1]
        ty = r.choice(sorted(tys))
        k = r.choice("dddf") if ty == "flt" else r.choice("ij")
        lo = [r.randint(-3, 3) for _ in range(n)]; hi = [x + r.randint(0, {1: 7, 2: 3, 3: 1}[n]) for x in lo]
        plo = [r.randint(-9, 9) for _ in range(n)]; w = [2 * r.randint(1, 3) for _ in range(n)]; st = [r.random() < .5 for _ in range(n)]
        e = [r.randint(0, 2) for _ in range(n)]; gh = r.choice([0, 1, 1, 2])
        fields.append({"lo": lo, "hi": hi, "plo": plo, "w": w, "st": st, "e": e, "gh": gh, "ty": ty, "start": {"t": "int", "n": -7} if ty == "int" else {"t": "flt", "n": -7, "e": 0}})
        fw.append(J(k, n, [x for d in range(n) for x in (lo[d], hi[d], plo[d], w[d], int(st[d]), e[d])], gh))
    ups = [1, 2] if abstract else [1, 2] + [r.randint(1, 2) for _ in range(r.randint(0, 2))]
    nf = 2
    def fit(f, u): return nc[fl[f - 1] - 1] == nc[ups[u - 1] - 1]
    def parfor(f): return [p[0] for p in pars if p[2] == fields[f - 1]["ty"]]
    def put(a): return [J("put", a, d, r.randint(-9, 9), 0) for d in range(1, nc[a - 1] + 1)]
    ops = []
    if abstract is None:
        for _ in range(r.randint(3, 9)):
            x = r.random()
            f = r.randint(1, len(fields)); u = r.choice([u for u in range(1, len(ups) + 1) if fit(f, u)]); p = r.choice(parfor(f))
            if r.random() < .8: ops += put(1) + put(2)
            if x < .3: ops.append(J("fill", 1, f, p, u))
            elif x < .45:
                if r.random() < .9: ops.append(J("depend", u, p))
                ops.append(J("fill", 0, f, p, u))
            elif x < .75:
                its = [(f, p)]
                for _ in range(r.randint(0, 2)):
                    f2 = r.choice([f2 for f2 in range(1, len(fields) + 1) if fit(f2, u)]); its.append((f2, r.choice(parfor(f2))))
                for q in its:
                    if r.random() < .95: ops.append(J("depend", u, q[1]))
                n = r.randint(1, nf)
                ops.append(J("set", n, u, len(its), [J(*q) for q in its]))
                if r.random() < .7: ops.append(J("run", n))
            elif x < .8: ops.append(J("clear", r.randint(1, nf)))
            else: ops.append(J("run", r.randint(1, nf)))
        ops.append(J("run", r.randint(1, nf)))
    else:
        # a history of the model: parameters and fields by number, made to fit in rank and type
        def num(f, p, u):
            f = f if fit(f, u) else 3 - f
            q = [pars[p - 1][0]] if pars[p - 1][2] == fields[f - 1]["ty"] else parfor(f)
            return f, q[0]
        for e in abstract:
            if e["op"] == "put": ops += put(e["a"])
            elif e["op"] == "depend": ops.append(J("depend", e["u"], pars[e["p"] - 1][0]))
            elif e["op"] == "fill": f, p = num(e["f"], e["p"], e["u"]); ops.append(J("fill", int(e["own"]), f, p, e["u"]))
            elif e["op"] == "set": its = [num(i["f"], i["p"], e["u"]) for i in e["items"]]; ops.append(J("set", e["n"], e["u"], len(its), [J(*q) for q in its]))
            else: ops.append(J(e["op"], e["n"]))
    line = J(nc, hx(text), len(pars), [J(*p) for p in pars], len(fields), fw, len(ups), ups, nf, len(ops), ops)
    return line, {"conf": {"nc": nc, "nf": nf, "ups": ups, "fields": fields, "defs": defs}, "text": text}

def check(c):
    t = c.thorough
    c.model("FieldFillMC", c.cfg(spec="Spec", constants={"MaxLen": 4 if t else 3}, invariants=["OwnPosition", "Together", "GhostsToo"]), "model")
    gen = c.generate("FieldFillGen", c.cfg(spec="Spec", constants={"MaxLen": 8}, invariants=["Emit"]), "sim", simulate=6000 if t else 60, depth=9)
    r = c.rng
    items = [scene(r, h) for h in gen[:5000 if t else 300]] + [scene(r) for _ in range(6000 if t else 400)]
    exe = c.compile("field_fill", "field_fill.cpp", lib=True)
    out = c.drive(exe, [i[0] for i in items], timeout=800)
    recs = [None if e is None else {"id": k, "conf": items[k][1]["conf"], "ev": e} for k, e in enumerate(out)]
    def rerun(x): return dict(x, ev=c.drive(exe, [items[x["id"]][0]], tag="re")[0])
    def describe(rec, l, ev):
        import json
        return "%s\nfields %s\n--- setup file ---\n%s" % (json.dumps(ev)[:600], json.dumps(rec["conf"]["fields"])[:900], items[rec["id"]][1]["text"][:1200])
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"setup file": items[-1][1]["text"][:400], "operations": items[-1][0][-300:]}]
    c.validate("FieldFillTrace", tcfg, recs, "all", rerun=rerun, describe=describe)
    if not c.violations:
        b = copy.deepcopy(next(x for x in recs if x and any(e["op"] == "fill" and e["own"] for e in x["ev"])))
        e = next(e for e in b["ev"] if e["op"] == "fill" and e["own"])
        e["cells"][e["f"] % len(e["cells"])][0] = [12345, 0, -2000000000]; e["cells"][e["f"] - 1][-1] = [12345, 0, -2000000000]
        c.probe("FieldFillTrace", tcfg, b, "other", "a changed cell of a field and of another field")
    c.assumptions = ["where a fill leaves the coordinates is not specified", "what a fill does with a parameter of which the updater has not been told is not specified",
                     "formulas without errors; their values are compared exactly where they are dyadic numbers of up to nine digits"]
main("C21", check)
