"""Shared by C11-C14 and C16: random setup files (as statements with tokens and as text), class configurations and runs."""
import os, sys, copy
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import J, hx

FUN1 = ["sin", "cos", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "exp", "log", "log10", "gamma", "lgamma", "digamma",
        "floor", "ceil", "fabs", "sqrt", "count", "floor", "ceil", "fabs"]
FUN2 = ["min", "max", "pow", "fmod", "atan2", "both", "min", "max", "both"]
FUNI2 = ["minI", "maxI"]
WORDS = ["abc", "x y", "", "12", "-3", "1.5", "007", "q_1", "2.25", "42"]
TYPEWORD = {"int": ["int", "integer"], "flt": ["float", "double", "real"], "str": ["string"]}

def val(ty, x):
    """a typed value as the specification writes it"""
    if ty == "int": return {"t": "int", "n": int(x)}
    if ty == "str": return {"t": "str", "s": x}
    q = Fraction(x)
    return {"t": "flt", "n": q.numerator, "e": q.denominator.bit_length() - 1}
def anyv(ty): return {"t": "any", "ty": ty, "may": False}
def wire(ty, x):
    """the same value for the driver"""
    if ty == "int": return str(int(x))
    if ty == "str": return hx(x)
    q = Fraction(x)
    return "%d/%d" % (q.numerator, q.denominator.bit_length() - 1)

class Gen:
    def __init__(self, r, **k):
        self.r = r
        self.k = dict(depth=3, nstat=8, blocks=0.2, err=0.03, strings=True, funs=True, restrict=None, paths=0.15, maxdepth=3, vars=0.5,
                      formulas=True, lists=0.15, reuse=0.12, multi=0.3, given=.3, prefer=0, wild=False, kinds=["req", "def", "def", "ro", "rod", "const"], minpar=0, cyc=None, fail=0,
                      fkinds=["one", "one", "two", "twoi", "none", "twice", "join", "ldexp", "bessel", "normal", "point", "point", "always"],
                      fun1=FUN1, fun2=FUN2)
        self.k.update(k)
    # ------------------------------------------------------------- values and tokens
    def value(self, ty):
        r = self.r
        if ty == "int": return r.choice([0, 1, 2, 3, 4, 5, 7, 9, r.randint(0, 60)])
        if ty == "flt": return Fraction(r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10, r.randint(0, 40)]), r.choice([1, 2, 4]))
        return r.choice(WORDS)
    def lit(self, ty):
        v = self.value(ty)
        if ty == "int": return [{"k": "int", "n": v, "txt": self.r.choice(["%d", "%d", "%d", "0%d"]) % v}]
        if ty == "flt":
            w = val("flt", v)
            forms = [("%.3f" % float(v)), repr(float(v))]
            if v.denominator == 1: forms += ["%d." % v, "%de0" % v, "%d.0E0" % v]
            elif v < 1: forms += [("%.2f" % float(v))[1:]]
            forms += ["%de-2" % (v * 100), "%d.e-2" % (v * 100), "%.4fe1" % float(v / 10) if (v / 10 * 10000).denominator == 1 else "%.2f" % float(v), "%.2f" % float(v)]
            return [{"k": "flt", "n": w["n"], "e": w["e"], "txt": self.r.choice(forms)}]
        if self.k["wild"] and self.r.random() < .5: v = "".join(self.r.choice(["a", "b", " ", "\n", "/*", "//", "*/", ";", "1", "}"]) for _ in range(self.r.choice([3, 20, 100, 130])))
        q = self.r.choice("'\"")
        return [{"k": "str", "s": v, "txt": q + v + q}]
    @staticmethod
    def op(s): return {"k": "op", "s": s, "txt": s}
    def toks(self, f): return [self.ident(f), self.op("("), self.op(")")]
    @staticmethod
    def ident(s): return {"k": "id", "s": s, "p": s.split(":"), "txt": s}

    # ------------------------------------------------------------- scope known to the generator
    def visible(self, path=True):
        """names usable in the current block: (text, type, fixed)"""
        out, seen, b = [], set(), self.cur
        while b is not None:
            for n, (ty, fx, ro) in b["vars"].items():
                if n not in seen: out.append((n, ty, fx, ro)); seen.add(n)
            b = b["parent"]
        if path:
            b, heads = self.cur, set()
            while b is not None:
                for c in b["kids"]:
                    if c["name"] in heads: continue
                    heads.add(c["name"])
                    for n, (ty, fx, ro) in c["vars"].items(): out.append((c["name"] + ":" + n, ty, fx, ro))
                    for d in c["kids"]:
                        for n, (ty, fx, ro) in d["vars"].items(): out.append((c["name"] + ":" + d["name"] + ":" + n, ty, fx, ro))
                b = b["parent"]
        return out
    def pick(self, ty=None):
        r = self.r
        v = self.visible(r.random() < self.k["paths"])
        v = [x for x in v if (ty is None or x[1] == ty) and (self.k["strings"] or x[1] != "str") and (x[2] or self.formula_ok)]
        if r.random() < self.k["prefer"]: v = [x for x in v if not x[2]] or v
        return r.choice(v) if v else None

    # ------------------------------------------------------------- expressions; each returns (tokens, type)
    @staticmethod
    def common(a, b): return "str" if "str" in (a, b) else "flt" if "flt" in (a, b) else "int"
    def atom(self, d):
        r = self.r
        x = r.random()
        if d > 0 and x < .3:
            t, ty = self.sum(d - 1)
            return [self.op("(")] + t + [self.op(")")], ty
        if d > 0 and self.k["funs"] and x < .45: return self.call(d)
        if r.random() < self.k["vars"]:
            v = self.pick()
            if v: return [self.ident(v[0])], v[1]
        ty = r.choice(["int", "int", "int", "flt", "flt", "flt"] + (["str"] if self.k["strings"] and r.random() < .4 else []))
        return self.lit(ty), ty
    def call(self, d):
        r = self.r
        kind = r.choice(self.k["fkinds"])
        if kind in ("none", "always"):
            f = "always" if kind == "always" and self.formula_ok and self.k["formulas"] else "iota"
            return [self.ident(f), self.op("("), self.op(")")], "flt" if f == "always" else "int"
        if kind == "point":   # at a point in the table
            f = r.choice(FUN1[:15])
            return [self.ident(f), self.op("("), *self.lit("flt"), self.op(")")], "flt"
        if kind == "normal": args, f, ty = [self.lit("flt"), self.intlit(1, 2), self.intlit(0, 1)], "normal", "flt"
        elif kind == "bessel": args, f, ty = [self.intlit(0, 3), self.lit("flt")], r.choice(["besselj", "bessely"]), "flt"
        else:
            n = {"one": 1, "twice": 1}.get(kind, 2)
            args = [self.sum(d - 1)[0] for _ in range(n)]
            if kind == "ldexp": args[1] = self.intlit(0, 4)
            f = {"one": r.choice(self.k["fun1"]), "two": r.choice(self.k["fun2"]), "twoi": r.choice(FUNI2), "twice": "twice", "join": "join", "ldexp": "ldexp"}[kind]
            ty = {"twice": "int", "join": "str"}.get(f, "flt")
            if f == "join" and not self.k["strings"]: f, ty = "both", "flt"
        if r.random() < self.k["err"] / 2: args.append(self.lit("int"))
        if r.random() < self.k["err"] / 4: f = "nofun"
        t = [self.ident(f), self.op("(")]
        for i, a in enumerate(args): t += ([self.op(",")] if i else []) + a
        return t + [self.op(")")], ty
    def intlit(self, a, b):
        v = self.r.randint(a, b)
        return [{"k": "int", "n": v, "txt": str(v)}]
    def power(self, d):
        t, ty = self.atom(d)
        if self.r.random() < .15:
            sg = self.r.choice([[], [], [], [self.op("-")], [self.op("+")]])
            if self.r.random() < .2:   # a power that is not whole, of a number with exact roots
                t, ty = self.intlit(0, 3), "int"
                t[0]["n"] = t[0]["n"] ** 4 if self.r.random() < .7 else (t[0]["n"] + 1) ** 2
                t[0]["txt"] = str(t[0]["n"])
                x, txt = self.r.choice([((1, 1), "0.5"), ((1, 1), "5e-1"), ((3, 1), "1.5"), ((5, 1), "2.5"), ((1, 2), "0.25"), ((3, 2), "0.75")])
                e, ey = [{"k": "flt", "n": x[0], "e": x[1], "txt": txt}], "flt"
                if self.r.random() < .5: return [self.ident("pow"), self.op("(")] + t + [self.op(",")] + sg + e + [self.op(")")], "flt"
            elif self.r.random() < .75: e, ey = self.intlit(0, 3), "int"
            else: e, ey = self.atom(min(d, 1))
            return t + [self.op("^")] + sg + e, self.common(ty, ey)
        return t, ty
    def term(self, d):
        t, ty = self.power(d)
        while self.r.random() < .33:
            u, uy = self.power(d)
            t = t + [self.op(self.r.choice("**/"))] + u
            ty = self.common(ty, uy)
        return t, ty
    def sum(self, d):
        sg = self.r.choice([[], [], [], [], [self.op("-")], [self.op("+")]])
        t, ty = self.term(d)
        t = sg + t
        while self.r.random() < .4:
            u, uy = self.term(d)
            t = t + [self.op(self.r.choice("+-"))] + u
            ty = self.common(ty, uy)
        return t, ty
    def expr(self, ty=None, d=None):
        d = self.r.randint(0, self.k["depth"]) if d is None else d
        for _ in range(30):
            t, y = self.sum(d)
            if (ty is None or y == ty) and len(t) < 40: return t, y
        return self.lit(ty or "int"), ty or "int"

    # ------------------------------------------------------------- program
    def emit(self, op, toks, **k):
        """append the statement and its text; toks are (text) pieces"""
        r = self.r
        l0 = None
        prev = ""
        for t in toks:
            gap = ""
            x = r.random()
            if prev and t and (prev[-1].isalnum() or prev[-1] in "_:.") and (t[0].isalnum() or t[0] in "_:."): gap = " "
            if prev[-1:] in "+-" and prev[-1:] and t[:1].isdigit(): gap = gap or r.choice(["", " "])
            if x < .10: gap += " "
            elif x < .13: gap += "\n"
            elif x < .15: gap += "\t"
            elif x < .17: gap += r.choice(["/* c */", "/* a\n b */", "/**/", " // rest ; }\n", "/* * / // */"])
            if self.k["wild"] and x > .9: gap += r.choice(["\n" * r.randint(1, 9), " " * r.choice([20, 60, 127, 128]), "/*" + "z" * r.choice([50, 120, 126, 260]) + "*/", "\r\n", "\f",
                                                              "//" + "w" * r.choice([50, 120, 126, 260]) + "\n", "/*\n" + "\n* /" * r.randint(1, 5) + "\n**/", "/* 'a */", "// \" \n"])
            if prev == "/" and gap[:1] in ("/", "*"): gap = " " + gap
            if prev == "/" and not gap and t[:1] in "/*": gap = " "
            self.text += gap
            self.line += gap.count("\n")
            if l0 is None: l0 = self.line
            self.text += t
            self.line += t.count("\n")
            prev = t
        self.ev.append(dict(op=op, lines=[l0, self.line], **k))
        end = r.choice(["\n", "\n", "\n", " ", "\n\n", " // x = 1;\n", "\n  "])
        self.text += end
        self.line += end.count("\n")
    @staticmethod
    def strip(ts): return [{k: v for k, v in t.items() if k != "txt"} for t in ts]
    def newname(self):
        r = self.r
        if r.random() < self.k["reuse"]:
            names = [n for n, *_ in self.visible(False)]
            if names: return r.choice(names)
        if self.k["wild"] and r.random() < .3: return r.choice("abcdef") + "".join(r.choice("abc_019") for _ in range(r.choice([30, 100, 127, 128, 200])))
        return r.choice("abcdefghijklmnopqrstuvwxyz") + r.choice(["", "", str(r.randint(0, 9)), "_" + r.choice("abcdef"), "int", "e1"])
    def failing(self):
        """a formula that cannot be evaluated: the file is read all the same, and everything else has its value"""
        r = self.r
        vs = [n for n, ty, fx, ro in self.visible(False) if ty == "int" and not fx]
        if not vs: return
        v, name = r.choice(vs), "bad%d" % self.unique()
        t = [*self.intlit(1, 9), self.op(r.choice("/*+")), *self.intlit(1, 9), self.op("/"), self.op("("), self.ident(v), self.op("-"), self.ident(v), self.op(")")]
        self.emit("decl", ["int", name, "="] + [x["txt"] for x in t] + [";"], ty="int", items=[{"name": name, "ts": self.strip(t)}])
    def decl(self):
        r = self.r
        if r.random() < self.k["fail"]: self.failing()
        n = 1 if r.random() > self.k["lists"] else r.randint(2, 3)
        items, toks = [], []
        fix = []
        ty = r.choice(["int", "flt", "flt"] + (["str"] if self.k["strings"] else []))
        words = r.choice(TYPEWORD[ty])
        for i in range(n):
            name = self.newname()
            if name in ("int", "eint"): name = "zz"
            while name in self.cur["vars"] and r.random() > self.k["err"]: name = r.choice("abcdefgh") + str(r.randint(10, 99))
            if r.random() < self.k["err"]: t, y = self.expr()
            else: t, y = self.expr(ty)
            fx = self.is_fixed(t)
            items.append({"name": name, "ts": self.strip(t)})
            toks += ([","] if i else []) + [name, "="] + [x["txt"] for x in t]
            fix.append((name, fx))
        self.emit("decl", [words] + toks + [";"], ty=ty, items=items)
        for name, fx in fix: self.cur["vars"][name] = (ty, fx, False)
    def is_fixed(self, ts):
        vis = {n: fx for n, ty, fx, ro in self.visible(True)}
        for t in ts:
            if t["k"] == "id" and (t["s"] == "always" or not vis.get(t["s"], True)): return False
        return True
    def assign(self, target=None):
        r = self.r
        vs = [v for v in self.visible(r.random() < self.k["paths"])]
        if target is None:
            ok = [v for v in vs if not v[3]]
            if r.random() < self.k["err"] or not ok: target = r.choice(vs)[0] if vs and r.random() < .6 else r.choice(["nope", "no:such", "x9"])
            else: target = r.choice(ok)[0]
        info = {v[0]: v for v in vs}.get(target)
        ty = info[1] if info else None
        if r.random() < .6 and ty: t, y = self.expr(ty)
        elif ty == "int" or ty == "flt": t, y = self.expr(r.choice(["int", "flt"] if r.random() < .9 or not self.k["strings"] else ["str"]))
        else: t, y = self.expr()
        # a formula that refers to its own variable is an error: only sometimes
        if not self.is_fixed(t) and r.random() > (self.k["err"] * 2 if self.k["cyc"] is None else self.k["cyc"]) and any(x["k"] == "id" and not self.older(x["s"], target) for x in t):
            t, y = self.lit(ty or "int"), ty or "int"
        self.emit("assign", [target, "="] + [x["txt"] for x in t] + [";"], p=target.split(":"), ts=self.strip(t))
        if info: self.setfixed(target, self.is_fixed(t))
    def older(self, name, target): return name == target and False or name != target and not self.was_formula(target)
    def was_formula(self, name): return not {n: fx for n, ty, fx, ro in self.visible(True)}.get(name, True)
    def setfixed(self, target, fx):
        p = target.split(":")
        b = self.cur
        while b is not None:
            if len(p) == 1:
                if p[0] in b["vars"]:
                    ty, _, ro = b["vars"][p[0]]; b["vars"][p[0]] = (ty, fx, ro); return
            else:
                c = next((c for c in b["kids"] if c["name"] == p[0]), None)
                if c is not None:
                    for q in p[1:-1]: c = next((x for x in c["kids"] if x["name"] == q), None) or c
                    if p[-1] in c["vars"]:
                        ty, _, ro = c["vars"][p[-1]]; c["vars"][p[-1]] = (ty, fx, ro)
                    return
            b = b["parent"]
    def node(self, name, cls, parent):
        n = {"name": name, "cls": cls, "parent": parent, "kids": [], "vars": {}, "ix": len(self.nodes) + 1}
        self.nodes.append(n)
        k = next((c for c in self.conf["classes"] if c["name"] == cls), None)
        if k and k["real"]:
            for q in k["params"]: n["vars"][q["name"]] = (q["ty"], q["kind"] != "ro", q["kind"] != "rw")
        if parent is not None: parent["kids"].append(n)
        return n
    def open(self):
        r = self.r
        names = [c["name"] for c in self.conf["classes"]]
        kids = next((c["kids"] for c in self.conf["classes"] if c["name"] == self.cur["cls"]), [])
        if self.conf["restrict"] and kids and r.random() > self.k["err"] * 2: cls = r.choice(kids)
        else: cls = r.choice(names + ["Other"])
        taken = [c["name"] for c in self.cur["kids"]]
        name = r.choice([cls, cls.lower() + str(r.randint(1, 9)), "b" + str(r.randint(1, 5)), r.choice("pqrs")])
        if name in taken and r.random() > self.k["err"] * 2: name = "u%d" % self.unique(); 
        short = name == cls and r.random() < .5
        self.emit("open", [cls, "{"] if short else [cls, name, "{"], cls=cls, name=name)
        self.cur = self.node(name, cls, self.cur)
        self.depth += 1
        self.required()
    def required(self):
        """most mandatory parameters get a value at some time"""
        k = next((c for c in self.conf["classes"] if c["name"] == self.cur["cls"]), None)
        if k and k["real"]:
            for q in k["params"]:
                if q["kind"] == "rw" and (not q["has"] and self.r.random() > self.k["err"] or q["has"] and self.r.random() < self.k["given"]):
                    self.cur.setdefault("todo", []).append(q["name"])
            self.r.shuffle(self.cur.get("todo", []))
    def unique(self):
        self.n = getattr(self, "n", 0) + 1
        return self.n
    def close(self):
        while self.cur.get("todo"): self.assign(self.cur["todo"].pop())
        self.emit("close", ["}"])
        if self.cur["parent"] is not None:
            self.cur = self.cur["parent"]; self.depth -= 1
    def junk(self):
        t = self.r.choice([["1", "=", "2", ";"], ["=", ";"], ["int", "5", ";"], ["a", "b", "c", ";"], [")", ";"], ["x", "=", ";"], ["float", ";"], ["2", "*", "-", "3", ";"],
                           ["+", ";"], ["int", "a", "=", "1", ",", ";"], ["{"], ["a", "=", "(", "1", ";"]])
        self.emit("junk", t)
    def program(self, conf):
        r = self.r
        self.conf, self.text, self.line, self.ev = conf, "", 1, []
        self.formula_ok = self.k["formulas"]
        self.nodes = []
        self.cur = self.node(conf["rootname"], conf["rootcls"], None)
        self.depth = 0
        self.required()
        for _ in range(r.randint(max(1, self.k["nstat"] // 2), self.k["nstat"])):
            x = r.random()
            if x < self.k["blocks"] and self.depth < self.k["maxdepth"]: self.open()
            elif x < self.k["blocks"] * 1.7 and self.depth > 0: self.close()
            elif self.cur.get("todo") and r.random() < .5: self.assign(self.cur["todo"].pop())
            elif r.random() < .55: self.decl()
            else: self.assign()
            if r.random() < self.k["err"] / 6: self.junk(); break
            if r.random() < self.k["err"] / 10 and self.depth == 0: self.close()
        while self.depth > 0: self.close()
        while self.cur.get("todo"): self.assign(self.cur["todo"].pop())
        if not self.ev: self.decl()
        return self.ev, self.text

    # ------------------------------------------------------------- configuration
    def classes(self, n=3, npar=4, arrays=True, restrict=None):
        r = self.r
        names = r.sample(["Alpha", "Beta", "Gamma", "Delta", "Block", "Sub"], n)
        out, lines = [], []
        for i, nm in enumerate(names):
            real = i == 0 or r.random() < .85
            ps, ws, used = [], [], set()
            for _ in range(r.randint(max(self.k["minpar"], 0 if i else 1), npar)):
                ty = r.choice(["int", "flt", "flt"] + (["str"] if self.k["strings"] else []))
                kind = r.choice(self.k["kinds"])
                pn = r.choice(["n", "x", "y", "len", "pos", "speed", "title", "dt", "m_1"]) + r.choice(["", "", "2", "3"])
                rank = r.randint(1, 3) if arrays and ty != "str" and kind != "const" and r.random() < .2 else 0
                full = [pn + c for c in "xyz"[:rank]] if rank else [pn]
                if any(f in used for f in full): continue
                used.update(full)
                if kind == "req": vs = []
                elif rank and kind in ("def", "rod") and r.random() < .5: vs = [self.value(ty)] * 1
                else: vs = [self.value(ty) for _ in full]
                ws.append(J(pn, ty, kind, rank, len(vs), [wire(ty, v) for v in vs]))
                for j, f in enumerate(full):
                    v = anyv(ty) if kind == "req" else val(ty, vs[j] if len(vs) > 1 else vs[0])
                    ps.append({"name": f, "ty": ty, "kind": {"req": "rw", "def": "rw", "ro": "ro", "rod": "ro", "const": "const"}[kind],
                               "has": kind != "req", "v": v})
            kids = [k for k in names + ["Other"] if r.random() < .6]
            out.append({"name": nm, "real": real, "params": ps, "kids": kids})
            lines.append(J(nm, real, len(ws), ws, len(kids), kids))
        restrict = (r.random() < .6) if restrict is None else restrict
        self.wire = J(len(out), lines)
        return {"classes": out, "restrict": restrict, "rootname": r.choice(["app", "root", "main_1"]), "rootcls": names[0]}

    def params(self):
        """the parameters of the block objects: (block number, parameter)"""
        out = []
        for n in self.nodes:
            k = next((c for c in self.conf["classes"] if c["name"] == n["cls"]), None)
            if k and k["real"]: out += [(n["ix"], q) for q in k["params"]]
        return out
    def update_ops(self, nops=8):
        """updaters and what is done with them"""
        r, ps = self.r, self.params()
        ro = [(b, q) for b, q in ps if q["kind"] == "ro"]
        rw = [(b, q) for b, q in ps if q["kind"] == "rw"]
        o = [J("init", r.randint(1, 9))]
        def some(xs, least=0):
            xs = r.sample(xs, r.randint(min(least, len(xs)), len(xs))) if r.random() < .6 else list(xs)
            return J(len(xs), [J(b, q["name"]) for b, q in xs])
        if not rw: return o
        nu = r.randint(1, 3)
        for _ in range(nu): o.append(J("updater", some(ro), some(rw, 1)))
        for _ in range(r.randint(3, nops)):
            x = r.random()
            if x < .5 and ro:
                b, q = r.choice(ro)
                o.append(J("set", b, q["name"], wire(q["ty"], self.value(q["ty"]))))
            elif x < .58: o.append(J("tick", r.randint(0, 5)))
            elif x < .82: o.append(J("update", r.randint(1, nu)))
            elif x < .93:                              # more independent or dependent variables for an updater already used
                w = r.choice(["ind", "ind", "dep", "both"])
                o.append(J("depend", r.randint(1, nu), w != "ind" and r.randint(0, 1), some(ro) if w != "dep" else "0", some(rw) if w != "ind" else "0"))
            elif x < .96: o.append(J("all", r.randint(0, 1)))
            else: o.append(J("group", some(rw + ro), some(ps)))
        o.append(J("update", r.randint(1, nu)))
        return o
    def look_ops(self, n=6):
        """names looked up from all over the tree"""
        r = self.r
        names = sorted({v for b in self.nodes for v in b["vars"]}) + ["nope"]
        heads = sorted({b["name"] for b in self.nodes})
        o = []
        for _ in range(n):
            b = r.choice(self.nodes)
            if r.random() < .35: p = r.choice(names)
            elif r.random() < .5: p = r.choice(heads) + ":" + r.choice(names)
            else:                                            # a path that exists below some ancestor
                t = r.choice(self.nodes); p = r.choice(sorted(t["vars"]) or ["nope"])
                for _ in range(r.randint(0, 3)):
                    if t["parent"] is None: break
                    p = t["name"] + ":" + p; t = t["parent"]
            o.append(J("look", b["ix"], p))
        return o

def make(r, ops=None, n=3, npar=4, arrays=True, restrict=None, **k):
    """one history: the driver line and the stimulus part of the record"""
    g = Gen(r, **k)
    conf = g.classes(n, npar, arrays, restrict)
    ev, text = g.program(conf)
    file = r.choice(["setup.cfg", "deck", "Setup_File"])
    o = ops(g) if ops else [J("init", r.randint(1, 9))]
    line = "%s %d %d %s %s %s %s %d %s" % (g.wire, conf["restrict"], r.randint(0, 1), conf["rootname"], conf["rootcls"], file, hx(text), len(o), " ".join(o))
    return line, {"conf": conf, "file": file, "stim": ev, "text": text}

INV = ["Innermost", "OncePerBlock", "BlocksAsWritten", "UniqueNames", "Allowed", "Preserved", "OneAtATime", "TypesKept", "LifeOk", "Ended", "Restart"]
def model(c, scope, n):
    c.model("SetupMC", c.cfg(spec="Spec", constants={"MaxLen": n, "Scope": '"%s"' % scope}, invariants=INV), scope)
def files(c, scope, n, limit=None):
    """setup files enumerated by the model"""
    hs = c.generate("SetupGen", c.cfg(spec="Spec", constants={"MaxLen": n, "Scope": '"%s"' % scope}, invariants=["Emit"]), scope, limit=limit)
    return [replay(c.rng, h) for h in hs]

MC_CONF = {"classes": [{"name": "Alpha", "real": True, "kids": ["Alpha", "Beta", "Gamma"], "params": [
                          {"name": "n", "ty": "int", "kind": "rw", "has": True, "v": val("int", 3)}, {"name": "r", "ty": "int", "kind": "ro", "has": True, "v": val("int", 6)}]},
                       {"name": "Beta", "real": True, "kids": ["Alpha", "Gamma"], "params": [
                          {"name": "n", "ty": "int", "kind": "rw", "has": False, "v": anyv("int")}, {"name": "k", "ty": "int", "kind": "const", "has": True, "v": val("int", 8)}]},
                       {"name": "Gamma", "real": False, "kids": ["Beta"], "params": []}],
           "restrict": True, "rootname": "app", "rootcls": "Alpha"}
MC_WIRE = "3 Alpha 1 2 n int def 0 1 3 r int ro 0 1 6 3 Alpha Beta Gamma Beta 1 2 n int req 0 0 k int const 0 1 8 2 Alpha Gamma Gamma 0 0 1 Beta"
def replay(r, hist):
    """a statement sequence of the model (SetupMC) as a setup file"""
    g = Gen(r)
    g.conf, g.text, g.line, g.ev, depth, nb = MC_CONF, "", 1, [], 0, 1
    def text(ts): return [":".join(t["p"]) if t["k"] == "id" else t["s"] if t["k"] == "op" else str(t["n"]) if t["k"] == "int" else "1.5" for t in ts]
    for e in hist:
        e = {k: v for k, v in e.items() if k != "lines"}
        op = e.pop("op")
        if op == "decl": toks = [{"int": "int", "flt": "float"}[e["ty"]], e["items"][0]["name"], "="] + text(e["items"][0]["ts"]) + [";"]
        elif op == "assign": toks = [":".join(e["p"]), "="] + text(e["ts"]) + [";"]
        elif op == "open": toks = [e["cls"], e["name"], "{"]; depth += 1; nb += 1
        else: toks = ["}"]; depth -= 1
        g.emit(op, toks, **e)
    for _ in range(depth): g.emit("close", ["}"])
    o = [J("look", r.randint(1, nb), r.choice(["v", "n", "r", "k", "p:v", "p:n", "q:v", "p:p:n", "q:p:n", "p:q:v", "w"])) for _ in range(4)] + [J("init", r.randint(1, 9))]
    line = "%s 1 %d app Alpha deck %s %d %s" % (MC_WIRE, r.randint(0, 1), hx(g.text), len(o), " ".join(o))
    return line, {"conf": MC_CONF, "file": "deck", "stim": g.ev, "text": g.text}

def run(c, items):
    exe = c.compile("setup", "setup.cpp", lib=True)
    out = c.drive(exe, [i[0] for i in items], timeout=800)
    recs = []
    for k, ((line, m), e) in enumerate(zip(items, out)):
        recs.append(None if e is None else {"id": k, "conf": m["conf"], "file": m["file"], "ev": m["stim"] + e})
    def rerun(r):
        return dict(r, ev=items[r["id"]][1]["stim"] + c.drive(exe, [items[r["id"]][0]], tag="re")[0])
    return recs, rerun
def describe(items):
    def f(rec, l, ev):
        import json
        return "%s\n--- setup file ---\n%s" % (json.dumps(ev)[:900], items[rec["id"]][1]["text"][:1500])
    return f
