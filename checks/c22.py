"""C22: literature references are each recorded once and written completely."""
import sys, os, copy, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.core import main, J, hx

LIMITS = {"article": (4, 10), "book": (5, 13), "booklet": (1, 8), "inbook": (7, 16), "incollection": (5, 17), "inproceedings": (4, 15), "manual": (1, 9),
          "mastersthesis": (4, 9), "misc": (2, 7), "phdthesis": (4, 9), "proceedings": (2, 12), "techreport": (4, 10), "unpublished": (4, 6)}
FIELDS = "address annote author booktitle chapter crossref edition editor eprint howpublished institution journal key month note number organization pages publisher school series title type url doi volume year".split()
PIECES = ["Yee, K", " and ", "{M}axwell", "1966", "--", "AP-14", "\\\"u", "a=b", "@", ",", "x_1", "#", "%", "  ", "{a{b}c}", "http://a.b/c?d=1", "~", "\"", "$E=mc^2$", ".", "Journal of {P}"]

class Bad(Exception): pass
def bibtex(s):
    """the entries of a BibTeX text, however it is laid out"""
    out, i = [], 0
    def ws(i):
        while i < len(s) and s[i].isspace(): i += 1
        return i
    while True:
        i = ws(i)
        if i >= len(s): return out
        m = re.compile(r"@\s*(\w+)\s*\{\s*").match(s, i)
        if not m: raise Bad("entry expected at %d: %r" % (i, s[i:i + 40]))
        kind, i = m.group(1).lower(), m.end()
        j = i
        while j < len(s) and s[j] not in ",}\n": j += 1
        key, i = s[i:j].strip(), ws(j)
        fs = []
        while i < len(s) and s[i] == ",":
            i = ws(i + 1)
            if s[i:i + 1] == "}": break
            m = re.compile(r"(\w+)\s*=\s*([{\"])").match(s, i)
            if not m: raise Bad("field expected: %r" % s[i:i + 40])
            q, i = m.group(2), m.end()
            j, depth = i, 0
            while j < len(s):
                if depth == 0 and s[j] == ("}" if q == "{" else '"'): break
                depth += (s[j] == "{") - (s[j] == "}"); j += 1
            fs.append([m.group(1).lower(), s[i:j]]); i = ws(j + 1)
        if s[i:i + 1] != "}": raise Bad("end of entry expected: %r" % s[i:i + 40])
        i += 1
        out.append({"type": kind, "key": key, "f": fs})
def report(s):
    m = re.search(r"\\section\*?\{(.*)\}\n(.*)\n?\s*\\begin\{itemize\}(.*)\\end\{itemize\}.*\\bibliography\{(.*)\}\s*\\end\{document\}", s, re.S)
    if not m: raise Bad("report not understood: %r" % s[:300])
    items = []
    parts = re.split(r"\\item\s", m.group(3))
    if parts[0].strip(): raise Bad("text before the first item: %r" % parts[0])
    for p in parts[1:]:
        k = re.findall(r"\\cite\{(.*?)\}", p)
        if len(k) != 1: raise Bad("item without a citation: %r" % p)
        items.append({"key": k[0], "descs": [x for x in p[:p.index("\\cite{")].split("\n") if x]})
    return {"title": m.group(1), "subtitle": m.group(2).strip(), "items": items, "bibfile": m.group(4)}
def observe(events):
    for e in events or []:
        try:
            if e["op"] in ("print", "bibtex"): e["entries"] = bibtex(e.pop("text"))
            elif e["op"] == "information": e.update(report(e.pop("text")))
            elif e["op"] in ("title", "subtitle") and e["v"] != e["given"]: e["op"] = "BAD"
        except Bad as x: e.update(op="BAD", what=str(x))
    return events

def text(r, empty=.1):
    if r.random() < empty: return ""
    t = "".join(r.choice(PIECES) for _ in range(r.choice([1, 1, 2, 3, 6]))).strip()
    return t or "t"
def phrase(r): return " ".join(r.choice(["solver", "uses", "FDTD", "a{b}c", "50%", "x", "method", "Yee's", "$x$", "[1]"]) for _ in range(r.choice([1, 2, 4])))
def key(r): return r.choice(["Yee1966", "Schmitz2018", "a", "b", "B", "Doe:2001", "k-1", "long_" * r.randint(1, 9), "Yee1967", "x%d" % r.randint(0, 20)])
def ends(r): return [J("bibtex"), J("information", hx(r.choice(["references", "refs/my-refs", "a b"])))]

def scene(r):
    ops, have, full = [], {}, r.random() < .3
    for _ in range(r.randint(3, 24)):
        x = r.random(); o = r.randint(1, 4)
        if x < .3 or not have:
            t = r.choice(sorted(LIMITS)); n = r.randint(*LIMITS[t])
            if full: n = LIMITS[t][1]
            if r.random() < .85: ops.append(J("make", o, t, hx(key(r)), n, [hx(text(r, .02 if full else .1)) for _ in range(n)]))
            else: ops.append(J("plain", o, t, hx(key(r))))
            have[o] = t; continue
        o = r.choice(sorted(have))
        if x < .45: ops.append(J("set", o, r.choice(FIELDS), hx(text(r))))
        elif x < .5: s = r.choice(sorted(have)); o = r.randint(1, 4); have[o] = 1; ops.append(J("copy", o, s, r.randint(0, 1)))
        elif x < .53: ops.append(J("retype", o, r.choice(sorted(LIMITS))))
        elif x < .6: ops.append(J("get", o))
        elif x < .66: ops.append(J("print", o))
        elif x < .9: ops.append(J("add", o, hx(phrase(r))))
        elif x < .92: ops.append(J(r.choice(["title", "subtitle"]), hx(phrase(r))))
        else: ops += ends(r)[:r.randint(1, 2)]
    ops += ends(r)
    return J(len(ops), ops)
def replay(r, h):
    ops = []
    for e in h:
        if e["op"] == "make": a = e["args"] + ["w"] * (LIMITS[e["type"]][0] - len(e["args"])); ops.append(J("make", e["o"], e["type"], hx(e["key"]), len(a), [hx(x) for x in a]))
        elif e["op"] == "set": ops.append(J("set", e["o"], e["x"], hx(e["v"])))
        elif e["op"] == "copy": ops.append(J("copy", e["o"], e["s"], r.randint(0, 1)))
        else: ops.append(J("add", e["o"], hx(e["d"])))
        if r.random() < .15: ops += ends(r)
    return J(len(ops) + 2, ops + ends(r))

def check(c):
    t = c.thorough
    inv = ["OnceEach", "Registered", "FirstWins", "Described", "OwnStays", "Cited"]
    c.model("LiteratureMC", c.cfg(spec="Spec", constants={"MaxLen": 5 if t else 3}, invariants=inv), "model")
    hs = c.generate("LiteratureGen", c.cfg(spec="Spec", constants={"MaxLen": 3}, invariants=["Emit"]), "all", limit=20000 if t else 1000)
    hs += c.generate("LiteratureGen", c.cfg(spec="Spec", constants={"MaxLen": 12}, invariants=["Emit"]), "long", simulate=400 if t else 25, depth=13, limit=10000 if t else 800)
    r = c.rng
    lines = [replay(r, h) for h in hs] + [scene(r) for _ in range(20000 if t else 1500)]
    exe = c.compile("literature", "literature.cpp", lib=True)
    out = c.drive(exe, lines, timeout=800)
    recs = [None if e is None else {"id": k, "ev": observe(e)} for k, e in enumerate(out)]
    def rerun(x): return dict(x, ev=observe(c.drive(exe, [lines[x["id"]]], tag="re")[0]))
    tcfg = c.cfg(spec="TSpec", deadlock=True)
    c.samples = [{"scenario": lines[-1][:400]}]
    c.validate("LiteratureTrace", tcfg, recs, "all", rerun=rerun)
    if not c.violations:
        x = next(x for x in recs if x and any(e["op"] == "bibtex" and len(e["entries"]) > 2 for e in x["ev"]))
        def bib(y): return next(e for e in y["ev"] if e["op"] == "bibtex" and len(e["entries"]) > 2)
        b = copy.deepcopy(x); bib(b)["entries"].append(bib(b)["entries"][0]); c.probe("LiteratureTrace", tcfg, b, "twice", "an entry written twice")
        b = copy.deepcopy(x); bib(b)["entries"][0]["f"].pop(); c.probe("LiteratureTrace", tcfg, b, "field", "a field left out")
        b = copy.deepcopy(x); e = next(e for e in b["ev"] if e["op"] == "information" and len(e["items"]) > 1); e["items"].pop(0); c.probe("LiteratureTrace", tcfg, b, "cite", "a citation left out")
    c.assumptions = ["the order of entries, fields and citations and the layout of the text are not specified", "descriptions are single lines without LaTeX commands for items or citations",
                     "texts with balanced braces"]
main("C22", check)
