#!/usr/bin/env python3
"""Mutation campaign: small changes of the library's sources, each tried against the checks anchored in the changed file.
usage: mutate.py WORKERS COUNT SEED [file-substring...]     (works on copies under /tmp/mut only; report: /tmp/mut/report.jsonl)"""
import json, os, random, re, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
import threading, queue
W, N, SEED = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
ONLY = sys.argv[4:]
props = {}
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]:
        if f.startswith("src") and "kokkos" not in f: props.setdefault(f, []).append(d["id"])
RULES = [(r"<=", "<"), (r"(?<![<>\-=])<(?![<=>])(?= )", "<="), (r">=", ">"), (r"(?<![\->])>(?![>=])(?= )", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ ?1\b", ""), (r" ?- ?1\b", ""), (r"\+1\b", ""), (r"-1\b", "-2"), (r"(?<=[\w\)\]]) ?\+ ?(?=[\w\(])", " - "), (r"(?<=[\w\)\]]) ?- ?(?=[\w\(])", " + "),
         (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "2"), (r"\bgetLo\b", "getHi"), (r"\bgetHi\b", "getLo"), (r"\blo\b", "hi"), (r"\bhi\b", "lo"), (r"\bMin\b", "Max"), (r"\bMax\b", "Min"),
         (r"\+\+", "--"), (r"!(?=[\w\(])", ""), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\+=", "-="), (r"\+=", "="), (r"\*", "+"), (r"%", "/"), (r"\bbegin\b", "end"), (r"\bbreak\b", "continue"),
         (r"\bprev\b", "next"), (r"\bnext\b", "prev"), (r"\bfront\b", "back"), (r"push_back", "push_front"), (r"\[0\]", "[1]"), (r"\brank\b", "rank-1"), (r"\bmult\b", "1"), (r"->first", "->second")]
def sites(f):
    src = open("/repo/" + f).read().split("\n")
    comment, out = False, []
    for i, l in enumerate(src):
        t = l.strip()
        if comment:
            if "*/" in t: comment = False
            continue
        if t.startswith("/*"):
            comment = "*/" not in t
            continue
        if not t or t.startswith(("//", "#", "template", "*", "class ", "struct ", "typedef", "using ", "friend", "namespace")): continue
        code = l.split("//")[0]
        if "LOG" in code or "static_assert" in code: continue
        for a, b in RULES:
            for m in re.finditer(a, code):
                if "<" in a and ("template" in code or re.search(r"\w<\w", code[max(0, m.start() - 1):m.end() + 1])): continue
                if a == r"\*" and not re.search(r"[\w\)\]] ?\* ?[\w\(]", code[max(0, m.start() - 2):m.end() + 2]): continue
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                out.append((i, l[:m.start()] + b + l[m.end():]))
        if re.match(r"^\s+[\w\.\->\[\]\(\)\*\+: ]+(=|\(|\+\+|--).*;\s*$", l) and not re.match(r"^\s*(return|const|int|double|bool|size_t|auto|std::|typename|[A-Z]\w+ \w+ ?[=(;]|virtual)", l):
            out.append((i, re.sub(r"\S.*$", ";", l, count=1)))
    return out
allsites = []
for f in sorted(props):
    if ONLY and not any(o in f for o in ONLY): continue
    allsites.append((f, sites(f)))
r = random.Random(SEED)
todo, seen = [], set()
while len(todo) < N and len(seen) < 5 * N:
    f, ss = r.choice(allsites)
    if not ss: continue
    s = (f,) + r.choice(ss)
    if s in seen: continue
    seen.add(s); todo.append(s)
pool = queue.Queue()
for k in range(W):
    for src, dst in (("/repo", "/tmp/mut/r%d" % k), ("/verif", "/tmp/mut/v%d" % k)):
        shutil.rmtree(dst, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", src, dst])
    pool.put(k)
lock = threading.Lock()
rep = open("/tmp/mut/report.jsonl", "a")
def one(s):
    f, i, new = s
    k = pool.get()
    try:
        R, V = "/tmp/mut/r%d" % k, "/tmp/mut/v%d" % k
        p = os.path.join(R, f)
        src = open(p).read()
        ls = src.split("\n"); old = ls[i]; ls[i] = new
        open(p, "w").write("\n".join(ls))
        res, t0 = [], time.time()
        try:
            for c in sorted(props[f], key=lambda c: c in ("C08", "C01")):
                try:
                    q = subprocess.run(["python3", "checks/%s.py" % c.lower(), "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                    txt = q.stdout.decode(errors="replace")
                    v = "VIOLATION" if q.returncode == 1 and "VIOLATION property=" in txt else "ok" if q.returncode == 0 else "nocompile" if "failed" in txt and "error" in txt.lower() else "rc%d" % q.returncode
                    if v.startswith("rc"): v += ": " + txt[-300:]
                except subprocess.TimeoutExpired: v = "timeout"
                res.append((c, v))
                if v in ("VIOLATION", "nocompile"): break
        finally: open(p, "w").write(src)
        status = "killed" if any(v == "VIOLATION" for _, v in res) else "nocompile" if any(v == "nocompile" for _, v in res) else "SURVIVED"
        with lock:
            rep.write(json.dumps({"status": status, "file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "res": res, "t": round(time.time() - t0)}) + "\n"); rep.flush()
    finally: pool.put(k)
with ThreadPoolExecutor(W) as ex: list(ex.map(one, todo))
for k in range(W):
    shutil.rmtree("/tmp/mut/r%d" % k, ignore_errors=True); shutil.rmtree("/tmp/mut/v%d" % k, ignore_errors=True)
