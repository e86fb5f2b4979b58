"""tryseed.py ID... [--tests] [--all]: apply each seeded change to /repo, build, run demo and this property's quick check, undo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_passed", [])) if False else None
if sh("git -C /repo status --porcelain -uno").stdout.strip(): sys.exit("/repo not clean")
for i in ids:
    d = V + "/seeded/" + i; prop = json.load(open(d + "/meta.json"))["property"]
    demo0 = None
    if "--base" in sys.argv:
        sh("bash /opt/vp/build.sh"); demo0 = sh("bash %s/demo.sh" % d, cwd="/repo").returncode
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(i, "DOES NOT APPLY", a.stderr); continue
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(i, "BUILD FAILS", b.stdout[-800:]); continue
        t = ""
        if "--tests" in sys.argv:
            sh("bash /opt/vp/test.sh /tmp/p/ts.json"); r = json.load(open("/tmp/p/ts.json")); t = "pass %d fail %s" % (len(r["passed"]), r["failed"][:3])
        dm = sh("bash %s/demo.sh" % d, cwd="/repo")
        ck = None
        if "--nocheck" not in sys.argv:
            ck = sh("VERIF_TIER=quick VERIF_SEED=1 python3 checks/%s.py quick" % prop.lower(), cwd=V)
        print(i, prop, "demo0", demo0, "demo", dm.returncode, dm.stderr[-300:] if dm.returncode == 2 else "", "tests", t,
              "check", ck and ck.returncode, (ck.stdout.strip().splitlines() or [""])[-1][:200] if ck else "", flush=True)
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")
