"""mkseed.py ID PROP DEMO.cpp SPEC.py  -  build /verif/seeded/ID from a replacement list.

SPEC.py defines edits = [(file, old, new), ...], needs, breaks; optionally link/np/pre for the demo command.
Used by hand only; no check reads /verif/seeded."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def build(sid, prop, demo, edits, needs, breaks, link=True, np=0, flags="-O1"):
    d = os.path.join(V, "seeded", sid); os.makedirs(d, exist_ok=True)
    w = "/tmp/seedwt"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p, newline="").read()
        if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"])
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    shutil.rmtree(w)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    run = "./demo" if not np else "mpirun --allow-run-as-root --oversubscribe -np %d ./demo" % np
    open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# cwd: the repository, built. Exit 0 when the property holds.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 %s -w -DKOKKOS_DEPENDENCE -I"$R" -I"$R/src" -I/usr/lib/x86_64-linux-gnu/openmpi/include \\
  -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi -I/usr/include/hdf5/openmpi -isystem /usr/include/trilinos \\
  -isystem "$R/_build/src/grid" -isystem "$R/_build/src/grid/iteration" "$D/demo.cpp" -o "$T/demo" %s || exit 2
cd "$T" && timeout 120 %s
""" % (flags, '-L"$R/_build" -lschnek -Wl,-rpath,"$R/_build" -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -Wl,-rpath,/usr/lib/x86_64-linux-gnu/openmpi/lib:/usr/lib/x86_64-linux-gnu/hdf5/openmpi /usr/lib/x86_64-linux-gnu/libtrilinos_kokkoscore.so.13.2 -ldl -lpthread' if link else "", run))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
