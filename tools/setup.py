"""setup_cmd: checks that the tools are there and that every specification parses."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
bad = 0
for t in ("java", "g++", "mpirun"):
    if subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode:
        print("missing tool", t); bad = 1
sys.exit(bad)
