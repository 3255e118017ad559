#!/usr/bin/env python3
"""Re-run the single case recorded in a replay file."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import run
from checks import PROGRAMS

d = json.load(open(sys.argv[1]))
part = [k for k, p in PROGRAMS.items() if d["prop"] in p["props"]][0]
p = PROGRAMS[part]
exe, _ = run.Builder().program(d["variant"], p["tus"], p["lib"], p.get("optional", []))
cmd = [exe, "--prop", d["prop"], "--seed", str(d["seed"]), "--scale", str(d["scale"]),
       "--variant", "valgrind" if d["variant"] == "plain" else d["variant"],
       "--only", "%s#%s" % (d["group"], d["i"])]
if d["variant"] == "plain":
    cmd = run.VALGRIND + cmd
print(" ".join(cmd))
sys.exit(subprocess.run(cmd, env=run.ENV).returncode)
