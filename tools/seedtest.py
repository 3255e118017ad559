#!/usr/bin/env python3
"""Development tool: confirms the planted changes of /verif/seeded in a scratch copy of /repo
(applies, builds, tests pass, demo quiet before and failing after) and runs checks against each.

usage: seedtest.py SCRATCH [ID ...] [--checks C01,C02] [--no-check]
SCRATCH is a copy of /repo (made with cp -a); nothing is written to /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = dict((a[2:].split("=") + [""])[:2] for a in sys.argv[1:] if a.startswith("--"))
scratch, ids = args[0], args[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Nehalem")
bd = os.path.join(scratch, "_b")


def sh(cmd, timeout=900, cwd=scratch, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                              timeout=timeout, env=dict(env, **kw), cwd=cwd)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, str(e.stdout or "")[-500:])


r = sh(["cmake", "-S", scratch, "-B", bd, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_FLAGS_RELEASE=-O2",
        "-DCMAKE_CXX_FLAGS=-Wno-error", "-DBUILD_TESTING=ON", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
        "-DCMAKE_PROJECT_EllCpp_INCLUDE=/opt/vp/cmake/ellcpp_offline.cmake"])
assert r.returncode == 0, r.stdout[-2000:]
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    out = dict(id=i, property=meta["property"])
    sh(["git", "checkout", "-q", "--", "."])
    before = sh(["bash", d + "/demo.sh"], 300)
    out["demo-before"] = before.returncode
    if before.returncode:
        out["text"] = before.stdout[-600:]
    r = sh(["git", "apply", d + "/patch.diff"])
    if r.returncode:
        out["apply"] = r.stdout[-300:]
    else:
        r = sh(["ninja", "-C", bd])
        out["build"] = r.returncode
        if r.returncode:
            out["text"] = r.stdout[-1500:]
        else:
            r = sh([bd + "/lib/test/EllCppLibTest"], 60)
            out["tests"] = r.returncode
            if r.returncode:
                out["text"] = r.stdout[-700:]
        after = sh(["bash", d + "/demo.sh"], 300)
        out["demo-after"] = after.returncode
        out["demo-text"] = after.stdout[-120:]
        if "no-check" not in opts and out.get("build") == 0:
            for c in (opts["checks"].split(",") if opts.get("checks") else [meta["property"]]):
                r = sh(["python3", os.path.join(V, "run.py"), c], 900, V, VERIF_REPO=scratch, VERIF_SEED="1", VERIF_TIER="quick")
                out[c] = "%d %s" % (r.returncode, " ".join(r.stdout.split("\n")[-2:] if r.returncode == 0 else [l for l in r.stdout.split("\n") if l.strip() and "VIOLATION" not in l][:1])[:160])
    sh(["git", "checkout", "-q", "--", "."])
    print(json.dumps(out), flush=True)
