#!/usr/bin/env python3
"""Run the monitors of one property against /repo's working tree.

usage: run.py <property> [--tier quick|thorough] [--seed N]
exit 0: held on everything observed; 1: VIOLATION printed; 2: no verdict.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, ALL_TUS  # noqa: E402

JOBS = 8
BASE = ["-std=c++17", "-I" + os.path.join(REPO, "lib/include"),
        "-I" + HARNESS, "-I" + os.path.join(REPO, "lib/src"),
        "-Wno-deprecated-declarations", "-w"]
VARIANTS = {
    "fast": ["-O2"],
    "san": ["-O1", "-g1", "-fno-omit-frame-pointer",
            "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
            "-D_GLIBCXX_ASSERTIONS", "-DXTENSOR_ENABLE_ASSERT",
            "-DBOOST_USE_UCONTEXT", "-DBOOST_USE_ASAN"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread", "-DBOOST_USE_UCONTEXT", "-DBOOST_USE_TSAN"],
    "plain": ["-O1", "-g1", "-DBOOST_USE_VALGRIND"],
}
LIBS = ["-L/usr/lib/x86_64-linux-gnu/openblas-pthread", "-lopenblas", "-lfmt",
        "-lboost_coroutine", "-lboost_context", "-lpthread"]


class NoVerdict(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "lib"), HARNESS):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".cpp", ".h", ".ipp", ".inc")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def sh(cmd, timeout=800):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", timeout=timeout)


class Builder:
    def __init__(self):
        self.dir = os.path.join(BUILD, tree_hash())
        if os.path.isdir(BUILD):  # drop builds of other trees
            for d in os.listdir(BUILD):
                p = os.path.join(BUILD, d)
                if p != self.dir and os.path.isdir(p) and \
                        time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.futs = {}
        self.reduced = set()

    def obj(self, variant, src):
        """future of (object path or None, log)"""
        key = (variant, src)
        if key not in self.futs:
            self.futs[key] = self.pool.submit(self._compile, variant, src)
        return self.futs[key]

    def _compile(self, variant, src):
        tag = hashlib.sha256((variant + " ".join(VARIANTS[variant]) + src).encode()).hexdigest()[:12]
        out = os.path.join(self.dir, "%s-%s-%s.o" % (
            os.path.basename(src).replace(".cpp", ""), variant, tag))
        if os.path.exists(out):
            if os.path.exists(out + ".reduced"):
                self.reduced.add(os.path.basename(src) + " (reduced)")
            return out, ""
        tmp = "%s.%d.tmp" % (out, os.getpid())
        cmd = ["g++"] + BASE + VARIANTS[variant] + ["-c", src, "-o", tmp]
        r = sh(cmd)
        if r.returncode != 0 and src.startswith(HARNESS):
            # uses no shipped code has: leave them out when they do not compile any more
            if "VH_REDUCED" in open(src).read():
                if sh(cmd + ["-DVH_REDUCED"]).returncode == 0:
                    os.rename(tmp, out)
                    self.reduced.add(os.path.basename(src) + " (reduced)")
                    open(out + ".reduced", "w").close()
                    return out, ""
        if r.returncode != 0:
            return None, r.stdout
        os.rename(tmp, out)
        return out, ""

    def program(self, variant, tus, libsrc, optional=()):
        """returns path of the linked monitor program"""
        need = [os.path.join(HARNESS, t) for t in ["vh_main.cpp", "vh_fiber.cpp"] + tus]
        opt = [os.path.join(HARNESS, t) for t in optional]
        lib = [os.path.join(REPO, "lib/src", s) for s in libsrc]
        lib = [s for s in lib if os.path.exists(s)]
        fo = [(s, self.obj(variant, s)) for s in need + lib]
        fopt = [(s, self.obj(variant, s)) for s in opt]
        objs = []
        for s, f in fo:
            o, log = f.result()
            if o is None:
                raise NoVerdict("cannot compile %s (%s):\n%s" % (s, variant, log[-3000:]))
            objs.append(o)
        skipped = []
        for s, f in fopt:
            o, log = f.result()
            if o is None:
                skipped.append(os.path.basename(s))
            else:
                objs.append(o)
        name = hashlib.sha256((" ".join(objs)).encode()).hexdigest()[:12]
        exe = os.path.join(self.dir, "prog-%s-%s" % (variant, name))
        if os.path.exists(exe):
            return exe, skipped
        r = self._link(variant, objs, exe)
        if r.returncode != 0:  # code moved to other source files: take them all
            rest = [s for s in sorted(glob.glob(os.path.join(REPO, "lib/src/*.cpp")))
                    if s not in lib and "xtensor-fftw" not in open(s, errors="replace").read()]
            more = [self.obj(variant, s).result()[0] for s in rest]
            more = [m for m in more if m]
            ar = exe + ".a"
            if os.path.exists(ar):
                os.remove(ar)
            if more:
                sh(["ar", "rcs", ar] + more)
                r = self._link(variant, objs + [ar], exe)
            if r.returncode != 0:
                raise NoVerdict("cannot link (%s):\n%s" % (variant, r.stdout[-3000:]))
        return exe, skipped

    def _link(self, variant, objs, exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + VARIANTS[variant] + objs + ["-o", tmp] + LIBS)
        if r.returncode == 0:
            os.rename(tmp, exe)
        return r


ENV = dict(os.environ,
           OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Nehalem",
           ASAN_OPTIONS="abort_on_error=0:exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:"
                        "allocator_may_return_null=1:handle_abort=1:handle_sigill=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=66",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1")
VALGRIND = ["valgrind", "-q", "--error-exitcode=68", "--leak-check=full",
            "--errors-for-leak-kinds=definite,indirect", "--show-leak-kinds=definite,indirect",
            "--num-callers=16", "--exit-on-first-error=no"]


def crash_key(rc, err):
    m = re.search(r"VH-HANG", err)
    if m:
        return "hang", "a case did not end within its CPU budget"
    m = re.search(r"runtime error: (.*)", err)
    if m:
        t = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))
        t = re.sub(r"value .*? is outside", "value is outside", t)
        return "ubsan:" + t[:80], m.group(0)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan:" + m.group(1), m.group(0)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
    if m:
        return "tsan:" + m.group(1).strip(), m.group(0)
    m = re.search(r"==\d+== (Invalid (?:read|write)|Conditional jump[^\n]*|Use of uninit[^\n]*|"
                  r"Syscall param[^\n]*|Invalid free[^\n]*|Mismatched free[^\n]*|Source and dest[^\n]*)", err)
    if m:
        return "memcheck:" + re.sub(r"\s+", "-", m.group(1).strip())[:60], m.group(0)
    m = re.search(r"are (definitely|indirectly) lost", err)
    if m:
        return "memcheck:leak", m.group(0)
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m:
        return "assert:" + m.group(1)[:80], m.group(0)
    m = re.search(r"terminate called[^\n]*(\n[^\n]*what\(\)[^\n]*)?", err)
    if m:
        return "terminate", m.group(0)
    return "crash:rc%d" % rc, "process ended with status %d" % rc


class Run:
    """one process of the monitor program"""

    def __init__(self, exe, variant, prop, seed, scale, tier, work, extra=()):
        self.exe, self.variant, self.prop = exe, variant, prop
        self.seed, self.scale, self.tier = seed, scale, tier
        self.base = os.path.join(work, "%s-%s-%d-%s" % (prop, variant, seed, "-".join(extra).replace("/", "_").replace("#", "_")))
        self.extra = list(extra)

    def cmd(self, out, cur):
        c = [self.exe, "--prop", self.prop, "--seed", str(self.seed),
             "--scale", repr(self.scale), "--tier", self.tier,
             "--variant", "valgrind" if self.variant == "plain" else self.variant,
             "--out", out, "--cur", cur] + self.extra
        return (VALGRIND + c) if self.variant == "plain" else c

    def execute(self, wall):
        out, cur = self.base + ".jsonl", self.base + ".cur"
        try:
            r = subprocess.run(self.cmd(out, cur), stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, text=True,
                               errors="replace", timeout=wall, env=ENV)
            self.rc, self.err = r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            self.rc, self.err = None, ""
        self.fails, self.stats = [], None
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("type") == "fail":
                    self.fails.append(d)
                elif d.get("type") == "stats":
                    self.stats = d
        try:
            self.cur = open(cur, "rb").read().split(b"\0")[0].decode()
        except OSError:
            self.cur = ""
        return self


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def main():
    t0 = time.time()
    if sys.argv[1:2] == ["--self-test"]:
        for p, c in CHECKS.items():
            assert all(t in c["plan"] for t in ("quick", "thorough")), p
        print("configuration of %d checks is sound" % len(CHECKS))
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    a = sys.argv[2:]
    while a:
        k = a.pop(0)
        if k == "--tier":
            tier = a.pop(0)
        elif k == "--seed":
            seed = int(a.pop(0))
        else:
            sys.exit("unknown argument " + k)
    cfg = CHECKS[prop]
    plan = cfg["plan"][tier]
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    try:
        return decide(prop, cfg, plan, tier, seed, work, t0)
    except NoVerdict as e:
        print("NO VERDICT for %s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("NO VERDICT for %s: the check itself failed" % prop)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, cfg, plan, tier, seed, work, t0):
    b = Builder()
    progs, skipped = {}, set()
    kinds = []
    for step in plan:
        for part in cfg["programs"]:
            k = (step["variant"], part)
            if k not in kinds:
                kinds.append(k)
    from checks import PROGRAMS
    for v, part in kinds:  # start all compilations at once
        for s in ["vh_main.cpp", "vh_fiber.cpp"] + PROGRAMS[part]["tus"] + PROGRAMS[part].get("optional", []):
            b.obj(v, os.path.join(HARNESS, s))
        for s in PROGRAMS[part]["lib"]:
            s = os.path.join(REPO, "lib/src", s)
            if os.path.exists(s):
                b.obj(v, s)
    for v, part in kinds:
        pr = PROGRAMS[part]
        progs[v, part], sk = b.program(v, pr["tus"], pr["lib"], pr.get("optional", []))
        skipped |= set(sk) | b.reduced
    t_build = time.time() - t0
    runs = []
    for step in plan:
        for part in cfg["programs"]:
            props = [prop] if prop in PROGRAMS[part]["props"] else PROGRAMS[part]["props"]
            for p in props:
                for k in range(step.get("procs", 1)):
                    runs.append(Run(progs[step["variant"], part], step["variant"],
                                    p, seed * 1000 + k, step["scale"] * (1 if p == prop else PROGRAMS[part].get("weight", {}).get(p, 1)), tier, work))
    if tier == "thorough":
        wall = 6 * 3600
    else:
        wall = 600
    with cf.ThreadPoolExecutor(JOBS) as ex:
        runs = list(ex.map(lambda r: r.execute(wall), runs))
    memory_only = cfg.get("memory_only", False)
    viol = []      # (key, replay dict)
    events, samples = {}, []
    evaluations = distinct = 0
    for r in runs:
        if r.rc is None:
            raise NoVerdict("%s %s did not finish within %d s of wall clock" % (r.prop, r.variant, wall))
        if r.rc == 3:
            raise NoVerdict("reference model failed its self-check: " + r.err[-300:])
        if r.rc == 2 and r.stats is None:
            raise NoVerdict("monitor program refused to run: " + r.err[-300:])
        if r.rc != 0:
            key, what = crash_key(r.rc, r.err)
            case = r.cur.rsplit(" ", 1)
            only = "%s#%s" % (case[0], case[1]) if len(case) == 2 else ""
            confirmed = True
            if key == "hang":  # once more, alone and with more time
                again = Run(r.exe, r.variant, r.prop, r.seed, r.scale, r.tier, work,
                            ["--only", only, "--case-cpu", "60"]).execute(1200)
                confirmed = again.rc == 97
                if not confirmed and again.rc not in (0, None):
                    key, what = crash_key(again.rc, again.err)
                    confirmed = True
            if key == "hang" and memory_only:
                continue  # not this property's business
            if not confirmed:
                raise NoVerdict("a case exceeded its CPU budget once but not again: " + only)
            viol.append((key, dict(prop=r.prop, group=case[0], i=case[-1], msg=what,
                                   report=r.err[-4000:], variant=r.variant, seed=r.seed,
                                   scale=r.scale)))
        if not memory_only:
            for f in r.fails:
                viol.append((f["key"], dict(prop=r.prop, group=f["group"], i=f["i"], msg=f["msg"],
                                            case=f["case"], variant=r.variant, seed=r.seed,
                                            scale=r.scale)))
        if r.stats:
            evaluations += r.stats["evaluations"]
            distinct += r.stats["distinct"]
            for k, n in r.stats["events"].items():
                k = k if r.prop == prop else r.prop + ":" + k
                events[k] = events.get(k, 0) + n
            for s in r.stats["samples"]:
                if len(samples) < 12 and s not in samples:
                    samples.append(s)
    kf = [k for k in known_findings()["known"] if k["property"] == prop]
    known_hit, new = {}, {}
    for key, d in viol:
        m = [k for k in kf if k["key"] == key]
        if m:
            known_hit.setdefault(key, []).append(d)
        else:
            new.setdefault(key, []).append(d)
    # the findings are listed on every run; whether each showed up is evidence
    for k in kf:
        n = len(known_hit.get(k["key"], []))
        print("KNOWN-FINDING: property=%s %s [%s; seen in this run: %s]" % (
            prop, k["what"], k["key"], "yes" if n else "no"))
    level = cfg.get("level", "exploration")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": cfg["rule"], "samples": samples[:12] or ["(none)"],
            "monitor_events": dict(sorted(events.items())),
            "runs": [{"prop": r.prop, "variant": "valgrind" if r.variant == "plain" else r.variant, "seed": r.seed,
                      "scale": r.scale, "cases": r.stats["evaluations"] if r.stats else None,
                      "status": r.rc} for r in runs],
            "build_s": round(t_build, 1),
            "skipped_optional_units": sorted(skipped),
            "known_findings_seen": {k: len(v) for k, v in known_hit.items()},
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(new),
    }
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if new:
        for n, (key, ds) in enumerate(sorted(new.items())):
            d = ds[0]
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, n))
            d["key"] = key
            d["replay"] = "python3 %s/tools/replay.py %s" % (VERIF, path)
            json.dump(d, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s in %s#%s (%s, seed %s): %s" % (key, d["group"], d["i"], d["variant"], d["seed"], d["msg"]))
            if d.get("case"):
                print("  case: " + d["case"].replace("\n", "\n    ")[-1500:])
        return 1
    if distinct < 2:
        print("NO VERDICT for %s: the monitors observed next to nothing" % prop)
        return 2
    print("held: %s on %d cases (%d distinct), %d kinds of events, %.1f s (build %.1f s)" % (
        prop, evaluations, distinct, len(events), time.time() - t0, t_build))
    return 0


if __name__ == "__main__":
    sys.exit(main())
