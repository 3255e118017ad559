#!/usr/bin/env python3
"""Development tool: plants random token mutations in a scratch copy of /repo,
keeps those that build and pass the tests, and lists which checks catch them.

usage: mutate.py SCRATCH OUT.jsonl COUNT SEED [FILE-SUBSTRING]
SCRATCH is a copy of /repo (made with cp -a); nothing is written to /repo."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scratch, out, count, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
only = sys.argv[5] if len(sys.argv) > 5 else ""
MAP = {
    "src/ell.cpp": "C02 C03 C04 C01 C23", "ellcpp/ell.hpp": "C04 C02 C03 C24",
    "src/ell_stable.cpp": "C05 C03 C24 C23", "ellcpp/ell_stable.hpp": "C05 C24",
    "src/ell1d.cpp": "C06 C07 C24", "ellcpp/ell1d.hpp": "C06 C24",
    "ellcpp/cutting_plane.hpp": "C07 C08 C09 C10 C11 C23", "ellcpp/half_nonnegative.hpp": "C10 C06",
    "ellcpp/cut_config.hpp": "C07 C08", "ellcpp/utility.hpp": "C19 C13 C23",
    "oracles/ldlt_ext.hpp": "C12 C13 C23", "src/ldlt_ext.cpp": "C12 C13 C23",
    "lmi_oracle": "C13 C23 C24", "lmi0_oracle": "C13 C23 C24", "lmi_old_oracle": "C13 C23 C24",
    "qmi_oracle": "C14 C23 C24", "lowpass_oracle": "C15 C24 C23", "profit_oracle": "C16 C24 C23",
    "src/lsq_corr_ell.cpp": "C22 C24 C23", "src/csd.cpp": "C21 C23",
    "neg_cycle.hpp": "C17 C18 C23", "min_cycle_ratio.hpp": "C18", "parametric.hpp": "C18",
    "network_oracle.hpp": "C19", "optscaling_oracle.hpp": "C19", "cycle_ratio_oracle.hpp": "C19",
    "py2cpp/fractions.hpp": "C20 C18", "py2cpp/nx2bgl.hpp": "C25 C17", "py2cpp/py2cpp.hpp": "C25 C17 C23",
    "classes/graph.hpp": "C26 C23", "classes/digraphs.hpp": "C26 C23", "classes/coreviews.hpp": "C26 C23",
    "ellip/ellipsoid": "C28 C29", "ellip/gp_solve": "C29", "ellip/profitmaxprob.hpp": "C29",
    "ellip/monomial.hpp": "C27", "ellip/posynomial.hpp": "C27",
}
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<\-=>])>(?![>=])", ">="), (r"(?<![<])<(?![<=])", "<="),
       (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\+\+", "--"),
       (r"(?<![+\-eE\w]) \+ ", " - "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
       (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"),
       (r"\b0\.(?!\d)", "1e-3"), (r"\b1\.(?!\d)", "1.001"), (r"\b2\.(?!\d)", "2.01"), (r"\bi\b", "j"), (r"\bj\b", "i"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[\w(])", ""), (r"(?<=\()(?=[a-z]\w*\))", "!"),
       (r"\bk\b", "i"), (r"\bu\b", "v"), (r"\bstart\b", "0"), (r"\bsuccess\b", "noeffect"), (r"\bnosoln\b", "noeffect"),
       (r"\bstd::abs\(", "("), (r"\bupper\b", "lower"), (r"(?<=[\w)])\.first\b", ".second"), (r"\bbreak;", ";"),
       (r"\bcontinue;", ";"), (r"^(\s*)(?!return|auto|const|for|if|while|using|template|class|struct|else|case|throw|#)([\w\->.:*\[\]()]+ [+\-*/]?= .*;)\s*$", r"\1;"),
       (r"^(\s*)([\w\->.:]+\(.*\);)\s*$", r"\1;"), (r"\bconst auto& ", "static const auto& "), (r"\bauto& ", "auto "), (r"&&? (?=\w+[,)])", " "),
       (r"\bdouble\b", "float"), (r"\bauto (?=\w+ ?[={])", "float "), (r"\bauto (?=\w+ ?[={])", "static auto "), (r"\bsize_t\b", "unsigned char"),
       (r"\bint\b", "short"), (r"(?<=\.)size\(\)", "size() - 1"), (r" / (?=\w)", " / 2 / "), (r"\bthis->_n\b", "2"), (r"\*this->", "this->"),
       (r"\bif \((?=[^;]*\)\s*$)", "if (false && "), (r"\bif \((?=[^;]*\)\s*$)", "if (true || ")]


def code_lines(text):
    inc = False
    for n, line in enumerate(text.split("\n")):
        s = line.strip()
        if inc:
            inc = "*/" not in s
            continue
        if s.startswith("/*"):
            inc = "*/" not in s
            continue
        if not s or s.startswith("//") or s.startswith("*") or s.startswith("#") or "assert(" in s or s.startswith("template"):
            continue
        yield n, line


def sh(cmd, timeout=300, env=None, cwd=None):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                              timeout=timeout, env=env, cwd=cwd)
    except subprocess.TimeoutExpired:
        return None


files = []
for d, _, fs in os.walk(os.path.join(scratch, "lib")):
    for f in fs:
        p = os.path.join(d, f)
        if any(k in p for k in MAP) and f.endswith((".cpp", ".hpp")) and "/test/" not in p and "/bench/" not in p and only in p \
                and "new" not in f and p.count("ellip/") < 2:
            files.append(p)
rng = random.Random(seed)
# a build of the tests in the scratch copy
env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Nehalem")
bd = os.path.join(scratch, "_b")
r = sh(["cmake", "-S", scratch, "-B", bd, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Release", "-DCMAKE_CXX_FLAGS_RELEASE=-O2",
        "-DCMAKE_CXX_FLAGS=-Wno-error", "-DBUILD_TESTING=ON", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
        "-DCMAKE_PROJECT_EllCpp_INCLUDE=/opt/vp/cmake/ellcpp_offline.cmake"], env=env)
assert r.returncode == 0, r.stdout[-2000:]
r = sh(["ninja", "-C", bd], env=env, timeout=900)
assert r.returncode == 0, r.stdout[-2000:]
exe = os.path.join(bd, "lib/test/EllCppLibTest")
done = 0
seen = set()
log = open(out, "a")
while done < count:
    p = rng.choice(files)
    text = open(p, newline="").read()
    lines = text.split("\n")
    n, line = rng.choice(list(code_lines(text)) or [(0, "")])
    code = line.split("//")[0]
    cands = []
    for a, b in OPS:
        for m in re.finditer(a, code):
            cands.append((a, b, m.start()))
    nxt = lines[n + 1] if n + 1 < len(lines) else ""
    ind = lambda x: len(x) - len(x.lstrip())
    simple = lambda x: x.rstrip().endswith(";") and "return" not in x and "//" not in x
    if simple(line) and simple(nxt) and ind(line) == ind(nxt) and line != nxt:
        cands.append(("swap", None, 0))
    if not cands:
        continue
    a, b, at = rng.choice(cands)
    if a == "swap":
        new = nxt
        lines[n + 1] = line
    else:
        new = code[:at] + re.sub(a, b, code[at:], count=1) + line[len(code):]
    key = (p, n, new)
    if key in seen or new == line:
        continue
    seen.add(key)
    lines[n] = new
    rel = os.path.relpath(p, scratch)
    rec = dict(file=rel, line=n + 1, old=line.strip(), new=new.strip())
    try:
        with open(p, "w", newline="") as f:
            f.write("\n".join(lines))
        r = sh(["ninja", "-C", bd], env=env, timeout=900)
        if r is None or r.returncode != 0:
            continue
        r = sh([exe], env=env, timeout=60)
        if r is None or r.returncode != 0:
            rec["result"] = "tests"
        else:
            checks = [c for k, c in MAP.items() if k in p][0].split()
            rec["result"] = "missed"
            rec["tried"] = {}
            for c in checks:
                r = sh(["python3", os.path.join(V, "run.py"), c], timeout=1500, env=dict(env, VERIF_REPO=scratch))
                rec["tried"][c] = None if r is None else r.returncode
                if r is not None and r.returncode == 1:
                    rec["result"] = "caught"
                    m = re.search(r"VIOLATION[^\n]*\n *([^\n]*)", r.stdout)
                    rec["by"] = c + ": " + (m.group(1)[:200] if m else "")
                    break
                if r is None or r.returncode == 2:
                    rec["note"] = "" if r is None else r.stdout[-300:]
                    if r is not None and "cannot compile" in r.stdout:
                        rec["result"] = "no-compile"
                        break
            done += 1
        log.write(json.dumps(rec) + "\n")
        log.flush()
    finally:
        with open(p, "w", newline="") as f:
            f.write(text)
        b = os.path.join(V, "build")
        ds = sorted((os.path.getmtime(os.path.join(b, d)), d) for d in os.listdir(b)) if os.path.isdir(b) else []
        for _, d in ds[:-3]:
            shutil.rmtree(os.path.join(b, d), ignore_errors=True)
