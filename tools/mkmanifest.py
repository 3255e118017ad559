#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1,
         setup_cmd="g++ --version && python3 -c 'import json' && python3 run.py --self-test",
         hooks=dict(guard="VERIF_HOOKS", enable="no hooks were needed: every monitor observes the library from outside, through its public interface", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s --tier quick" % p,
            thorough_cmd="python3 run.py %s --tier thorough" % p,
            evidence_file="evidence/%s.json" % p,
            technique=c.get("technique", "runtime monitoring: online reference-model oracle over seeded hostile workloads, repeated under ASan/UBSan"),
            level="exploration",
            level_note=c.get("note", "Held on the executions explored (counts in the evidence file); trusts the reference model in harness/ and the compiler. ") ))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
