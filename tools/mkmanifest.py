"""Writes /verif/MANIFEST.json from vm/meta.py and the monitors that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vm.meta import PROPS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for q in props:
    i = q["id"]
    if i in PROPS and os.path.exists(os.path.join(HERE, "vm", i.lower() + ".py")):
        m = PROPS[i]
        checks.append(dict(
            property=i,
            quick_cmd="python3 run.py %s --tier quick" % i,
            thorough_cmd="python3 run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=m.get("technique", "runtime monitoring: online reference-model checker over recorded ray events"),
            level="exploration",
            level_note=m.get("note", "Held on the executions counted in the evidence file, nothing more; trusts the "
                                     "long-double reference model in vm/ref.py and numpy.")))
    else:
        na.append(dict(property=i, reason="monitor not built yet"))
json.dump(dict(version=1, setup_cmd="python3 -c \"import sys; sys.path.insert(0, '.'); import vm.meta\"",
               checks=checks, not_applicable=na,
               notes="No hooks in /repo: every observation is made at the public API boundary, by sanitizers compiled into "
                     "the core, or by replacing the OpenMP runtime at link time."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
