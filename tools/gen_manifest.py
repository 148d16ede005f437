"""Regenerate MANIFEST.json from the check modules present in mc/."""
import importlib
import json
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = {
    "C12": "model checking of the implementation: exhaustive exploration of call histories with state digests",
    "C13": "stateless model checking: all interleavings of two threads up to a preemption bound under a controlled scheduler",
    "C14": "explicit-state model checking: BFS over slice/rescale machine, every trace replayed on the implementation",
    "C22": "exhaustive fault/environment enumeration on the real code",
    "C24": "exhaustive enumeration of point sets and environments on the real code against an explicit rule for warnings",
    "C25": "explicit-state model checking: all walks through the graph of representations executed on the implementation",
    "C26": "exhaustive exploration of copy/use/overwrite histories on the real code",
    "C23": "exhaustive enumeration of integrand classes and of callback fault points on the real code",
}
DEFAULT = "bounded model checking: exhaustive enumeration of configurations/operation sequences, each executed on the real code against an independent reference model"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for pid in ids:
    if not os.path.exists(os.path.join(V, "mc", pid.lower() + ".py")):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    m = importlib.import_module("mc." + pid.lower())
    note = ("Complete within its bounds, nothing beyond them. Quick: "
            + m.BOUNDS["quick"] + ". Thorough: " + m.BOUNDS["thorough"]
            + ". Assumes: " + "; ".join(m.ASSUMPTIONS) + ".")
    cmd = f"/opt/venv/bin/python mc/run.py {pid}"
    checks.append(dict(property=pid, quick_cmd=cmd,
                       thorough_cmd=cmd + " --thorough",
                       technique=TECH.get(pid, DEFAULT),
                       level="model_checking", level_note=note))
out = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sparse_ir, numpy, scipy'",
           checks=checks, not_applicable=na,
           notes="No hooks in /repo are needed: the checks drive the public "
                 "interface and use the interpreter's tracing for schedules.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
