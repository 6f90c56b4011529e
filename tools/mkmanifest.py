"""Writes MANIFEST.json from the list of built checks."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "deterministic simulation of the %s with seeded schedules and fault injection"
NOTE = ("Seeded search, no proof: every run executes the real code named in the evidence under a simulator that decides all "
        "scheduling, delivery, clocks and faults; holds for the runs explored. ")
W = NOTE + ("Trusts the simulated ZeroMQ/process/shared-memory layer and a stand-in neural network that reads and writes the real "
            "KV pool through the real page table; threads of one process interleave at blocking operations only.")
CHECKS = {
    "P01": (PY % "whole serving pipeline", W), "P02": (PY % "whole serving pipeline", W),
    "P03": (PY % "whole serving pipeline", W), "P04": (PY % "whole serving pipeline", W),
    "P05": (PY % "whole serving pipeline", W), "P06": (PY % "whole serving pipeline", W),
    "P07": (PY % "whole serving pipeline", W), "P08": (PY % "whole serving pipeline", W),
}
try:
    from mk_extra import CHECKS as C2
    CHECKS.update(C2)
except ImportError:
    pass
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are needed: all seams are existing interfaces, module attributes and link-time "
               "interposition", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                            "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
