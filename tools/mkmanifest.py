"""Writes MANIFEST.json from the check modules."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
HOW = {
    "C18": "Fault enumeration on the real code: an injector between "
           "interpreter and libc disturbs every file operation of every "
           "run in every way listed, one at a time; exit code and folder "
           "are compared with the undisturbed run, then a second run is made.",
    "C17": "Stateless exploration of the real code under a controlled "
           "scheduler of set iteration orders (deviation bounded), plus "
           "exhaustive enumeration of histories, folders, environments.",
    "C19": "Explicit-state model of the output folder, every transition of "
           "the bounded state space replayed on the real command line and "
           "compared with the model's folder.",
}
DEFAULT = ("Bounded exhaustive enumeration of input bundles and run "
           "histories; each one is run through the real command line and its "
           "artefacts (compiled with gcc, parsed, or read as bytes) are "
           "compared with an executable reference model.")
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    m = importlib.import_module("apgmc.checks." + i.lower())
    checks.append({
        "property": i,
        "quick_cmd": f"/opt/venv/bin/python -B check.py {i} quick",
        "thorough_cmd": f"/opt/venv/bin/python -B check.py {i} thorough",
        "technique": HOW.get(i, DEFAULT),
        "level": m.LEVEL,
        "level_note": "Exhaustive within: " + m.BOUNDS["quick"]
        + ". Assumes: " + ("; ".join(m.ASSUMPTIONS) or "nothing further")
        + ".",
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
           "not_applicable": [],
           "notes": "No hooks in /repo. Replay a violation with "
                    "'/opt/venv/bin/python -B check.py --replay <file>'."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
