"""Writes MANIFEST.json from the registry of claimed checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import registry  # noqa: E402

NA = {
    "C23": "Pure function of a list of integers: no schedule, clock, I/O, fault or history for a simulator to control.",
    "C24": "Pure function of the argument values: no schedule, clock, I/O, fault or history for a simulator to control.",
}
NOTE = {
    "pipe": "Seeded search over deliveries, bundlings, crashes, restarts and callback faults with the real pipeline code and Beam's real DoFnRunner; the runner's scheduling, grouping and state services are simulated and trusted to offer only executions a conforming Beam runner may produce.",
    "io": "Seeded search over record contents, splits, bundles and crashes with the real readers/writers and Beam's real text source; the transport is simulated.",
    "model": "Seeded search over operation histories with restarts, rejected calls, clock moves and hash seeds against an independent executable reference model on small instances; energies compared for all assignments.",
    "solver": "Seeded search with the real solver code behind simulated randomness, clock, threads, transport and sampler; reference energies computed independently.",
}
ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
na = []
for pid in ids:
    if pid in registry.MODULES:
        kind = "pipe" if pid <= "C09" or pid == "C26" else "io" if pid == "C10" else "model" if pid <= "C17" else "solver"
        checks.append({
            "property": pid, "quick_cmd": f"/opt/venv/bin/python -m sim.check {pid}", "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python -m sim.check {pid}",
            "technique": "deterministic simulation with fault injection, seeded search", "level": "exploration", "level_note": NOTE[kind]})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: every seam is installed from the outside (sim/seams.py, sim/beamsim.py, sim/threads.py) before sawatabi is imported. Replay: python -m sim.check --replay FILE."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
