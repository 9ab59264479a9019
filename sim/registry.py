import importlib

MODULES = {}
for i in range(1, 10):
    MODULES[f"C{i:02d}"] = "sim.checks.pipeline"
MODULES["C10"] = "sim.checks.iocheck"
for i in (11, 12, 13, 14, 15, 17):
    MODULES[f"C{i}"] = "sim.checks.modelcheck"
MODULES["C16"] = "sim.checks.timecheck"
for i in range(18, 23):
    MODULES[f"C{i}"] = "sim.checks.solvercheck"
MODULES["C25"] = "sim.checks.annealcheck"
MODULES["C26"] = "sim.checks.samplecheck"


def get(pid):
    mod = importlib.import_module(MODULES[pid])
    return getattr(mod, pid)()
