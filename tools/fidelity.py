"""Compares the simulated runner with the real DirectRunner: the same pipelines on the same bounded input, callback by callback.

Usage: python tools/fidelity.py [number of pipelines]. The real runner may fire windows in an order of its own (then some are
outdated), so what every window holds is always compared, and the whole history when both fired in the same order."""
import os
import random
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import env  # noqa: E402

env.setup()
import apache_beam as beam  # noqa: E402

from sim import appkit, beamsim, pipes  # noqa: E402
from sim.core import Log, Tape  # noqa: E402

OUT = []
EVENTS = []


class Src(beam.PTransform):
    def expand(self, p):
        return p | beam.Create(list(EVENTS), reshuffle=False) | beam.Map(lambda e: beam.window.TimestampedValue(e[1], e[0] / 1e6))


class Keep(beam.DoFn):
    def process(self, x):
        OUT.append(x)
        yield x


class Stub:
    """What the simulated application needs of a run, for the real runner."""

    def __init__(self, app):
        self.cfg, self.name, self.log, self.tape = {"app": app, "algo": None}, "p", Log(), Tape(recorded={})
        self.records = []
        self.cur = self

    def point(self, label):
        pass


def windows(records):
    return sorted((repr(d["elements"])) for k, d in records if k == "map")


def main(n):
    same = differ = 0
    for k in range(n):
        rng = random.Random(k)
        algo, o = pipes.gen_opts(rng, algo=sorted(pipes.ALGOS)[k % 5], sizes=pipes.SIZE_CLASSES[k // 5 % 4])
        o = dict(o)
        size, period = pipes.geometry(algo, o)
        app = {"kind": rng.choice(["same", "delta", "rebuild"]) if algo != "attenuation" else "rebuild", "fp": True, "attr": "k", "key_mode": "ts", "solver": "token"}
        w = {"algo": algo, "opts": o, "vkind": "number", "mtype": rng.choice(["ising", "qubo"]), "mode": "batch", "app": app, "cfg": {}, "feed": []}
        EVENTS[:] = [(ev[1], ev[2]) for ev in pipes.gen_feed(rng, size, period, "batch", base=rng.choice([0, 1_600_000_000 * pipes.US])) if ev[0] == "m"]
        sides = []
        for real in (True, False):
            OUT.clear()
            p = pipes.build(w, fresh=True, input_fn=Src(), output_fn=beam.ParDo(Keep()))
            if real:
                run = Stub(app)
                appkit.CUR["run"] = run
                p.run().wait_until_finish()
                sides.append((run.records, list(OUT)))
            else:
                run = beamsim.BeamRun(p, Tape(recorded={}), Log(), {"mode": "batch", "app": app}, [], name="p")
                run.run()
                assert run.dead is None, run.dead
                sides.append((run.committed_records, list(OUT)))
        (ra, oa), (rb, ob) = sides
        # The real runner carries window timestamps in milliseconds (the simulator in Beam's own microseconds): leave them out.
        oa, ob = ([re.sub(r"\[\d{4}-\d\d-\d\d [\d:.]+\]", "[time]", x) for x in out] for out in (oa, ob))
        if ra == rb and oa == ob:
            same += 1
            continue
        if len(oa) != len(ob):
            print("DIFFERENT number of outputs", algo, o, len(oa), len(ob))
            return 1
        late = any("outdated" in x for x in oa + ob)
        if not late and (windows(ra) != windows(rb) or sorted(oa) != sorted(ob)):
            print("DIFFERENT", algo, o)
            return 1
        differ += 1
    print(f"{n} pipelines: {same} identical callback histories and outputs, {differ} equal up to the real runner's window order")
    return 0


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import fidelity  # Beam pickles what __main__ defines by value; these classes have to share OUT

    sys.exit(fidelity.main(int(sys.argv[1]) if len(sys.argv) > 1 else 40))
