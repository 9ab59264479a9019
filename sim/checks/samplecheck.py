"""C26: the whole system with the repository's own sample application (number partitioning over a stream)."""
import itertools
import json
import random
import re

from sim import appkit, pipes
from sim.checks.pipeline import PipelineCheck
from sim.core import Violation, derive


class C26(PipelineCheck):
    id = "C26"
    runs_quick = 200
    runs_thorough = 1500

    def gen(self, seed, shard_seed):
        if getattr(self, "_pool_for", None) != shard_seed:
            pool = pipes.pool_opts(shard_seed, decorate=False)
            self._pool = [(a, dict(o, **({"attenuation.key": "attributes.attn_ts", "attenuation.min_scale": o["attenuation.min_scale"] or 0.1} if a == "attenuation" else {}))) for a, o in pool]
            self._pool_for = shard_seed
        rng = random.Random(derive("c26", seed))
        w = pipes.gen_pipeline_scenario(seed, self._pool, 0.05, 0.05, 0.05, app={"kind": "npp", "solver": "npp"}, vkind="number", mtype="ising", n=rng.randint(1, 9))
        for ev in w["feed"]:
            if ev[0] == "m":
                ev[2] = rng.choice([1, 2, 3, 5, 8, 13, 40, 99, 7])
        return w

    def oracle(self, r):
        v = self.dead(r)
        if v:
            return v
        groups, v = self.groups(r)
        if v:
            return v
        outs = [b.decode("utf-8") for b in pipes.outputs(r)]
        flags = [h for _, h, _ in groups]
        if len(outs) != len(flags):
            return Violation("outputs", f"{len(outs)} records for {len(flags)} windows")
        for (t, handled, g), out in zip(groups, outs):
            if not handled or g["map"]["fault"]:
                continue
            els = g["map"]["elements"]
            if any(not isinstance(e, tuple) for e in els):
                return None
            nums = {idx: json.loads(val) for _, idx, val in els}
            if "Failed to map" in out or ("solve" not in g and len(nums) >= 2):
                return Violation("map-failed", f"the application could not map a window of {len(els)} numbers", {"output": out[:600], "elements": els})
            if len(nums) < 2 or g["solve"]["fault"]:
                continue  # with one number there is nothing to partition: reported as a failure to solve
            if r.w["algo"] != "attenuation":
                want = {tuple(sorted((f"x[{i}]", f"x[{j}]"))): float(nums[i] * nums[j]) for i, j in itertools.combinations(nums, 2)}
                got = dict(g["solve"].get("poly") or [])
                if got != want:
                    return Violation("objective", "the model given to the solver is not the partitioning objective of the window's numbers",
                                     {"elements": els, "missing": sorted(set(want) - set(got))[:6], "extra": sorted(set(got) - set(want))[:6]})
            if "unmap" not in g:
                return Violation("solve-failed", "the application could not solve a window", {"output": out[:600], "elements": els})
            if g["unmap"]["fault"]:
                continue
            m = re.search(r"Set\(\+\) : sum=(-?\d+), elements=(\[.*?\])\n  Set\(-\) : sum=(-?\d+), elements=(\[.*?\])\n  diff   : (\d+)", out)
            if not m:
                return Violation("report", "the output is not a partition", {"output": out[:600]})
            sp, ep, sn, en, diff = int(m.group(1)), json.loads(m.group(2)), int(m.group(3)), json.loads(m.group(4)), int(m.group(5))
            if sorted(ep + en) != sorted(nums.values()) or sum(ep) != sp or sum(en) != sn or abs(sp - sn) != diff:
                return Violation("partition", "the reported groups are not a partition of the window's numbers", {"output": out[:600], "numbers": sorted(nums.values())})
            if r.w["algo"] != "attenuation":
                vals = list(nums.values())
                best = min(abs(sum(v if b >> i & 1 else -v for i, v in enumerate(vals))) for b in range(1 << len(vals)))
                if diff != best:
                    return Violation("optimal", f"the exact solver's partition differs by {diff}, the optimum is {best}", {"output": out[:600]})
            r.log.probe("partitions")
        return None
