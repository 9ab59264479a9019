"""C25: the dynamics of the annealing solver (schedule, acceptance rule, visiting order), with forced and with seeded draws."""
import copy
import itertools
import math
import random

import numpy as np

from sim import seams
from sim import solverkit as S
from sim.checks.solvercheck import SolverCheck, near
from sim.core import Violation, derive

READS = 900


def g_problem(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    unit = rng.choice([0.0625, 0.25, 1.0, 1.0, 4.0])  # exact in binary: ties are exact ties
    h = [rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, -1.5]) * unit for _ in range(n)]
    if not any(h):
        h[0] = unit
    quad = []
    for i, j in itertools.combinations(range(n), 2):
        if rng.random() < 0.6:
            quad.append([i, j, rng.choice([1.0, -1.0, 0.5, -2.0]) * unit])
    return {"n": n, "mtype": rng.choice(["ising", "qubo"]), "h": h, "quad": quad, "unit": unit, "offset": rng.choice([0.0, 0.0, 3.5])}


def build(pb):
    from sawatabi.model import LogicalModel

    m = LogicalModel(mtype=pb["mtype"])
    x = m.variables("x", shape=(pb["n"],))
    for i, c in enumerate(pb["h"]):
        if c:
            m.add_interaction(x[i], coefficient=c)
    for i, j, c in pb["quad"]:
        m.add_interaction((x[i], x[j]), coefficient=c)
    m.offset(pb["offset"])
    return m.to_physical()


def schedule(p):
    t0, r, n = p.get("initial_temperature", 100.0), p.get("cooling_rate", 0.9), p["num_sweeps"]
    rev = p.get("reverse_options")
    if not rev:
        return [t0 * r**k for k in range(n)]
    out, t = [], None
    for k in range(n):
        if k <= rev["reverse_period"]:
            t = rev["reverse_temperature"] * (1 - r**k)  # 0 for k = 0: "near zero"
        else:
            t = t * r
        out.append(t)
    return out


class Chain:
    """Exact single-sweep transition probabilities of the stated rule."""

    def __init__(self, energies, n):
        self.e, self.n = energies, n  # energies[state], state = bit mask

    def step(self, state, i, t):
        d = self.e[state ^ (1 << i)] - self.e[state]
        if d <= 0:
            return 1.0
        if t <= 0:
            return 0.0
        return math.exp(-d / t) if d / t < 700 else 0.0

    def sweep(self, dist, order, t):
        for i in order:
            new = {}
            for s, p in dist.items():
                a = self.step(s, i, t)
                if a:
                    new[s ^ (1 << i)] = new.get(s ^ (1 << i), 0.0) + p * a
                if a < 1.0:
                    new[s] = new.get(s, 0.0) + p * (1 - a)
            dist = new
        return dist

    def mixed(self, dist, temps):
        orders = list(itertools.permutations(range(self.n)))
        for t in temps:
            acc = {}
            for o in orders:
                for s, p in self.sweep(dist, o, t).items():
                    acc[s] = acc.get(s, 0.0) + p / len(orders)
            dist = acc
        return dist


def tail(n, k, p):
    """Two-sided tail probability bound of a binomial count (min of the two tails)."""
    if p <= 0.0:
        return 1.0 if k == 0 else 0.0
    if p >= 1.0:
        return 1.0 if k == n else 0.0

    def pmf(j):
        return math.exp(math.lgamma(n + 1) - math.lgamma(j + 1) - math.lgamma(n - j + 1) + j * math.log(p) + (n - j) * math.log1p(-p))

    lo = sum(pmf(j) for j in range(0, k + 1))
    hi = sum(pmf(j) for j in range(k, n + 1))
    return min(lo, hi)


def unlikely(counts, dist, n):
    """-> (state, count, probability) whose count cannot be explained, or None."""
    for s in set(counts) | set(dist):
        p = min(1.0, max(0.0, dist.get(s, 0.0)))
        if p > 1 - 1e-9:
            p = 1.0
        if p < 1e-15:
            p = 0.0
        if tail(n, counts.get(s, 0), p) < 1e-13:
            return s, counts.get(s, 0), p
    return None


class C25(SolverCheck):
    id = "C25"
    runs_quick = 300
    runs_thorough = 4000

    def gen(self, seed, shard_seed):
        rng = random.Random(derive("c25", seed))
        x = rng.random()
        if x < 0.12:
            return self.gen_large(rng)
        if x < 0.18:
            h = [rng.choice([1.0, -1.0]) * rng.uniform(0.3, 1.2) for _ in range(3)]
            n = rng.choice([2, 2, 3])
            return {"endless": "coupled", "problem": {"n": n, "mtype": rng.choice(["ising", "qubo"]), "h": h[:n], "quad": [[i, j, rng.choice([1.0, -1.0]) * rng.uniform(0.6, 1.5)] for i, j in itertools.combinations(range(n), 2)], "unit": 1.0, "offset": 0.0},
                    "sweeps": rng.choice([1500, 3000]), "mode": rng.choice(["random", "random", "sequential"]), "seed": rng.randrange(1, 10**6), "reads": 1, "temp": rng.choice([0.8, 1.5, 2.5])}
        if x < 0.22:
            return {"endless": True, "problem": {"n": rng.choice([1, 2, 3]), "mtype": rng.choice(["ising", "qubo"]), "h": [rng.choice([1.0, -1.0]) for _ in range(3)], "quad": [], "unit": 1.0, "offset": 0.0},
                    "sweeps": rng.choice([700, 1200, 2500]), "mode": rng.choice(["random", "sequential"]), "seed": rng.randrange(1, 10**6), "reads": rng.choice([1, 2])}
        pb = g_problem(rng)
        u = pb["unit"]
        sweeps = rng.choice([1, 1, 2, 3])
        p = {"num_sweeps": sweeps, "cooling_rate": rng.choice([0.9, 0.5, 0.7, 1.0]), "initial_temperature": rng.choice([1.0, 2.0, 4.0, 10.0, 0.5]) * u, "pickup_mode": rng.choice(["random", "sequential"])}
        if rng.random() < 0.3:
            p["reverse_options"] = {"reverse_period": rng.randrange(0, 4), "reverse_temperature": rng.choice([2.0, 5.0, 20.0]) * u}
            p["num_sweeps"] = rng.choice([2, 3, 4])
        if rng.random() < 0.1 and "reverse_options" not in p:
            p["initial_temperature"] = 0.0
        return {"problem": pb, "params": p, "start": rng.randrange(16), "seed": rng.randrange(1, 10**6), "mode": rng.choice(["seeded", "seeded", "forced_low", "forced_high", "free"]), "reads": rng.choice([1, 3]),
                "long": rng.random() < 0.3}

    def deletable(self, path):
        return path == ("problem", "quad")

    def gen_large(self, rng):
        """More variables than all orders can be enumerated for: the outcome does not depend on the order here."""
        n = rng.choice([6, 8, 9, 12, 17])
        u = rng.choice([0.0625, 1.0, 4.0])
        kind = rng.choice(["greedy", "greedy", "all", "independent"])
        h = [rng.choice([1.0, -1.0, 2.0, -2.0]) * u for _ in range(n)]
        quad = []
        if kind == "greedy":
            for i in range(n):
                for j in range(i + 1, n):
                    if rng.random() < 0.4:
                        quad.append([i, j, rng.choice([1.0, -1.0]) * u / 128.0])
        p = {"num_sweeps": rng.choice([1, 2, 3]), "cooling_rate": rng.choice([0.9, 0.5]), "pickup_mode": rng.choice(["random", "random", "sequential"]),
             "initial_temperature": {"greedy": rng.choice([0.0, 1e-6 * u]), "all": 8.0 * u, "independent": rng.choice([1.0, 2.0, 4.0]) * u}[kind]}
        return {"large": kind, "problem": {"n": n, "mtype": rng.choice(["ising", "qubo"]), "h": h, "quad": quad, "unit": u, "offset": 0.0}, "params": p, "start": rng.randrange(1 << n), "seed": rng.randrange(1, 10**6),
                "reads": rng.choice([2, 4])}

    def go_large(self, w, tape, log):
        from sawatabi.solver import SawatabiSolver

        pb = w["problem"]
        phys = build(pb)
        poly = __import__("sim.history", fromlist=["polynomial"]).polynomial(phys)
        names = sorted(str(v) for v in phys.to_bqm().variables)
        lo = -1 if pb["mtype"] == "ising" else 0
        n = len(names)
        start = {x: (1 if w["start"] >> i & 1 else lo) for i, x in enumerate(names)}
        kind = w["large"]
        kw = copy.deepcopy(w["params"])
        temps = schedule(kw)
        reads = 400 if kind == "independent" else w["reads"]
        kw.update(num_reads=reads, initial_states=[dict(start) for _ in range(reads)], need_stats=True)
        made = []
        if kind == "all":
            def hook(*a, **k):
                made.append(S.ScriptRng(tape, log, force={"random": 1}))
                return made[-1]

            seams.set_rng(hook)
        try:
            ss, stats = SawatabiSolver().solve(phys, seed=w["seed"], **kw)
        finally:
            seams.set_rng(None)
        finals = []
        for d in ss.data(sorted_by=None):
            finals += [{str(k): int(x) for k, x in dict(d.sample).items()}] * int(d.num_occurrences)
        acc = [[int(a) for a in s["acceptance_history"]] for s in stats]
        log.add("large", kind, n, acc[:3])
        log.probe("solves", reads)
        log.probe("nontrivial")
        log.probe("large_" + kind)
        field = {x: S.energy(poly, dict(start, **{x: 1})) - S.energy(poly, dict(start, **{x: lo})) for x in names}
        if kind == "greedy":
            # the fields dominate: whatever the order, the first sweep turns exactly the wrong variables
            want = {x: (lo if field[x] > 0 else 1) for x in names}
            wrong = sum(1 for x in names if start[x] != want[x])
            for r, a in enumerate(acc):
                if a != [wrong] + [0] * (len(a) - 1):
                    return Violation("sweep", f"read {r}: a cold sweep over {n} variables, {wrong} of them in the wrong state, made {a} flips")
            if any(f != want for f in finals):
                return Violation("sweep", f"a cold sweep over {n} variables left some in the wrong state", {"final": finals[0], "expected": want})
        elif kind == "all":
            if not made or sum(r.drawn for r in made) == 0:
                return None
            for r, a in enumerate(acc):
                if a != [n] * len(a):
                    return Violation("sweep", f"read {r}: with every flip accepted, the sweeps over {n} variables made {a} flips")
        else:
            # independent variables: every one is its own two-state chain
            for x in names:
                p1 = 1.0 if start[x] == 1 else 0.0
                for t in temps:
                    up = math.exp(-max(0.0, field[x]) / t)
                    down = math.exp(-max(0.0, -field[x]) / t)
                    p1 = p1 * (1 - down) + (1 - p1) * up
                k = sum(1 for f in finals if f[x] == 1)
                if tail(reads, k, min(1.0, max(0.0, p1))) < 1e-13:
                    return Violation("distribution", f"{kw['num_sweeps']} sweep(s) over {n} independent variables: {x} ended as 1 in {k} of {reads} reads, its probability by the acceptance rule is {p1:.4f}")
        return None

    def go_endless(self, w, log):
        """Many sweeps at a constant temperature: every sweep draws anew, and all states appear as often as they must."""
        from sawatabi.solver import SawatabiSolver

        pb = dict(w["problem"], h=w["problem"]["h"][: w["problem"]["n"]])
        phys = build(pb)
        n, N = pb["n"], w["sweeps"]
        if w["endless"] == "coupled":
            return self.go_coupled(w, pb, phys, log)
        gap = 2.0 if pb["mtype"] == "ising" else 1.0
        temp = 1.25 * gap
        ss, stats = SawatabiSolver().solve(phys, num_reads=w["reads"], num_sweeps=N, cooling_rate=1.0, initial_temperature=temp, pickup_mode=w["mode"], need_stats=True, seed=w["seed"])
        log.probe("solves", w["reads"])
        log.probe("nontrivial")
        log.probe("long_runs")
        eh = [np.array([float(e) for e in st["energy_history"]]) for st in stats]
        log.add("endless", [round(float(e.sum()), 6) for e in eh])
        if len(eh) != w["reads"] or any(len(e) != N for e in eh):
            return None  # C18's business
        a = math.exp(-gap / temp)  # of going up; going down always
        up = a / (1 + a)  # stationary probability of the upper state, per variable
        for r, e in enumerate(eh):
            ups = (e - e.min()) / gap if e.min() < e.max() else np.zeros(N)
            mean = float(ups[50:].mean())
            # successive sweeps are anticorrelated, so this is wider than it needs to be
            if e.min() == e.max() or abs(mean - n * up) > 8 * math.sqrt(n * 0.25 / (N - 50)):
                return Violation("stationary", f"read {r}: over {N} sweeps at temperature {temp}, {mean:.3f} of {n} variables are in the upper state on average, expected {n * up:.3f}")
            for lag in range(1, N // 2):
                same = float((np.abs(e[:-lag] - e[lag:]) < 1e-6).mean())
                if same > 0.97:
                    return Violation("repeats", f"read {r}: the energies of {N} sweeps at a constant temperature repeat every {lag} sweeps ({100 * same:.1f} % equal): the random numbers are not drawn anew")
        if len(eh) == 2 and float((np.abs(eh[0][50:] - eh[1][50:]) < 1e-6).mean()) > 0.97:
            return Violation("repeats", f"two reads of {N} sweeps follow each other: the random numbers are not drawn anew")
        return None

    def go_coupled(self, w, pb, phys, log):
        """Every state has its own energy, so the energies show the path: each step must follow the single-sweep probabilities."""
        from sawatabi.solver import SawatabiSolver

        n, N, temp = pb["n"], w["sweeps"], w["temp"]
        poly = __import__("sim.history", fromlist=["polynomial"]).polynomial(phys)
        names = sorted(str(v) for v in phys.to_bqm().variables)
        lo = -1 if pb["mtype"] == "ising" else 0
        energies = [S.energy(poly, {x: (1 if m >> i & 1 else lo) for i, x in enumerate(names)}) for m in range(1 << n)]
        if len(names) != n or min(abs(a - b) for a, b in itertools.combinations(energies, 2)) < 1e-3:
            return None
        ss, stats = SawatabiSolver().solve(phys, num_reads=1, num_sweeps=N, cooling_rate=1.0, initial_temperature=temp, pickup_mode=w["mode"], need_stats=True, seed=w["seed"])
        log.probe("solves")
        log.probe("nontrivial")
        log.probe("long_runs")
        eh = [float(e) for e in stats[0]["energy_history"]]
        log.add("coupled", round(sum(eh), 6))
        path = []
        for e in eh:
            m = min(range(1 << n), key=lambda k: abs(energies[k] - e))
            if abs(energies[m] - e) > 1e-6:
                return None  # C18's business
            path.append(m)
        ch = Chain(energies, n)
        orders = list(itertools.permutations(range(n)))
        for part in (path, path[N // 2:]):
            seen = {}
            for a, b in zip(part, part[1:]):
                seen.setdefault(a, {}).setdefault(b, 0)
                seen[a][b] += 1

            def wrong(os):
                for a, c in seen.items():
                    dist = {}
                    for o in os:
                        for b, q in ch.sweep({a: 1.0}, o, temp).items():
                            dist[b] = dist.get(b, 0.0) + q / len(os)
                    bad = unlikely(c, dist, sum(c.values()))
                    if bad is not None:
                        return a, bad, sum(c.values())
                return None

            bads = [wrong([o]) for o in orders] if w["mode"] == "sequential" else [wrong(orders)]
            if all(b is not None for b in bads):
                a, (b, k, q), total = bads[0]
                return Violation("transitions", f"in {len(part)} sweeps at temperature {temp} ({w['mode']} order), {k} of {total} sweeps led from state {a} to state {b}; the probability of one such step is {q:.4f} (probability of such a deviation < 1e-13)")
        return None

    def go(self, w, tape, log):
        from sawatabi.solver import SawatabiSolver

        if "endless" in w:
            return self.go_endless(w, log)
        if "large" in w:
            return self.go_large(w, tape, log)
        pb = w["problem"]
        phys = build(pb)
        poly = __import__("sim.history", fromlist=["polynomial"]).polynomial(phys)
        names = sorted(str(v) for v in phys.to_bqm().variables)
        vt = "SPIN" if pb["mtype"] == "ising" else "BINARY"
        lo = -1 if vt == "SPIN" else 0
        n = len(names)

        def to_state(mask):
            return {x: (1 if mask >> i & 1 else lo) for i, x in enumerate(names)}

        def to_mask(sample):
            return sum(1 << i for i, x in enumerate(names) if sample[x] == 1)

        energies = [S.energy(poly, to_state(m)) for m in range(1 << n)]
        ch = Chain(energies, n)
        start = w["start"] % (1 << n)
        kw = copy.deepcopy(w["params"])
        temps = schedule(kw)
        seq = kw["pickup_mode"] == "sequential"
        mode = w["mode"]
        reads = READS if mode == "seeded" else w["reads"]
        if mode != "seeded" and w["long"]:
            kw["num_sweeps"] = 12
            temps = schedule(kw)
        kw.update(num_reads=reads, initial_states=[to_state(start) for _ in range(reads)], need_stats=True)
        made = []
        if mode != "seeded":
            force = {"forced_low": {"random": 1}, "forced_high": {"random": 2}}.get(mode)

            def hook(*a, **k):
                made.append(S.ScriptRng(tape, log, force=force))
                return made[-1]

            seams.set_rng(hook)
        try:
            ss, stats = SawatabiSolver().solve(phys, seed=w["seed"], **kw)
        finally:
            seams.set_rng(None)
        counts = {}
        for d in ss.data(sorted_by=None):
            m = to_mask({str(k): int(x) for k, x in dict(d.sample).items()})
            counts[m] = counts.get(m, 0) + int(d.num_occurrences)
        log.add("solve", mode, sorted(counts.items()), [list(map(int, s["acceptance_history"])) for s in stats[:3]])
        log.probe("solves", reads)
        log.probe("nontrivial")
        if sum(counts.values()) != reads:
            return None  # C18's business
        # the schedule, in every read
        for r, st in enumerate(stats):
            th = [float(t) for t in st["temperature_history"]]
            bad = next((k for k in range(len(temps)) if k >= len(th) or not (abs(th[k] - temps[k]) <= 1e-6 * max(temps[k], 1e-300) or (temps[k] == 0.0 and abs(th[k]) <= 1e-6) or (kw.get("reverse_options") and abs(th[k] - temps[k]) <= 2e-9))), None)
            if bad is not None:
                return Violation("schedule", f"read {r}: the temperature of sweep {bad} is {th[bad] if bad < len(th) else None}, expected {temps[bad]}", {"history": th[:20], "expected": temps[:20], "params": {k: v for k, v in kw.items() if k != "initial_states"}})
        eff = [t if t > 0 else 0.0 for t in temps]
        if mode == "seeded":
            if n <= 3 or kw["num_sweeps"] <= 2:
                start_d = {start: 1.0}
                if seq:
                    cands = []
                    for o in itertools.permutations(range(n)):
                        dist = start_d
                        for t in eff:
                            dist = ch.sweep(dist, o, t)
                        cands.append(dist)
                else:
                    cands = [ch.mixed(start_d, eff)]
                bads = [unlikely(counts, c, reads) for c in cands]
                if all(b is not None for b in bads):
                    s, c, p = bads[0]
                    return Violation("distribution", f"{kw['num_sweeps']} sweep(s) from {to_state(start)}: state {to_state(s)} was reached in {c} of {reads} reads, its probability by the acceptance rule is {p:.4f} (probability of such a deviation < 1e-13)",
                                     {"counts": counts, "temperatures": eff, "expected": {k: round(v, 5) for k, v in cands[0].items()}})
            # mean number of acceptances in the first sweep
            return self.acceptances(ch, start, stats, eff, seq, n, reads)
        drawn = sum(r.drawn for r in made)
        if not made or drawn == 0:
            return None  # the draws cannot be forced
        if mode == "free":
            return self.forced(ch, start, stats, eff, n, counts, None, energies)
        return self.forced(ch, start, stats, eff, n, counts, mode, energies)

    def acceptances(self, ch, start, stats, eff, seq, n, reads):
        def expected(order):
            dist, total, var = {start: 1.0}, 0.0, 0.0
            for i in order:
                q = sum(p * ch.step(s, i, eff[0]) for s, p in dist.items())
                total += q
                dist = ch.sweep(dist, (i,), eff[0])
            return total

        orders = list(itertools.permutations(range(n)))
        got = sum(int(s["acceptance_history"][0]) for s in stats) / reads
        wants = [expected(o) for o in orders] if seq else [sum(expected(o) for o in orders) / len(orders)]
        # the standard deviation of one read is at most n/2
        if all(abs(got - x) > 8 * (n / 2) / math.sqrt(reads) + 1e-9 for x in wants):
            return Violation("acceptances", f"the first sweep made {got:.3f} flips on average over {reads} reads, expected {wants[0]:.3f}")
        return None

    def forced(self, ch, start, stats, eff, n, counts, mode, energies):
        """Every sweep must be explained by some visiting order and, for uphill moves, by the forced draws."""
        orders = list(itertools.permutations(range(n)))
        finals = []
        for r, st in enumerate(stats):
            cur = {start}
            for k, t in enumerate(eff):
                e, a = float(st["energy_history"][k]), int(st["acceptance_history"][k])
                cur = {s for s in cur if near(e, energies[s])}
                if not cur:
                    return Violation("trajectory", f"read {r}: the energy {e} before sweep {k} cannot be explained by the acceptance rule with {mode or 'free'} draws", {"energies": st["energy_history"], "acceptances": st["acceptance_history"]})
                new = set()
                for s in cur:
                    for o in orders:
                        new |= self.outcomes(ch, s, o, t, mode, a)
                if not new:
                    return Violation("trajectory", f"read {r}: {a} flips in sweep {k} at temperature {t} cannot be explained by the acceptance rule with {mode or 'free'} draws", {"from": sorted(cur), "energies": st["energy_history"], "acceptances": st["acceptance_history"]})
                cur = new
            finals.append(cur)
        if not any(True for _ in [0]) or not all(any(m in f for m in counts) for f in finals):
            return Violation("trajectory", "a final state cannot be explained by the acceptance rule", {"counts": counts, "possible": [sorted(f) for f in finals]})
        return None

    def outcomes(self, ch, s, order, t, mode, a):
        states = {(s, 0)}
        for i in order:
            nxt = set()
            for st, c in states:
                p = ch.step(st, i, t)
                if p >= 1.0 - 1e-12:
                    opts = (True,) if ch.e[st ^ (1 << i)] <= ch.e[st] + 1e-12 and not (0 < abs(ch.e[st ^ (1 << i)] - ch.e[st]) < 1e-9) else (True, False)
                elif p <= 1e-12:
                    opts = (False,) if p == 0.0 and not (0 < abs(ch.e[st ^ (1 << i)] - ch.e[st]) < 1e-9) else (True, False)
                elif mode == "forced_low":
                    opts = (True,)
                elif mode == "forced_high":
                    opts = (False,)
                else:
                    opts = (True, False)
                for o in opts:
                    if c + o <= a:
                        nxt.add((st ^ (1 << i) if o else st, c + o))
            states = nxt
        return {x for x, c in states if c == a}
