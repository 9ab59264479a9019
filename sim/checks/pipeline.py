"""C01-C09: the streaming pipelines under the deterministic runner."""
import copy
import datetime
import random
from collections import Counter

from sim import appkit, pipes, seams, zygote
from sim.core import HarnessError, Log, Tape, Violation, derive

US = pipes.US


def utc(micros):
    return str(datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=micros))


class PipelineCheck:
    """Shared: scenario generation, execution, and splitting the committed history into windows."""

    p_map = p_solve = p_unmap = 0.0
    runs_quick = 260
    runs_thorough = 6000
    fp = False
    big = 300

    def pool(self, shard_seed):
        return pipes.pool_opts(shard_seed)

    def app(self, rng):
        return None

    def gen(self, seed, shard_seed):
        if getattr(self, "_pool_for", None) != shard_seed:
            self._pool = self.pool(shard_seed)
            self._pool_for = shard_seed
        rng = random.Random(derive("app", seed))
        app = self.app(rng)
        return pipes.gen_pipeline_scenario(seed, self._pool, self.p_map, self.p_solve, self.p_unmap, app=app, big=self.big)

    def deletable(self, path):
        return path and path[0] == "feed" and len(path) == 1

    def run(self, w, tape, log):
        r = pipes.execute(w, tape, log)
        self.note(r, log)
        return self.oracle(r)

    def note(self, r, log):
        t = pipes.delivered(r)
        if len(t) >= 2 and log.faults:
            log.probe("nontrivial")
        log.probe("windows_delivered", len(t))
        log.probe("windows_outdated", sum(1 for f in pipes.handled_flags(t) if not f))
        log.probe("bundles_committed", sum(1 for e in log.events if e[0] == "commit"))

    # -- helpers
    def dead(self, r):
        if r.dead is not None:
            return Violation("dead", f"the pipeline was killed by {type(r.dead).__name__}: {r.dead}")
        return None

    def groups(self, r):
        """[(window time, handled, {kind: record})] from the committed history; or a Violation."""
        times = pipes.delivered(r)
        flags = pipes.handled_flags(times)
        recs = list(r.committed_records)
        groups = []
        cur = None
        for kind, d in recs:
            if kind == "map":
                cur = {"map": d}
                groups.append(cur)
            else:
                if cur is None or kind in cur:
                    return None, Violation("calls", f"'{kind}' was called without, or twice after, a map call")
                cur[kind] = d
        n_handled = sum(flags)
        if len(groups) != n_handled:
            return None, Violation("calls", f"{n_handled} of {len(times)} delivered windows had to be handled, but map was called {len(groups)} times",
                                   {"times": times, "handled": flags})
        res = []
        it = iter(groups)
        for t, f in zip(times, flags):
            res.append((t, f, next(it) if f else None))
        return res, None


def _malformed(lst):
    return [x for x in lst if not isinstance(x, tuple)]


class C01(PipelineCheck):
    id = "C01"
    p_map, p_solve, p_unmap = 0.08, 0.05, 0.05

    def pool(self, shard_seed):
        return pipes.pool_opts(shard_seed)

    def oracle(self, r):
        v = self.dead(r)
        if v:
            return v
        ref = pipes.Reference(r)
        times = pipes.delivered(r)
        want = Counter(win[1] - 1 for win in ref.windows)
        if Counter(times) != want:
            return Violation("windows", "the windows that reached the solving step are not the windows of the input",
                             {"got": sorted(times), "want": sorted(want.elements())})
        groups, v = self.groups(r)
        if v:
            return v
        by_end = {win[1] - 1: win for win in ref.windows}
        history = []  # triples of everything handled (Incremental) or of the previously handled window (Partial)
        names = {}
        for t, handled, g in groups:
            if not handled:
                continue
            win = by_end[t]
            els = g["map"]["elements"]
            bad = _malformed(els)
            if bad:
                return Violation("shape", f"malformed element {bad[0]}")
            for kind in ("solve", "unmap"):
                if kind in g and g[kind]["elements"] != els:
                    return Violation("same", f"{kind} received other elements than map", {"map": els, kind: g[kind]["elements"]})
            ts = [e[0] for e in els]
            if ts != sorted(ts):
                return Violation("order", "elements are not in event-time order", {"elements": els})
            if any(a[0] == b[0] and a[1] > b[1] for a, b in zip(els, els[1:])):
                return Violation("order", "elements of one event time are not in the order of their indices", {"elements": els})
            idx = [e[1] for e in els]
            if len(set(idx)) != len(idx):
                return Violation("dup", "an element occurs twice", {"elements": els})
            for e in els:
                if names.setdefault(e[1], (e[0], e[2])) != (e[0], e[2]):
                    return Violation("identity", "one index stands for two different elements", {"elements": els})
            expect = Counter(ref.windows[win])
            carried = []
            if ref.algo == "incremental":
                carried = [e for e in history if not (win[0] <= e[0] < win[1])]
            elif ref.algo == "partial":
                f = appkit.FILTERS[ref.opts["filter_fn"]]
                carried = [e for e in history if not (win[0] <= e[0] < win[1]) and f(self.unsnap(e))]
            if ref.reassign:
                for e in els:
                    if e[0] != e[1] * US:
                        return Violation("reassign", "with reassigned timestamps an element's time is not its index", {"element": e})
                for e in carried:
                    expect[(e[0], None)] += 1
                got = Counter((e[0], None) for e in els)
            else:
                for e in carried:
                    expect[(e[0], e[2])] += 1
                got = Counter((e[0], e[2]) for e in els)
            if got != expect:
                return Violation("content", f"window {win} has the wrong elements",
                                 {"missing": list((expect - got).elements()), "extra": list((got - expect).elements())})
            history = els
        if ref.reassign:
            vals = Counter(v for _, v in names.values())
            have = Counter(m[1] for m in ref.msgs)
            if vals - have:
                return Violation("values", "values appear that were not in the input", {"extra": list((vals - have).elements())})
        return None

    @staticmethod
    def unsnap(e):
        import json

        return (e[0] / 1e6, (e[1], json.loads(e[2])))


class C02(PipelineCheck):
    id = "C02"
    p_map, p_solve, p_unmap = 0.15, 0.05, 0.05

    def oracle(self, r):
        v = self.dead(r)
        if v:
            return v
        groups, v = self.groups(r)
        if v:
            return v
        base = []
        for t, handled, g in groups:
            if not handled:
                continue
            m = g["map"]
            for kind in ("solve", "unmap"):
                if kind in g and (g[kind]["incoming"] != m["incoming"] or g[kind]["outgoing"] != m["outgoing"]):
                    return Violation("same", f"{kind} received another difference than map", {"map": m, kind: g[kind]})
            els = m["elements"]
            inc = [e for e in els if e not in base]
            out = [e for e in base if e not in els]
            for name, got, want in (("incoming", m["incoming"], inc), ("outgoing", m["outgoing"], out)):
                if sorted(map(repr, got)) != sorted(map(repr, want)):
                    return Violation(name, f"{name} is not the exact difference from the last mapped window",
                                     {"got": got, "want": want, "elements": els, "base": base})
                ts = [e[0] for e in got]
                if ts != sorted(ts):
                    return Violation(name + "-order", f"{name} is not in event-time order", {"got": got})
            if not m["fault"]:
                base = els
        return None


class C03(PipelineCheck):
    id = "C03"
    big = 32  # (models grow with the windows)
    p_map, p_solve, p_unmap = 0.15, 0.2, 0.2

    def pool(self, shard_seed):
        pool = pipes.pool_opts(shard_seed, decorate=True)
        for algo, o in pool:
            if algo == "attenuation" and derive(shard_seed, str(o)) % 2:
                o["attenuation.key"] = "attributes.k"
        return pool

    def app(self, rng):
        a = {"kind": rng.choice(["token", "same", "empty", "rebuild", "delta", "rich"]), "blank": rng.randrange(3)}
        if rng.random() < 0.5:
            a["attr"] = "k"
        a["solver"] = rng.choice(["token", "token", "physical", "exact"])
        return a

    def oracle(self, r):
        v = self.dead(r)
        if v:
            return v
        groups, v = self.groups(r)
        if v:
            return v
        outs = pipes.outputs(r)
        if len(outs) != len(groups):
            return Violation("count", f"{len(groups)} windows reached the solving step but {len(outs)} output records were produced")
        o = r.w["opts"]
        for (t, handled, g), raw in zip(groups, outs):
            if not isinstance(raw, bytes):
                return Violation("type", "a published record is not bytes")
            text = raw.decode("utf-8")
            pre, suf = o.get("output.prefix", ""), o.get("output.suffix", "")
            if o.get("output.with_timestamp"):
                pre = pre + f"[{utc(t)}] "
            if not (text.startswith(pre) and text.endswith(suf) and len(text) >= len(pre) + len(suf)):
                return Violation("decoration", f"record of window {utc(t)} is not decorated as configured", {"record": text, "prefix": pre, "suffix": suf})
            body = text[len(pre):len(text) - len(suf)] if suf else text[len(pre):]
            if not handled:
                continue
            step = None
            for kind in ("map", "solve", "unmap"):
                if kind not in g:
                    step, exc = "?", None
                    break
                if g[kind]["fault"]:
                    step, exc = kind, appkit.EXC[g[kind]["fault"] - 1]()
                    break
            if step is None:
                want = g["unmap"]["text"]
                if body != want:
                    return Violation("result", "the output record is not what unmap returned", {"got": body, "want": want})
            elif step == "?":
                # rescaling, or the solver called inside solve, raised for real
                if not body.startswith("Failed to solve:"):
                    return Violation("failure", f"a window whose {sorted(g)} ran and nothing later did is not reported as a failure to solve", {"record": body})
            else:
                head = f"Failed to {step}:"
                if not body.startswith(head) or str(exc) not in body:
                    return Violation("failure", f"a failing {step} is not reported as such", {"record": body, "exception": str(exc)})
        return None


class C04(PipelineCheck):
    id = "C04"
    big = 32  # (models grow with the windows)
    p_map, p_solve, p_unmap = 0.25, 0.2, 0.1
    runs_quick = 160

    def pool(self, shard_seed):
        pool = pipes.pool_opts(shard_seed)
        for algo, o in pool:
            if algo == "attenuation":
                o["attenuation.key"] = "attributes.k"
        return pool

    def app(self, rng):
        return {"kind": rng.choice(["token", "delta", "delta", "rebuild", "same", "rich"]), "fp": True, "attr": "k", "key_mode": rng.choice(["ts", "idx", "coarse"]), "fix": True,
                "solver": rng.choice(["token", "physical", "sawatabi", "exact", "falsy"])}

    def oracle(self, r):
        v = self.dead(r)
        if v:
            return v
        groups, v = self.groups(r)
        if v:
            return v
        model = None
        ss = None
        for t, handled, g in groups:
            if not handled:
                continue
            m = g["map"]
            if model is None:
                want = (r.w["mtype"], (), (), (), "0.0", (), ())
            else:
                want = model
            if m["prev_model"] != want:
                return Violation("prev_model", "map did not receive the model of the last successfully mapped window", {"got": m["prev_model"], "want": want})
            if m["prev_sampleset"] != ss:
                return Violation("prev_sampleset", "map did not receive the sample set of the last successful solve", {"got": m["prev_sampleset"], "want": ss})
            if "model" in m:
                model = g["solve"]["model"] if "solve" in g else m["model"]
            s = g.get("solve")
            if s is not None and "model" in m:
                a, b = (tuple(tuple(x[:4] + x[5:] for x in part) if i == 2 and r.cfg["algo"] == "attenuation" else part for i, part in enumerate(fp)) if len(fp) > 2 else fp for fp in (m["model"], s["model"]))
                if a != b:
                    return Violation("solve-model", "solve did not receive the model that map returned" + (" (up to the scales)" if r.cfg["algo"] == "attenuation" else ""), {"got": b, "want": a})
            if s is not None:
                if s["prev_sampleset"] != ss:
                    return Violation("prev_sampleset", "solve did not receive the sample set of the last successful solve", {"got": s["prev_sampleset"], "want": ss})
                if "sampleset" in s:
                    ss = s["sampleset"]
        return None


class C05(PipelineCheck):
    id = "C05"
    big = 32  # (models grow with the windows)
    pristine = True
    p_map, p_solve, p_unmap = 0.1, 0.1, 0.1
    runs_quick = 90
    runs_thorough = 2500

    def pool(self, shard_seed):
        pool = pipes.pool_opts(shard_seed)
        for algo, o in pool:
            if algo == "attenuation":
                o["attenuation.key"] = "attributes.k"
        return pool

    def gen(self, seed, shard_seed):
        w = super().gen(seed, shard_seed)
        rng = random.Random(derive("c05", seed))
        w["cfg"] = {"eager": rng.choice([None, True, False]), "p_crash": rng.choice([0.02, 0.05, 0.1]), "max_crashes": rng.choice([2, 5, 10]),
                    "p_restart": rng.choice([0, 0.1, 0.5]), "max_bundle": rng.choice([0, 1, 2, 4]), "fire_prio": True, "clock": rng.randrange(1000)}
        return w

    def app(self, rng):
        return {"kind": rng.choice(["token", "delta", "delta", "rebuild", "rich"]), "fp": True, "attr": "k", "key_mode": rng.choice(["ts", "idx", "coarse"]), "blank": rng.randrange(3),
                "solver": rng.choice(["token", "physical", "sawatabi", "exact", "falsy"])}

    def run(self, w, tape, log):
        a = pipes.execute(w, tape, log)
        self.note(a, log)
        keep = {k: v for k, v in tape.out.items() if ".fault." in k or ".when." in k or ".fprio." in k}
        others = []
        for name, over in (
            ("one bundle, lazy state, no fault", {"eager": False, "p_crash": 0, "p_restart": 0, "max_bundle": 0, "valshuffle": True, "clock": 0}),
            ("bundles of one, eager state, no fault", {"eager": True, "p_crash": 0, "p_restart": 0, "max_bundle": 0, "one": True, "clock": 77}),
        ):
            t = Tape(recorded=keep)
            lg = Log()
            if over.pop("one", False):
                keep2 = dict(keep)
                for q in ("feed", "stateful", "gbk", "reshuffle"):
                    keep2[f"p.bundle.{q}"] = [1] * 400
                t = Tape(recorded=keep2)
                over["max_bundle"] = 1
            if name.startswith("one bundle"):
                others.append((name + ", in a fresh process", [tuple(x) for x in zygote.call("sim.checks.pipeline", "pristine_view", w, keep, over)]))
            else:
                others.append((name, self.view(pipes.execute(w, t, lg, cfg_override=over))))
        for name, ob in others:
            oa = self.view(a)
            if oa != ob:
                i = next((k for k in range(min(len(oa), len(ob))) if oa[k] != ob[k]), min(len(oa), len(ob)))
                return Violation("diverged", f"the committed history differs from the same input run with: {name}",
                                 {"at": i, "faulty": oa[i:i + 1], "reference": ob[i:i + 1], "lengths": [len(oa), len(ob)]})
        return None

    @staticmethod
    def view(r):
        res = [("out", v) for v in pipes.outputs(r)]
        res += [("call", k, repr(sorted(d.items()))) for k, d in r.committed_records]
        if r.dead is not None:
            res.append(("dead", repr(r.dead)))
        # tracebacks inside failure records name the same lines; keep them out of the comparison
        return [(x[0], _first_line(x[1])) if x[0] == "out" else x for x in res]


def pristine_view(w, recorded, over, seed=None, name="p"):
    """Runs in a fresh process."""
    seams.set_clock(None)
    seams.set_rng(None)
    seams.reset_process_randomness(12345)
    return C05.view(pipes.execute(w, Tape(recorded=recorded) if seed is None else Tape(seed=seed), Log(), fresh=True, name=name, cfg_override=over))


def _first_line(v):
    if isinstance(v, bytes) and b"Traceback (most recent call last)" in v:
        return v.split(b"Traceback (most recent call last)")[0]
    return v


class C06(PipelineCheck):
    id = "C06"
    p_map, p_solve, p_unmap = 0.1, 0.1, 0.05
    big = 60

    def app(self, rng):
        if rng.random() < 0.6:
            return None
        return {"kind": rng.choice(["token", "delta"]), "fp": True, "solver": "token"}

    def gen(self, seed, shard_seed):
        w = super().gen(seed, shard_seed)
        rng = random.Random(derive("c06", seed))
        w["cfg"]["p_fire_reorder"] = rng.choice([0.3, 0.6])
        w["cfg"]["p_reorder"] = rng.choice([0.2, 0.5])
        w["cfg"]["p_split_pane"] = rng.choice([0, 0.3])  # a runner that emits a window in two panes: two results with equal times
        return w

    def oracle(self, r):
        v = self.dead(r)
        if v:
            return v
        times = pipes.delivered(r)
        groups, v = self.groups(r)
        if v:
            return v
        outs = pipes.outputs(r)
        if len(outs) != len(groups):
            return Violation("count", f"{len(groups)} windows but {len(outs)} records")
        latest = None
        for (t, handled, g), raw in zip(groups, outs):
            text = raw.decode("utf-8", "replace")
            if handled:
                latest = t
                if "is outdated" in text and "RES<" not in text and "Failed to" not in text:
                    return Violation("skipped", f"window {utc(t)} was reported outdated although no later window had been handled", {"record": text})
                continue
            if "outdated" not in text:
                return Violation("silent", f"window {utc(t)} is older than {utc(latest)} but its record does not say it is outdated", {"record": text})
            body = text
            pre = r.w["opts"].get("output.prefix", "")
            if r.w["opts"].get("output.with_timestamp"):
                body = body[len(pre) + len(f"[{utc(t)}] "):]
            if utc(t) not in body or utc(latest) not in body:
                return Violation("names", "an outdated record does not name both its own and the processed time", {"record": text, "own": utc(t), "processed": utc(latest)})
        return self.carried(r, groups)

    def carried(self, r, groups):
        """What a window receives right after skipped ones is what the last handled windows left."""
        size, _ = pipes.geometry(r.w["algo"], r.w["opts"])
        skipped = False
        last, base, model, ss = [], [], None, None
        for t, handled, g in groups:
            if not handled:
                skipped = True
                continue
            m = g["map"]
            els = m["elements"]
            if _malformed(els):
                return Violation("shape", f"malformed element {_malformed(els)[0]}")
            if skipped:
                other = [e for e in els if not t + 1 - size <= e[0] <= t and e not in last]
                if other:
                    return Violation("carried-elements", f"window {utc(t)}, after a skipped one, receives elements that neither lie in it nor were carried before", {"elements": other})
                for name, want in (("incoming", [e for e in els if e not in base]), ("outgoing", [e for e in base if e not in els])):
                    if sorted(map(repr, m[name])) != sorted(map(repr, want)):
                        return Violation("carried-difference", f"window {utc(t)}, after a skipped one: {name} is not the difference from the last mapped window", {"got": m[name], "want": want})
                if "prev_model" in m and model is not None and m["prev_model"] != model:
                    return Violation("carried-model", f"window {utc(t)}, after a skipped one, receives another model than the last mapped window left", {"got": m["prev_model"], "want": model})
                if "prev_sampleset" in m and m["prev_sampleset"] != ss:
                    return Violation("carried-sampleset", f"window {utc(t)}, after a skipped one, receives another sample set than the last solve left", {"got": m["prev_sampleset"], "want": ss})
            skipped = False
            last = els
            if "model" in m or ("prev_model" not in m and not m["fault"]):  # (with two panes of one window the application itself may fail)
                base = els
            s = g.get("solve")
            if "model" in m:
                model = s["model"] if s is not None and "model" in s else m["model"]
            if s is not None and "sampleset" in s:
                ss = s["sampleset"]
        return None


class C07(PipelineCheck):
    id = "C07"
    runs_quick = 300

    def gen(self, seed, shard_seed):
        w = super().gen(seed, shard_seed)
        rng = random.Random(derive("c07", seed))
        w["cfg"]["p_crash"] = rng.choice([0.03, 0.08, 0.15])
        w["cfg"]["max_crashes"] = 10
        w["cfg"]["max_bundle"] = rng.choice([0, 1, 2, 3])
        return w

    def oracle(self, r):
        v = self.dead(r)
        if v:
            return v
        st = [n.idx for n in r.nodes if n.kind == "stateful"]
        order = [pipes.find_value(v) for _, v in r.stage_log.get(st[0], [])]
        msgs = Counter(appkit.esc(ev[2]) for ev in r.w["feed"] if ev[0] == "m")
        if Counter(order) != msgs:
            return Violation("values", "the values reaching index assignment are not the input values", {"got": order})
        seen = {}
        for kind, d in r.committed_records:
            for lst in ("elements", "incoming", "outgoing"):
                for e in d[lst]:
                    if not isinstance(e, tuple):
                        return Violation("shape", f"malformed element {e}")
                    ts, i, val = e
                    if not isinstance(i, int) or isinstance(i, bool) or not 0 <= i < len(order):
                        return Violation("range", f"index {i!r} is not one of 0..{len(order) - 1}", {"order": order})
                    if order[i] != val:
                        return Violation("index", f"index {i} belongs to element number {i} in processing order, but is carried by another value",
                                         {"order": order, "element": e})
                    if seen.setdefault(i, (ts, val)) != (ts, val):
                        return Violation("stable", f"index {i} denotes different elements at different times", {"element": e, "before": seen[i]})
                    if "input.reassign_timestamp" in r.w["opts"] and ts != i * US:
                        return Violation("reassign", "the reassigned event time is not the index", {"element": e})
        return None


class C08(PipelineCheck):
    id = "C08"
    big = 32  # (models grow with the windows)
    p_map, p_solve, p_unmap = 0.05, 0.05, 0.0
    runs_quick = 160

    def pool(self, shard_seed):
        rng = random.Random(derive("c08pool", shard_seed))
        pool = []
        for i in range(15):
            algo, o = pipes.gen_opts(rng, algo="attenuation" if i < 11 else ("window", "delta", "incremental", "partial")[i - 11])
            if algo == "attenuation" or rng.random() < 0.5:  # (options of another algorithm have no effect)
                o["attenuation.key"] = rng.choice(["timestamp", "attributes.k", "attributes.age"])
                o["attenuation.min_scale"] = rng.choice([0.0, 0.1, 0.5, 1.0, 0.25, 0.9, 1.5])
            pool.append((algo, o))
        return pool

    def gen(self, seed, shard_seed):
        w = super().gen(seed, shard_seed)
        key = w["opts"].get("attenuation.key", "attributes.k")
        w["app"]["attr"] = key.split(".", 1)[1] if key.startswith("attributes.") else "other"
        return w

    def app(self, rng):
        return {"kind": rng.choice(["delta", "delta", "rebuild", "rich", "rich"]), "fp": True, "fix": True, "key_mode": rng.choice(["ts", "idx", "coarse", "const"]),
                "user_scale": rng.random() < 0.3, "solver": rng.choice(["token", "physical"]), "quad": rng.random() < 0.8}

    def oracle(self, r):
        v = self.dead(r)
        if v:
            return v
        groups, v = self.groups(r)
        if v:
            return v
        o = r.w["opts"]
        for t, handled, g in groups:
            if not handled or "model" not in g["map"]:
                continue
            a = g["map"]["model"]
            if "solve" not in g:
                if r.w["algo"] == "attenuation" and not a[2]:
                    continue  # nothing to rescale: reported as a failure (C03)
                return Violation("nosolve", "map succeeded but solve was not called", {"model": a})
            b = g["solve"]["model"]
            if r.w["algo"] != "attenuation":
                if a != b:
                    return Violation("touched", "solve did not receive the model as map returned it", {"map": a, "solve": b})
                continue
            key = o["attenuation.key"]
            lo = o["attenuation.min_scale"]

            def kv(row):
                if key == "timestamp":
                    return float(row[5])
                d = dict(row[6])
                return float(d[key]) if key in d else None

            rest_a = (a[0], a[1], a[3:], [(x[:4], x[5:]) for x in a[2]])
            rest_b = (b[0], b[1], b[3:], [(x[:4], x[5:]) for x in b[2]])
            if rest_a != rest_b:
                return Violation("touched", "rescaling changed more than the scales", {"map": a, "solve": b})
            ks = [kv(x) for x in b[2]]
            if not ks or any(k is None for k in ks) or min(ks) == max(ks):
                continue
            r.log.probe("rescaled")
            for row, k in zip(b[2], ks):
                want = lo + (1.0 - lo) * (k - min(ks)) / (max(ks) - min(ks))
                if abs(float(row[4]) - want) > 1e-6:
                    return Violation("scale", f"interaction {row[0]} with key {k} has scale {row[4]}, expected {want}", {"rows": [list(x[:6]) for x in b[2]]})
        return None


class C09(PipelineCheck):
    id = "C09"
    pristine = True
    p_map, p_solve, p_unmap = 0.05, 0.05, 0.05
    runs_quick = 40
    runs_thorough = 900

    def gen(self, seed, shard_seed):
        rng = random.Random(derive("c09", seed))
        k = rng.choice([2, 2, 3])
        same = rng.random() < 0.5
        pool = pipes.pool_opts(derive(shard_seed, seed), size=1 if same else k)
        for algo, o in pool:
            if algo == "attenuation":
                o["attenuation.key"] = "attributes.k"
        ps = []
        for i in range(k):
            app = {"kind": rng.choice(["token", "delta", "rebuild"]), "fp": True, "attr": "k", "solver": rng.choice(["token", "physical", "local", "local", "sawatabi"])}
            w = pipes.gen_pipeline_scenario(derive(seed, i), [pool[i % len(pool)]], self.p_map, self.p_solve, self.p_unmap, app=app, n=rng.randint(1, 7),
                                            mtype=rng.choice(["ising", "qubo"]))
            w["cfg"] = {"eager": rng.choice([True, False]), "max_bundle": rng.choice([0, 1, 2]), "clock": rng.randrange(1000)}
            ps.append(w)
        return {"pipes": ps, "share_options": rng.random() < 0.6, "share_solver": rng.random() < 0.5}

    def deletable(self, path):
        return (len(path) == 3 and path[0] == "pipes" and path[2] == "feed") or path == ("pipes",)

    def run(self, w, tape, log):
        ps = w["pipes"]
        if not ps:
            return None
        alone = {}

        def run_alone(i):
            t = tape_for(i)
            alone[i] = [tuple(x) for x in zygote.call("sim.checks.pipeline", "pristine_view", ps[i], t.recorded, None, t.seed, f"p{i}")]

        def tape_for(i):
            return Tape(seed=derive("c09tape", i, canon_seed)) if tape.recorded is None else Tape(recorded={k[3:]: v for k, v in tape.recorded.items() if k.startswith(f"@{i}.")})

        canon_seed = tape.seed
        for i in range(len(ps)):
            run_alone(i)
        shared_solver = {}
        opts = {}
        runs = {}
        tapes = {}
        pending = list(range(len(ps)))
        active = []
        last = None
        switches = 0
        steps = 0
        before = {}
        while pending or active:
            steps += 1
            if steps > 20000:
                raise HarnessError("interleaving did not finish")
            choice = tape.choose("switch", len(active) + (1 if pending else 0))
            if choice >= len(active):
                i = pending.pop(0)
                key = pipes.canon([ps[i]["algo"], ps[i]["opts"]]) if w["share_options"] else i
                if key not in opts:
                    opts[key] = pipes.real_options(ps[i]["opts"])
                    before[key] = dict(opts[key])
                sk = ps[i]["app"].get("solver")
                solver = None
                if w["share_solver"]:
                    if sk not in shared_solver:
                        shared_solver[sk] = pipes.make_solver(ps[i])
                    solver = shared_solver[sk]
                pl = pipes.build(ps[i], fresh=True, options=opts[key], solver=solver)
                if opts[key] != before[key]:
                    return Violation("options", "creating a pipeline changed the options it was given", {"before": repr(before[key]), "after": repr(opts[key])})
                tapes[i] = tape_for(i)
                runs[i] = pipes.execute(ps[i], tapes[i], log, name=f"p{i}", cfg_override={"start": False}, pipeline=pl)
                active.append(i)
                continue
            i = active[choice]
            if last is not None and last != i:
                switches += 1
            last = i
            if not runs[i].step():
                pipes.log_outputs(runs[i])
                active.remove(i)
        log.fault("pipeline_switch", switches)
        if switches:
            log.probe("nontrivial")
        for i, t in tapes.items():
            for k, v in t.out.items():
                tape.out[f"@{i}.{k}"] = v
        for i in range(len(ps)):
            a, b = C05.view(runs[i]), alone[i]
            if runs[i].dead is not None:
                return self.dead(runs[i])
            if a != b:
                k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                return Violation("interference", f"pipeline {i} behaves differently when others run in the same process", {"together": a[k:k + 1], "alone": b[k:k + 1]})
        return None


CHECKS = [C01, C02, C03, C04, C05, C06, C07, C08, C09]
