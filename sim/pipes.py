"""Pipeline scenarios: generation, construction through the public create_pipeline API, execution, reference windows."""
import copy
import json
import random
from collections import Counter, OrderedDict

import sawatabi
from sim import appkit, beamsim, seams
from sim.core import HarnessError, Log, Tape, canon, derive

PROJECT, TOPIC_IN, TOPIC_OUT = "proj-sim", "topic-in", "topic-out"
US = 1_000_000

ALGOS = {
    "window": sawatabi.algorithm.Window,
    "delta": sawatabi.algorithm.Delta,
    "incremental": sawatabi.algorithm.Incremental,
    "partial": sawatabi.algorithm.Partial,
    "attenuation": sawatabi.algorithm.Attenuation,
}

SIZE_CLASSES = [
    [(2, 1), (3, 1), (4, 2), (10, 5), (6, 2), (4, 1), (5, 1)],  # overlapping
    [(5, 5), (2, 2), (1, 1), (4, 4), (0.5, 0.5)],  # tumbling
    [(3, 2), (2.5, 1.5), (0.5, 0.25), (7, 3), (1.75, 1)],  # overlapping, size no multiple of the period
    [(1, 3), (2, 5), (0.5, 1.25), (3, 4)],  # gaps between windows
]
SIZES = [x for c in SIZE_CLASSES for x in c]


def gen_opts(rng, algo=None, decorate=None, reassign=None, sizes=None):
    algo = algo or rng.choice(sorted(ALGOS))
    size, period = rng.choice(sizes or SIZES)
    o = {}
    if algo in ("window", "partial", "attenuation"):
        o["window.size"], o["window.period"] = size, period
    elif algo == "delta":
        o["window.size"] = size
    else:
        o["incremental.size"] = size
    if algo == "partial":
        o["filter_fn"] = rng.choice(sorted(appkit.FILTERS))
    if algo == "attenuation":
        o["attenuation.key"] = "timestamp"
        o["attenuation.min_scale"] = rng.choice([0.0, 0.1, 0.5, 1.0, 0.25])
    if decorate is None:
        decorate = rng.random() < 0.5
    if decorate:
        if rng.random() < 0.6:
            o["output.with_timestamp"] = True
        if rng.random() < 0.6:
            o["output.prefix"] = rng.choice(["<<<\n", "P:", "{", "[x] ", " ", ""])
        if rng.random() < 0.6:
            o["output.suffix"] = rng.choice(["\n>>>\n", ":S", "}", " %s", " ", ""])
    if reassign is None:
        reassign = rng.random() < 0.15
    if reassign:
        o["input.reassign_timestamp"] = True
    return algo, o


def geometry(algo, o):
    """(size, period) in microseconds."""
    if algo == "incremental":
        s = o["incremental.size"]
        return round(s * US), round(s * US)
    if algo == "delta":
        return round(o["window.size"] * US), round(o["window.size"] * US)
    return round(o["window.size"] * US), round(o["window.period"] * US)


def windows_of(ts, size, period):
    """All windows [start, start+size) with start a multiple of period that contain ts (all in microseconds)."""
    res = []
    start = ts - (ts % period)
    while start > ts - size:
        res.append((start, start + size))
        start -= period
    return res


def gen_feed(rng, size, period, mode, n=None, dup=False, vkind="number", base=None, lateness=True, big=0):
    """Messages in arrival order with watermark events: ["m", ts, value] / ["w", ts]."""
    if n is None:
        n = rng.randint(1, 12)
        if big and rng.random() < 0.07:  # more than a small constant in the code could hide
            n = min(big, rng.choice([rng.randint(13, 40), rng.randint(13, 40), rng.randint(60, 300)]))
    unit = min(period, size)
    if base is None:
        base = rng.choice([0, 0, 1_600_000_000 * US, -7 * period, -3 * US, 12345 * US + 250_000, period * 1000])
    gran = rng.choice([unit, unit // 2 or 1, unit // 4 or 1, 1, unit // 10 or 1])
    span = rng.choice([2, 4, 8] if n <= 12 else [4, 16, 64]) * unit
    ts = []
    for i in range(n):
        t = base + (rng.randrange(max(1, span)) // gran) * gran
        if rng.random() < 0.15 and ts:
            t = rng.choice(ts)
        if rng.random() < 0.1:
            t = (t // period) * period + rng.choice([0, -1, 1])  # on a window edge
        ts.append(t)
    ts.sort()
    # delivery disorder
    jitter = rng.choice([0, 0, 1, 3, n])
    order = sorted(range(n), key=lambda i: i + (rng.random() * jitter if jitter else 0))
    feed = []
    hi = None
    lag = rng.choice([0, unit // 2, unit, 3 * unit])
    every = rng.choice([1, 2, 4, 100])
    ids = list(range(n))
    for k, i in enumerate(order):
        if vkind == "number":
            v = rng.choice([3, 7]) if dup else 1000 + i
            if i % 9 == 4 and rng.random() < 0.3:
                v = 0
        elif vkind == "json":
            v = {"id": 0 if dup else i, "x": [i % 3, "s\u00e9"]} if rng.random() < 0.7 else [i, {"a": None}]
            if rng.random() < 0.1:
                v = rng.choice([None, False, 0, "", [], {}, 1.5, True])
            if dup:
                v = {"id": 0}
        else:
            v = "dup" if dup else rng.choice(["m%d", "m %d!", "\u6ce2%d"]) % i
        feed.append(["m", ts[i], v])
        hi = ts[i] if hi is None else max(hi, ts[i])
        if mode == "stream" and (k + 1) % every == 0 and lateness:
            feed.append(["w", hi - lag + rng.choice([0, 0, 1, -1])])
    return feed


def gen_cfg(rng, faults=True):
    c = {"eager": rng.choice([None, True, False])}
    if faults and rng.random() < 0.7:
        c["p_crash"] = rng.choice([0.01, 0.03, 0.08])
        c["max_crashes"] = rng.choice([1, 3, 6])
    if rng.random() < 0.4:
        c["p_restart"] = 0.1
    if rng.random() < 0.7:
        c["max_bundle"] = rng.choice([1, 2, 3])
    if rng.random() < 0.6:
        c["p_interleave"] = rng.choice([0.2, 0.6])
    if rng.random() < 0.6:
        c["p_reorder"] = rng.choice([0.1, 0.4])
    if rng.random() < 0.5:
        c["p_fire_reorder"] = rng.choice([0.1, 0.4])
    if rng.random() < 0.8:
        c["clock"] = rng.randrange(1, 1000)
    return c


def gen_app(rng, **kw):
    a = {"kind": rng.choice(["same", "token"])}
    a.update(kw)
    return a


def pool_opts(seed, size=None, **kw):
    """A pool of pipeline configurations per shard, so that built graphs can be reused between runs: every algorithm with every
    class of window geometry."""
    rng = random.Random(derive("pool", seed))
    if size is not None:
        return [gen_opts(rng, **kw) for _ in range(size)]
    return [gen_opts(rng, algo=a, sizes=c, **kw) for c in SIZE_CLASSES for a in sorted(ALGOS)]


def gen_pipeline_scenario(seed, opts_pool, p_map=0.0, p_solve=0.0, p_unmap=0.0, app=None, mode=None, vkind=None, faults=True, mtype=None, n=None, big=300):
    rng = random.Random(derive("pipe", seed))
    slot = rng.randrange(len(opts_pool))
    algo, o = opts_pool[slot]
    size, period = geometry(algo, o)
    reassign = "input.reassign_timestamp" in o
    mode = mode or ("batch" if reassign else rng.choice(["stream", "stream", "batch"]))
    crng = random.Random(derive("slot", slot, canon(opts_pool)))  # fixed per configuration, so that its graph can be reused
    vkind = vkind or crng.choice(["number", "number", "json", "text"])
    mtype = mtype or crng.choice(["ising", "qubo"])
    a = dict(app) if app is not None else gen_app(rng)
    pf = rng.random() < 0.6
    a["p_map"], a["p_solve"], a["p_unmap"] = (p_map, p_solve, p_unmap) if pf else (0.0, 0.0, 0.0)
    cfg = gen_cfg(rng, faults)
    feed = gen_feed(rng, size, period, mode, n=n, dup=rng.random() < 0.15, vkind=vkind, big=big)
    return {
        "algo": algo, "opts": o, "mode": mode, "vkind": vkind, "mtype": mtype,
        "app": a, "cfg": cfg, "feed": feed,
    }


# ------------------------------------------------------------------------------------------------- construction

_cache = OrderedDict()


def real_options(o):
    o = dict(o)
    if "filter_fn" in o:
        o["filter_fn"] = appkit.FILTERS[o["filter_fn"]]
    return o


def make_solver(w):
    s = w["app"].get("solver", "token")
    if s in ("exact", "npp"):
        return sawatabi.solver.LocalSolver(exact=True)
    if s == "sawatabi":
        return sawatabi.solver.SawatabiSolver()
    return None


def build(w, fresh=False, options=None, input_fn=None, output_fn=None, solver=None):
    key = canon([w["algo"], w["opts"], w["vkind"], w["mtype"], w["app"].get("solver"), w.get("mode")])
    if not fresh and key in _cache:
        _cache.move_to_end(key)
        return _cache[key]
    IO = sawatabi.algorithm.IO
    if input_fn is None:
        reader = {"number": IO.read_from_pubsub_as_number, "json": IO.read_from_pubsub_as_json, "text": IO.read_from_pubsub}[w["vkind"]]
        input_fn = reader(project=PROJECT, topic=TOPIC_IN)
    if output_fn is None:
        output_fn = IO.write_to_pubsub(project=PROJECT, topic=TOPIC_OUT)
    kw = {}
    solver = solver or make_solver(w)
    if solver is not None:
        kw["solver"] = solver
    args = ["--runner=DirectRunner"] + (["--streaming"] if w["mode"] == "stream" else [])
    p = ALGOS[w["algo"]].create_pipeline(
        options if options is not None else real_options(w["opts"]),
        input_fn=input_fn, map_fn=appkit.map_fn, solve_fn=appkit.solve_fn, unmap_fn=appkit.unmap_fn, output_fn=output_fn,
        initial_mtype=w["mtype"], pipeline_args=args, **kw)
    if not fresh:
        _cache[key] = p
        while len(_cache) > 160:
            _cache.popitem(last=False)
    return p


def encode_value(v, vkind):
    if vkind == "number":
        return str(v).encode()
    if vkind == "json":
        return json.dumps(v, ensure_ascii=False).encode("utf-8")
    return v.encode("utf-8")


def feed_events(w):
    res = []
    for ev in w["feed"]:
        if ev[0] == "m":
            res.append(["msg", encode_value(ev[2], w["vkind"]), ev[1]])
        else:
            res.append(["wm", ev[1]])
    return res


def execute(w, tape, log=None, fresh=False, name="p", cfg_override=None, pipeline=None):
    log = log or Log()
    cfg = dict(w["cfg"])
    cfg["mode"] = w["mode"]
    cfg["app"] = w["app"]
    cfg["algo"] = w["algo"]
    if cfg_override:
        cfg.update(cfg_override)
    p = pipeline if pipeline is not None else build(w, fresh=fresh)
    seams.set_clock(seams.WanderingClock(cfg.get("clock", 0)))
    run = beamsim.BeamRun(p, tape, log, cfg, feed_events(w), name=name)
    run.w = w
    if "start" in cfg:
        return run
    run.run()
    log_outputs(run)
    return run


def log_outputs(run):
    """Everything observable goes into the event log, so that the determinism self-test compares it."""
    for kind, data in run.committed_records:
        run.log.add("call", kind, repr(sorted(data.items())))
    for kind, target, v in run.committed:
        run.log.add("out", kind, repr(v))
    if run.dead is not None:
        run.log.add("deadmsg", repr(run.dead)[:200])
    ts = [ev[1] for ev in run.feed if ev[0] == "wm"] + [ev[2] for ev in run.feed if ev[0] == "msg"]
    if ts:
        run.log.simtime += (max(ts) - min(ts)) / US


# ------------------------------------------------------------------------------------------------- reference


class Reference:
    """What the windows must contain, computed from the input alone with our own window arithmetic."""

    def __init__(self, run):
        w = run.w
        self.run, self.w = run, w
        self.algo, self.opts = w["algo"], w["opts"]
        self.size, self.period = geometry(self.algo, self.opts)
        self.reassign = "input.reassign_timestamp" in self.opts
        self.msgs = [(ev[1], appkit.esc(ev[2])) for ev in w["feed"] if ev[0] == "m"]
        self.windows = {}  # (start, end) -> Counter of (ts, value); None-values in reassign mode
        self._compute()

    def _compute(self):
        if self.reassign:
            for i in range(len(self.msgs)):
                for win in windows_of(i * US, self.size, self.period):
                    self.windows.setdefault(win, Counter())[(i * US, None)] += 1
            return
        # late drops that the (trusted) grouping service performed, only legitimate for messages that were behind the
        # source watermark when they arrived
        wm = -(10**18)
        late = Counter()
        for ev in self.w["feed"]:
            if ev[0] == "w":
                wm = max(wm, ev[1])
            elif ev[1] < wm and self.w["mode"] == "stream":
                late[(ev[1], appkit.esc(ev[2]))] += 1
        drops = {}
        for kind, win, value, ts, _wm in self.run.gbk_log:
            if kind == "drop":
                v = find_value(value)
                drops.setdefault((win.start.micros, win.end.micros), Counter())[(ts.micros, v)] += 1
        self.late = late
        for m in self.msgs:
            for win in windows_of(m[0], self.size, self.period):
                self.windows.setdefault(win, Counter())[m] += 1
        for win, c in drops.items():
            if win in self.windows:
                for m, k in c.items():
                    k = min(k, late.get(m, 0))
                    self.windows[win][m] -= k
                self.windows[win] = +self.windows[win]
        self.windows = {win: c for win, c in self.windows.items() if c}


def find_value(v):
    """The message value inside whatever shape the grouping input has: HEAD uses (float, (index, value))."""
    while isinstance(v, tuple) and len(v) == 2:
        v = v[1]
    return appkit.esc(v)


def solve_stage(run):
    st = [n.idx for n in run.nodes if n.kind == "stateful"]
    if not st:
        raise HarnessError("no stateful step in the pipeline")
    return st[-1]


def delivered(run):
    """Times (micros) of the windows that reached the solving step, in processing order (committed)."""
    return [t for t, _ in run.stage_log.get(solve_stage(run), [])]


def handled_flags(times):
    prev = None
    res = []
    for t in times:
        if prev is not None and t < prev:
            res.append(False)
        else:
            res.append(True)
            prev = t
    return res


def calls(run, kind):
    return [d for k, d in run.committed_records if k == kind]


def outputs(run):
    res = []
    for kind, target, v in run.committed:
        if kind == "pubsub":
            res.append(v)
    return res
