"""C16: time stamps and durations under a simulated clock that moves, stalls and jumps at every reading."""
import copy
import random

from sim import history as H
from sim import seams
from sim.checks.modelcheck import WALL, Found, ModelCheck, Runner, Stop
from sim.core import Violation, derive


class RngProxy:
    """The real generator; every draw takes simulated time."""

    def __init__(self, gen, tick):
        self.__dict__["_g"], self.__dict__["_t"] = gen, tick

    def __getattr__(self, name):
        v = getattr(self._g, name)
        if callable(v) and not name.startswith("_"):
            def f(*a, **k):
                self._t()
                return v(*a, **k)
            return f
        return v


UNITS = {"current_time": 1, "current_time_ms": 1e3, "current_time_us": 1e6, "current_time_ns": 1e9}


class C16(ModelCheck):
    id = "C16"
    runs_quick = 150
    weights = {"add": 12, "upd": 12, "clock": 8, "con_add": 1, "phys": 2, "restart": 2}

    def finish(self, w, rng):
        acts = []
        for _ in range(rng.randint(3, 9)):
            k = rng.choice(["helper", "helper", "profile", "profile", "local", "exact", "sawatabi", "clock"])
            a = {"k": k, "d": rng.choice([0.0, 0.001, 0.5, 2.0, 3600.0]), "jump": rng.choice([0.0, 10.0, -10.0, -86400.0, 1e6])}
            if k == "helper":
                a["fn"] = rng.choice(sorted(UNITS)) + rng.choice(["", "_as_int"])
            if k == "profile":
                a.update(ret=rng.choice([None, 0, "s", [1], {"a": 1}]), exc=rng.random() < 0.2, nested=rng.random() < 0.3, args=[rng.randrange(5), rng.randrange(5)])
            if k in ("local", "sawatabi", "exact"):
                a.update(seed=rng.randrange(100), reads=rng.randint(1, 3), sweeps=rng.randint(0, 6), fail=rng.random() < 0.15)
            acts.append(a)
        w["acts"] = acts
        return w

    def deletable(self, path):
        return path and path[0] in ("ops", "acts") and len(path) == 1

    def history(self, w, tape, log):
        R = Runner(w, log)
        clock = R.clock

        def on_read(kind):
            c = tape.choose("read", 5, weights=(5, 2, 1, 1, 1))
            if c == 1:
                clock.advance(0.125)
            elif c == 2:
                clock.jump_wall(-30.0)
                log.fault("clock_jump_back_at_reading")
            elif c == 3:
                clock.jump_wall(3600.0)
                log.fault("clock_jump_forward_at_reading")
            elif c == 4:
                clock.advance(1e-6)

        clock.on_read = on_read
        for i, op in enumerate(w["ops"]):
            ref = R.refs[0]
            model = R.models[0]
            k = op["op"]
            if k not in ("add", "upd", "import", "fix"):
                clock.on_read = None
                try:
                    R.step(i, op)
                finally:
                    clock.on_read = on_read
                continue
            before = {str(r["name"]): r["ts"] for r in ref.live()}
            clock.readings.clear()
            t_before = clock.wall
            v = self.timed_step(R, i, op, before, t_before, clock)
            if v is not None:
                return v
        clock.on_read = on_read
        v = self.acts(R, w, tape, log, clock)
        log.simtime += clock.mono - 1000.0
        return v

    def timed_step(self, R, i, op, before, t_before, clock):
        ref, model = R.refs[0], R.models[0]
        rs = ref.resolve(op, clock.wall, R.refs)
        if rs is None:
            return None
        cop, exp = rs
        try:
            H.execute(model, cop)
        except Exception as e:  # noqa: BLE001
            R.log.add("op", i, "raise", type(e).__name__)
            if exp == "ok":
                return Violation("rejected-valid:" + cop["op"], f"operation {i} {cop} was rejected with {type(e).__name__}: {e}")
            return None
        if exp == "raise":
            raise Stop()
        R.log.probe("ops")
        readings = [w for k, w in clock.readings if k == "wall"]
        R.log.add("op", i, cop["op"], len(readings))
        hook, clock.on_read = clock.on_read, None
        try:
            live, _ = H.rows_of(copy.deepcopy(model), R.feeds)
            now = {str(r["name"]): r["ts"] for r in live}
            name = None
            if cop["op"] in ("add", "upd"):
                name = cop.get("name") or H.Ref.default_name(cop["target"])
                if "timestamp" in cop:
                    if now.get(name) != H.plain(cop["timestamp"]):
                        return Violation("explicit-timestamp", f"operation {i}: the timestamp {cop['timestamp']} given explicitly was stored as {now.get(name)}")
                elif not any(now.get(name) == x for x in readings):
                    return Violation("timestamp", f"operation {i} ({cop['op']}): stamped {now.get(name)}, but the wall clock during the call read {readings or [t_before]}")
            for n, ts in now.items():
                if n == name:
                    continue
                if n in before:
                    if ts != before[n]:
                        return Violation("timestamp-other", f"operation {i} ({cop['op']}) changed the timestamp of '{n}' from {before[n]} to {ts}")
                elif readings and not (min(readings + [t_before]) <= ts <= max(readings + [clock.wall])):
                    return Violation("timestamp-new", f"operation {i} ({cop['op']}): new interaction '{n}' is stamped {ts}, the clock read {readings}")
            ref.apply(cop, 0.0)
            ref.adopt(model)
            if cop["op"] == "import":
                ref.offset = H.evaluate(copy.deepcopy(model).get_offset(), R.feeds)
        finally:
            clock.on_read = hook
        return None

    def acts(self, R, w, tape, log, clock):
        import sawatabi
        from sawatabi.model import LogicalModel

        for i, a in enumerate(w["acts"]):
            k = a["k"]
            log.add("act", i, k)
            log.probe("ops")
            if k == "clock":
                clock.advance(a["d"])
                clock.jump_wall(a["jump"])
                log.fault("clock_jump")
                continue
            if k == "helper":
                clock.readings.clear()
                got = getattr(sawatabi.utils, a["fn"])()
                readings = [x for kk, x in clock.readings if kk == "wall"] or [clock.wall]
                unit = UNITS[a["fn"].replace("_as_int", "")]
                if a["fn"].endswith("_as_int"):
                    ok = isinstance(got, int) and any(-1e-6 * unit - 1e-9 <= x * unit - got < 1 + 1e-6 * unit for x in readings)
                else:
                    ok = isinstance(got, (int, float)) and any(abs(x * unit - got) <= 1e-6 * unit for x in readings)
                if not ok:
                    return Violation("helper:" + a["fn"], f"{a['fn']}() returned {got!r}, the wall clock read {readings}")
                continue
            inner = [0.0]

            def work():
                clock.advance(a["d"])
                inner[0] += a["d"]
                clock.jump_wall(a["jump"])
                if a["jump"]:
                    log.fault("clock_jump_during_call")

            m0 = clock.mono
            if k == "profile":
                v = self.profiled(a, i, work, inner, clock, log)
                if v is not None:
                    return v
                continue
            v = self.solve(a, i, work, inner, clock, m0, log, LogicalModel)
            if v is not None:
                return v
        return None

    def profiled(self, a, i, work, inner, clock, log):
        import sawatabi

        marker = a["ret"]

        class Boom(Exception):
            pass

        seen = []

        @sawatabi.utils.profile
        def my_function(*args, **kw):
            seen.append((args, kw))
            work()
            if a["exc"]:
                raise Boom("x")
            return marker

        fn = my_function
        if a["nested"]:
            @sawatabi.utils.profile
            def outer_function(*args, **kw):
                return my_function(*args, **kw)

            fn = outer_function
        m0 = clock.mono
        try:
            r = fn(*a["args"], key="v")
        except Boom:
            log.fault("profiled_function_raises")
            return None if a["exc"] else Violation("profile-exc", "unexpected exception")
        total = clock.mono - m0
        if seen != [(tuple(a["args"]), {"key": "v"})]:
            return Violation("profile-args", f"the wrapped function was called with {seen}")
        levels = [("outer_function", r), ("my_function", r["return"])] if a["nested"] else [("my_function", r)]
        for name, d in levels:
            if d["profile"]["function_name"] != name:
                return Violation("profile-name", f"function_name is {d['profile']['function_name']}, expected {name}")
            sec = d["profile"]["execution_sec"]
            if not (inner[0] - 5e-6 <= sec <= total + 5e-6):
                return Violation("profile-duration", f"execution_sec is {sec}, but the function took {inner[0]} s and the whole call {total} s of monotonic time (wall jumped by {a['jump']})")
        if levels[-1][1]["return"] is not marker:
            return Violation("profile-return", "the wrapped function's result was not passed through")
        return None

    def solve(self, a, i, work, inner, clock, m0, log, LogicalModel):
        import dimod
        import neal
        from sawatabi.solver import LocalSolver, SawatabiSolver

        hook, clock.on_read = clock.on_read, None
        m = LogicalModel(mtype="qubo" if a["seed"] % 2 else "ising")
        x = m.variables("x", shape=(3,))
        m.add_interaction(x[0], coefficient=1.0)
        m.add_interaction((x[0], x[1]), coefficient=-1.0)
        m.add_interaction((x[1], x[2]), coefficient=0.5)
        p = m.to_physical()
        clock.on_read = hook
        undo = []

        class Fail(Exception):
            pass

        def patch(cls, name):
            real = getattr(cls, name)

            def wrapped(*args, **kw):
                work()
                if a["fail"]:
                    raise Fail("sampler failed")
                r = real(*args, **kw)
                clock.advance(a["d"])
                inner[0] += a["d"]
                return r

            setattr(cls, name, wrapped)
            undo.append((cls, name, real))

        first = [True]

        def rng_hook(*args, **kw):
            def tick():
                if first[0]:
                    first[0] = False
                    work()
                else:
                    clock.advance(a["d"])
                    inner[0] += a["d"]

            return RngProxy(seams.REAL["default_rng"](*args, **kw), tick)

        m0 = clock.mono
        try:
            if k_is(a, "sawatabi"):
                seams.set_rng(rng_hook)
                r = SawatabiSolver().solve(p, num_reads=a["reads"], num_sweeps=a["sweeps"], seed=a["seed"])
            else:
                patch(neal.SimulatedAnnealingSampler, "sample") if k_is(a, "local") else patch(dimod.ExactSolver, "sample")
                kw = {"num_reads": a["reads"], "num_sweeps": max(1, a["sweeps"]), "seed": a["seed"] + 1} if k_is(a, "local") else {}
                r = LocalSolver(exact=k_is(a, "exact")).solve(p, **kw)
        except Fail:
            log.fault("sampler_failure")
            return None
        finally:
            seams.set_rng(None)
            for cls, name, real in undo:
                setattr(cls, name, real)
        total = clock.mono - m0
        sec = r.info["timing"]["execution_sec"]
        if not (inner[0] - 5e-6 <= sec <= total + 5e-6):
            return Violation("solver-duration", f"{a['k']} solver: execution_sec is {sec}, but sampling took {inner[0]} s and the whole call {total} s of monotonic time (wall jumped by {a['jump']})")
        return None


def k_is(a, k):
    return a["k"] == k
