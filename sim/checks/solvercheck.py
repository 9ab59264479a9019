"""C18-C22: the solvers."""
import copy
import json
import os
import random
import shutil
import tempfile

import numpy as np

from sim import history as H
from sim import remote, seams
from sim import solverkit as S
from sim.core import HarnessError, Violation, derive
from sim.threads import Sched


class SolverCheck:
    runs_quick = 150
    runs_thorough = 20000

    def deletable(self, path):
        return len(path) == 1 or (len(path) == 2 and path[-1] == "ops")

    def run(self, w, tape, log):
        H.UNIT = min([1.0] + [m.get("unit", 1.0) for m in [w.get("model")] + list(w.get("models") or []) if isinstance(m, dict)])
        H.SHARED.clear()
        try:
            v = self.go(w, tape, log)
        finally:
            H.UNIT = 1.0
        log.simtime += 1.0
        return v


# ---------------------------------------------------------------------------------------------------------------------


def g_params(rng, allow_extreme=True):
    p = {
        "num_reads": rng.choice([1, 1, 2, 3, 5]),
        "num_sweeps": rng.choice([0, 1, 2, 3, 7, 15]),
        "cooling_rate": rng.choice([0.9, 0.5, 0.1, 1.0] + ([0.0] if allow_extreme else [])),
        "initial_temperature": rng.choice([100.0, 1.0, 0.1, 1e-9] + ([0.0, 1e-300] if allow_extreme else [])),
        "pickup_mode": rng.choice(["random", "sequential"]),
    }
    if rng.random() < 0.25:
        p["reverse_options"] = {"reverse_period": rng.randrange(0, 8), "reverse_temperature": rng.choice([1.0, 10.0, 100.0])}
    for k in list(p):
        if rng.random() < 0.2 and k not in ("num_sweeps", "num_reads"):
            del p[k]
    if rng.random() < 0.04:
        # the temperature underflows to zero
        p["num_sweeps"], p["cooling_rate"], p["num_reads"] = 1200, 0.5, 1
    return p


def g_states(rng, reads):
    return [[rng.randrange(2) for _ in range(12)] for _ in range(reads)]


def make_states(bits, names, vartype, extra=False):
    lo = -1 if vartype == "SPIN" else 0
    res = []
    for b in bits:
        st = {n: (1 if b[i % len(b)] else lo) for i, n in enumerate(names)}
        if b[0]:
            st = dict(reversed(list(st.items())))  # the order of the keys means nothing
        if extra:
            st["no such variable"] = 1
        res.append(st)
    return res


class C18(SolverCheck):
    id = "C18"
    runs_quick = 1500

    def gen(self, seed, shard_seed):
        rng = random.Random(derive("c18", seed))
        p = g_params(rng)
        if rng.random() < 0.02:
            p["num_reads"], p["num_sweeps"] = rng.choice([101, 257, 1001, 1025]), rng.choice([0, 1])
        w = {"model": S.g_big(rng, sizes=(7, 9, 12, 17)) if rng.random() < 0.05 else S.g_model(rng), "params": p, "stats": rng.random() < 0.8}
        u = w["model"]["unit"]
        if u != 1.0 and "initial_temperature" in p and rng.random() < 0.8:
            p["initial_temperature"] *= u
            if "reverse_options" in p:
                p["reverse_options"]["reverse_temperature"] *= u
        if rng.random() < 0.6:
            w["initial"] = g_states(rng, p["num_reads"])
            w["extra"] = rng.random() < 0.1
        return w

    def go(self, w, tape, log):
        from sawatabi.solver import SawatabiSolver

        b = S.build(w["model"], log)
        if b is None:
            return None
        logical, phys, poly = b
        names = S.poly_vars(poly)
        bqm = phys.to_bqm()
        all_names = sorted(str(v) for v in bqm.variables)
        vt = H.model_vartype(phys)
        kw = copy.deepcopy(w["params"])
        if "initial" in w:
            kw["initial_states"] = make_states(w["initial"], all_names, vt, w.get("extra"))
        kw["need_stats"] = w["stats"]
        kw0 = copy.deepcopy(kw)
        seams.set_rng(lambda *a, **k: S.ScriptRng(tape, log))
        try:
            r = SawatabiSolver().solve(phys, **kw)
        finally:
            seams.set_rng(None)
        ss, stats = r if w["stats"] else (r, None)
        log.add("solve", S.sampleset_digest(ss))
        log.probe("solves")
        log.probe("nontrivial")
        if kw != kw0:
            return Violation("args-modified", "the arguments (initial states or options) were modified", {"before": str(kw0), "after": str(kw)})
        reads, sweeps = kw["num_reads"], kw["num_sweeps"]
        v = check_samples(ss, poly, all_names, vt, reads)
        if v is not None:
            return v
        got = []
        for d in ss.data(sorted_by=None):
            got += [tuple(sorted((str(k), int(x)) for k, x in dict(d.sample).items()))] * int(d.num_occurrences)
        starts = None
        if "initial" in w:
            starts = [tuple(sorted((n, st[n]) for n in all_names)) for st in kw0["initial_states"]]
            if sweeps == 0 and sorted(got) != sorted(starts):
                return Violation("zero-sweeps", "with zero sweeps the initial states are not returned unchanged", {"got": got, "initial": starts})
        if stats is None:
            return None
        if len(stats) != reads:
            return Violation("stats-reads", f"{len(stats)} statistics for {reads} reads")
        mag = S.magnitude(poly)
        if len(all_names) > 10:
            for r_i, st in enumerate(stats):
                if starts is not None and sweeps and not near(st["energy_history"][0], S.energy(poly, dict(starts[r_i])), mag):
                    return Violation("stats-start", f"energy_history starts with {st['energy_history'][0]}, the initial state's energy is {S.energy(poly, dict(starts[r_i]))}")
                if not all(0 <= a <= len(all_names) for a in st["acceptance_history"]):
                    return Violation("stats-acceptance", f"acceptances {st['acceptance_history']} with {len(all_names)} variables")
            return None
        table = [(tuple(sorted(dict(st, **{n: 1 for n in all_names if n not in st}).items())), S.energy(poly, st)) for st in S.states(poly, vt)] if len(names) == len(all_names) else None
        if table is None:
            return None
        remaining = list(got)
        for r_i, st in enumerate(stats):
            eh, ah = list(st["energy_history"]), list(st["acceptance_history"])
            for k in ("energy_history", "temperature_history", "acceptance_history"):
                if len(st[k]) != sweeps:
                    return Violation("stats-length", f"{k} has {len(st[k])} entries for {sweeps} sweeps")
            cur = None
            if starts is not None:
                cur = {starts[r_i]}
                if sweeps and not near(eh[0], S.energy(poly, dict(starts[r_i])), mag):
                    return Violation("stats-start", f"energy_history starts with {eh[0]}, the initial state's energy is {S.energy(poly, dict(starts[r_i]))}")
            else:
                cur = {s for s, _ in table}
            for k in range(min(sweeps, 40)):
                here = {s for s in cur if near(eh[k], S.energy(poly, dict(s)), mag)} if len(cur) <= 128 else cur
                if not here:
                    return Violation("stats-energy", f"energy_history[{k}] = {eh[k]} is not the energy of any state that can have been reached", {"history": eh[:k + 1], "acceptances": ah[:k + 1]})
                if not 0 <= ah[k] <= len(all_names):
                    return Violation("stats-acceptance", f"acceptance_history[{k}] = {ah[k]} with {len(all_names)} variables")
                if ah[k] == 0:
                    cur = here
                else:
                    cur = {s for s, _ in table if any(sum(1 for x, y in zip(s, t) if x != y) <= ah[k] for t in here)}
            if sweeps <= 40:
                hit = next((s for s in remaining if s in cur), None)
                if hit is None:
                    return Violation("stats-final", f"no returned sample can be the final state of read {r_i}", {"samples": remaining, "history": eh})
        return None


def near(a, b, mag=None):
    """mag: the magnitude of the energies of this model (the tolerance then scales with it)."""
    if mag is not None:
        return abs(float(a) - float(b)) <= 1e-8 * mag
    return abs(float(a) - float(b)) <= 1e-6 * max(1.0, abs(float(b)))


def check_samples(ss, poly, names, vt, reads):
    """names: the variables of the physical model; poly: its polynomial."""
    if ss.vartype.name != vt:
        return Violation("vartype", f"the samples are {ss.vartype.name}, the model is {vt}")
    if sorted(str(v) for v in ss.variables) != names:
        return Violation("sample-variables", f"samples are over {sorted(str(v) for v in ss.variables)}, the model's variables are {names}")
    vals = {1, -1} if vt == "SPIN" else {0, 1}
    mag = S.magnitude(poly)
    total = 0
    for d in ss.data(sorted_by=None):
        st = {str(k): int(v) for k, v in dict(d.sample).items()}
        if not set(st.values()) <= vals:
            return Violation("sample-values", f"sample {st} holds values outside {sorted(vals)}")
        e = S.energy(poly, st)
        if not near(d.energy, e, mag):
            return Violation("energy", f"sample {st} is reported with energy {d.energy}, the model gives {e}")
        total += int(d.num_occurrences)
    if reads is not None and total != reads:
        return Violation("reads", f"{total} samples returned for {reads} reads")
    return None


# ---------------------------------------------------------------------------------------------------------------------


class C19(SolverCheck):
    id = "C19"
    runs_quick = 350

    def gen(self, seed, shard_seed):
        rng = random.Random(derive("c19", seed))
        jobs = []
        for _ in range(rng.randint(2, 4)):
            p = g_params(rng)
            p["num_sweeps"] = min(p["num_sweeps"], 7)
            p["seed"] = rng.choice([0, 0, 1, 2, rng.randrange(2**31)])
            p["need_stats"] = rng.random() < 0.5
            j = {"model": rng.randrange(2), "inst": rng.randrange(2), "params": p}
            if rng.random() < 0.3:
                j["initial"] = g_states(rng, p["num_reads"])
            jobs.append(j)
        seq = []
        for _ in range(rng.randint(2, 6)):
            seq.append({"job": rng.randrange(4), "fail": rng.choice([None, None, "rng", "state", "empty", "args"]), "at": rng.randint(1, 4), "noise": rng.choice([None, "seed", "draw"]), "unseeded": rng.random() < 0.3})
        models = [S.g_big(rng, sizes=(8, 12, 17)) if rng.random() < 0.08 else S.g_model(rng, length=(2, 6)) for _ in range(2)]
        return {"models": models, "jobs": jobs, "seq": seq, "threads": rng.random() < 0.7, "noise_thread": rng.random() < 0.4, "remote": rng.random() < 0.25}

    def deletable(self, path):
        return len(path) == 1 and path[0] in ("seq",)

    def go(self, w, tape, log):
        from sawatabi.solver import SawatabiSolver

        phys = []
        for m in w["models"]:
            b = S.build(m, log)
            if b is not None:
                phys.append(b[1])
        if not phys or not w["jobs"]:
            return None
        jobs = []
        for j in w["jobs"]:
            p = phys[j["model"] % len(phys)]
            kw = copy.deepcopy(j["params"])
            if "initial" in j:
                bqm = p.to_bqm()
                kw["initial_states"] = make_states(j["initial"], sorted(str(v) for v in bqm.variables), H.model_vartype(p))
            jobs.append((p, kw, j["inst"]))

        def solve(inst, p, kw):
            return S.digest(inst.solve(p, **copy.deepcopy(kw)))

        seams.reset_process_randomness(7)
        want = []
        for p, kw, _ in jobs:
            want.append(solve(SawatabiSolver(), p, kw))
        log.add("want", want)
        log.probe("nontrivial")
        log.probe("solves", len(jobs))
        # again, in another global random state: the result is a function of the arguments
        insts = [SawatabiSolver(), SawatabiSolver()]
        seams.reset_process_randomness(99)
        for s in w["seq"]:
            i = s["job"] % len(jobs)
            p, kw, inst = jobs[i]
            solver = insts[inst]
            if s["noise"] == "seed":
                seams.reset_process_randomness(s["at"])
                log.fault("global_reseed")
            elif s["noise"] == "draw":
                random.random()
                np.random.random(3)
                log.fault("global_draws")
            st = rng_state()
            if s["fail"] is not None:
                self.failing(solver, p, kw, s, tape, log)
                v = same_state(st, "a failing solve")
                if v is not None:
                    return v
                st = rng_state()
            if s.get("unseeded"):
                solve(solver, p, dict(kw, seed=None))
                log.probe("unseeded_solves")
                v = same_state(st, "an unseeded solve")
                if v is not None:
                    return v
            got = solve(solver, p, kw)
            v = same_state(st, "a solve")
            if v is not None:
                return v
            if not H.close(got, want[i]):
                return Violation("not-reproducible", f"job {i} (seed {kw['seed']}) gave another result after {s}", {"got": got, "want": want[i]})
        if w["threads"]:
            sch = Sched(tape, log)
            fns = [lambda p=p, kw=kw: solve(SawatabiSolver(), p, kw) for p, kw, _ in jobs]
            if w["noise_thread"]:
                def noise():
                    for k in range(5):
                        random.seed(k)
                        np.random.seed(k)
                        solve(SawatabiSolver(), jobs[0][0], dict(jobs[0][1], seed=None))

                fns.append(noise)
            st = rng_state()
            outs = sch.run(fns)
            for i in range(len(jobs)):
                kind, val = outs[i]
                if kind != "ok":
                    return Violation("thread-exception", f"job {i} raised {val!r} when interleaved with others")
                if not H.close(val, want[i]):
                    return Violation("thread-interference", f"job {i} (seed {jobs[i][1]['seed']}) gave another result when interleaved with solves on other instances", {"got": val, "want": want[i]})
            if not w["noise_thread"]:
                v = same_state(st, "interleaved solves")
                if v is not None:
                    return v
        if w["remote"]:
            p, kw, _ = jobs[0]
            got = remote.get().call("solve", SawatabiSolver(), p, copy.deepcopy(kw))
            log.fault("run_in_other_process")
            if not H.close(got, want[0]):
                return Violation("other-process", "the same model, parameters and seed give another result in another process", {"got": got, "want": want[0]})
        return None

    def failing(self, solver, p, kw, s, tape, log):
        from sawatabi.model import PhysicalModel

        kw = copy.deepcopy(kw)
        try:
            if s["fail"] == "rng":
                seams.set_rng(lambda *a, **k: S.ScriptRng(tape, log, label="f", fail_at=s["at"]))
                solver.solve(p, **kw)
            elif s["fail"] == "state":
                kw["initial_states"] = [{"x[0]": 1}] * kw["num_reads"]
                solver.solve(p, **kw)
            elif s["fail"] == "empty":
                solver.solve(PhysicalModel(mtype="qubo"), **kw)
            else:
                solver.solve(p, **dict(kw, pickup_mode="invalid"))
        except Exception as e:  # noqa: BLE001
            log.fault("failing_solve_" + s["fail"])
            log.add("failed", type(e).__name__)
        finally:
            seams.set_rng(None)


def rng_state():
    s = np.random.get_state()
    return random.getstate(), (s[0], s[1].tobytes(), s[2:])


def same_state(st, what):
    if rng_state() != st:
        return Violation("global-randomness", f"{what} disturbed a process-wide random generator")
    return None


# ---------------------------------------------------------------------------------------------------------------------

BAD_REPLIES = ["refused", "reset", "timeout", "connect_timeout", "ssl", "truncated", "corrupted", "status", "html", "empty", "missing_spins", "missing_energies", "short_spins", "long_spins", "no_spins_row",
               "bad_values", "string_values", "short_energies", "long_energies", "one_energy", "bad_energies", "null", "list", "error_json", "short_all", "none_row"]


class C20(SolverCheck):
    id = "C20"
    runs_quick = 2000

    def fixed_scenarios(self):
        return [{"model": S.g_model(random.Random(1), mtype="qubo"), "auth": "args", "solves": [{"opts": {}, "reply": "stall", "reads": 2, "seed": 1, "cut": 50, "gzip": True}], "stall_only": True}]

    def gen(self, seed, shard_seed):
        rng = random.Random(derive("c20", seed))
        solves = []
        for _ in range(rng.randint(1, 4)):
            o = {}
            for k, vals in (("num_unit_steps", [1, 10, 100]), ("timeout", [1000, 30000]), ("duplicate", [True, False]), ("gzip_request", [True, False]), ("gzip_response", [True, False])):
                if rng.random() < 0.6:
                    o[k] = rng.choice(vals)
            solves.append({"opts": o, "reply": rng.choice(["ok", "ok", rng.choice(BAD_REPLIES), rng.choice(["status", rng.choice(BAD_REPLIES)])]), "reads": rng.choice([1, 2, 3, 6]), "seed": rng.randrange(1000), "cut": rng.randrange(100), "gzip": rng.random() < 0.5,
                           "length": rng.choice(["full", "actual"]), "status": rng.choice([201, 204, 400, 401, 403, 404, 429, 500, 502, 503])})
            if rng.random() < 0.1:
                solves[-1]["config_fault"] = rng.choice(["missing", "directory", "garbage", "nokeys", "truncated", "empty"])
            if rng.random() < 0.06:
                solves[-1]["ising"] = True
        return {"model": S.g_model(rng, mtype="qubo"), "auth": rng.choice(["args", "args", "config", "config", "home", "both", "endpoint_only", "token_only", "nothing"]), "solves": solves}

    def deletable(self, path):
        return path == ("solves",) or path == ("model", "ops")

    def go(self, w, tape, log):
        b = S.build(w["model"], log, mtype="qubo")
        if b is None:
            return None
        tmp = tempfile.mkdtemp(prefix="verif-optigan-")
        home = os.environ.get("HOME")
        os.environ["HOME"] = tmp
        try:
            return self.inner(w, b, tmp, log)
        except S.Stalled:
            return Violation("stall-no-timeout", "the request is sent without a client-side timeout: when the server stalls, solve blocks for ever instead of raising")
        finally:
            if home is None:
                del os.environ["HOME"]
            else:
                os.environ["HOME"] = home
            shutil.rmtree(tmp, ignore_errors=True)

    def inner(self, w, b, tmp, log):
        from sawatabi.solver import OptiganSolver

        logical, phys, poly = b
        names = sorted(str(v) for v in phys.to_bqm().variables)
        n = len(names)
        endpoint, token = "http://optigan.example/api/v1/solve", "tok-" + "x" * 8
        cfg = os.path.join(tmp, ".optigan.yml" if w["auth"] == "home" else "conf.yml")
        good = f"api:\n  endpoint: {endpoint}\n  token: {token}\n"

        def write_config(fault=None):
            if os.path.isdir(cfg):
                os.rmdir(cfg)
            elif os.path.exists(cfg):
                os.remove(cfg)
            if fault == "missing":
                return
            if fault == "directory":
                os.mkdir(cfg)
                return
            text = {None: good, "garbage": "api: [unclosed\n\t:", "nokeys": "other: 1\n", "truncated": "api:\n  endpoint: " + endpoint + "\n", "empty": ""}[fault]
            with seams.REAL["open"](cfg, "w") as f:
                f.write(text)

        if w["auth"] in ("config", "home", "endpoint_only", "token_only"):
            write_config()
        if w["auth"] == "both":  # arguments win over a configuration file
            with seams.REAL["open"](cfg, "w") as f:
                f.write("api:\n  endpoint: http://other.example/\n  token: other\n")
        if w["auth"] == "args":
            solver = OptiganSolver(endpoint=endpoint, token=token)
        elif w["auth"] == "both":
            solver = OptiganSolver(config=cfg, endpoint=endpoint, token=token)
        elif w["auth"] == "config":
            solver = OptiganSolver(config=cfg)
        elif w["auth"] == "endpoint_only":  # incomplete arguments: the configuration is used
            solver = OptiganSolver(config=cfg, endpoint="http://incomplete.example/")
        elif w["auth"] == "token_only":
            solver = OptiganSolver(config=cfg, token="tok-incomplete")
        else:
            solver = OptiganSolver()
        fp = H.physical_fp(phys)
        state = {}

        def script(i, req):
            s = state["s"]
            return self.reply(s, req, n)

        svc = S.OptiganService(script, log)
        with svc.installed():
            for i, s in enumerate(w["solves"]):
                state["s"] = s
                sent = len(svc.requests)
                cf = s.get("config_fault") if w["auth"] in ("config", "home") else None
                if w["auth"] in ("config", "home"):
                    write_config(cf)
                    if cf:
                        log.fault("config_" + cf)
                if s.get("ising"):
                    im = copy.deepcopy(logical)
                    im.to_ising()
                try:
                    ss = solver.solve(im.to_physical(w["model"]["feeds"][0]) if s.get("ising") else phys, **s["opts"])
                    out = "ok"
                except Exception as e:  # noqa: BLE001
                    ss, out = e, "raise"
                log.add("solve", i, s["reply"], out, type(ss).__name__)
                log.probe("solves")
                log.probe("nontrivial")
                reqs = svc.requests[sent:]
                if s.get("ising") or w["auth"] == "nothing":
                    if out == "ok" or reqs:
                        return Violation("unsendable", f"solve {i} {'returned a result' if out == 'ok' else 'sent a request'} for {'an Ising model' if s.get('ising') else 'an unconfigured solver'}")
                    log.fault("ising_model" if s.get("ising") else "no_configuration")
                    continue
                if cf:
                    if out == "ok" or reqs:
                        return Violation("config-fault", f"with an unreadable configuration ({cf}) the solve {'returned a result' if out == 'ok' else 'sent a request'}")
                    continue
                if len(reqs) != 1:
                    return Violation("requests", f"solve {i} sent {len(reqs)} requests, expected exactly one ({out}: {ss!r})")
                v = self.check_request(reqs[0], s, endpoint, token, poly, names)
                if v is not None:
                    return v
                act = svc.replies[-1]
                if act["expect"] == "raise":
                    if out == "ok":
                        return Violation("accepted:" + s["reply"], f"solve {i}: the response was {s['reply']}, but a result was returned instead of an error", {"result": S.sampleset_digest(ss) if hasattr(ss, "data") else repr(ss)})
                    continue
                if act["expect"] == "either":
                    if out == "raise":
                        continue
                    if not same_answer(ss, act):
                        return Violation("corrupted-answer", f"solve {i}: the response was {s['reply']} and the result differs from what it says")
                    continue
                if out == "raise":
                    return Violation("rejected-good", f"solve {i}: a correct response ended in {type(ss).__name__}: {ss}")
                v = self.check_answer(ss, act, poly, names)
                if v is not None:
                    return v
        if not H.close(H.physical_fp(phys), fp):
            return Violation("model-changed", "the physical model was changed by solving")
        return None

    def reply(self, s, req, n):
        r = s["reply"]
        rng = random.Random(s["seed"])
        if req["payload"] is None or not isinstance(req["payload"].get("polynomial"), list):
            return {"status": 400, "body": b"{}", "expect": "raise"}
        try:
            ans = S.optigan_answer(req["payload"], rng, n, s["reads"])
        except Exception:  # noqa: BLE001
            return {"status": 400, "body": b"{}", "expect": "raise"}
        act = {"gzip": s["gzip"] and "gzip" in req["headers"].get("accept-encoding", ""), "expect": "raise", "cut": s.get("cut", 50), "length": s.get("length", "full")}
        act["answer"] = copy.deepcopy(ans)
        if r == "ok":
            act["expect"] = "ok"
        elif r in ("refused", "reset", "timeout", "connect_timeout", "ssl", "stall", "truncated"):
            act["fault"] = r
            if r == "truncated" and act["gzip"]:
                act["expect"] = "either"  # only the checksum may be missing, with the content complete
        elif r == "corrupted":
            act["fault"] = r
            # compressed bodies carry a checksum, but a few header bytes are not covered by it: then the content is intact
            act["expect"] = "either"
        elif r == "status":
            act["status"] = s["status"]
            act["fault"] = "status"
        else:
            act["fault"] = r
            if r == "html":
                return dict(act, body=b"<html>busy</html>")
            if r == "empty":
                return dict(act, body=b"", gzip=False)
            if r == "null":
                return dict(act, body=b"null")
            if r == "list":
                return dict(act, body=json.dumps([ans]).encode())
            if r == "error_json":
                return dict(act, body=b'{"error": "quota exceeded"}')
            if r == "missing_spins":
                del ans["spins"]
            elif r == "missing_energies":
                del ans["energies"]
            elif r == "short_spins":
                ans["spins"][rng.randrange(len(ans["spins"]))].pop()
            elif r == "short_all":
                for x in ans["spins"]:
                    x.pop()
            elif r == "long_spins":
                ans["spins"][rng.randrange(len(ans["spins"]))].append(1)
            elif r == "no_spins_row":
                ans["spins"].pop()
            elif r == "none_row":
                ans["spins"][0] = None
            elif r == "bad_values":
                ans["spins"][0][0] = rng.choice([2, -1, 7, 0.5])
            elif r == "string_values":
                ans["spins"] = ["".join(map(str, x)) for x in ans["spins"]]
            elif r == "short_energies":
                ans["energies"].pop()
            elif r == "long_energies":
                ans["energies"].append(-999.0)
            elif r == "one_energy":
                if s["reads"] == 1:
                    ans["energies"].append(1.0)
                ans["energies"] = ans["energies"][:1] if s["reads"] > 1 else ans["energies"]
            elif r == "bad_energies":
                ans["energies"][0] = rng.choice([None, "low", [1.0], {}])
        act["body"] = json.dumps(ans).encode()
        if r == "corrupted" and not act["gzip"]:
            # a flipped byte in plain JSON may still be valid JSON: then the result must be what the body says
            b = bytearray(act["body"])
            i = max(0, min(len(b) - 1, len(b) * act["cut"] // 100))
            b[i] ^= 0x15
            try:
                act["answer"] = json.loads(bytes(b).decode("utf-8"))
            except Exception:  # noqa: BLE001
                act["expect"] = "raise"
        return act

    def check_request(self, q, s, endpoint, token, poly, names):
        o = dict({"num_unit_steps": 10, "timeout": 10000, "duplicate": False, "gzip_request": True, "gzip_response": True}, **s["opts"])

        def bad(cls, msg):
            return Violation("request-" + cls, f"request: {msg}")

        if q["method"] != "POST" or q["url"] != endpoint:
            return bad("endpoint", f"{q['method']} {q['url']}, expected POST {endpoint}")
        if q["headers"].get("authorization") != f"Bearer {token}":
            return bad("token", f"Authorization is {q['headers'].get('authorization')!r}")
        if q["error"] or q["payload"] is None:
            return bad("body", f"the body cannot be decoded with the declared encoding: {q['error']}")
        if q["gzip"] != o["gzip_request"]:
            return bad("encoding", f"gzip_request={o['gzip_request']}, but the body is sent {'compressed' if q['gzip'] else 'plain'}")
        if o["gzip_response"] and "gzip" not in q["headers"].get("accept-encoding", ""):
            return bad("accept", "gzip_response was requested but gzip is not in Accept-Encoding")
        p = q["payload"]
        if p.get("num_unit_steps") != o["num_unit_steps"] or p.get("timeout") != o["timeout"]:
            return bad("options", f"num_unit_steps={p.get('num_unit_steps')}, timeout={p.get('timeout')}, requested {o['num_unit_steps']}, {o['timeout']}")
        dup = p.get("outputs", {}).get("duplicate", False)
        if bool(dup) != bool(o["duplicate"]) or (o["duplicate"] and p["outputs"].get("num_outputs") != 0):
            return bad("outputs", f"duplicate={o['duplicate']}, but outputs is {p.get('outputs')}")
        idx = {i for t in p["polynomial"] for i in t[:2]}
        if idx != set(range(len(names))):
            return bad("indices", f"the polynomial's indices are {sorted(idx)} for {len(names)} variables")
        # the polynomial is the model's up to a renaming of variables (checked with the answers): compare the coefficients
        got = {}
        for i, j, c in p["polynomial"]:
            key = (i,) if i == j else tuple(sorted((i, j)))
            got[key] = got.get(key, 0.0) + c
        mag = max([abs(c) for k, c in poly.items() if k] or [1.0])

        def values(q, size):
            return sorted(c for k, c in q.items() if len(k) == size and abs(c) > 1e-10 * mag)

        def equal(x, y):
            return len(x) == len(y) and all(abs(c - d) <= 1e-9 * mag for c, d in zip(x, y))

        if not equal(values(got, 1), values(poly, 1)) or not equal(values(got, 2), values(poly, 2)):
            return bad("polynomial", f"the polynomial {p['polynomial']} is not that of the model {H.poly_show(poly)}")
        return None

    def check_answer(self, ss, act, poly, names):
        ans = act["answer"]
        if ss.vartype.name != "BINARY" or sorted(str(v) for v in ss.variables) != names:
            return Violation("answer-variables", f"the samples are {ss.vartype.name} over {sorted(str(v) for v in ss.variables)}")
        const = poly.get((), 0.0)
        total, seen, mag = 0, [], S.magnitude(poly)
        for d in ss.data(sorted_by=None):
            st = {str(k): int(v) for k, v in dict(d.sample).items()}
            want = S.energy(poly, st) - const
            if not (near(d.energy, want, mag) or near(d.energy, want + const, mag)):
                return Violation("misassigned", f"sample {st} is returned with the server's energy {d.energy}, but the model gives {want} (without offset): values or energies are on the wrong variables", {"answer": ans})
            total += int(d.num_occurrences)
            seen += [(tuple(sorted(st.values())), float(d.energy))] * int(d.num_occurrences)
        if total != len(ans["spins"]):
            return Violation("answer-count", f"{total} samples returned, the server gave {len(ans['spins'])}")
        want = sorted((tuple(sorted(x)), float(e)) for x, e in zip(ans["spins"], ans["energies"]))
        mag = max([abs(e) for _, e in want] + [1e-300])
        if [x for x, _ in sorted(seen)] != [x for x, _ in want] or any(abs(a - b) > 1e-9 * mag for (_, a), (_, b) in zip(sorted(seen), want)):
            return Violation("answer-energies", "the samples or energies differ from the server's", {"got": sorted(seen), "want": want})
        return None


def same_answer(ss, act):
    ans = act["answer"]
    try:
        said = {}
        for x, e in zip(ans["spins"], ans["energies"]):
            said.setdefault(tuple(sorted(int(v) for v in x)), []).append(float(e))
        total = 0
        for d in ss.data(sorted_by=None):
            # equal samples are aggregated: the energy is one of those given for that sample
            if not any(near(float(d.energy), e) for e in said.get(tuple(sorted(int(v) for v in dict(d.sample).values())), [])):
                return False
            total += int(d.num_occurrences)
        return total == len(ans["spins"])
    except Exception:  # noqa: BLE001
        return False


# ---------------------------------------------------------------------------------------------------------------------


class C21(SolverCheck):
    id = "C21"
    runs_quick = 1000

    def gen(self, seed, shard_seed):
        rng = random.Random(derive("c21", seed))
        c = {}
        r = rng.random()
        if r < 0.6:
            c["endpoint"], c["token"] = "https://dwave.example/sapi", "DEV-123"
        if rng.random() < 0.6:
            c["solver"] = rng.choice(["Advantage_system1.1", "DW_2000Q_6", "Advantage_system4.1"])
        if rng.random() < 0.6:
            c["embedding_parameters"] = rng.choice([{"random_seed": 12345}, {"timeout": 10, "tries": 3}, {}])
        solves = []
        for _ in range(rng.randint(1, 4)):
            kw = {}
            for k, vals in (("chain_strength", [1.0, 2, 5.5]), ("num_reads", [1, 10, 1000]), ("annealing_time", [20, 1.5]), ("answer_mode", ["raw", "histogram"]), ("label", ["a job", None, ""]), ("return_embedding", [True, False, None]), ("reduce_intersample_correlation", [False, True]), ("num_spin_reversal_transforms", [0]), ("max_answers", [None, 0]), ("anneal_schedule", [[[0.0, 0.0], [20.0, 1.0]]]), ("initial_state", [{"x[0]": 1, "x[1]": 0}])):
                if rng.random() < 0.4:
                    kw[k] = rng.choice(vals)
            solves.append({"kw": kw, "fail": rng.choice([None, None, "RuntimeError", "ValueError", "ConnectionError", "KeyError", "TimeoutError"]), "model": rng.randrange(2)})
        return {"models": [S.g_model(rng) for _ in range(2)], "ctor": c, "connect": rng.choice([None, None, None, "ConnectionError", "ValueError", "RuntimeError"]), "solves": solves}

    def deletable(self, path):
        return path == ("solves",)

    def go(self, w, tape, log):
        import builtins

        import dimod
        from sawatabi.solver import DWaveSolver

        ms = []
        for m in w["models"]:
            b = S.build(m, log)
            if b is not None:
                ms.append(b)
        if not ms:
            return None
        state = {"connect": w["connect"], "s": None}
        excs = []

        def script(kind, i, bqm=None):
            if kind == "connect" and state["connect"]:
                e = getattr(builtins, state["connect"])("simulated connection failure")
                excs.append(e)
                return e
            if kind == "sample" and state["s"]["fail"]:
                e = getattr(builtins, state["s"]["fail"])("simulated sampling failure")
                excs.append(e)
                return e
            if kind == "answer":
                rng = random.Random(i)
                vals = (1, -1) if bqm.vartype.name == "SPIN" else (1, 0)
                smp = [{v: rng.choice(vals) for v in bqm.variables} for _ in range(3)]
                ss = dimod.SampleSet.from_samples(smp, bqm.vartype, energy=[rng.uniform(-5, 5) for _ in smp], num_occurrences=[1, 2, 1])
                ss.info["timing"] = {"qpu_sampling_time": i}
                return ss
            return None

        svc = S.DWaveService(script, log)
        ctor = copy.deepcopy(w["ctor"])
        with svc.installed():
            if w["connect"]:
                try:
                    DWaveSolver(**ctor)
                    return Violation("connect-swallowed", "the connection failed but no exception reached the caller")
                except Exception as e:  # noqa: BLE001
                    if not caused(e, excs):
                        return Violation("connect-exception", f"the connection failed with {excs}, the caller got {e!r}")
                state["connect"] = None
                svc.samplers.clear()
                svc.composites.clear()
            solver = DWaveSolver(**ctor)
            if ctor != w["ctor"]:
                return Violation("args-modified", "the constructor modified its arguments")
            v = None
            for i, s in enumerate(w["solves"]):
                logical, phys, poly = ms[s["model"] % len(ms)]
                state["s"] = s
                sent = len(svc.samples)
                kw = copy.deepcopy(s["kw"])
                fp = H.physical_fp(phys)
                try:
                    ss = solver.solve(phys, **kw)
                    out = "ok"
                except Exception as e:  # noqa: BLE001
                    ss, out = e, "raise"
                log.add("solve", i, out, s["fail"])
                log.probe("solves")
                log.probe("nontrivial")
                recs = svc.samples[sent:]
                if len(recs) != 1:
                    return Violation("submissions", f"solve {i} submitted {len(recs)} problems, expected one ({out}: {ss!r})")
                rec = recs[0]
                if v is None:
                    v = self.check_build(svc, w["ctor"], rec)
                    if v is not None:
                        return v
                bqm = rec["bqm"]
                if bqm.vartype.name != ("SPIN" if phys.get_mtype() == "ising" else "BINARY"):
                    alt = bqm.change_vartype("SPIN" if phys.get_mtype() == "ising" else "BINARY", inplace=False)
                    bqm = alt
                got = {(): float(bqm.offset)}
                for x, c in bqm.linear.items():
                    H.padd(got, (x,), float(c))
                for (x, y), c in bqm.quadratic.items():
                    H.padd(got, tuple(sorted((x, y))), float(c))
                if not H.poly_close(got, poly):
                    return Violation("problem", f"solve {i}: the submitted problem is not the model's energy function", {"got": H.poly_show(got), "want": H.poly_show(poly)})
                if rec["kwargs"] != s["kw"] or kw != s["kw"]:
                    return Violation("parameters", f"solve {i}: parameters {rec['kwargs']} were submitted, the caller gave {s['kw']}")
                if s["fail"]:
                    if out == "ok":
                        return Violation("failure-swallowed", f"solve {i}: sampling failed but a result was returned")
                    if not caused(ss, excs[-1:]):
                        return Violation("failure-exception", f"solve {i}: sampling failed with {excs[-1]!r}, the caller got {ss!r}")
                    continue
                if out == "raise":
                    return Violation("rejected-good", f"solve {i} ended in {type(ss).__name__}: {ss}")
                a = rec["answer"]
                if ss is not a and not (S.sampleset_digest(ss) == S.sampleset_digest(a) and ss.info == a.info):
                    return Violation("answer-altered", f"solve {i}: the sampler's answer was altered", {"got": S.sampleset_digest(ss), "want": S.sampleset_digest(a)})
                if ss.info.get("timing") != {"qpu_sampling_time": len(svc.samples) - 1}:
                    return Violation("info-altered", f"solve {i}: the sampler's info was altered: {ss.info}")
                if not H.close(H.physical_fp(phys), fp):
                    return Violation("model-changed", "the physical model was changed by solving")
        return None

    def check_build(self, svc, c, rec):
        comp = next((x for x in svc.composites if x["obj"] is rec["obj"]), None)
        if comp is None:
            return Violation("composite", "the problem was submitted to an embedding that was not constructed")
        smp = next((x for x in svc.samplers if x["obj"] is comp["child"]), None)
        if smp is None:
            return Violation("sampler", "the embedding does not use a constructed D-Wave sampler")
        want_solver = c.get("solver", "Advantage_system1.1")
        k = smp["kwargs"]
        if k.get("solver") != want_solver:
            return Violation("solver-name", f"sampler built with solver={k.get('solver')!r}, expected {want_solver!r}")
        if "endpoint" in c:
            if k.get("endpoint") != c["endpoint"] or k.get("token") != c["token"]:
                return Violation("credentials", f"sampler built with {k}, expected endpoint and token as given")
        elif k.get("endpoint") is not None or k.get("token") is not None:
            return Violation("credentials", f"sampler built with {k} although no endpoint and token were given")
        if set(k) - {"solver", "endpoint", "token"}:
            return Violation("sampler-args", f"sampler built with unexpected options {k}")
        got = comp["kwargs"].get("embedding_parameters")
        if (got or None) != (c.get("embedding_parameters") or None):
            return Violation("embedding", f"embedding parameters {got}, expected {c.get('embedding_parameters')}")
        if set(comp["kwargs"]) - {"embedding_parameters"}:
            return Violation("embedding-args", f"embedding built with unexpected options {comp['kwargs']}")
        return None


def caused(e, excs):
    """The failure reached the caller: the same exception, or one raised from it."""
    seen = set()
    while e is not None and id(e) not in seen:
        if any(e is x for x in excs):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


# ---------------------------------------------------------------------------------------------------------------------


def plain_args(kw):
    return {k: (S.sampleset_digest(v) if hasattr(v, "record") else v) for k, v in kw.items()}


class C22(SolverCheck):
    id = "C22"
    runs_quick = 500

    def gen(self, seed, shard_seed):
        rng = random.Random(derive("c22", seed))
        jobs = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(["local", "exact", "sawatabi", "optigan", "dwave", "local", "exact"])
            j = {"k": k, "fail": rng.choice([None, None, None, "sampler"]), "seed": rng.randrange(1, 1000), "reads": rng.randint(1, 4), "sweeps": rng.randint(1, 12), "initial": rng.random() < 0.4, "bits": g_states(rng, 4)}
            jobs.append(j)
        model = S.g_big(rng, mtype=rng.choice([None, "qubo"])) if rng.random() < 0.04 else S.g_model(rng, mtype=rng.choice([None, "qubo"]), extra={"con_add": 4})
        return {"model": model, "jobs": jobs, "threads": rng.random() < 0.6}

    def deletable(self, path):
        return path == ("jobs",) or path == ("model", "ops")

    def go(self, w, tape, log):
        import dimod
        import neal
        from sawatabi.solver import DWaveSolver, LocalSolver, OptiganSolver, SawatabiSolver

        b = S.build(w["model"], log)
        if b is None:
            return None
        logical, phys, poly = b
        names = sorted(str(v) for v in phys.to_bqm().variables)
        vt = H.model_vartype(phys)
        feeds = w["model"]["feeds"]
        fp_l, fp_p, pol = H.fingerprint(logical, feeds), H.physical_fp(phys), sorted(phys.to_polynomial())
        raised = []

        def script(i, req):
            ans = S.optigan_answer(req["payload"], random.Random(i), len(names), 2)
            if state_fail["optigan"]:
                return {"status": 500, "body": b"x", "fault": "status"}
            return {"body": json.dumps(ans).encode()}

        state_fail = {"optigan": any(j["k"] == "optigan" and j["fail"] for j in w["jobs"]), "dwave": any(j["k"] == "dwave" and j["fail"] for j in w["jobs"])}

        def dscript(kind, i, bqm=None):
            if kind == "sample" and state_fail["dwave"]:
                e = RuntimeError("simulated sampling failure")
                raised.append(e)
                return e
            if kind == "answer":
                vals = (1, -1) if bqm.vartype.name == "SPIN" else (1, 0)
                return dimod.SampleSet.from_samples([{v: vals[0] for v in bqm.variables}], bqm.vartype, energy=[0.0])
            return None

        patched = []

        def wrap(cls, name, key):
            real = getattr(cls, name)

            def f(self, *a, **k):
                if fails.get(key):
                    log.fault("sampler_failure")
                    e = RuntimeError("simulated failure inside the sampler")
                    raised.append(e)
                    raise e
                return real(self, *a, **k)

            setattr(cls, name, f)
            patched.append((cls, name, real))

        fails = {"local": any(j["k"] == "local" and j["fail"] for j in w["jobs"]), "exact": any(j["k"] == "exact" and j["fail"] for j in w["jobs"])}
        wrap(neal.SimulatedAnnealingSampler, "sample", "local")
        wrap(dimod.ExactSolver, "sample", "exact")
        svc, dsvc = S.OptiganService(script, log), S.DWaveService(dscript, log)
        args = []
        kinds = []
        try:
            with svc.installed(), dsvc.installed():
                fns = []
                for j in w["jobs"]:
                    kind = j["k"]
                    if kind == "optigan" and phys.get_mtype() != "qubo":
                        kind = "exact"
                    kinds.append(kind)
                    kw = {}
                    if kind == "local":
                        s = LocalSolver()
                        kw = {"num_reads": j["reads"], "num_sweeps": j["sweeps"], "seed": j["seed"]}
                        if j["initial"]:
                            kw["initial_states"] = dimod.SampleSet.from_samples(make_states(j["bits"][: j["reads"]], names, vt), vt, energy=[0.0] * j["reads"])
                    elif kind == "exact":
                        s = LocalSolver(exact=True)
                    elif kind == "sawatabi":
                        s = SawatabiSolver()
                        kw = {"num_reads": j["reads"], "num_sweeps": j["sweeps"], "seed": j["seed"]}
                        if j["initial"]:
                            kw["initial_states"] = make_states(j["bits"][: j["reads"]], names, vt)
                            kw["num_reads"] = len(kw["initial_states"])
                    elif kind == "optigan":
                        s = OptiganSolver(endpoint="http://optigan.example/x", token="t")
                    else:
                        ep = {"random_seed": 1}
                        s = DWaveSolver(endpoint="e", token="t", embedding_parameters=ep)
                        kw = {"chain_strength": 2.0}
                    args.append((kw, copy.deepcopy(kw)))
                    if kind == "local" and j["sweeps"] % 3 == 0:  # its other entry point
                        fns.append(lambda s=s, kw=kw: (s.default_beta_range(phys), s.solve(phys, **kw))[1])
                        continue
                    fns.append(lambda s=s, kw=kw: s.solve(phys, **kw))
                if w["threads"] and len(fns) > 1:
                    outs = Sched(tape, log).run(fns)
                else:
                    outs = []
                    for f in fns:
                        try:
                            outs.append(("ok", f()))
                        except Exception as e:  # noqa: BLE001
                            outs.append(("raise", e))
        finally:
            for cls, name, real in patched:
                setattr(cls, name, real)
        log.probe("solves", len(outs))
        log.probe("nontrivial")
        for i, (kind, (out, res)) in enumerate(zip(kinds, outs)):
            log.add("solve", i, kind, out)
            kw, kw0 = args[i]
            if plain_args(kw) != plain_args(kw0):
                return Violation("args-modified", f"solve {i} ({kind}) modified its arguments: {kw0} -> {kw}")
            should_fail = fails.get(kind) or state_fail.get(kind)
            if should_fail:
                if out == "ok":
                    return Violation("failure-swallowed", f"solve {i} ({kind}) returned a result although the sampler failed")
                if kind in ("local", "exact", "dwave") and not caused(res, raised):
                    return Violation("failure-exception", f"solve {i} ({kind}): the sampler failed with {raised[:2]}, the caller got {res!r}")
                continue
            if out != "ok":
                return Violation("exception", f"solve {i} ({kind}) raised {type(res).__name__}: {res}")
            if kind in ("local", "exact", "sawatabi"):
                v = check_samples(res, poly, names, vt, args[i][1].get("num_reads") if kind != "exact" else 2 ** len(names))
                if v is not None:
                    v.message = f"solve {i} ({kind}): " + v.message
                    return v
            if kind == "exact":
                smp = {tuple(sorted((str(k), int(v)) for k, v in dict(d.sample).items())) for d in res.data(sorted_by=None)}
                if len(smp) != 2 ** len(names):
                    return Violation("exact-all", f"exact mode returned {len(smp)} of {2 ** len(names)} assignments")
                best = min(S.energy(poly, dict(t)) for t in smp)
                if not near(res.first.energy, best, S.magnitude(poly)):
                    return Violation("exact-min", f"the first result of exact mode has energy {res.first.energy}, the minimum is {best}")
        for what, a, bb in (("logical", fp_l, H.fingerprint(logical, feeds)), ("physical", fp_p, H.physical_fp(phys)), ("physical", pol, sorted(phys.to_polynomial()))):
            if not H.close(a, bb):
                return Violation("model-changed", f"solving changed the {what} model", {"before": str(a)[:600], "after": str(bb)[:600]})
        return None
