"""C11-C15, C17: histories of operations on logical models against the reference of sim.history."""
import copy
import random

from sim import history as H
from sim import remote, seams, solverkit
from sim.core import HarnessError, Violation, derive

WALL = 1_600_000_000.0


class Stop(Exception):
    """The history leaves the specified domain (an unspecified rejection was accepted): end the run quietly."""


class Found(Exception):
    def __init__(self, v):
        self.v = v


class Runner:
    """Runs one workload on real models and references side by side."""

    restarts = True

    def __init__(self, w, log, tape=None):
        from sawatabi.model import LogicalModel

        self.w, self.log, self.tape = w, log, tape
        self.feeds = w["feeds"]
        self.models = [LogicalModel(mtype=t) for t in w["mtypes"]]
        self.refs = [H.Ref(t, self.feeds) for t in w["mtypes"]]
        self.clock = seams.Clock(wall=WALL)
        seams.set_clock(self.clock)
        self.trace = []  # (op index, model index, cop, outcome, wall)

    def step(self, i, op):
        """-> (cop, "ok"/"raise", result or exception, prediction) or None."""
        mi = op.get("m", 0) % len(self.models)
        k = op["op"]
        if k == "clock":
            self.clock.advance(op["dt"]) if op["dt"] >= 0 else self.clock.jump_wall(op["dt"])
            self.log.fault("clock_jump_back" if op["dt"] < 0 else "clock_advance")
            return None
        if k == "restart":
            if self.restarts:
                self.models[mi] = H.roundtrip(self.models[mi], op["how"])
                self.log.fault("restart_" + op["how"])
                self.log.add("restart", i, mi, op["how"])
            return None
        ref, model = self.refs[mi], self.models[mi]
        rs = ref.resolve(op, self.clock.wall, self.refs)
        if rs is None:
            return None
        cop, exp = rs
        extra = self.models[cop["o"]] if k == "merge" and "o" in cop else None
        if cop["op"] == "merge" and "o" not in cop:
            exp = "raise"
        wall = self.clock.wall
        try:
            res = H.execute(model, cop, extra)
            out = "ok"
        except HarnessError:
            raise
        except Exception as e:  # noqa: BLE001
            res, out = e, "raise"
        self.trace.append((i, mi, cop, out, wall))
        self.log.add("op", i, mi, cop["op"], out, type(res).__name__ if out == "raise" else "")
        self.log.probe("ops")
        if out == "raise":
            self.log.fault("rejected_operation")
            if exp == "ok":
                raise Found(Violation("rejected-valid:" + cop["op"], f"operation {i} {show(cop)} was rejected with {type(res).__name__}: {res}, but it is valid at this point of the history"))
            return mi, cop, out, res
        if exp == "raise":
            if cop["op"] == "phys" and H.UNIT == 1.0 and any(H.depends_on(model, p) for p in H.PHS if p not in cop["feed"]):
                raise Found(Violation("invented-value", f"operation {i} {show(cop)} gave a physical model although the value of a placeholder in use was not given: it cannot be a function of the model and the given values"))
            if cop["op"] in ("add", "upd"):
                name = cop.get("name") or H.Ref.default_name(cop["target"]) if ("name" in cop or "target" in cop) and not isinstance(cop.get("target"), dict) and not isinstance(cop.get("name"), dict) else None
                if name is not None and ref.find(name) is not None and "coefficient" in cop and not isinstance(cop["coefficient"], dict):
                    raise Found(Violation("accepted-name-clash", f"operation {i} {show(cop)} was accepted although the name is taken or removed"))
            self.log.probe("accepted_out_of_domain")
            raise Stop()
        v = self.effect(i, mi, cop, res, wall)
        if v is not None:
            raise Found(v)
        return mi, cop, out, res

    def effect(self, i, mi, cop, res, wall):
        ref, model = self.refs[mi], self.models[mi]
        k = cop["op"]
        K = range(len(self.feeds))
        where = f"operation {i} {show(cop)}"
        if k == "fix":
            before = ref.clone()
            ref.apply(cop, wall)
            want = [ref.poly(j) for j in K]
            x = cop["target"][0]
            v = ref.adopt(model)
            if v is not None:
                return v
            for j in K:
                if not H.poly_close(ref.poly(j), want[j]):
                    return Violation("fix-energy", f"fixing {x} does not substitute its value ({where})", {"got": H.poly_show(ref.poly(j)), "want": H.poly_show(want[j])})
            for r in before.live():
                if x not in r["labels"]:
                    r2 = ref.find(r["name"])
                    if r2 is None or r2["removed"] or not H.close([r2["labels"], r2["c"], r2["s"], r2["ts"], r2["attrs"]], [r["labels"], r["c"], r["s"], r["ts"], r["attrs"]]):
                        return Violation("fix-other", f"fixing {x} changed interaction '{r['name']}' which does not involve it ({where})")
            for r in ref.live():
                if x in r["labels"]:
                    return Violation("fix-left", f"interaction '{r['name']}' still involves the fixed variable {x} ({where})")
            return None
        if k == "conv":
            want = []
            for j in K:
                p = ref.poly(j)
                if cop["to"] != ref.mtype:
                    p = H.to_spin(p) if cop["to"] == "ising" else H.to_binary(p)
                want.append(p)
            same = cop["to"] == ref.mtype
            if not same:
                self.log.probe("conversions")
                ref.fixed = {x: (2 * v - 1 if cop["to"] == "ising" else (v + 1) // 2) for x, v in ref.fixed.items()}
                ref.mtype = cop["to"]
                ref.stale_con_types = set(ref.cons)
                v = ref.adopt(model)
                if v is not None:
                    return v
                for j in K:
                    if not H.poly_close(ref.poly(j), want[j], const=False):
                        return Violation("conversion-energy", f"the conversion changes the energy landscape ({where})", {"got": H.poly_show(ref.poly(j)), "want": H.poly_show(want[j])})
            return None
        if k == "merge":
            return self.merged(mi, cop, where)
        if k == "import":
            old = list(ref.offset)
            ref.apply(cop, wall)
            off = H.evaluate(copy.deepcopy(model).get_offset(), self.feeds)
            a = H.spec_values(cop["const"], self.feeds)
            b = [o + c for o, c in zip(old, a)]
            # rows are adopted below: an import may be split differently into interactions (zero terms)
            if H.close(off, a) or not H.close(off, b):
                ref.offset, ref.offset_phs = a, set()
            else:
                ref.offset = b
            want = [ref.poly(j) for j in K]
            offset = list(ref.offset)
            v = ref.adopt(model)
            if v is not None:
                return v
            for j in K:
                if not H.close(ref.offset, offset) or not H.poly_close(ref.poly(j), want[j]):
                    return Violation("import-energy", f"the imported energy is not that of the expression ({where})", {"got": H.poly_show(ref.poly(j)), "want": H.poly_show(want[j])})
            return None
        if k == "phys":
            v = ref.compare_physical(res, cop["index"], where)
            ref.apply(cop, wall)
            return v
        ref.apply(cop, wall)
        if k == "attr" and "key" not in cop:
            r = ref.find(cop["name"])
            want = sorted((f"attributes.{a}", v) for a, v in r["attrs"].items())
            if [tuple(x) for x in res] != want:
                return Violation("attributes", f"attributes differ: got {res}, want {want} ({where})")
        if k == "empty":
            fp, itself = res
            blank = {"mtype": ref.mtype, "variables": {}, "sizes": [0, 0, 0, 0], "deleted": [], "fixed": [], "offset": [0.0], "rows": [], "removed": [], "constraints": {}, "polys": [[[[], 0.0]]]}
            if itself or H.diff_fp(fp, blank):
                return Violation("empty", f"empty() returns a model that is not empty or not of the same type: {H.diff_fp(fp, blank)} ({where})")
        if k == "select":
            want = sorted(str(r["name"]) for r in ref.live())
            if res != want:
                return Violation("select", f"selected interactions differ: got {res}, want {want} ({where})")
        return None

    def merged(self, mi, cop, where):
        ref, model = self.refs[mi], self.models[mi]
        o = self.refs[cop["o"]]
        o = o.clone()
        K = range(len(self.feeds))
        same_type = ref.mtype == o.mtype
        want = []
        for j in K:
            p = dict(ref.poly(j))
            q = o.poly(j)
            if not same_type:
                q = H.to_spin(q) if ref.mtype == "ising" else H.to_binary(q)
            for key, v in q.items():
                H.padd(p, key, v)
            want.append(p)
        before = ref.clone()
        for n, shape in o.vars.items():
            ref.vars[n] = [max(a, b) for a, b in zip(shape, ref.vars[n])] if n in ref.vars else list(shape)
        ref.deleted |= o.deleted
        of = o.fixed if same_type else {x: (2 * v - 1 if ref.mtype == "ising" else (v + 1) // 2) for x, v in o.fixed.items()}
        ref.fixed.update(of)
        for label, c in o.cons.items():
            ref.cons[label] = c
            if not same_type:
                ref.stale_con_types.add(label)
        ref.stale_con_types |= o.stale_con_types & set(o.cons)
        # (merged constraints hold variables of the other model's own arrays: equal by label and type)
        v = ref.adopt(model)
        if v is not None:
            return v
        for j in K:
            got = ref.poly(j)
            if not H.poly_close(got, want[j], const=same_type):
                return Violation("merge-energy", f"the merged energy is not the sum ({where})", {"got": H.poly_show(got), "want": H.poly_show(want[j])})
        # every interaction of both is still there, with its attributes
        pool = [dict(r) for r in ref.live()]
        exact = before.live() + (o.live() if same_type else [])
        for r in exact:
            hit = next((x for x in pool if H.close([x["labels"], x["c"], x["s"], x["attrs"], x["ts"]], [r["labels"], r["c"], r["s"], r["attrs"], r["ts"]])), None)
            if hit is None:
                return Violation("merge-row", f"interaction '{r['name']}' {r['labels']} is not in the merged model with its values and attributes ({where})")
            pool.remove(hit)
        if same_type and pool:
            return Violation("merge-extra", f"the merged model holds extra interactions {[x['name'] for x in pool]} ({where})")
        if not same_type:
            for r in o.live():
                hit = next((x for x in pool if x["labels"] == r["labels"] and all(x["attrs"].get(a) == v for a, v in r["attrs"].items())), None)
                if hit is None:
                    return Violation("merge-row", f"interaction '{r['name']}' {r['labels']} of the other model is missing after the merge ({where})")
                pool.remove(hit)
        self.log.probe("merges" if same_type else "mixed_merges")
        return None


def show(cop):
    return str({k: v for k, v in cop.items()})[:300]


class ModelCheck:
    nmodels = (1, 1)
    length = (6, 20)
    weights = {}
    runs_quick = 100
    runs_thorough = 4000
    ph = None

    def gen(self, seed, shard_seed):
        rng = random.Random(derive("hist", seed))
        ws = dict(H.BASE)
        ws.update(self.weights)
        w = H.g_history(rng, ws, nmodels=rng.randint(*self.nmodels), length=self.length, ph=self.ph)
        return self.finish(w, rng)

    def finish(self, w, rng):
        return w

    def deletable(self, path):
        return path and path[0] == "ops" and len(path) == 1

    def run(self, w, tape, log):
        H.UNIT = w.get("unit", 1.0)
        H.MAXVARS = w.get("maxvars", 7)
        H.SHARED.clear()
        try:
            v = self.history(w, tape, log)
        except Found as f:
            v = f.v
        except Stop:
            v = None
        finally:
            H.UNIT = 1.0
            H.MAXVARS = 7
        if log.probes.get("ops", 0) >= 4 and log.faults:
            log.probe("nontrivial")
        log.simtime += 1.0
        return v


class C11(ModelCheck):
    id = "C11"
    runs_quick = 220
    weights = {"attr": 1, "select": 1, "empty": 0.5}

    def history(self, w, tape, log):
        R = Runner(w, log)
        n = len(w["ops"])
        for i, op in enumerate(w["ops"]):
            r = R.step(i, op)
            if r is None and op["op"] != "restart":
                continue
            mi = op.get("m", 0) % len(R.models)
            feeds = [i % 2] if i < n - 1 else [0, 1]
            v = R.refs[mi].compare(R.models[mi], feeds, where=f"after operation {i} {op['op']}")
            if v is not None:
                return v
        return None


class C12(ModelCheck):
    id = "C12"
    runs_quick = 180
    nmodels = (1, 2)
    weights = {"bad": 22, "attr": 2, "select": 3, "merge": 3, "conv": 1, "phys": 5, "con_edit": 5, "import": 4}

    def history(self, w, tape, log):
        R = Runner(w, log)
        fps = [H.fingerprint(m, w["feeds"], columns=True) for m in R.models]
        for i, op in enumerate(w["ops"]):
            r = R.step(i, op)
            if r is None:
                continue
            mi, cop, out, res = r
            new = [H.fingerprint(m, w["feeds"], columns=True) for m in R.models]
            for j, m in enumerate(R.models):
                d = H.diff_fp(fps[j], new[j])
                if out == "raise" and d:
                    return Violation("changed-by-rejected:" + cop["op"], f"operation {i} {show(cop)} raised {type(res).__name__} but changed {d} of {'the model' if j == mi else 'another model'}",
                                     {"before": {k: fps[j][k] for k in d}, "after": {k: new[j][k] for k in d}})
                if out == "ok" and j != mi and d:
                    return Violation("other-changed", f"operation {i} {show(cop)} on model {mi} changed {d} of model {j}")
            fps = new
        # the same history without the rejected operations
        T = self.twin(w, R.trace)
        for j, m in enumerate(T):
            d = H.diff_fp(fps[j], H.fingerprint(m, w["feeds"], columns=True))
            if d:
                return Violation("later-differs", f"after the history, {d} of model {j} differ from the same history without the rejected operations")
        return None

    def twin(self, w, trace):
        from sawatabi.model import LogicalModel

        clock = seams.Clock(wall=WALL)
        seams.set_clock(clock)
        models = [LogicalModel(mtype=t) for t in w["mtypes"]]
        for i, mi, cop, out, wall in trace:
            if out == "ok":
                clock.wall = wall
                H.execute(models[mi], cop, models[cop["o"]] if cop["op"] == "merge" else None)
        return models


class C13(ModelCheck):
    id = "C13"
    runs_quick = 250
    nmodels = (1, 1)
    weights = {"phys": 16, "rm": 7, "upd": 10, "con_add": 6, "con_edit": 4, "conv": 1, "restart": 1}
    ph = 0.3

    def history(self, w, tape, log):
        R = Runner(w, log)
        kept = []
        for i, op in enumerate(w["ops"]):
            is_phys = op["op"] == "phys"
            before = H.fingerprint(R.models[0], w["feeds"]) if is_phys else None
            r = R.step(i, op)
            if r is None:
                continue
            mi, cop, out, res = r
            if not is_phys:
                continue
            if out == "ok":
                log.probe("conversions_to_physical")
                kept.append((i, res, H.physical_fp(res), sorted(res.to_polynomial())))
                again = R.models[0].to_physical(dict(cop["feed"]))
                v = R.refs[0].compare_physical(again, cop["index"], f"repeating operation {i}")
                if v is not None:
                    return v
                if not H.close(H.physical_fp(again), kept[-1][2]):
                    return Violation("repeat", f"converting twice in a row gives different physical models (operation {i})")
            else:
                log.fault("failed_conversion")
            after = H.fingerprint(R.models[0], w["feeds"])
            d = H.diff_fp(before, after, skip=("removed",) if out == "ok" else ())
            if d:
                return Violation("changed-by-conversion" if out == "ok" else "changed-by-failed-conversion", f"the conversion (operation {i} {show(cop)}, {out}) changed {d} of the logical model",
                                 {"before": {k: before[k] for k in d}, "after": {k: after[k] for k in d}})
            v = R.refs[0].compare(R.models[0], [0, 1], where=f"after conversion {i}")
            if v is not None:
                return v
        for i, p, fp, poly in kept:
            if not H.close(H.physical_fp(p), fp) or not H.close(sorted(p.to_polynomial()), poly):
                return Violation("physical-altered", f"the physical model made by operation {i} was altered by later operations")
        return R.refs[0].compare(R.models[0], [0, 1], where="at the end")


class C14(ModelCheck):
    id = "C14"
    nmodels = (1, 2)
    weights = {"restart": 0, "bad": 2, "attr": 1, "merge": 2, "conv": 2, "phys": 4}
    runs_quick = 180

    def finish(self, w, rng):
        n = len(w["ops"])
        w["cuts"] = sorted({rng.randrange(1, n) for _ in range(rng.randrange(1, 5))})
        w["how"] = [rng.choice(["pickle", "deepcopy", "pickle", "remote"]) for _ in w["cuts"]]
        w["solve"] = {"num_reads": rng.randint(1, 3), "num_sweeps": rng.randint(0, 8), "seed": rng.randrange(5)}
        return w

    def history(self, w, tape, log):
        from sawatabi.model import LogicalModel
        from sawatabi.solver import SawatabiSolver

        R = Runner(w, log)
        R.restarts = False
        base = []  # outcome per executed operation
        physicals = []
        try:
            for i, op in enumerate(w["ops"]):
                r = R.step(i, op)
                if r is None:
                    continue
                mi, cop, out, res = r
                base.append(["ok", remote.describe(res)] if out == "ok" else ["raise", type(res).__name__])
                if cop["op"] == "phys" and out == "ok":
                    physicals.append(res)
        except Found as f:
            raise Stop() from f  # another property's business; here only restarts are judged
        want_fps = [H.fingerprint(m, w["feeds"]) for m in R.models]
        # interrupted execution of the same concrete operations
        models = [LogicalModel(mtype=t) for t in w["mtypes"]]
        got = []
        originals = []
        trace = R.trace
        pos = 0
        cuts = list(zip(w["cuts"], w["how"])) + [(len(w["ops"]), None)]
        how = None
        for cut, nxt in cuts:
            seg = [(mi, cop, wall) for i, mi, cop, out, wall in trace[pos:] if i < cut]
            pos += len(seg)
            if how == "remote":
                outcomes, fps, models = remote.get().call("segment", models, seg, WALL, w["feeds"])
                log.fault("run_in_other_process")
            else:
                outcomes, fps = remote.run_segment(models, seg, WALL, w["feeds"])
            for o in outcomes:
                log.add("outcome", repr(o)[:60])
            got += outcomes
            seams.set_clock(R.clock)
            how = nxt
            if nxt is None:
                break
            log.fault("restart_" + nxt)
            restored = [H.roundtrip(m, "pickle" if nxt == "remote" else nxt) for m in models] if nxt != "remote" else models
            if nxt != "remote":
                originals.append((models, fps, cut))
            models = restored
            for j, m in enumerate(models):
                d = H.diff_fp(fps[j], H.fingerprint(m, w["feeds"]))
                if d:
                    return Violation("restored-differs", f"after {nxt} at operation {cut}, {d} of the restored model differ")
        if got != base and not H.close(got, base):
            j = next((j for j, (a, b) in enumerate(zip(got, base)) if not H.close(a, b)), min(len(got), len(base)))
            i, mi, cop, out, wall = trace[j]
            return Violation("outcome-differs", f"operation {i} {show(cop)} gave {str(got[j])[:200]} with restarts, {str(base[j])[:200]} without")
        direct = [H.fingerprint(m, w["feeds"], direct=True) for m in models]
        want_direct = [H.fingerprint(m, w["feeds"], direct=True) for m in R.models]
        for j in range(len(models)):
            d = H.diff_fp(want_fps[j], fps[j]) or H.diff_fp(want_fps[j], want_direct[j])
            if not d:
                d = H.diff_fp(want_direct[j], direct[j])
                want_fps, fps = want_direct, direct
            if d:
                return Violation("final-differs", f"{d} of model {j} differ from the uninterrupted history", {"want": {k: want_fps[j][k] for k in d}, "got": {k: fps[j][k] for k in d}})
        for ms, fps0, cut in originals:
            for j, m in enumerate(ms):
                d = H.diff_fp(fps0[j], H.fingerprint(m, w["feeds"]))
                if d:
                    return Violation("original-affected", f"operations on the copy made at operation {cut} changed {d} of the original")
        # physical models, constraints and solvers
        for m in R.models:
            for label, c in m.get_constraints().items():
                for how in ("pickle", "deepcopy"):
                    c2 = H.roundtrip(c, how)
                    if not H.close(H.constraint_fp(c2), H.constraint_fp(c)) or c2 != c:
                        return Violation("constraint-roundtrip", f"constraint '{label}' changes by {how}")
                    vs = list(c2.get_variables_1() if hasattr(c2, "get_variables_1") else c2.get_variables())
                    if vs:
                        before = H.constraint_fp(c)
                        (c2.remove_variable_from_1 if hasattr(c2, "remove_variable_from_1") else c2.remove_variable)(vs)
                        if H.constraint_fp(c) != before:
                            return Violation("constraint-shared", f"editing a {how} copy of constraint '{label}' changes the original")
        for p in physicals[-2:]:
            if len(H.polynomial(p)) < 2:
                continue
            s = SawatabiSolver()
            want = solverkit.solve_digest(s, p, dict(w["solve"]))
            fp = H.physical_fp(p)
            for how in ("pickle", "deepcopy"):
                p2, s2 = H.roundtrip(p, how), H.roundtrip(s, how)
                if not H.close(H.physical_fp(p2), fp) or sorted(p2.to_polynomial()) != sorted(p.to_polynomial()) or p2 != p:
                    return Violation("physical-roundtrip", f"a physical model changes by {how}")
                got = solverkit.solve_digest(s2, p2, dict(w["solve"]))
                if not H.close(got, want):
                    return Violation("solve-roundtrip", f"solving after {how} gives another result", {"got": got, "want": want})
            v = self.other_solvers(p, w, log)
            if v:
                return v
            if "remote" in w["how"]:
                got = remote.get().call("solve", s, p, dict(w["solve"]))
                log.fault("run_in_other_process")
                if not H.close(got, want):
                    return Violation("solve-remote", "solving in another process gives another result", {"got": got, "want": want})
        return None


    def other_solvers(self, p, w, log):
        """Local and Optigan solvers, fresh and used, restored in either way, continue as the originals."""
        import json
        import random

        from sawatabi.solver import LocalSolver, OptiganSolver

        n = len(p.to_bqm().variables)
        kw = {"num_reads": w["solve"]["num_reads"], "num_sweeps": 5, "seed": w["solve"]["seed"] + 1}
        for exact in (False, True):
            if exact and n > 8:
                continue
            s = LocalSolver(exact=exact)
            copies = [(how, H.roundtrip(s, how)) for how in ("pickle", "deepcopy")]
            want = solverkit.solve_digest(s, p, {} if exact else kw)
            copies += [(how, H.roundtrip(s, how)) for how in ("pickle", "deepcopy")]
            for how, s2 in copies:
                got = solverkit.solve_digest(s2, p, {} if exact else kw)
                if not H.close(got, want):
                    return Violation("local-roundtrip", f"a local solver (exact={exact}) gives another result after {how}", {"got": got, "want": want})
        if p.get_mtype() != "qubo":
            return None

        def script(i, req):
            return {"body": json.dumps(solverkit.optigan_answer(req["payload"], random.Random(5), n, 2)).encode()}

        svc = solverkit.OptiganService(script, log)
        with svc.installed():
            s = OptiganSolver(endpoint=f"http://optigan{w['solve']['seed']}.example.com/api/v1", token=f"token{n}")
            copies = [(how, H.roundtrip(s, how)) for how in ("pickle", "deepcopy")]
            want = solverkit.solve_digest(s, p, {})
            copies += [(how, H.roundtrip(s, how)) for how in ("pickle", "deepcopy")]
            for how, s2 in copies:
                got = solverkit.solve_digest(s2, p, {})
                if not H.close(got, want):
                    return Violation("optigan-roundtrip", f"an Optigan solver gives another result after {how}", {"got": got, "want": want})
                if any(svc.requests[-1][k] != svc.requests[0][k] for k in ("method", "url", "payload")) or svc.requests[-1]["headers"].get("authorization") != svc.requests[0]["headers"].get("authorization"):
                    return Violation("optigan-request", f"an Optigan solver sends another request after {how}", {"got": svc.requests[-1], "want": svc.requests[0]})
        return None


class C15(ModelCheck):
    id = "C15"
    runs_quick = 250
    nmodels = (1, 1)
    length = (4, 12)
    weights = {"conv": 12, "clock": 0, "bad": 1, "restart": 2}

    def history(self, w, tape, log):
        R = Runner(w, log)
        nconv = 0

        def on_read(kind):
            # the clock may stand still (default), move or go back at every reading
            c = tape.choose("clock", 4, weights=(6, 1, 1, 1))
            if c == 1:
                R.clock.wall += 0.25
                log.fault("clock_advance_at_reading")
            elif c == 2:
                R.clock.wall -= 0.25
                log.fault("clock_back_at_reading")
            elif c == 3:
                R.clock.wall = WALL + float(tape.choose("wall", 3))
                log.fault("clock_set_at_reading")

        for i, op in enumerate(w["ops"]):
            conv = op["op"] == "conv"
            if conv:
                nconv += 1
                if nconv > 5 or len(R.refs[0].rows) > 40:
                    continue
                R.clock.on_read = on_read
            r = R.step(i, op)
            R.clock.on_read = None
            if r is None:
                continue
            mi, cop, out, res = r
            v = R.refs[0].compare(R.models[0], [i % 2], where=f"after operation {i} {op['op']}")
            if v is not None:
                return v
        return R.refs[0].compare(R.models[0], [0, 1], where="at the end")


class C17(ModelCheck):
    id = "C17"
    nmodels = (2, 3)
    length = (8, 24)
    weights = {"merge": 14, "conv": 2, "bad": 1, "temp": 8, "import": 1, "del": 3, "fix": 4, "upd": 10, "rm": 8}
    runs_quick = 80

    def finish(self, w, rng):
        early = [op for op in w["ops"] if op["op"] in ("temp", "merge")]
        if early and rng.random() < 0.4:  # merging into a model that is still empty
            op = dict(rng.choice(early))
            if op["op"] == "temp" and rng.random() < 0.5:
                op["sel"] = 5 * rng.randrange(20)
            w["ops"].insert(0, op)
        return w

    def history(self, w, tape, log):
        R = Runner(w, log)
        fps = [H.fingerprint(m, w["feeds"], polys=False) for m in R.models]
        for i, op in enumerate(w["ops"]):
            if op["op"] == "temp":
                self.temp_merge(R, i, op, log)
                fps = [H.fingerprint(m, w["feeds"], polys=False) for m in R.models]
                continue
            polys = [H.fingerprint(m, w["feeds"]) for m in R.models] if op["op"] == "merge" else fps
            r = R.step(i, op)
            if r is None:
                continue
            mi, cop, out, res = r
            new = [H.fingerprint(m, w["feeds"], polys=cop["op"] == "merge") for m in R.models]
            for j in range(len(R.models)):
                if j != mi or out == "raise":
                    d = H.diff_fp({k: v for k, v in polys[j].items() if k in new[j]}, new[j])
                    if d:
                        return Violation("other-changed", f"operation {i} {show(cop)} on model {mi} changed {d} of model {j}", {"before": {k: polys[j][k] for k in d}, "after": {k: new[j][k] for k in d}})
            fps = new
            v = R.refs[mi].compare(R.models[mi], [i % 2], where=f"after operation {i} {op['op']}")
            if v is not None:
                return v
        for j, ref in enumerate(R.refs):
            v = ref.compare(R.models[j], [0, 1], where=f"model {j} at the end")
            if v is not None:
                return v
        return None

    def temp_merge(self, R, i, op, log):
        """Models created, merged and discarded in a loop (their memory is reused)."""
        from sawatabi.model import LogicalModel

        mi = op.get("m", 0) % len(R.models)
        ref = R.refs[mi]
        n = 1 + op["n"] % 3
        for t in range(n):
            if len(ref.rows) > 40:
                return
            if any(x in ref.deleted or x in ref.fixed for x in ("x[0]", "x[1]")) or ("x" in ref.vars and len(ref.vars["x"]) != 1) or len(ref.labels()) > H.MAXVARS:
                return
            tmp = LogicalModel(mtype=ref.mtype)
            tref = H.Ref(ref.mtype, R.feeds)
            ops = ({"op": "variables", "name": "x", "shape": [2]}, {"op": "add", "target": ["x[0]", "x[1]"] if op["n2"] % 2 else ["x[0]"], "coefficient": 1.0 + t, "attributes": {"a": t}},
                        {"op": "add", "target": ["x[1]"], "coefficient": 0.5, "name": H.NAMES[op["sel"] % len(H.NAMES)]})
            offset = {"op": "offset", "value": 0.75 + t}
            ops = ((offset,) if op["n2"] % 4 == 0 else ops[:1] + (offset,)) if op["sel"] % 5 == 0 else ops + (offset,) * (op["n2"] % 3 == 0)
            for cop in ops:
                if cop["op"] == "add" and tref.find(cop.get("name") or H.Ref.default_name(cop["target"])):
                    continue
                H.execute(tmp, cop)
                tref.apply(cop, R.clock.wall)
            R.refs.append(tref)
            try:
                H.execute(R.models[mi], {"op": "merge"}, tmp)
                v = R.merged(mi, {"o": len(R.refs) - 1}, f"temporary merge {t} at operation {i}")
            finally:
                R.refs.pop()
            del tmp
            log.add("temp", i, t)
            if v is not None:
                raise Found(v)
            v = ref.compare(R.models[mi], [0], where=f"after temporary merge {t} at operation {i}")
            if v is not None:
                raise Found(v)
