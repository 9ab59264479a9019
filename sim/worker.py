"""One shard of a check: generates and runs simulations, minimises the first violation. Also runs replay files.

Usage: python -m sim.worker shard PID SHARD OUT    |    python -m sim.worker replay FILE OUT
"""
import gc
import json
import os
import signal
import sys
import traceback

from sim import seams

HANG_S = 120


class SimHang(BaseException):
    pass


def _alarm(signum, frame):
    raise SimHang()


def now():
    return seams.REAL["monotonic"]()


def reset():
    """The same process-wide state before every run."""
    seams.set_clock(None)
    seams.set_rng(None)
    seams.reset_process_randomness(12345)


def run_one(check, w, tape, log):
    """Runs one scenario; returns a Violation or None."""
    from sim.core import HarnessError, SimCrash, Violation

    reset()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S)
    try:
        return check.run(w, tape, log)
    except HarnessError:
        raise
    except SimHang:
        return Violation("hang", f"no progress: the run did not finish within {HANG_S} s")
    except SimCrash:
        raise HarnessError("a simulated crash escaped")
    except (Exception, SystemExit, KeyboardInterrupt, GeneratorExit) as e:
        tb = traceback.format_exception(type(e), e, e.__traceback__)
        return Violation("exception:" + type(e).__name__, f"unexpected {type(e).__name__}: {e}", {"traceback": [x.strip() for x in tb[-6:]]})
    finally:
        signal.alarm(0)
        reset()


def load_known(pid):
    res = {}
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith(f"known: property={pid} key="):
                    key, _, what = line[len(f"known: property={pid} key="):].strip().partition(" ")
                    res[key] = what
    return res


def shard_main(pid, shard, out):
    import random  # noqa: F401
    from sim import env

    env.setup()
    from sim import registry
    from sim.core import HarnessError, Log, Tape, derive, minimise

    seams.no_network()
    tier = os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    nshards = int(os.environ.get("VERIF_SHARDS", "8"))
    cap = float(os.environ.get("VERIF_WALL_CAP", "420" if tier == "quick" else "2400"))
    min_cap = 60 if tier == "quick" else 300
    check = registry.get(pid)
    if getattr(check, "pristine", False):
        from sim import zygote

        zygote.start()
    runs = check.runs_quick if tier == "quick" else check.runs_thorough
    runs = int(os.environ.get("VERIF_RUNS", runs))
    known = load_known(pid)
    shard_seed = derive(base, pid, shard)
    t0 = now()
    res = {"runs": 0, "planned": runs, "faults": {}, "probes": {}, "simtime": 0.0, "digests": [], "samples": [], "known": {}, "violation": None, "replayed": 0, "replay_mismatch": 0}
    hist = []  # (k) of executed runs, to rebuild prefixes
    kept = []
    stop = out + ".stop"
    stopdir = os.path.dirname(out)

    def scenario(k):
        seed = derive(base, pid, shard, k)
        w = json.loads(json.dumps(check.gen(seed, shard_seed)))
        return seed, w

    v = None
    fixed = check.fixed_scenarios() if hasattr(check, "fixed_scenarios") else []
    for k in range(-len(fixed), runs):
        if now() - t0 > cap:
            break
        if k % 8 == 0 and any(f.endswith(".stop") for f in os.listdir(stopdir)):
            break
        if k < 0:
            if -k % nshards != shard:
                continue
            seed, w = derive(base, pid, "fixed", k), json.loads(json.dumps(fixed[k]))
        else:
            seed, w = scenario(k)
        tape, log = Tape(seed=seed), Log()
        v = run_one(check, w, tape, log)
        res["runs"] += 1
        hist.append(k)
        for src, dst in ((log.faults, res["faults"]), (log.probes, res["probes"])):
            for kk, n in src.items():
                dst[kk] = dst.get(kk, 0) + n
        res["simtime"] += log.simtime
        if log.probes.get("nontrivial"):
            res["digests"].append(log.digest())
        if len(kept) < 4:
            kept.append((w, tape.recording(), log.digest()))
        if len(res["samples"]) < 1 and log.probes.get("nontrivial") and len(json.dumps(w)) < 3000:
            res["samples"].append({"seed": seed, "workload": w, "choices": {a: b[:40] for a, b in list(tape.recording().items())[:20]}, "events": len(log.events)})
        if v is not None and v.cls in known:
            res["known"][v.cls] = res["known"].get(v.cls, 0) + 1
            v = None
        if v is not None:
            break
        if k % 50 == 49:
            gc.collect()
    if v is not None:
        open(stop, "w").close()
        rec = {"w": w, "tape": tape.recording()}
        cls = v.cls

        def fails(c):
            lg = Log()
            vv = run_one(check, c["w"], Tape(recorded=c["tape"]), lg)
            return vv is not None and vv.cls == cls

        in_process = fails(rec)
        small, tries = rec, 0
        if in_process and cls != "hang":
            try:
                small, tries = minimise(rec, fails, now() + min_cap, now, deletable=getattr(check, "deletable", None))
            except HarnessError:
                pass
            if small is not rec and not fails(small):
                small = rec
        lg = Log()
        vv = run_one(check, small["w"], Tape(recorded=small["tape"]), lg)
        res["violation"] = {
            "class": cls, "seed": seed, "shard": shard, "k": k, "in_process": in_process, "tries": tries,
            "original": {"scenario": rec, "v": v.as_json(), "digest": log.digest()},
            "minimised": {"scenario": small, "v": (vv or v).as_json(), "digest": lg.digest()},
            "prefix_ks": hist[:-1], "shard_seed": shard_seed,
        }
    else:
        # determinism: replay the first runs from their recorded choices
        for w, rec, dig in kept:
            lg = Log()
            run_one(check, w, Tape(recorded=rec), lg)
            res["replayed"] += 1
            if lg.digest() != dig:
                res["replay_mismatch"] += 1
    res["wall"] = now() - t0
    with seams.REAL["open"](out, "w") as f:
        json.dump(res, f, default=repr)


def replay_main(path, out):
    """Replay file: {"property", "scenarios": [{"w","tape"}...]} or {"property","shard","ks"...}: the last one must violate."""
    from sim import env

    env.setup()
    from sim import registry
    from sim.core import Log, Tape, derive

    seams.no_network()
    with open(path) as f:
        doc = json.load(f)
    check = registry.get(doc["property"])
    if getattr(check, "pristine", False):
        from sim import zygote

        zygote.start()
    if doc.get("prefix"):
        p = doc["prefix"]
        for k in p["ks"]:
            seed = derive(p["base"], doc["property"], p["shard"], k)
            w = json.loads(json.dumps(check.gen(seed, p["shard_seed"])))
            run_one(check, w, Tape(seed=seed), Log())
    last = doc["scenario"]
    log = Log()
    v = run_one(check, last["w"], Tape(recorded=last["tape"]), log)
    with seams.REAL["open"](out, "w") as f:
        json.dump({"violation": v.as_json() if v else None, "digest": log.digest(), "events": [repr(e)[:300] for e in log.events[-60:]], "faults": log.faults}, f, default=repr)


if __name__ == "__main__":
    if sys.argv[1] == "shard":
        shard_main(sys.argv[2], int(sys.argv[3]), sys.argv[4])
    else:
        replay_main(sys.argv[2], sys.argv[3])
