"""Runs one check: `python -m sim.check C01` (tier and seed from VERIF_TIER / VERIF_SEED), or replays a file:
`python -m sim.check --replay FILE`. Exit 0: held on everything explored; 1: VIOLATION line printed; 2: harness error."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
OUT = os.environ.get("VERIF_OUT", HERE)  # where evidence/ and replays/ go (other than /verif only in mutation runs)

sys.path.insert(0, HERE)
from sim.core import derive  # noqa: E402


def worker_env(hashseed, tmp):
    e = dict(os.environ)
    e["TMPDIR"] = os.path.join(tmp, "t")  # temporary files of Beam and of the code under test go with the scratch directory
    os.makedirs(e["TMPDIR"], exist_ok=True)
    e.update({"PYTHONHASHSEED": str(hashseed), "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC",
              "PYTHONPATH": HERE, "LC_ALL": "C.UTF-8", "HOME": os.environ.get("HOME", "/root")})
    return e


def replay(path, tmp, timeout=400):
    with open(path) as f:
        doc = json.load(f)
    out = os.path.join(tmp, "replay.out")
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.run([PY, "-m", "sim.worker", "replay", os.path.abspath(path), out], cwd=HERE, env=worker_env(doc["pythonhashseed"], tmp), stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, timeout=timeout)
    if not os.path.exists(out):
        raise RuntimeError("replay worker failed: " + p.stderr.decode("utf-8", "replace")[-2000:])
    with open(out) as f:
        return json.load(f), doc


def main():
    if sys.argv[1] == "--replay":
        tmp = tempfile.mkdtemp(prefix="verif-")
        try:
            got, doc = replay(sys.argv[2], tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print(json.dumps(got, indent=1))
        if got["violation"] and got["violation"]["class"] == doc["violation"]["class"]:
            same = "exactly" if got["digest"] == doc.get("digest") else "with another event log"
            print(f"reproduced {same}")
            print(f"VIOLATION property={doc['property']} replay={os.path.abspath(sys.argv[2])}")
            return 1
        print("not reproduced")
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    nshards = int(os.environ.setdefault("VERIF_SHARDS", "8"))
    t0 = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return explore(pid, tier, base, nshards, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(pid, tier, base, nshards, t0, tmp):
    hashseeds = [derive(base, "hash", s) % (2**32) for s in range(nshards)]
    procs = []
    for s in range(nshards):
        out = os.path.join(tmp, f"shard{s}.json")
        err = open(os.path.join(tmp, f"shard{s}.err"), "wb")
        procs.append((s, out, err, subprocess.Popen([PY, "-m", "sim.worker", "shard", pid, str(s), out], cwd=HERE, env=worker_env(hashseeds[s], tmp), stdout=err, stderr=err)))
    limit = 780 if tier == "quick" else 3600 * 2
    results, errors = [], []
    for s, out, err, p in procs:
        try:
            p.wait(timeout=max(1, limit - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        err.close()
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        else:
            with open(os.path.join(tmp, f"shard{s}.err"), "rb") as f:
                errors.append(f"shard {s} rc={p.returncode}: " + f.read().decode("utf-8", "replace")[-3000:])
    viol = sorted((r["violation"] for r in results if r["violation"]), key=lambda v: (v["k"], v["shard"]))
    if not viol and errors:
        print("HARNESS ERROR\n" + "\n".join(errors), file=sys.stderr)
        return 2
    n_v = 0
    rc = 0
    if viol:
        rc, n_v = report(pid, base, hashseeds, viol[0], tmp)
    evidence(pid, tier, base, results, t0, n_v)
    from sim.worker import load_known

    known = load_known(pid)
    for key, what in known.items():
        if any(key in r["known"] for r in results):
            print(f"KNOWN-FINDING: property={pid} {what}")
    if rc == 0:
        print(f"OK property={pid} runs={sum(r['runs'] for r in results)} wall={time.monotonic() - t0:.1f}s")
    return rc


def report(pid, base, hashseeds, v, tmp):
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{pid}-{v['seed']}.json")
    ks = v["prefix_ks"]
    attempts = [("minimised", None), ("original", None)] + [("original", ks[-n:]) for n in (1, 2, 4, 16)] + [("original", ks)]
    status = "not reproduced in a fresh process"
    for which, prefix in attempts:
        src = v[which]
        doc = {"property": pid, "pythonhashseed": hashseeds[v["shard"]], "violation": src["v"], "seed": v["seed"], "scenario": src["scenario"], "digest": src["digest"]}
        if prefix is not None:
            if not prefix:
                continue
            doc["prefix"] = {"base": base, "shard": v["shard"], "shard_seed": v["shard_seed"], "ks": prefix}
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        try:
            got, _ = replay(path, tmp)
        except Exception as e:  # noqa: BLE001
            print(f"(replay attempt failed: {e})", file=sys.stderr)
            continue
        if got["violation"] and got["violation"]["class"] == v["class"]:
            doc["digest_in_shard"] = doc["digest"]
            doc["digest"] = got["digest"]
            doc["violation"] = got["violation"]
            doc["faults_in_replay"] = got["faults"]
            doc["trace_tail"] = got["events"]
            with open(path, "w") as f:
                json.dump(doc, f, indent=1)
            status = f"reproduced in a fresh process ({which}, {'with' if prefix else 'no'} prefix)"
            break
    msg = v["minimised"]["v"]
    print(f"{pid}: [{msg['class']}] {msg['message']}")
    print("detail: " + json.dumps(msg["detail"], default=repr)[:1500])
    print(f"seed={v['seed']} shard={v['shard']} run={v['k']} minimiser tries={v['tries']}; {status}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1, 1


def evidence(pid, tier, base, results, t0, n_v):
    def merged(key):
        d = {}
        for r in results:
            for k, n in r[key].items():
                d[k] = d.get(k, 0) + n
        return d

    wall = time.monotonic() - t0
    runs = sum(r["runs"] for r in results)
    meta = describe(pid)
    digests = set()
    for r in results:
        digests.update(r["digests"])
    ev = {
        "property": pid, "tier": tier, "seed": base, "level": "exploration", "wall_s": round(wall, 2), "violations": n_v,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(digests),
            "rule": meta["rule"],
            "samples": [s for r in results for s in r["samples"]][:3] or ["(no non-trivial run)"],
            "simulated_runs_per_hour": round(runs / wall * 3600),
            "seeds_used": runs,
            "simulated_seconds": round(sum(r["simtime"] for r in results), 3),
            "faults_injected": merged("faults"),
            "probes": merged("probes"),
            "distinct_measure": "sha256 of the ordered event log of the run (bundles, crashes, callbacks with their arguments, outputs / operations and results)",
            "planned_runs": sum(r["planned"] for r in results),
            "stopped_by_wall_cap": any(r["runs"] < r["planned"] for r in results) and not n_v,
            "replayed_for_determinism": sum(r["replayed"] for r in results),
            "replay_mismatches": sum(r["replay_mismatch"] for r in results),
            "known_findings_seen": merged("known"),
            "components": meta["components"],
        },
        "assumptions": meta["assumptions"],
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)


def describe(pid):
    """Static description of a check (kept in sim/meta.json: the parent process does not import the code under test)."""
    with open(os.path.join(HERE, "sim", "meta.json")) as f:
        meta = json.load(f)
    m = dict(meta["default"])
    for grp in meta["groups"]:
        if pid in grp["ids"]:
            m.update({k: v for k, v in grp.items() if k != "ids"})
    m.update(meta.get(pid, {}))
    return m


if __name__ == "__main__":
    sys.exit(main())
