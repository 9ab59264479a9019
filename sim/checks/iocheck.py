"""C10: readers and writers."""
import gzip
import json
import os
import random
import shutil
import tempfile
from collections import Counter

import apache_beam as beam
import sawatabi
from apache_beam.options.pipeline_options import PipelineOptions
from sim import appkit, beamsim, pipes
from sim.core import HarnessError, Violation, derive

IO = sawatabi.algorithm.IO

WORDS = ["", " ", "0", "7", "007", "12", "12 ", " 12", "-1", "+5", "1.5", "1e3", "abc", "12a", "a12", "\u0663\u0664", "\u00b2", "\uff11\uff12", "\u6ce2", "na\u00efve", "\U0001f600",
         "\t3", "3\t", "1,000", "0x10", "1_000", "9" * 30, "12\x00", "\u200b5", "5\u200b", "\u00a05", "\x0c8", "4\x0b", "6\u2028", "12\x85", "[1]", "NaN", "null", "\"1\"", "\ufeff12",
         "\ufeffabc", "12\ufeff", "Abc", "  x  "]


def gen_text(rng, multiline):
    r = rng.random()
    if r < 0.35:
        return str(rng.randrange(10 ** rng.choice([1, 3, 9, 18])))
    if r < 0.8:
        w = rng.choice(WORDS)
        return w
    s = "".join(rng.choice("0123456789ab \u6ce2\u00e9'\"\\%{}$^\u2028\x85\x1c") for _ in range(rng.randint(1, 12)))
    if multiline and rng.random() < 0.4:
        s += rng.choice(["\n1", "\r\nx", "\n\n2x"])
    return s


def gen_json(rng, depth=0):
    r = rng.random()
    if depth > 2 or r < 0.4:
        return rng.choice([0, -5, 1.5, True, False, None, "s", "\u6ce2", "", 10**20, 1e-9, "a\"b", "\\u0041", 0.1234567890123456789, 1e-17, 1.7976931348623157e308, 2**53 + 1, -0.125, "\ufeffx", " s ", "\U0001f600", 123456789.123456789])
    if r < 0.7:
        return [gen_json(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(["k", "key 2", "\u00e9", ""]) + str(i): gen_json(rng, depth + 1) for i in range(rng.randint(0, 3))}


def record(v):
    run = appkit.CUR["run"]
    run.point("record")
    run.cur.records.append(("value", {"v": esc(v)}))
    return v


def to_text(v):
    return v if isinstance(v, str) else json.dumps(v, ensure_ascii=False, sort_keys=True)


def esc(v):
    return json.dumps(v, sort_keys=True) if not isinstance(v, bytes) else repr(v)


def digits(s):
    return bool(s) and all("0" <= c <= "9" for c in s)


class C10:
    id = "C10"
    runs_quick = 350
    runs_thorough = 12000

    def gen(self, seed, shard_seed):
        rng = random.Random(derive("c10", seed))
        src = rng.choice(["pubsub-topic", "pubsub-sub", "text", "text"])
        fmt = rng.choice(["number", "json", "text"])
        dst = rng.choice(["stdout", "pubsub", "text"] if src == "text" else ["stdout", "pubsub"])  # Beam cannot write an unbounded stream to text
        n = rng.randint(0, 14)
        if rng.random() < 0.04:
            n = rng.choice([40, 150, 600])
        recs = []
        for _ in range(n):
            if fmt == "json":
                s = json.dumps(gen_json(rng), ensure_ascii=rng.random() < 0.5)
                if rng.random() < 0.1:
                    s = " " + s + " "
            else:
                s = gen_text(rng, multiline=src.startswith("pubsub"))
            if rng.random() < 0.01:  # long records
                s = {"json": json.dumps(s * 400), "number": "8" * rng.choice([100, 1100, 4200]), "text": s * 3000 + "."}[fmt]
            recs.append(s)
        if rng.random() < 0.3 and recs:
            recs += [rng.choice(recs) for _ in range(3)]
        w = {"src": src, "fmt": fmt, "dst": dst, "recs": recs,
             "proj": rng.choice(["proj-sim", "proj-1", "another-project"]), "name": rng.choice(["topic-a", "t1bc", "x.y-z", "in_put"]), "oproj": rng.choice(["proj-sim", "out-proj"]), "oname": rng.choice(["topic-out", "o2bc"]),
             "cfg": {"mode": "batch" if src == "text" else rng.choice(["batch", "stream"]), "p_crash": rng.choice([0, 0.03, 0.1]), "max_crashes": 5,
                     "max_bundle": rng.choice([0, 1, 3]), "p_reorder": rng.choice([0, 0.3]), "max_splits": rng.choice([1, 2, 4])},
             "final_newline": rng.random() < 0.7, "gz": rng.random() < 0.15, "files": rng.choice([1, 1, 1, 2, 3]), "full": rng.random() < 0.3}
        w["cfg"]["p_restart"] = rng.choice([0, 0.2])
        return w

    def deletable(self, path):
        return path == ("recs",)

    def run(self, w, tape, log):
        scratch = tempfile.mkdtemp(prefix="verif-io-")
        try:
            return self.run_in(w, tape, log, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def run_in(self, w, tape, log, scratch):
        recs = w["recs"]
        feed = []
        if w["src"] == "text":
            lines = [r for r in recs]
            nf = w["files"]
            parts = [lines[i::nf] for i in range(nf)]
            ext = ".gz" if w["gz"] else ".txt"
            for i, part in enumerate(parts):
                data = "\n".join(part) + ("\n" if part and (w["final_newline"] or part[-1] == "") else "")
                opener = gzip.open if w["gz"] else open
                with opener(os.path.join(scratch, f"in-{i}{ext}"), "wb") as f:
                    f.write(data.encode("utf-8"))
            with open(os.path.join(scratch, "other.txt"), "w") as f:
                f.write("424242\n")
            path = os.path.join(scratch, f"in-0{ext}" if nf == 1 else f"in-*{ext}")
            reader = {"number": IO.read_from_text_as_number, "json": IO.read_from_text_as_json, "text": IO.read_from_text}[w["fmt"]](path=path)
        else:
            reader = {"number": IO.read_from_pubsub_as_number, "json": IO.read_from_pubsub_as_json, "text": IO.read_from_pubsub}[w["fmt"]]
            kw = {"topic": w["name"]} if w["src"] == "pubsub-topic" else {"subscription": w["name"]}
            reader = reader(project=w["proj"], **kw)
            for i, r in enumerate(recs):
                feed.append(["msg", r.encode("utf-8"), i * 1000000])
        outp = os.path.join(scratch, "out", "result")
        writer = {"stdout": lambda: IO.write_to_stdout(), "pubsub": lambda: IO.write_to_pubsub(project=w["oproj"], topic=w["oname"]), "text": lambda: IO.write_to_text(path=outp)}[w["dst"]]()
        cfg = dict(w["cfg"])
        cfg["app"] = {"kind": "same", "solver": "token"}
        full = w["full"]
        if full:
            cfg["p_reorder"] = 0  # else windows may become outdated
            p = sawatabi.algorithm.Delta.create_pipeline({"window.size": 3, "input.reassign_timestamp": True}, input_fn=reader, map_fn=appkit.map_fn, solve_fn=appkit.solve_fn,
                                                         unmap_fn=appkit.unmap_fn, output_fn=writer, pipeline_args=["--runner=DirectRunner"] + (["--streaming"] if cfg["mode"] == "stream" else []))
        else:
            p = beam.Pipeline(options=PipelineOptions(["--runner=DirectRunner"] + (["--streaming"] if cfg["mode"] == "stream" else [])))
            p | "Input" >> reader | "Rec" >> beam.Map(record) | "Fmt" >> beam.Map(to_text) | "Output" >> writer
        run = beamsim.BeamRun(p, tape, log, cfg, feed, name="p")
        run.w = w
        run.run()
        log.add("scenario", w["src"], w["fmt"], w["dst"], len(recs))
        for k, d in run.committed_records:
            log.add("rec", k, repr(sorted(d.items())).replace(scratch, "SCRATCH"))
        log.simtime += len(recs)
        if len(recs) >= 2:
            log.probe("nontrivial")
        log.probe("records", len(recs))
        if run.dead is not None:
            return Violation("dead", f"the pipeline was killed by {type(run.dead).__name__}: {run.dead}")
        # -- source addressed
        roots = [n for n in run.nodes if n.kind == "read"]
        if len(roots) != 1:
            raise HarnessError(f"expected one source, got {roots}")
        s = roots[0].transform.source
        if w["src"] != "text":
            want = f"projects/{w['proj']}/" + (f"topics/{w['name']}" if w["src"] == "pubsub-topic" else f"subscriptions/{w['name']}")
            got = s.full_topic if w["src"] == "pubsub-topic" else s.full_subscription
            if got != want:
                return Violation("source", f"reads from {got}, expected {want}")
        # -- values delivered
        if w["fmt"] == "number":
            want = [esc(int(r)) for r in recs if digits(r)]
        elif w["fmt"] == "json":
            want = [esc(json.loads(r)) for r in recs]
        else:
            want = [esc(r) for r in recs]
        if full:
            got = [e[2] if isinstance(e, tuple) else repr(e) for k, d in run.committed_records if k == "map" for e in d["incoming"]]
            vals_ok = Counter(got) == Counter(appkit.esc(json.loads(x)) for x in want)
        else:
            got = [d["v"] for k, d in run.committed_records if k == "value"]
            vals_ok = Counter(got) == Counter(want)
        if not vals_ok:
            a, b = Counter(got), Counter(want) if not full else Counter(appkit.esc(json.loads(x)) for x in want)
            return Violation("values", "the reader did not deliver exactly the expected records", {"missing": list((b - a).elements())[:5], "extra": list((a - b).elements())[:5]})
        # -- what the writer emitted
        if full:
            outs = []
            for k, d in run.committed_records:
                if k == "unmap":
                    outs.append("RES<" + ",".join(f"{e[0]}:{e[2]}" for e in d["elements"]) + f"|{len(d['incoming'])}|{len(d['outgoing'])}>")
        else:
            outs = [to_text(json.loads(x)) for x in got]
        if w["dst"] == "stdout":
            text = "".join(v for k, t, v in run.committed if k == "print")
            expect = "".join(o + "\n" for o in outs)
            if text != expect or [x for x in run.committed if x[0] != "print"]:
                return Violation("stdout", "stdout is not exactly one line per record", {"got": text[:300], "want": expect[:300]})
        elif w["dst"] == "pubsub":
            pub = [(t, v) for k, t, v in run.committed if k == "pubsub"]
            topic = f"projects/{w['oproj']}/topics/{w['oname']}"
            if any(t != topic for t, _ in pub):
                return Violation("topic", f"published to {sorted({t for t, _ in pub})}, expected {topic}")
            if [v for _, v in pub] != [o.encode("utf-8") for o in outs] or len(pub) != len(run.committed):
                return Violation("published", "the published records are not the output records", {"got": [repr(v) for _, v in pub][:5], "want": outs[:5]})
        else:
            os.makedirs(os.path.join(scratch, "out"))
            sinks = [n for n in run.nodes if n.kind == "sink_text"]
            if len(sinks) != 1:
                raise HarnessError(f"expected one text sink: {sinks}")
            beamsim.write_text_outputs(run)
            data = b""
            names = sorted(os.listdir(os.path.join(scratch, "out")))
            for name in names:
                if not name.startswith("result"):
                    return Violation("path", f"wrote to {name}, expected files starting with 'result'")
                with open(os.path.join(scratch, "out", name), "rb") as f:
                    data += f.read()
            expect = "".join(o + "\n" for o in outs).encode("utf-8")
            if data != expect:
                return Violation("text", "the text output is not exactly one line per record", {"got": repr(data[:300]), "want": repr(expect[:300])})
        return None
