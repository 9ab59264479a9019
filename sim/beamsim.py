"""A deterministic Beam runner.

Takes the beam.Pipeline that sawatabi's create_pipeline() builds and runs it in this process, one bundle at a time, with
every runner freedom decided by the tape: bundle boundaries, processing order, window firing order, worker crashes at
any point of a bundle (uncommitted effects are lost, the bundle is retried), worker restarts (functions re-unpickled),
watermark progress and lateness, and whether user state is encoded eagerly at the write (Beam's bundle-based direct
runner) or lazily at the commit (Beam's portable runners).

Real code: every DoFn of the pipeline, invoked by Beam's own DoFnRunner; Beam's window functions, coders and pickler.
Stub: scheduling, GroupByKey/trigger service, state backend, Pub/Sub and stdout transports.
"""
import io
import os
import sys

import apache_beam as beam
from apache_beam import coders
from apache_beam.coders import FastPrimitivesCoder
from apache_beam.internal import pickler
from apache_beam.io.iobase import BoundedSource, Read
from apache_beam.runners.common import DoFnRunner, Receiver
from apache_beam.transforms import trigger as btrigger
from apache_beam.transforms import userstate
from apache_beam.transforms.window import GlobalWindow, GlobalWindows, TimestampCombiner, TimestampedValue, WindowFn
from apache_beam.utils.timestamp import MAX_TIMESTAMP, MIN_TIMESTAMP, Timestamp
from apache_beam.utils.windowed_value import WindowedValue

from sim import appkit, globalsnap
from sim.core import HarnessError, SimCrash

_CODER = FastPrimitivesCoder()


_specs_cache = {}
_real_get_dofn_specs = userstate.get_dofn_specs


def _cached_get_dofn_specs(dofn):
    # Beam re-inspects every method signature each time; the answer depends only on the class.
    if type(dofn) is beam.core.CallableWrapperDoFn:
        return set(), set()
    key = type(dofn)
    if key not in _specs_cache:
        _specs_cache[key] = _real_get_dofn_specs(dofn)
    return _specs_cache[key]


userstate.get_dofn_specs = _cached_get_dofn_specs


from apache_beam.options.pipeline_options import PipelineOptions as _PO  # noqa: E402

_real_view_as = _PO.view_as


def _memo_view_as(self, cls):
    # Views of one options object share its dictionary; Beam rebuilds an argument parser for each view.
    if type(self) is not _PO:
        return _real_view_as(self, cls)
    memo = self.__dict__.setdefault("_verif_views", {})
    if cls not in memo:
        memo[cls] = _real_view_as(self, cls)
    return memo[cls]


_PO.view_as = _memo_view_as


def roundtrip(value):
    return _CODER.decode(_CODER.encode(value))


# ------------------------------------------------------------------------------------------------- state backend


class StateBackend:
    """Durable user state of one stateful step: (state name, key, window) -> list of encoded values."""

    def __init__(self):
        self.durable = {}


class _Cell:
    def __init__(self, ctx, slot, coder):
        self.ctx, self.slot, self.coder = ctx, slot, coder
        self.cleared = False
        self.added = []  # live objects (lazy) or encoded bytes (eager)

    def _values(self):
        base = [] if self.cleared else [self.coder.decode(b) for b in self.ctx.backend.durable.get(self.slot, [])]
        if self.ctx.eager:
            return base + [self.coder.decode(b) for b in self.added]
        return base + list(self.added)

    def clear(self):
        self.ctx.point("state.clear")
        self.cleared = True
        self.added = []

    def add(self, value):
        self.ctx.point("state.add")
        self.added.append(self.coder.encode(value) if self.ctx.eager else value)

    def encoded(self):
        base = [] if self.cleared else list(self.ctx.backend.durable.get(self.slot, []))
        if self.ctx.eager:
            return base + list(self.added)
        return base + [self.coder.encode(v) for v in self.added]

    def finalize(self):
        pass

    def prefetch(self):
        pass

    def commit(self):
        pass


class _Bag(_Cell, userstate.BagRuntimeState):
    def read(self):
        self.ctx.point("state.read")
        return self._values()


class _SetCell(_Cell, userstate.SetRuntimeState):
    def read(self):
        self.ctx.point("state.read")
        res = []
        for v in self._values():
            if v not in res:
                res.append(v)
        return set(res)


class _RMW(_Cell, userstate.ReadModifyWriteRuntimeState):
    def read(self):
        self.ctx.point("state.read")
        vals = self._values()
        return vals[-1] if vals else None

    def write(self, value):
        self.ctx.point("state.add")
        self.cleared = True
        self.added = [self.coder.encode(value) if self.ctx.eager else value]


class _Combining(userstate.CombiningValueRuntimeState):
    def __init__(self, ctx, slot, spec):
        self.ctx, self.slot, self.spec = ctx, slot, spec
        raw = ctx.backend.durable.get(slot)
        self.acc = spec.coder.decode(raw[0]) if raw else spec.combine_fn.create_accumulator()
        self.is_cleared = False

    def read(self):
        self.ctx.point("state.read")
        return self.spec.combine_fn.extract_output(self.acc)

    def add(self, value):
        self.ctx.point("state.add")
        self.is_cleared = False
        self.acc = self.spec.combine_fn.add_input(self.acc, value)

    def clear(self):
        self.ctx.point("state.clear")
        self.is_cleared = True
        self.acc = self.spec.combine_fn.create_accumulator()

    def encoded(self):
        if self.is_cleared:
            return []
        return [self.spec.coder.encode(self.acc)]

    def finalize(self):
        pass

    def prefetch(self):
        pass

    def commit(self):
        pass


class StateContext(userstate.UserStateContext):
    """State view of one bundle: an overlay over the durable backend, written back only on commit."""

    def __init__(self, backend, eager, point):
        self.backend, self.eager, self.point = backend, eager, point
        self.cells = {}

    def get_timer(self, timer_spec, key, window, timestamp, pane):
        raise HarnessError("timers are not simulated")

    def get_state(self, spec, key, window):
        slot = (spec.name, _CODER.encode(key), repr(window))
        if slot not in self.cells:
            if isinstance(spec, userstate.BagStateSpec):
                cell = _Bag(self, slot, spec.coder)
            elif isinstance(spec, userstate.SetStateSpec):
                cell = _SetCell(self, slot, spec.coder)
            elif isinstance(spec, userstate.ReadModifyWriteStateSpec):
                cell = _RMW(self, slot, spec.coder)
            elif isinstance(spec, userstate.CombiningValueStateSpec):
                cell = _Combining(self, slot, spec)
            else:
                raise HarnessError(f"state spec {spec} is not simulated")
            self.cells[slot] = cell
        return self.cells[slot]

    def encode_all(self):
        return {slot: cell.encoded() for slot, cell in self.cells.items()}

    def reset(self):
        self.cells = {}

    def commit(self):
        pass


class SwitchableContext(userstate.UserStateContext):
    """Handed to the DoFnRunner once per worker; points at the current bundle's StateContext."""

    def __init__(self):
        self.cur = None

    def get_state(self, *a):
        return self.cur.get_state(*a)

    def get_timer(self, *a):
        return self.cur.get_timer(*a)

    def commit(self):
        pass

    def reset(self):
        pass


# ------------------------------------------------------------------------------------------------- graph


class Node:
    def __init__(self, idx, kind, name, applied):
        self.idx, self.kind, self.name, self.applied = idx, kind, name, applied
        self.transform = applied.transform
        self.inputs = []
        self.outputs = {}  # tag -> PCollection
        self.payload = None
        self.backend = None

    def __repr__(self):
        return f"<{self.idx}:{self.kind}:{self.name}>"


def _is_read(t):
    return isinstance(t, Read)


def flatten_graph(pipeline):
    """Leaf-level nodes in topological order; the I/O composites the simulator stands in for are kept whole."""
    from apache_beam.io.gcp.pubsub import WriteToPubSub
    from apache_beam.io.textio import WriteToText
    from apache_beam.transforms.util import Reshuffle, ReshufflePerKey

    nodes = []

    def visit(ap):
        t = ap.transform
        if t is None:
            for part in ap.parts:
                visit(part)
            return
        kind = None
        if _is_read(t):
            kind = "read"
        elif isinstance(t, beam.Create):
            kind = "create"
        elif isinstance(t, WriteToPubSub):
            kind = "sink_pubsub"
        elif isinstance(t, WriteToText):
            kind = "sink_text"
        elif isinstance(t, (Reshuffle, ReshufflePerKey)):
            kind = "reshuffle"
        elif not ap.parts:
            if isinstance(t, beam.ParDo):
                kind = "stateful" if userstate.is_stateful_dofn(t.fn) else "pardo"
            elif isinstance(t, beam.GroupByKey):
                kind = "gbk"
            elif isinstance(t, beam.Flatten):
                kind = "flatten"
            elif isinstance(t, beam.Impulse):
                kind = "impulse"
            elif isinstance(t, beam.CombineValues) if hasattr(beam, "CombineValues") else False:
                kind = "pardo"
            else:
                if not ap.outputs or not [o for o in ap.outputs.values() if o.producer is ap]:
                    return  # an empty composite (identity)
                raise HarnessError(f"transform {ap.full_label} ({type(t)}) is not simulated")
        if kind is None:
            for part in ap.parts:
                visit(part)
            return
        n = Node(len(nodes), kind, ap.full_label, ap)
        if kind in ("pardo", "stateful") and ap.side_inputs:
            raise HarnessError(f"side inputs of {ap.full_label} are not simulated")
        n.inputs = [x for x in ap.inputs if isinstance(x, beam.pvalue.PCollection)]
        n.outputs = dict(ap.outputs)
        nodes.append(n)

    visit(pipeline._root_transform())
    return nodes


def _pcoll_alias(pipeline, nodes):
    """Composites may re-expose inner outputs; map every PCollection to its producing leaf's PCollection."""
    return None


class _Emit(Receiver):
    def __init__(self, fn):
        self.fn = fn

    def receive(self, windowed_value):
        self.fn(windowed_value)

    def receive_batch(self, windowed_batch):
        for wv in windowed_batch.as_windowed_values(None):
            self.fn(wv)

    def flush(self):
        pass


class _Pcapture(io.StringIO):
    """Stands in for sys.stdout: what is printed belongs to the bundle that printed it."""

    def __init__(self, run):
        super().__init__()
        self.run = run

    def write(self, s):
        if self.run.cur is not None:
            self.run.cur.printed.append(s)
        else:
            self.run.stray_prints.append(s)
        return len(s)

    def flush(self):
        pass


class Bundle:
    def __init__(self, seq):
        self.seq = seq
        self.printed = []
        self.queued = []  # (node, wv)
        self.published = []  # (kind, target, value)
        self.records = []  # application callback records
        self.trace = []


# ------------------------------------------------------------------------------------------------- the runner


class BeamRun:
    """One pipeline execution. step() performs one scheduler step; run() steps until quiescent."""

    def __init__(self, pipeline, tape, log, cfg, feed=(), name="p", solve_key=None):
        """cfg: mode 'batch'|'stream', eager None|True|False, p_crash, max_crashes, p_restart, p_reorder, max_bundle.
        feed: for a Pub/Sub source, a list of events ["msg", payload bytes, event ts] / ["wm", ts]."""
        self.pipeline, self.tape, self.log, self.cfg, self.name = pipeline, tape, log, cfg, name
        self.nodes = flatten_graph(pipeline)
        self.feed = list(feed)
        self.feed_pos = 0
        self.cur = None
        self.dead = None
        self.crashes = 0
        self.stray_prints = []
        self.committed = []  # committed effects in commit order: ("print", text) / ("pubsub", topic, v) / ("text", path, v)
        self.committed_records = []
        self.attempt_records = []
        self.bundle_seq = 0
        self.steps = 0
        self.source_wm = MIN_TIMESTAMP
        self.gbk_log = []  # ("add"|"drop", window, value, ts, wm)
        self.fired = []  # (gbk node, window, n)
        self.arrivals = []  # (seq, ts, source watermark at arrival)
        self.queues = {}
        self.gbk = {}
        self.crash_point = None
        self._crash_now = None
        self.consumers = {}
        self.on_point = None
        self.batch_done = False
        self.stage_log = {}  # stateful node -> committed [(timestamp micros, value)] in processing order
        self._build()

    # -- construction
    def _build(self):
        producers = {}
        for n in self.nodes:
            for tag, pc in n.outputs.items():
                producers[id(pc)] = n
        for n in self.nodes:
            for pc in n.inputs:
                self.consumers.setdefault(id(pc), []).append(n)
                if id(pc) not in producers:
                    raise HarnessError(f"input of {n} has no producer")
            if n.kind in ("pardo", "stateful"):
                t = n.transform
                n.payload = pickler.dumps((t.fn, list(t.args), dict(t.kwargs)))
            if n.kind in ("stateful", "reshuffle"):
                self.queues[n.idx] = []
                n.backend = StateBackend()
            if n.kind == "gbk":
                self.queues[n.idx] = []
                self.gbk[n.idx] = _Gbk(self, n)
        self.roots = [n for n in self.nodes if n.kind in ("read", "create", "impulse")]
        self.root_work = {}
        for n in self.roots:
            self.root_work[n.idx] = self._root_units(n)
        self._start_workers()
        self.parked = (self.runners, self.sctx)
        self._start_workers()

    def _root_units(self, n):
        """Bounded roots: units of work = splits of the source. Pub/Sub roots: driven by the feed."""
        if n.kind == "impulse":
            return [("values", [WindowedValue(b"", MIN_TIMESTAMP, (GlobalWindow(),))])]
        if n.kind == "create":
            vals = [WindowedValue(v, MIN_TIMESTAMP, (GlobalWindow(),)) for v in n.transform.values]
            return [("values", vals)]
        src = n.transform.source
        if isinstance(src, BoundedSource):
            size = src.estimate_size() or 1
            nsplit = 1 + self.tape.choose(f"{self.name}.splits", self.cfg.get("max_splits", 1))
            bundles = list(src.split(max(1, int(size // nsplit) + 1)))
            units = []
            order = list(range(len(bundles)))
            if self.cfg.get("p_reorder", 0) > 0:
                for i in range(len(order) - 1):
                    j = i + self.tape.choose(f"{self.name}.splitorder", len(order) - i)
                    order[i], order[j] = order[j], order[i]
            for i in order:
                units.append(("split", bundles[i]))
            if len(bundles) > 1:
                self.log.fault("source_split", len(bundles) - 1)
            return units
        return [("feed", src)]

    def _start_workers(self):
        """(Re)create every function from its serialised form, as a fresh worker process does."""
        self.runners = {}
        self.sctx = {}
        for n in self.nodes:
            if n.kind == "stateful":
                self.sctx[n.idx] = SwitchableContext()

    def _runner(self, n):
        """The worker's instance of a function, unpickled when the worker first needs it."""
        r = self.runners.get(n.idx)
        if r is None:
            fn, args, kwargs = pickler.loads(n.payload)
            receivers = {}
            for tag, pc in n.outputs.items():
                tag2 = None if tag in (None, "None") else tag
                receivers[tag2] = _Emit(lambda wv, pc=pc: self._emit(pc, wv))
            receivers.setdefault(None, _Emit(lambda wv: None))
            main = n.outputs.get(None) or n.outputs.get("None") or (list(n.outputs.values()) or [None])[0]
            windowing = main.windowing if main is not None else n.inputs[0].windowing
            r = DoFnRunner(fn, args, kwargs, [], windowing, receivers, step_name=None, user_state_context=self.sctx.get(n.idx))
            r.setup()
            self.runners[n.idx] = r
        return r

    # -- element flow within a bundle
    def _emit(self, pc, wv):
        for c in self.consumers.get(id(pc), ()):
            self._deliver(c, wv)

    def _deliver(self, n, wv):
        if n.kind == "pardo":
            self._touch(n)
            self._runner(n).process(wv)
        elif n.kind in ("stateful", "gbk", "reshuffle"):
            self.cur.queued.append((n, wv))
        elif n.kind == "flatten":
            for pc in n.outputs.values():
                self._emit(pc, wv)
        elif n.kind == "sink_pubsub":
            self.point("sink")
            self.cur.published.append(("pubsub", n.transform.full_topic, wv.value))
        elif n.kind == "sink_text":
            self.point("sink")
            self.cur.published.append(("text", n, wv.value))
        else:
            raise HarnessError(f"cannot deliver to {n}")

    def _touch(self, n):
        """Start the bundle on the first use of each function."""
        if n.idx not in self.started:
            self.started.append(n.idx)
            self._runner(n).start()

    # -- crash points
    def point(self, label):
        """A place where the worker may crash. Decided by the tape."""
        if self.on_point is not None:
            self.on_point(label)
        if self.cur is None:
            return
        p = self.cfg.get("p_crash", 0.0)
        if p > 0 and self.crashes < self.cfg.get("max_crashes", 4):
            if self.tape.chance(f"{self.name}.crash", p):
                self._crash_now = label
                raise SimCrash(label)

    # -- one bundle
    def _bundle(self, what, work):
        """work(bundle) does the processing. Returns True if committed."""
        self.bundle_seq += 1
        b = Bundle(self.bundle_seq)
        self.cur = b
        appkit.CUR["run"] = self
        self.started = []
        self._crash_now = None
        eager = self.cfg.get("eager")
        if eager is None:
            eager = bool(self.tape.choose(f"{self.name}.eager", 2))
        ctxs = {}
        for idx, sw in self.sctx.items():
            ctxs[idx] = sw.cur = StateContext(self.nodes[idx].backend, eager, self.point)
        out, sys.stdout = sys.stdout, _Pcapture(self)
        try:
            try:
                self.point("bundle.start")
                work(b)
                for idx in self.started:
                    self.runners[idx].finish()
                self.point("bundle.finish")
                encoded = {idx: c.encode_all() for idx, c in ctxs.items()}
                queued = [(n, self._recode(wv)) for n, wv in b.queued]
                self.point("commit.before")
            except SimCrash:
                pass
            finally:
                sys.stdout = out
            if self._crash_now is not None:
                # A crash loses everything the bundle did, even if the code under test caught the exception.
                self.crashes += 1
                self.log.fault("crash@" + self._crash_now)
                self.log.add("crash", self.name, what, self._crash_now)
                if self._crash_now == "commit.before" and self.tape.choose(f"{self.name}.reject", 2):
                    self.log.fault("commit_rejected")  # the work was done but the runner refused it: the worker lives on
                else:
                    self._start_workers()
                return False
        except HarnessError:
            raise
        except Exception as e:
            self.dead = e
            self.log.add("dead", self.name, what, type(e).__name__)
            return False
        finally:
            sys.stdout = out
            self.attempt_records.extend(b.records)
            self.cur = None
        for idx, enc in encoded.items():
            durable = self.nodes[idx].backend.durable
            for slot, vals in enc.items():
                if vals:
                    durable[slot] = vals
                else:
                    durable.pop(slot, None)
        for n, wv in queued:
            if n.kind == "gbk":
                self.gbk[n.idx].add(wv)
            else:
                self.queues[n.idx].append(wv)
        if b.printed:
            self.committed.append(("print", None, "".join(b.printed)))
        self.committed.extend(b.published)
        self.committed_records.extend(b.records)
        self.log.add("commit", self.name, what, len(queued), len(b.printed), eager)
        return True

    def _recode(self, wv):
        return WindowedValue(roundtrip(wv.value), wv.timestamp, wv.windows, wv.pane_info)

    # -- scheduling
    def _enabled(self):
        acts = []
        for n in self.roots:
            work = self.root_work[n.idx]
            if work and work[0][0] != "feed":
                acts.append(("root", n))
            elif work and self.feed_pos < len(self.feed):
                acts.append(("feed", n))
        for n in self.nodes:
            if n.kind in ("stateful", "reshuffle") and self.queues[n.idx]:
                acts.append(("stage", n))
            elif n.kind == "gbk" and self.queues[n.idx]:
                acts.append(("gbkout", n))
        return acts

    def step(self):
        """One scheduler step; returns False when the pipeline is quiescent (or dead)."""
        if self.dead is not None:
            return False
        self.steps += 1
        if self.steps > self.cfg.get("max_steps", 5000):
            raise HarnessError("simulation did not quiesce")
        acts = self._enabled()
        if not acts:
            return self._advance_end()
        # downstream first by default: in-order, fully drained processing
        acts = acts[::-1]
        i = 0
        if self.cfg.get("p_interleave", 0) > 0 and len(acts) > 1:
            if self.tape.chance(f"{self.name}.ilv", self.cfg["p_interleave"]):
                i = self.tape.choose(f"{self.name}.act", len(acts))
                if i:
                    self.log.fault("interleave")
        kind, n = acts[i]
        if kind != "feed" and self.cfg.get("p_restart", 0) > 0 and self.tape.chance(f"{self.name}.restart", self.cfg["p_restart"]):
            if self.tape.choose(f"{self.name}.switch", 2):
                # the next bundles go to another live worker; this one keeps its instances and may be used again
                self.log.fault("worker_switch")
                self.log.add("switch", self.name)
                self.runners, self.sctx, self.parked = self.parked[0], self.parked[1], (self.runners, self.sctx)
            else:
                self.log.fault("worker_restart")
                self.log.add("restart", self.name)
                globalsnap.restore()  # a new process: what the code keeps in module or class attributes is gone
                self._start_workers()
        if kind == "root":
            self._run_root(n)
        elif kind == "feed":
            self._run_feed(n)
        else:
            self._run_stage(n)
        self._advance_watermarks()
        return self.dead is None

    def run(self):
        while self.step():
            pass
        return self

    def _take(self, label, avail):
        """How many elements go into this bundle: 0 -> everything available."""
        mb = self.cfg.get("max_bundle", 0)
        if mb <= 0 or avail <= 1:
            return avail
        k = self.tape.choose(f"{self.name}.bundle.{label}", mb + 1)
        return avail if k == 0 else min(k, avail)

    def _run_root(self, n):
        unit = self.root_work[n.idx][0]
        if unit[0] == "values":
            vals = unit[1]
        else:
            bundle = unit[1]
            tracker = bundle.source.get_range_tracker(bundle.start_position, bundle.stop_position)
            vals = [WindowedValue(v, MIN_TIMESTAMP, (GlobalWindow(),)) for v in bundle.source.read(tracker)]

        def work(b):
            for wv in vals:
                self.point("element")
                self._emit(self._main(n), self._recode(wv))

        if self._bundle(f"root{n.idx}", work):
            self.root_work[n.idx].pop(0)
            self.batch_done = all(not w for w in self.root_work.values())

    def _run_feed(self, n):
        ev = self.feed[self.feed_pos]
        if ev[0] == "wm":
            self.feed_pos += 1
            t = Timestamp(micros=int(ev[1]))
            if t > self.source_wm:
                self.source_wm = t
            self.log.add("wm", self.name, int(ev[1]))
            return
        # a run of messages
        k = 0
        while self.feed_pos + k < len(self.feed) and self.feed[self.feed_pos + k][0] == "msg":
            k += 1
        k = self._take("feed", k)
        msgs = self.feed[self.feed_pos:self.feed_pos + k]

        def work(b):
            for m in msgs:
                self.point("element")
                wv = WindowedValue(bytes(m[1]), Timestamp(micros=int(m[2])), (GlobalWindow(),))
                self._emit(self._main(n), wv)

        if self._bundle(f"feed{n.idx}", work):
            for m in msgs:
                self.arrivals.append((m[1], int(m[2]), self.source_wm.micros))
            self.feed_pos += k

    def _main(self, n):
        return n.outputs.get(None) or list(n.outputs.values())[0]

    def _run_stage(self, n):
        q = self.queues[n.idx]
        k = self._take(n.kind, len(q))
        pr = self.cfg.get("p_reorder", 0)
        picked = list(range(len(q)))
        if pr > 0 and len(q) > 1:
            for i in range(min(k, len(q) - 1)):
                if self.tape.chance(f"{self.name}.reorder", pr):
                    j = i + self.tape.choose(f"{self.name}.pick", len(q) - i)
                    if j != i:
                        picked[i], picked[j] = picked[j], picked[i]
                        self.log.fault("reorder")
        elems = [q[i] for i in picked[:k]]

        def work(b):
            for wv in elems:
                self.point("element")
                wv = self._recode(wv)
                if n.kind == "stateful":
                    self._touch(n)
                    self._runner(n).process(wv)
                else:
                    for pc in n.outputs.values():
                        self._emit(pc, wv)

        if self._bundle(f"{n.kind}{n.idx}x{k}", work):
            left = [q[i] for i in sorted(picked[k:])]
            self.queues[n.idx] = left
            if n.kind == "stateful":
                self.stage_log.setdefault(n.idx, []).extend((wv.timestamp.micros, wv.value) for wv in elems)

    # -- watermarks
    def _pending_hold(self):
        """Minimum timestamp of elements in flight upstream of the GroupByKeys."""
        hold = MAX_TIMESTAMP
        gbk_first = min(self.gbk) if self.gbk else 10**9
        for idx, q in self.queues.items():
            if idx < gbk_first:
                for wv in q:
                    if wv.timestamp < hold:
                        hold = wv.timestamp
        return hold

    def _advance_watermarks(self):
        if self.dead is not None or self.cfg["mode"] != "stream":
            return
        wm = min(self.source_wm, self._pending_hold())
        for idx in sorted(self.gbk):
            self.gbk[idx].advance(wm)

    def _advance_end(self):
        """Nothing is runnable: input is exhausted, so the watermark goes to infinity; fire what is left."""
        before = len(self.fired)
        for idx in sorted(self.gbk):
            self.gbk[idx].advance(MAX_TIMESTAMP)
            if any(self.queues.values()):
                return True
        return len(self.fired) != before or any(self.queues.values())


class _Gbk:
    """Grouping service with the windowing of the input PCollection. Default trigger: one firing when the watermark
    passes the end of the window, late data dropped per window (plus late firings within the allowed lateness).
    Other triggers are delegated to Beam's own trigger driver."""

    def __init__(self, run, node):
        self.run, self.node = run, node
        self.windowing = node.inputs[0].windowing
        self.default = self.windowing.triggerfn == btrigger.DefaultTrigger()
        self.buf = {}  # (key, window) -> [(value, ts)]
        self.closed = {}
        self.wm = MIN_TIMESTAMP
        self.impl = TimestampCombiner.get_impl(self.windowing.timestamp_combiner, self.windowing.windowfn)
        if not self.default:
            self.drivers = {}

    def add(self, wv):
        key, value = wv.value
        ek = _CODER.encode(key)
        run = self.run
        if not self.default:
            drv, st = self._driver(ek)
            for out in drv.process_elements(st, [wv.with_value(value)], self.wm, self.wm):
                self._out(ek, list(out.value), out.timestamp, out.windows)
            return
        lateness = self.windowing.allowed_lateness
        for w in wv.windows:
            late = self.wm >= w.end
            expired = late and not (self.wm < w.end + lateness)
            if expired:
                run.gbk_log.append(("drop", w, value, wv.timestamp, self.wm))
                run.log.fault("late_dropped")
                run.log.add("late_drop", run.name, w.end.micros, wv.timestamp.micros)
                continue
            run.gbk_log.append(("add", w, value, wv.timestamp, self.wm))
            self.buf.setdefault((ek, w), []).append((value, wv.timestamp))
            if late:
                self._fire((ek, w))

    def _driver(self, ek):
        if ek not in self.drivers:
            self.drivers[ek] = (btrigger.create_trigger_driver(self.windowing), btrigger.InMemoryUnmergedState())
        return self.drivers[ek]

    def advance(self, wm):
        if wm <= self.wm:
            return
        self.wm = wm
        run = self.run
        if not self.default:
            for ek in sorted(self.drivers):
                drv, st = self.drivers[ek]
                while True:
                    timers = st.get_and_clear_timers(wm)
                    if not timers:
                        break
                    for window, (name, domain, ts, _) in timers:
                        for out in drv.process_timer(window, name, domain, ts, st, wm):
                            self._out(ek, list(out.value), out.timestamp, out.windows)
            return
        ready = [kw for kw in self.buf if self.buf[kw] and kw[1].end <= wm]
        ready.sort(key=lambda kw: (kw[1].end, kw[1].start, kw[0]))
        if len(ready) > 1 and run.cfg.get("fire_prio"):
            # an order fixed per window, independent of how the run is bundled
            prio = {kw: run.tape.once(f"{run.name}.fprio.{kw[1].start.micros}.{kw[1].end.micros}", 3, (8, 1, 1)) for kw in ready}
            if any(prio.values()):
                run.log.fault("fire_reorder")
            ready.sort(key=lambda kw: (kw[1].end.micros + prio[kw] * 2 * (kw[1].end - kw[1].start).micros, kw[0]))
        if len(ready) > 1 and run.cfg.get("p_fire_reorder", 0) > 0:
            order = list(range(len(ready)))
            for i in range(len(ready) - 1):
                if run.tape.chance(f"{run.name}.firereorder", run.cfg["p_fire_reorder"]):
                    j = i + run.tape.choose(f"{run.name}.fire", len(ready) - i)
                    if j != i:
                        order[i], order[j] = order[j], order[i]
                        run.log.fault("fire_reorder")
            ready = [ready[i] for i in order]
        for kw in ready:
            self._fire(kw)

    def _fire(self, kw):
        ek, w = kw
        run = self.run
        vals = self.buf.pop(kw)
        if run.cfg.get("valshuffle"):
            # another order, without a decision of the tape (a grouped window has none that is promised)
            vals = list(reversed(vals))
        if run.cfg.get("p_reorder", 0) > 0 and len(vals) > 1:
            vals = list(vals)
            for i in range(len(vals) - 1):
                j = i + run.tape.choose(f"{run.name}.valorder", len(vals) - i)
                vals[i], vals[j] = vals[j], vals[i]
            run.log.fault("value_shuffle")
        panes = [vals]
        if run.cfg.get("p_split_pane", 0) > 0 and len(vals) > 1 and run.tape.chance(f"{run.name}.splitpane", run.cfg["p_split_pane"]):
            k = 1 + run.tape.choose(f"{run.name}.paneat", len(vals) - 1)
            panes = [vals[:k], vals[k:]]
            run.log.fault("split_pane")
        for pane in panes:
            ts = self.impl.merge(w, [self.impl.assign_output_time(w, t) for _, t in pane])
            self._out(ek, [v for v, _ in pane], ts, (w,))

    def _out(self, ek, vals, ts, windows):
        run = self.run
        run.fired.append((self.node.idx, windows, len(vals)))
        run.log.add("fire", run.name, [w.end.micros for w in windows], len(vals))
        run.queues[self.node.idx].append(WindowedValue((_CODER.decode(ek), vals), ts, windows))


def write_text_outputs(run, scratch_map=None):
    """Run the committed text records through Beam's real text sink, per sink node. Returns {path_prefix: [shard paths]}."""
    by_node = {}
    for kind, n, v in run.committed:
        if kind == "text":
            by_node.setdefault(n.idx, (n, []))[1].append(v)
    res = {}
    for idx, (n, vals) in sorted(by_node.items()):
        sink = n.transform._sink
        init = sink.initialize_write()
        writer = sink.open_writer(init, "sim0")
        for v in vals:
            writer.write(v)
        shards = [writer.close()]
        pre = list(sink.pre_finalize(init, shards) or [])
        res[idx] = list(sink.finalize_write(init, shards, pre))
    return res
