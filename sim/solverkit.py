"""Helpers around solvers shared by several checks: digests, model generation, scripted randomness, fake services."""
import contextlib
import gzip
import io
import itertools
import json
import random

import numpy as np

from sim import seams


def sampleset_digest(ss):
    """Samples with energies and multiplicities, sorted: plain data."""
    rows = []
    for d in ss.data(fields=["sample", "energy", "num_occurrences"], sorted_by=None):
        rows.append([sorted((str(k), int(v)) for k, v in dict(d.sample).items()), float(d.energy) + 0.0, int(d.num_occurrences)])
    return [ss.vartype.name, sorted(rows)]


def solve_digest(solver, physical, kwargs):
    return digest(solver.solve(physical, **kwargs))


def digest(r):
    if isinstance(r, tuple):
        ss, stats = r
        return [sampleset_digest(ss), [{k: [float(x) + 0.0 for x in v] for k, v in s.items()} for s in stats]]
    return [sampleset_digest(r), None]


# ---- models ---------------------------------------------------------------------------------------------------------

WEIGHTS = {"variables": 3, "append": 1, "add": 14, "upd": 2, "rm": 1, "del": 1, "fix": 1, "con_add": 2, "offset": 3, "conv": 1}


def g_model(rng, mtype=None, length=(3, 10), extra=None):
    from sim import history as H

    ws = dict(WEIGHTS)
    ws.update(extra or {})
    w = H.g_history(rng, ws, nmodels=1, length=length, ph=0.0)
    if mtype:
        w["mtypes"] = [mtype]
    return w


def g_big(rng, mtype=None, sizes=(9, 10)):
    """A model with more variables than a random history makes."""
    n = rng.choice(sizes)
    quad = [[i, j, rng.choice([1.0, -1.0, 0.5, -2.0, 0.75])] for i, j in itertools.combinations(range(n), 2) if rng.random() < 0.3]
    w = {"big": n, "mtype": mtype or rng.choice(["ising", "qubo"]), "h": [rng.choice([1.0, -1.0, 0.5, -1.5, 2.0]) for _ in range(n)], "quad": quad, "offset": rng.choice([0.0, 1.5]), "unit": rng.choice([1.0, 1.0, 2.0**-30, 2.0**20]), "feeds": [{}], "ops": []}
    return w


def build_big(w, mtype=None):
    from sawatabi.model import LogicalModel

    u = w["unit"]
    m = LogicalModel(mtype=mtype or w["mtype"])
    x = m.variables("x", shape=(w["big"],))
    for i, c in enumerate(w["h"]):
        m.add_interaction(x[i], coefficient=c * u)
    for i, j, c in w["quad"]:
        m.add_interaction((x[i], x[j]), coefficient=c * u)
    m.offset(w["offset"] * u)
    return m, m.to_physical()


def magnitude(poly):
    """Sum of the absolute coefficients: rounding errors of energies are far below it."""
    return sum(abs(c) for c in poly.values())


def build(w, log, mtype=None):
    """-> (logical, physical, polynomial) from the real code; None if the model came out empty."""
    from sim import history as H
    from sim.checks.modelcheck import Found, Runner, Stop

    if "big" in w:
        m, p = build_big(w, mtype)
        return m, p, H.polynomial(p)
    R = Runner(w, log)
    try:
        for i, op in enumerate(w["ops"]):
            R.step(i, op)
    except (Found, Stop):
        pass  # other properties' business
    m = R.models[0]
    if mtype and m.get_mtype() != mtype:
        m.to_qubo() if mtype == "qubo" else m.to_ising()
    seams.set_clock(None)
    p = m.to_physical(w["feeds"][0])
    poly = H.polynomial(p)
    if not any(k for k in poly):
        return None
    # variables whose coefficients are all zero do not belong to the physical model
    return m, p, poly


def energy(poly, sample):
    e = 0.0
    for k, c in poly.items():
        for x in k:
            c = c * sample[x]
        e += c
    return e


def poly_vars(poly):
    return sorted({x for k in poly for x in k})


def states(poly, vartype):
    vs = poly_vars(poly)
    vals = (1, -1) if vartype == "SPIN" else (1, 0)
    for t in itertools.product(vals, repeat=len(vs)):
        yield dict(zip(vs, t))


# ---- randomness -----------------------------------------------------------------------------------------------------


class DrawFailure(Exception):
    pass


class ScriptRng:
    """Stands in for a numpy Generator: the tape picks extreme draws."""

    def __init__(self, tape, log, label="rng", fail_at=None, force=None):
        self._real = seams.REAL["default_rng"](tape.choose(label + ".seed", 2**31))
        self._tape, self._log, self._label = tape, log, label
        self._n = 0
        self._fail_at = fail_at
        self._mode = {k: tape.once(f"{label}.mode.{k}", 4) for k in ("random", "integers", "permutation")}
        self._mode.update(force or {})
        self.drawn = 0  # uniform numbers handed out

    def _draw(self, kind):
        self._n += 1
        if self._fail_at is not None and self._n == self._fail_at:
            self._log.fault("rng_failure")
            raise DrawFailure("simulated failure of the random generator")
        m = self._mode[kind]
        if m == 3:
            m = self._tape.choose(f"{self._label}.{kind}", 3)
        if m:
            self._log.fault("extreme_draw_" + kind)
        return m

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def random(self, size=None, *a, **k):
        r = self._real.random(size, *a, **k)
        self.drawn += int(np.size(r))
        m = self._draw("random")
        if m == 1:
            return r * 0.0
        if m == 2:
            return r * 0.0 + (1.0 - 2.0**-53)
        return r

    def integers(self, low, high=None, size=None, **k):
        r = self._real.integers(low, high, size, **k)
        m = self._draw("integers")
        lo, hi = (0, low) if high is None else (low, high)
        hi = hi if k.get("endpoint") else hi - 1
        if m == 1:
            return r * 0 + lo
        if m == 2:
            return r * 0 + hi
        return r

    def permutation(self, x, *a, **k):
        r = self._real.permutation(x, *a, **k)
        m = self._draw("permutation")
        if m == 1:
            r.sort()
        elif m == 2:
            r[::-1].sort()
        return r

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._real, name)


# ---- Optigan service ------------------------------------------------------------------------------------------------


class OptiganService:
    """The remote service behind requests' transport adapter: receives real prepared requests, answers as scripted."""

    def __init__(self, script, log):
        self.script, self.log = script, log
        self.requests = []
        self.replies = []

    def send(self, adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        import requests
        from urllib3.exceptions import ProtocolError, ReadTimeoutError  # noqa: F401

        n = len(self.requests)
        body = request.body
        if isinstance(body, str):
            body = body.encode()
        headers = {k.lower(): v for k, v in request.headers.items()}
        raw = body or b""
        decoded, err = None, None
        try:
            data = gzip.decompress(raw) if headers.get("content-encoding") == "gzip" else raw
            decoded = json.loads(data)
        except Exception as e:  # noqa: BLE001
            err = repr(e)
        self.requests.append({"method": request.method, "url": request.url, "headers": headers, "payload": decoded, "error": err, "timeout": timeout, "gzip": headers.get("content-encoding") == "gzip"})
        act = self.script(n, self.requests[-1])
        self.replies.append(act)
        fault = act.get("fault")
        if fault:
            self.log.fault("optigan_" + fault)
        if fault == "refused":
            raise requests.exceptions.ConnectionError("simulated: connection refused")
        if fault == "reset":
            raise requests.exceptions.ConnectionError(("Connection aborted.", ConnectionResetError(104, "Connection reset by peer")))
        if fault == "timeout":
            raise requests.exceptions.ReadTimeout("simulated: read timed out")
        if fault == "connect_timeout":
            raise requests.exceptions.ConnectTimeout("simulated: connect timed out")
        if fault == "ssl":
            raise requests.exceptions.SSLError("simulated: certificate")
        if fault == "stall":
            if timeout is None:
                raise Stalled()
            raise requests.exceptions.ReadTimeout("simulated: read timed out")
        return self.respond(adapter, request, act)

    def respond(self, adapter, request, act):
        from urllib3 import HTTPHeaderDict
        from urllib3.response import HTTPResponse

        body = act["body"]
        headers = {"Content-Type": "application/json"}
        if act.get("gzip"):
            body = gzip.compress(body, mtime=0)
            headers["Content-Encoding"] = "gzip"
        full = len(body)
        if act.get("fault") == "truncated":
            body = body[: max(1, full * act["cut"] // 100)]
            if body == b"" or len(body) == full:
                body = body[:-1]
        if act.get("fault") == "corrupted":
            b = bytearray(body)
            i = max(0, min(full - 1, full * act["cut"] // 100))
            b[i] ^= 0x15
            body = bytes(b)
        headers["Content-Length"] = str(full if act.get("length", "full") == "full" else len(body))
        resp = HTTPResponse(body=io.BytesIO(body), headers=HTTPHeaderDict(headers), status=act.get("status", 200), version=11, reason="X", preload_content=False, decode_content=False,
                            request_method=request.method, request_url=request.url)
        return adapter.build_response(request, resp)

    @contextlib.contextmanager
    def installed(self):
        import requests

        real = requests.adapters.HTTPAdapter.send
        svc = self

        def send(adapter, request, *a, **k):
            return svc.send(adapter, request, *a, **k)

        requests.adapters.HTTPAdapter.send = send
        try:
            yield self
        finally:
            requests.adapters.HTTPAdapter.send = real


class Stalled(BaseException):
    """The call would block for ever."""


def optigan_answer(payload, rng, nvars, reads):
    """A correct service: samples by index with their energies under the submitted polynomial."""
    spins, energies = [], []
    for _ in range(reads):
        s = [rng.randrange(2) for _ in range(nvars)]
        e = 0.0
        for i, j, c in payload["polynomial"]:
            e += c * s[i] * s[j]
        spins.append(s)
        energies.append(e)
    return {"execution_parameters": {"num_unit_steps": payload.get("num_unit_steps")}, "execution_time": {"annealing_time": 1.5}, "energies": energies, "spins": spins}


# ---- D-Wave service -------------------------------------------------------------------------------------------------


class DWaveService:
    """Records what reaches the real DWaveSampler / EmbeddingComposite classes; their network side is a stub."""

    def __init__(self, script, log):
        self.script, self.log = script, log
        self.samplers, self.composites, self.samples = [], [], []

    @contextlib.contextmanager
    def installed(self):
        from dwave.system.composites import EmbeddingComposite
        from dwave.system.samplers import DWaveSampler

        svc = self
        saved = (DWaveSampler.__init__, EmbeddingComposite.__init__, EmbeddingComposite.sample)

        def s_init(self, *a, **k):
            svc.samplers.append({"obj": self, "args": a, "kwargs": k})
            e = svc.script("connect", len(svc.samplers) - 1)
            if e is not None:
                svc.log.fault("dwave_connect_failure")
                raise e

        def c_init(self, child_sampler, *a, **k):
            svc.composites.append({"obj": self, "child": child_sampler, "args": a, "kwargs": k})
            self.children = [child_sampler]

        def c_sample(self, bqm, **k):
            rec = {"obj": self, "bqm": bqm.copy(), "kwargs": k}
            svc.samples.append(rec)
            e = svc.script("sample", len(svc.samples) - 1)
            if e is not None:
                svc.log.fault("dwave_sample_failure")
                raise e
            rec["answer"] = svc.script("answer", len(svc.samples) - 1, bqm)
            return rec["answer"]

        DWaveSampler.__init__, EmbeddingComposite.__init__, EmbeddingComposite.sample = s_init, c_init, c_sample
        try:
            yield self
        finally:
            DWaveSampler.__init__, EmbeddingComposite.__init__, EmbeddingComposite.sample = saved


def rng_of(*parts):
    from sim.core import derive

    return random.Random(derive(*parts))
