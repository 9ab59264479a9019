"""Seams under the simulator's control. Must be imported before sawatabi, so that any way of naming these functions
in the code under test (`time.time`, `from time import time`, ...) reaches the seam. With no simulation active every
seam passes straight through to the real function.
"""
import builtins
import gc
import random
import socket
import sys
import threading
import time

REAL = {
    "time": time.time,
    "time_ns": time.time_ns,
    "perf_counter": time.perf_counter,
    "perf_counter_ns": time.perf_counter_ns,
    "monotonic": time.monotonic,
    "monotonic_ns": time.monotonic_ns,
    "process_time": time.process_time,
    "sleep": time.sleep,
    "stdout": sys.stdout,
    "open": builtins.open,
    "print": builtins.print,
}


class Clock:
    """A simulated clock: wall time and monotonic time move independently.

    `script` (optional) is called at every reading with the kind ('wall'/'mono') and may move the clock.
    """

    def __init__(self, wall=1_600_000_000.0, mono=1000.0):
        self.wall = wall
        self.mono = mono
        self.readings = []
        self.on_read = None

    def read_wall(self):
        if self.on_read is not None:
            self.on_read("wall")
        self.readings.append(("wall", self.wall))
        return self.wall

    def read_mono(self):
        if self.on_read is not None:
            self.on_read("mono")
        self.readings.append(("mono", self.mono))
        return self.mono

    def advance(self, dt):
        self.wall += dt
        self.mono += dt

    def jump_wall(self, dt):
        self.wall += dt


class WanderingClock(Clock):
    """Moves at every reading: forwards, by hours, or (the wall clock) backwards; not at all with seed 0."""

    def __init__(self, seed):
        super().__init__()
        self.rng = random.Random(seed)
        if seed:
            self.on_read = self.move

    def move(self, kind):
        self.readings.clear()
        self.advance(self.rng.choice([0.0, 1e-6, 0.001, 1.0, 3600.0]))
        if self.rng.random() < 0.3:
            self.jump_wall(-self.rng.choice([0.5, 10.0, 86400.0]))


_active = {"clock": None}


def set_clock(clock):
    _active["clock"] = clock


def sim_time():
    c = _active["clock"]
    return REAL["time"]() if c is None else c.read_wall()


def sim_time_ns():
    c = _active["clock"]
    return REAL["time_ns"]() if c is None else round(c.read_wall() * 1e9)


def sim_perf_counter():
    c = _active["clock"]
    return REAL["perf_counter"]() if c is None else c.read_mono()


def sim_perf_counter_ns():
    c = _active["clock"]
    return REAL["perf_counter_ns"]() if c is None else round(c.read_mono() * 1e9)


def sim_monotonic():
    c = _active["clock"]
    return REAL["monotonic"]() if c is None else c.read_mono()


def sim_monotonic_ns():
    c = _active["clock"]
    return REAL["monotonic_ns"]() if c is None else round(c.read_mono() * 1e9)


def sim_process_time():
    c = _active["clock"]
    return REAL["process_time"]() if c is None else c.read_mono()


def sim_sleep(sec):
    c = _active["clock"]
    if c is None:
        REAL["sleep"](sec)
    else:
        c.advance(max(0.0, sec))


def install():
    if getattr(time, "_verif_seams", False):
        return
    time._verif_seams = True
    time.time = sim_time
    time.time_ns = sim_time_ns
    time.perf_counter = sim_perf_counter
    time.perf_counter_ns = sim_perf_counter_ns
    time.monotonic = sim_monotonic
    time.monotonic_ns = sim_monotonic_ns
    time.process_time = sim_process_time
    time.sleep = sim_sleep
    import numpy as np

    REAL["default_rng"] = np.random.default_rng

    def default_rng(*args, **kwargs):
        hook = _active.get("rng")
        if hook is None:
            return REAL["default_rng"](*args, **kwargs)
        return hook(*args, **kwargs)

    np.random.default_rng = default_rng


def set_rng(hook):
    _active["rng"] = hook


def no_network():
    """Any attempt of the code under test to open a real socket is refused (the simulated transport sits above)."""

    def refuse(self, *a, **k):
        raise ConnectionRefusedError("simulation: no real network")

    socket.socket.connect = refuse
    socket.socket.connect_ex = refuse

    def no_dns(*a, **k):
        raise socket.gaierror("simulation: no real network")

    socket.getaddrinfo = no_dns


def reset_process_randomness(seed):
    import numpy as np

    random.seed(seed)
    np.random.seed(seed % (2**32))
