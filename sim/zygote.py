"""Runs a function in a pristine process: a copy of this worker forked before the first simulated run, so that nothing an earlier or
concurrent run left in memory (module or class attributes, caches, default arguments) can influence it."""
import importlib
import os
import pickle
import struct

from sim.core import HarnessError

_chan = None


class ZygoteError(Exception):
    pass


def _send(fd, data):
    data = struct.pack(">I", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _read(fd, n):
    buf = b""
    while len(buf) < n:
        part = os.read(fd, n - len(buf))
        if not part:
            return None
        buf += part
    return buf


def _recv(fd):
    head = _read(fd, 4)
    return None if head is None else _read(fd, struct.unpack(">I", head)[0])


def start():
    """To be called once, single-threaded, before anything of the code under test ran."""
    global _chan
    rq, wq = os.pipe()
    rs, ws = os.pipe()
    if os.fork():
        os.close(rq)
        os.close(ws)
        _chan = (wq, rs)
        return
    os.close(wq)
    os.close(rs)
    try:
        while True:
            req = _recv(rq)
            if req is None:
                break
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    mod, fn, args = pickle.loads(req)
                    res = ("ok", getattr(importlib.import_module(mod), fn)(*args))
                    data = pickle.dumps(res)
                except BaseException as e:  # noqa: BLE001
                    import traceback

                    data = pickle.dumps(("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))
                _send(w, data)
                os._exit(0)
            os.close(w)
            data = _recv(r)
            os.close(r)
            os.waitpid(pid, 0)
            _send(ws, data if data is not None else pickle.dumps(("died", "")))
    finally:
        os._exit(0)


def call(mod, fn, *args):
    _send(_chan[0], pickle.dumps((mod, fn, args)))
    data = _recv(_chan[1])
    if data is None:
        raise HarnessError("the zygote died")
    kind, value = pickle.loads(data)
    if kind == "died":
        raise HarnessError("the pristine process died")
    if kind == "error":
        raise ZygoteError(value)
    return value
