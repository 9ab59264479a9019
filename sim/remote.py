"""A second process (other hash seed) in which parts of a model's history are executed: models travel by pickle."""
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run_segment(models, cops, wall, feeds):
    """Executes concrete operations [(model index, cop, wall)], returns outcomes and fingerprints."""
    from sim import history as H
    from sim import seams

    clock = seams.Clock(wall=wall)
    seams.set_clock(clock)
    outcomes = []
    try:
        H.SHARED.clear()
        for mi, cop, at in cops:
            clock.wall = at
            extra = models[cop["o"]] if cop["op"] == "merge" and "o" in cop else None
            try:
                res = H.execute(models[mi], cop, extra)
                outcomes.append(["ok", describe(res)])
            except Exception as e:  # noqa: BLE001
                outcomes.append(["raise", type(e).__name__])
        fps = [H.fingerprint(m, feeds) for m in models]
    finally:
        seams.set_clock(None)
    return outcomes, fps


def describe(res):
    """Plain-data description of an operation's result."""
    from sim import history as H

    name = type(res).__name__
    if name == "PhysicalModel":
        return ["physical", H.physical_fp(res), sorted(res.to_polynomial())]
    if name == "LogicalModel":
        return ["logical", res.get_mtype()]
    return res


class Remote:
    def __init__(self, hashseed):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(hashseed)
        self.p = subprocess.Popen([sys.executable, "-m", "sim.remote"], cwd=HERE, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def call(self, *args):
        data = pickle.dumps(args)
        try:
            self.p.stdin.write(struct.pack(">I", len(data)) + data)
            self.p.stdin.flush()
            n = struct.unpack(">I", self._read(4))[0]
            kind, value = pickle.loads(self._read(n))
        except BaseException:
            self.kill()
            raise
        if kind == "error":
            raise RemoteError(value)
        return value

    def _read(self, n):
        buf = b""
        while len(buf) < n:
            part = self.p.stdout.read(n - len(buf))
            if not part:
                raise RemoteError("the remote process ended")
            buf += part
        return buf

    def kill(self):
        self.p.kill()
        self.p.wait()

    def alive(self):
        return self.p.poll() is None


class RemoteError(Exception):
    pass


_remote = None


def get():
    global _remote
    if _remote is None or not _remote.alive():
        import atexit

        _remote = Remote(4242)
        atexit.register(_remote.kill)
    return _remote


def main():
    out = sys.stdout.buffer
    sys.stdout = sys.stderr
    from sim import env

    env.setup()
    from sim import seams, solverkit  # noqa: F401

    seams.no_network()
    inp = sys.stdin.buffer
    while True:
        head = inp.read(4)
        if len(head) < 4:
            return
        n = struct.unpack(">I", head)[0]
        data = inp.read(n)
        try:
            req = pickle.loads(data)
            if req[0] == "segment":
                _, models, cops, wall, feeds = req
                outcomes, fps = run_segment(models, cops, wall, feeds)
                res = ("ok", (outcomes, fps, models))
            elif req[0] == "solve":
                from sim import solverkit

                res = ("ok", solverkit.solve_digest(*req[1:]))
            else:
                res = ("error", f"unknown request {req[0]}")
        except Exception as e:  # noqa: BLE001
            import traceback

            res = ("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
        payload = pickle.dumps(res)
        out.write(struct.pack(">I", len(payload)) + payload)
        out.flush()


if __name__ == "__main__":
    main()
