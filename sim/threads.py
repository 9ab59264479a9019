"""Deterministic threads: real threads of which exactly one runs at any time; control changes hands only at source lines
of the code under test, where the tape says so."""
import os
import sys
import threading

from sim import env

QUANTA = [None, 1, 2, 3, 5, 8, 20, 60, 200]


class Sched:
    def __init__(self, tape, log, label="sched", root=None):
        self.tape, self.log, self.label = tape, log, label
        self.root = os.path.realpath(root or os.path.join(env.REPO, "sawatabi"))
        self.main = threading.Semaphore(0)
        self.cur = None
        self.left = None
        self.switches = 0

    def _local(self, frame, event, arg):
        if event == "line" and self.left is not None:
            self.left -= 1
            if self.left <= 0:
                me = self.cur
                self.main.release()
                me["sem"].acquire()
        return self._local

    def _global(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(self.root) or os.path.realpath(fn).startswith(self.root):
            return self._local
        return None

    def _body(self, t):
        t["sem"].acquire()
        sys.settrace(self._global)
        try:
            t["out"] = ("ok", t["fn"]())
        except Exception as e:  # noqa: BLE001
            t["out"] = ("raise", e)
        except BaseException as e:  # noqa: BLE001
            t["out"] = ("base", e)
        finally:
            sys.settrace(None)
            t["done"] = True
            self.main.release()

    def run(self, fns):
        ts = []
        for i, fn in enumerate(fns):
            t = {"i": i, "fn": fn, "sem": threading.Semaphore(0), "done": False, "out": None}
            t["thread"] = threading.Thread(target=self._body, args=(t,), daemon=True)
            t["thread"].start()
            ts.append(t)
        last = None
        while True:
            ready = [t for t in ts if not t["done"]]
            if not ready:
                break
            t = ready[self.tape.choose(self.label + ".who", len(ready))]
            q = QUANTA[self.tape.choose(self.label + ".quantum", len(QUANTA))] if len(ready) > 1 else None
            if last is not None and t is not last:
                self.switches += 1
            last = t
            self.cur, self.left = t, q
            t["sem"].release()
            self.main.acquire()
        for t in ts:
            t["thread"].join()
        if self.switches:
            self.log.fault("thread_switch", self.switches)
        self.log.add("threads", self.switches)
        return [t["out"] for t in ts]
