"""Simulator core: labelled choice tapes, scenarios, event log, minimiser.

One scenario (a JSON document) plus the code under test determines one execution completely.
 * The *workload* part of a scenario is explicit data (operations, messages, options).
 * The *schedule and fault* part is a set of labelled choice streams ("tapes"). While exploring, a stream is
   drawn from a PRNG derived from (scenario seed, label) and recorded; a replay file carries the recorded values, and
   then no PRNG is consulted at all: past the end of a recorded stream every choice is 0, the benign default.
"""
import hashlib
import json
import random


class HarnessError(Exception):
    """The simulator or an oracle itself is broken: never reported as a violation."""


class SimCrash(BaseException):
    """A simulated process crash. BaseException so that `except Exception` in the code under test cannot survive it."""


def derive(*parts):
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Tape:
    def __init__(self, seed=None, recorded=None):
        self.seed = seed
        self.recorded = recorded
        self.out = {}
        self._rng = {}
        self._pos = {}
        self._once = {}

    def _draw(self, label, n, weights):
        if self.recorded is not None:
            lst = self.recorded.get(label, ())
            pos = self._pos.get(label, 0)
            self._pos[label] = pos + 1
            v = lst[pos] if pos < len(lst) else 0
            v = v % n if n > 0 else 0
        else:
            rng = self._rng.get(label)
            if rng is None:
                rng = self._rng[label] = random.Random(derive(self.seed, label))
            if weights is not None:
                v = rng.choices(range(n), weights=weights)[0]
            else:
                v = rng.randrange(n)
        self.out.setdefault(label, []).append(v)
        return v

    def choose(self, label, n, weights=None):
        """An integer in [0, n). 0 is always the benign choice."""
        if n <= 1:
            return 0
        return self._draw(label, n, weights)

    def chance(self, label, p):
        """True with probability p (False is the benign choice)."""
        if p <= 0:
            return False
        return self._draw(label, 2, (1 - p, p)) == 1

    def once(self, label, n, weights=None):
        """A choice fixed for the whole run by its label (the same whenever it is asked for again)."""
        if label not in self._once:
            self._once[label] = self.choose(label, n, weights)
        return self._once[label]

    def recording(self):
        """The streams with trailing zeros (benign choices) removed."""
        res = {}
        for k, v in self.out.items():
            v = list(v)
            while v and v[-1] == 0:
                v.pop()
            if v:
                res[k] = v
        return res


class Log:
    """The event log of one run. Only explicit, deterministic data goes in."""

    def __init__(self):
        self.events = []
        self.faults = {}
        self.probes = {}
        self.simtime = 0.0

    def add(self, kind, *data):
        self.events.append((kind,) + data)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def digest(self):
        return hashlib.sha256(repr(self.events).encode()).hexdigest()[:16]


class Violation:
    def __init__(self, cls, message, detail=None):
        self.cls = cls  # class of the violation: minimisation keeps it
        self.message = message
        self.detail = detail

    def as_json(self):
        return {"class": self.cls, "message": self.message, "detail": self.detail}


def canon(obj):
    return json.dumps(obj, sort_keys=True, default=repr)


# ---------------------------------------------------------------------------------------------------------------------
# Minimiser: structural shrinking of a scenario {"w": workload, "tape": {...}, ...} by deletion and simplification,
# keeping the same violation class.
# ---------------------------------------------------------------------------------------------------------------------


def _paths(obj, path=()):
    """All list-valued positions inside a JSON-like object."""
    if isinstance(obj, dict):
        for k in sorted(obj):
            yield from _paths(obj[k], path + (k,))
    elif isinstance(obj, list):
        yield path
        for i, v in enumerate(obj):
            yield from _paths(v, path + (i,))


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def _with(obj, path, value):
    if not path:
        return value
    if isinstance(obj, dict):
        res = dict(obj)
    else:
        res = list(obj)
    res[path[0]] = _with(obj[path[0]], path[1:], value)
    return res


def minimise(scenario, still_fails, deadline, now, deletable=None, max_tries=4000):
    """still_fails(scenario) -> bool. Returns the smallest scenario found. `deletable(path)` restricts list deletion."""
    tries = [0]

    def attempt(cand):
        if now() > deadline or tries[0] >= max_tries:
            return False
        tries[0] += 1
        return still_fails(cand)

    cur = scenario
    changed = True
    while changed and now() < deadline and tries[0] < max_tries:
        changed = False
        # 1. drop whole tape streams
        for label in sorted(cur.get("tape", {})):
            cand = dict(cur)
            cand["tape"] = {k: v for k, v in cur["tape"].items() if k != label}
            if attempt(cand):
                cur = cand
                changed = True
        # 2. delete chunks of lists in the workload
        for path in list(_paths(cur["w"], ())):
            try:
                lst = _get(cur["w"], path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list) or (deletable is not None and not deletable(path)):
                continue
            size = len(lst)
            chunk = max(1, size // 2)
            while chunk >= 1:
                i = 0
                while i < len(lst):
                    cand_list = lst[:i] + lst[i + chunk:]
                    cand = dict(cur)
                    cand["w"] = _with(cur["w"], path, cand_list)
                    if attempt(cand):
                        lst = cand_list
                        cur = cand
                        changed = True
                    else:
                        i += chunk
                if chunk == 1:
                    break
                chunk //= 2
        # 3. zero / truncate tape entries
        for label in sorted(cur.get("tape", {})):
            lst = list(cur["tape"][label])
            cut = len(lst)
            while cut > 0:
                half = cut // 2
                cand = dict(cur)
                cand["tape"] = dict(cur["tape"])
                cand["tape"][label] = lst[:half]
                if attempt(cand):
                    lst = lst[:half]
                    cur = cand
                    changed = True
                    cut = half
                else:
                    break
            for i in range(len(lst)):
                if lst[i] != 0:
                    l2 = list(lst)
                    l2[i] = 0
                    cand = dict(cur)
                    cand["tape"] = dict(cur["tape"])
                    cand["tape"][label] = l2
                    if attempt(cand):
                        lst = l2
                        cur = cand
                        changed = True
    return cur, tries[0]
