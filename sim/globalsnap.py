"""A simulated process restart loses everything the code under test keeps in module and class attributes.

`take()` remembers the attributes of every sawatabi module and class right after the import; `restore()` puts them back, so that
after a simulated restart of the process only durable state (the runner's) survives."""
import copy
import sys
import types

_snap = None
_SIMPLE = (dict, list, set)


def _owners():
    for name in sorted(sys.modules):
        if name == "sawatabi" or name.startswith("sawatabi."):
            mod = sys.modules[name]
            if mod is None:
                continue
            yield mod
            stack = [v for v in vars(mod).values() if isinstance(v, type) and getattr(v, "__module__", "").split(".")[0] == "sawatabi"]
            seen = set()
            while stack:
                c = stack.pop()
                if c in seen:
                    continue
                seen.add(c)
                yield c
                stack += [v for v in vars(c).values() if isinstance(v, type) and getattr(v, "__module__", "").split(".")[0] == "sawatabi"]


def _skip(k):
    return k.startswith("__") and k.endswith("__")


def take():
    global _snap
    _snap = []
    done = set()
    for o in _owners():
        if id(o) in done:
            continue
        done.add(id(o))
        vals = {}
        for k, v in vars(o).items():
            if _skip(k):
                continue
            content = None
            if type(v) in _SIMPLE:
                try:
                    content = copy.deepcopy(v)
                except Exception:  # noqa: BLE001
                    content = None
            vals[k] = (v, content)
        _snap.append((o, vals))


def restore():
    """-> number of attributes that had changed."""
    if _snap is None:
        return 0
    n = 0
    for o, vals in _snap:
        for k in [k for k in vars(o) if k not in vals and not _skip(k)]:
            if isinstance(vars(o)[k], types.ModuleType):
                continue  # a submodule imported later
            try:
                delattr(o, k)
                n += 1
            except (AttributeError, TypeError):
                pass
        for k, (v, content) in vals.items():
            if k not in vars(o) or vars(o)[k] is not v:
                try:
                    setattr(o, k, v)
                    n += 1
                except (AttributeError, TypeError):
                    pass
            if content is not None and v != content:
                new = copy.deepcopy(content)
                if isinstance(v, list):
                    v[:] = new
                else:
                    v.clear()
                    v.update(new)
                n += 1
    return n
