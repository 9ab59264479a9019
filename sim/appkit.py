"""The simulated application: module-level callbacks (so that Beam pickles them by reference, like user code in a module)
that record what they are given, misbehave as the tape says, and drive real models and solvers."""
import copy
import functools
import json

import numpy as np

from sim.core import HarnessError

CUR = {"run": None}  # the BeamRun whose bundle is being processed


class AppError(Exception):
    pass


class WeirdError(Exception):
    def __str__(self):
        return "wéird {braces} %s \u6ce2"


EXC = [
    lambda: ValueError("boom-value"),
    lambda: KeyError("boom-key"),
    lambda: AppError("boom-app\nsecond line"),
    lambda: WeirdError(),
    lambda: StopIteration("boom-stop"),
    lambda: MemoryError("boom-mem"),
    lambda: RuntimeError(""),
    lambda: TypeError("boom-type", 3),
    lambda: RecursionError("boom-rec"),
    lambda: AssertionError(),
    lambda: OSError(28, "No space left on device"),
    lambda: ZeroDivisionError("boom-div"),
    lambda: IndexError("boom-index"),
    lambda: AttributeError("boom-attr"),
]


def esc(v):
    return json.dumps(v, sort_keys=True, default=repr)


def snap(elements):
    """Value snapshot of an element list: [(ts micros, index, canonical value)], or a marker when malformed."""
    res = []
    try:
        it = list(elements)
    except Exception:
        return ["!" + repr(elements)[:80]]
    for e in it:
        try:
            ts, (idx, val) = e
            if not isinstance(e, tuple) or not isinstance(ts, float):
                raise ValueError
            res.append((round(ts * 1e6), idx, esc(val)))
        except Exception:
            res.append("!" + repr(e)[:80])
    return res


def _num(x):
    if isinstance(x, (int, float, np.floating, np.integer)):
        x = float(x)
        if x != x:
            return "nan"
        return repr(x)
    return repr(x)


def model_fp(model):
    """Content of a logical model through its public interface (order-insensitive where the interface promises no order)."""
    import sawatabi

    if not isinstance(model, sawatabi.model.LogicalModel):
        return ("other", repr(model))
    rows = model.select_interaction("removed == False", fmt="dict")
    inter = []
    for row in rows.values():
        attrs = sorted((k, _num(v)) for k, v in row.items() if k.startswith("attributes."))
        attrs = [(k, v) for k, v in attrs if v != "nan"]
        key = row["key"]
        inter.append((str(row["name"]), int(row["body"]), str(key), _num(row["coefficient"]), _num(row["scale"]), _num(row["timestamp"]), tuple(attrs)))
    inter.sort()
    cons = []
    for label, c in sorted(model.get_constraints().items()):
        cons.append((label, c.get_constraint_class(), _num(c.get_strength()), con_vars(c)))
    variables = sorted((k, tuple(int(s) for s in v.shape)) for k, v in model.get_variables().items())
    return (
        model.get_mtype(),
        tuple(variables),
        tuple(inter),
        tuple(cons),
        _num(model.get_offset()),
        tuple(sorted(model.get_deleted_array())),
        tuple(sorted(model.get_fixed_array())),
    )


def con_vars(c):
    res = []
    for getter in ("get_variables", "get_variables_1", "get_variables_2", "get_n"):
        g = getattr(c, getter, None)
        if g is not None:
            v = g()
            res.append((getter, tuple(sorted(x.label for x in v)) if not isinstance(v, int) else v))
    return tuple(res)


def ss_fp(ss):
    if ss is None:
        return None
    if hasattr(ss, "record"):
        rows = []
        for s, e, o in ss.data(["sample", "energy", "num_occurrences"], sorted_by=None):
            rows.append((tuple(sorted((str(k), int(v)) for k, v in s.items())), round(float(e), 6), int(o)))
        return tuple(sorted(rows))
    return repr(ss)


def ids_key(elements):
    try:
        return ",".join(f"{round(e[0] * 1e6)}:{esc(e[1][1])}" for e in elements)
    except Exception:
        return repr(elements)


def planned(e):
    e.planned = True
    return e


def counted(fn):
    """Counts the exceptions of the application that were not planned (for example an empty model that cannot be solved)."""

    @functools.wraps(fn)
    def f(*a, **k):
        try:
            return fn(*a, **k)
        except Exception as e:
            if not getattr(e, "planned", False):
                CUR["run"].log.probe(f"unplanned_{fn.__name__}_{type(e).__name__}")
            raise

    return f


def _rec(run, kind, data):
    if run.cur is None:
        raise HarnessError("callback outside a bundle")
    run.cur.records.append((kind, data))


def _maybe_fault(run, step, elements, weights_p):
    """0: no fault; otherwise 1 + index into EXC. Fixed per (step, window content), so a retry fails the same way."""
    if weights_p <= 0:
        return 0
    label = f"{run.name}.fault.{step}.{ids_key(elements)}"
    n = 1 + len(EXC)
    return run.tape.once(label, n, [1 - weights_p] + [weights_p / len(EXC)] * len(EXC))


@counted
def map_fn(prev_model, prev_sampleset, elements, incoming, outgoing):
    run = CUR["run"]
    run.point("map.enter")
    app = run.cfg["app"]
    data = dict(elements=snap(elements), incoming=snap(incoming), outgoing=snap(outgoing))
    if app.get("fp"):
        data["prev_model"] = model_fp(prev_model)
        data["prev_sampleset"] = ss_fp(prev_sampleset)
    f = _maybe_fault(run, "map", elements, app.get("p_map", 0))
    data["fault"] = f
    _rec(run, "map", data)
    if f:
        run.log.fault("map_raises")
        when = run.tape.once(f"{run.name}.when.{ids_key(elements)}", 3)
        if when >= 1:
            # fail after having touched the model in place
            run.log.fault("map_raises_after_mutation")
            prev_model.offset(4242.0)
            x = prev_model.variables("junk", shape=(2,))
            prev_model.add_interaction(x[0], name=f"junk{ids_key(elements)[:20]}", coefficient=99.0)
            if when == 2:
                prev_model.to_physical()
        raise planned(EXC[f - 1]())
    model = APPS[app.get("kind", "same")](run, prev_model, elements, incoming, outgoing, app)
    if app.get("fp"):
        data["model"] = model_fp(model)
    run.point("map.exit")
    return model


def app_same(run, prev_model, elements, incoming, outgoing, app):
    return prev_model


def app_token(run, prev_model, elements, incoming, outgoing, app):
    """A tiny model that identifies the window."""
    m = prev_model.empty()
    x = m.variables("x", shape=(2,))
    m.add_interaction(x[0], coefficient=float(len(elements)), timestamp=1.0)
    m.add_interaction((x[0], x[1]), coefficient=float(elements[-1][1][0] + 1) if elements else -1.0, timestamp=1.0)
    return m


def _key_of(run, e, app):
    """The attenuation key value of an element: derived from the data, not from the code under test."""
    k = app.get("key_mode", "ts")
    if k == "ts":
        return e[0]
    if k == "idx":
        return float(e[1][0])
    if k == "coarse":
        return float(int(e[1][0]) // 3)
    return 5.0


def app_delta(run, prev_model, elements, incoming, outgoing, app):
    """Updates the previous model by what came in and what went out, as the sample applications do."""
    m = prev_model
    top = max([e[1][0] for e in incoming], default=-1) + 1
    if "x" not in m.get_variables():
        m.variables("x", shape=(max(top, 1),))
    else:
        have = m.get_variables_by_name("x").shape[0]
        if top > have:
            m.append("x", shape=(top - have,))
    x = m.get_variables_by_name("x")
    for e in outgoing:
        m.delete_variable(x[e[1][0]])
    prev = None
    for e in incoming:
        i = e[1][0]
        kw = dict(timestamp=e[0])
        if app.get("attr"):
            kw["attributes"] = {app["attr"]: _key_of(run, e, app)}
        if app.get("user_scale"):
            kw["scale"] = 0.25 + (i % 3)
        m.add_interaction(x[i], coefficient=1.0 + (i % 5), **kw)
        if prev is not None and app.get("quad", True):
            m.add_interaction((x[prev], x[i]), coefficient=-0.5 - (i % 2), **kw)
        prev = i
    return m


def app_rebuild(run, prev_model, elements, incoming, outgoing, app):
    m = prev_model.empty()
    n = max([e[1][0] for e in elements], default=0) + 1
    x = m.variables("x", shape=(n,))
    prev = None
    for e in elements:
        i = e[1][0]
        kw = dict(timestamp=e[0])
        if app.get("attr"):
            kw["attributes"] = {app["attr"]: _key_of(run, e, app)}
        m.add_interaction(x[i], coefficient=1.0 + (i % 5), **kw)
        if prev is not None:
            m.add_interaction((x[prev], x[i]), coefficient=-0.5 - (i % 2), **kw)
        prev = i
    return m


def app_rich(run, prev_model, elements, incoming, outgoing, app):
    """Like delta, with everything else a model can hold: several arrays, constraints, an offset, removed and updated interactions, fixed variables."""
    from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint

    m = app_delta(run, prev_model, elements, incoming, outgoing, app)
    m.offset(len(elements) + 1 / 7)
    x = m.get_variables_by_name("x")
    gone = set(m.get_deleted_array()) | set(m.get_fixed_array())
    live = [e for e in elements if x[e[1][0]].label not in gone]
    y = m.variables("y", shape=(2, 2))
    n = len(elements)
    ext = {"attributes": {app["attr"]: _key_of(run, elements[0], app)}} if app.get("attr") else {}
    if elements:
        m.update_interaction(target=(y[0, 0], y[1, 1]), coefficient=float(n), scale=0.5, timestamp=elements[0][0], **ext)
        m.update_interaction(target=y[0, 1], coefficient=float(n % 3), timestamp=elements[-1][0], **ext)
    label = f"c{n % 3}"
    if len(live) >= 2:
        vs = [x[e[1][0]] for e in live[:3]]
        if n % 3 == 0:
            m.add_constraint(NHotConstraint(variables=vs, n=2, label=label, strength=2.0))
        elif n % 3 == 1:
            m.add_constraint(EqualityConstraint(variables_1=vs[:1], variables_2=vs[1:], label=label, strength=0.5))
        else:
            m.add_constraint(ZeroOrOneHotConstraint(variables=vs, label=label))
    elif label in m.get_constraints():
        m.remove_constraint(label)
    for e in live:
        v = x[e[1][0]]
        if e[1][0] % 5 == 3 and len(m.select_interaction(f"name == '{v.label}' and removed == False")):
            m.remove_interaction(name=v.label)
    if app.get("fix") and run.cfg["algo"] != "attenuation":  # (what fixing adds has no attenuation key)
        for e in live:
            if e[1][0] % 4 == 2:
                m.fix_variable(x[e[1][0]], 1)
    return m


def app_empty(run, prev_model, elements, incoming, outgoing, app):
    """Sometimes returns a model without any interaction."""
    if len(elements) % 2:
        return prev_model.empty()
    return app_rebuild(run, prev_model, elements, incoming, outgoing, app)


def sample_app():
    """The repository's own sample application (sample/algorithm/npp_window.py)."""
    import importlib
    import os
    import sys

    import sawatabi

    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(sawatabi.__file__))), "sample", "algorithm")
    if d not in sys.path:
        sys.path.insert(0, d)
    return importlib.import_module("npp_window")


def app_npp(run, prev_model, elements, incoming, outgoing, app):
    return sample_app().npp_mapping(prev_model, None, elements, incoming, outgoing)


APPS = {"npp": app_npp, "same": app_same, "token": app_token, "delta": app_delta, "rebuild": app_rebuild, "rich": app_rich, "empty": app_empty}


def physical_poly(model):
    bqm = copy.deepcopy(model).to_physical().to_bqm()
    terms = {(str(v),): float(c) for v, c in bqm.linear.items() if c}
    for (u, v), c in bqm.quadratic.items():
        if c:
            terms[tuple(sorted((str(u), str(v))))] = float(c)
    return sorted((k, round(c, 6)) for k, c in terms.items())


@counted
def solve_fn(solver, model, prev_sampleset, elements, incoming, outgoing):
    run = CUR["run"]
    run.point("solve.enter")
    app = run.cfg["app"]
    data = dict(elements=snap(elements), incoming=snap(incoming), outgoing=snap(outgoing))
    if app.get("fp"):
        data["prev_sampleset"] = ss_fp(prev_sampleset)
        data["model"] = model_fp(model)
    f = _maybe_fault(run, "solve", elements, app.get("p_solve", 0))
    data["fault"] = f
    _rec(run, "solve", data)
    if f:
        run.log.fault("solve_raises")
        raise planned(EXC[f - 1]())
    s = app.get("solver", "token")
    if s == "exact" and model.get_all_size() > 9:
        s = "physical"
    if s == "token":
        ss = {"n": len(elements), "last": snap(elements)[-1:]}
    elif s == "falsy":
        ss = [{}, [], 0, "", False][len(elements) % 5]
    elif s == "physical":
        model.to_physical()
        ss = {"n": len(elements), "last": snap(elements)[-1:]}
    elif s == "local":
        ss = solver.solve(model.to_physical(), num_reads=2, num_sweeps=10, seed=7)
    elif s == "exact":
        ss = solver.solve(model.to_physical())
    elif s == "npp":
        data["poly"] = physical_poly(model)
        ss = sample_app().npp_solving(solver, model, prev_sampleset, elements, incoming, outgoing)
    elif s == "sawatabi":
        ss = solver.solve(model.to_physical(), num_reads=1, num_sweeps=5, seed=11)
    else:
        raise HarnessError(s)
    if app.get("fp"):
        data["sampleset"] = ss_fp(ss)
    run.point("solve.exit")
    return ss


@counted
def unmap_fn(sampleset, elements, incoming, outgoing):
    run = CUR["run"]
    run.point("unmap.enter")
    app = run.cfg["app"]
    f = _maybe_fault(run, "unmap", elements, app.get("p_unmap", 0))
    data = dict(elements=snap(elements), incoming=snap(incoming), outgoing=snap(outgoing), fault=f)
    if app.get("fp"):
        data["sampleset"] = ss_fp(sampleset)
    _rec(run, "unmap", data)
    if f:
        run.log.fault("unmap_raises")
        raise planned(EXC[f - 1]())
    if app.get("kind") == "npp":
        text = sample_app().npp_unmapping(sampleset, elements, incoming, outgoing)
        run.point("unmap.exit")
        return text
    text = f"RES<{ids_key(elements)}|{len(incoming)}|{len(outgoing)}>"
    if app.get("fp"):
        text += f"|{ss_fp(sampleset)!r}"
    b = app.get("blank", 0)
    if b and len(elements) % 3 == b - 1:
        text = ["", " ", "\n", text * 40][len(incoming) % 4]
    data["text"] = text
    return text


# ---- Partial filters


def f_all(e):
    return True


def f_none(e):
    return False


def f_even(e):
    return e[1][0] % 2 == 0


def f_third(e):
    return e[1][0] % 3 == 0


def f_early(e):
    return e[1][0] < 4


def f_val(e):
    return sum(map(ord, esc(e[1][1]))) % 2 == 0


FILTERS = {"all": f_all, "none": f_none, "even": f_even, "third": f_third, "early": f_early, "val": f_val}
