"""Operation histories on logical models: concrete operations executed on the real code, an independent executable
reference, and observations (fingerprints) through public methods.

A workload lists abstract operations (random integers); `Ref.resolve` turns them into concrete operations (labels, names,
values) with a prediction (accepted / rejected), `execute` runs a concrete operation on a real model, and `Ref.apply`
updates the reference. Coefficients may hold placeholders, so every coefficient of the reference is a vector with one
value per feed (placeholder assignment) of the workload.
"""
import copy
import itertools
import math
import pickle

from sim.core import HarnessError, Violation

TOL = 1e-6
UNIT = 1.0  # magnitude of the coefficients of the current history (set by the checks): differences are measured against it
MAXVARS = 7


# --------------------------------------------------------------------------------------------------------------------
# Concrete operations on real models
# --------------------------------------------------------------------------------------------------------------------

BAD = {"none": None, "str": "invalid", "int": 7, "list": [1], "emptylist": [], "tuple0": (), "float": 1.5, "obj": object, "emptystr": ""}


def parse_label(label):
    name, _, rest = label.partition("[")
    idx = tuple(int(p) for p in rest[:-1].split("][")) if rest else ()
    return name, idx


def var(model, label):
    name, idx = parse_label(label)
    arr = model.get_variables_by_name(name)
    return arr[idx if len(idx) > 1 else idx[0]]


def expr(spec):
    """A number, or {"t": [[value, [placeholder, ...]], ...]} as a PyQUBO expression."""
    if not isinstance(spec, dict):
        return spec
    if "bad" in spec:
        return BAD[spec["bad"]]
    import pyqubo

    res = None
    for v, phs in spec["t"]:
        term = v
        for p in phs:
            term = pyqubo.Placeholder(p) * term
        res = term if res is None else res + term
    return res


def spec_values(spec, feeds):
    if not isinstance(spec, dict):
        return [float(spec)] * len(feeds)
    res = []
    for f in feeds:
        tot = 0.0
        for v, phs in spec["t"]:
            for p in phs:
                v = v * f[p]
            tot += v
        res.append(tot)
    return res


def spec_phs(spec):
    return {p for _, phs in spec["t"] for p in phs} if isinstance(spec, dict) and "t" in spec else set()


def evaluate(value, feeds):
    """Values of a stored coefficient (number or PyQUBO expression) under every feed."""
    import numbers

    if isinstance(value, numbers.Number):
        return [float(value)] * len(feeds)
    import pyqubo

    res = []
    for f in feeds:
        v = value
        if isinstance(v, pyqubo.core.Coefficient):
            v = v.evaluate(feed_dict=f)
        res.append(float((v + pyqubo.Binary("verif-fake")).compile().to_qubo(feed_dict=f)[1]))
    return res


def used_placeholders(value, names):
    res = set()
    import numbers

    if isinstance(value, numbers.Number):
        return res
    for n in names:
        try:
            evaluate(value, [{m: 1.0 for m in names if m != n}])
        except Exception:  # noqa: BLE001
            res.add(n)
    return res


def target_of(model, t):
    if isinstance(t, dict):
        return BAD[t["bad"]]
    if len(t) == 1:
        return var(model, t[0])
    return tuple(var(model, x) for x in t)


SHARED = {}  # the sets of variables that the simulated user keeps and passes again; emptied for every run


def constraint_vars(model, labels, form):
    vs = [var(model, x) for x in labels]
    if form == 1:
        if not vs:
            return None
        # one set object for all calls with the same variables: nobody else may change it
        s = SHARED.setdefault(tuple(sorted((v.label, type(v).__name__) for v in vs)), (set(vs), frozenset(vs)))
        return s[0]
    if form == 2 and len(vs) == 1:
        return vs[0]
    return vs if vs else None


def execute(model, cop, extra=None):
    """Runs one concrete operation; returns a result made of plain data (or a physical model)."""
    from sawatabi.model import constraint as C

    k = cop["op"]
    if k == "variables" and "array" in cop:
        import pyqubo

        arr = pyqubo.Array.create(cop["name"], shape=tuple(cop["shape"]), vartype=cop["array"])
        return list(model.variables(arr).shape)
    if k == "variables":
        arr = model.variables(expr(cop["name"]), shape=tuple(cop["shape"]) if isinstance(cop["shape"], list) else BAD[cop["shape"]["bad"]])
        return list(arr.shape)
    if k == "append":
        return list(model.append(expr(cop["name"]), shape=tuple(cop["shape"]) if isinstance(cop["shape"], list) else BAD[cop["shape"]["bad"]]).shape)
    if k in ("add", "upd"):
        kw = {}
        if "target" in cop:
            kw["target"] = target_of(model, cop["target"])
        if "name" in cop:
            kw["name"] = expr(cop["name"])
        for f in ("coefficient", "scale", "timestamp"):
            if f in cop:
                kw[f] = expr(cop[f])
        if "attributes" in cop:
            kw["attributes"] = BAD[cop["attributes"]["bad"]] if "bad" in cop["attributes"] else dict(cop["attributes"])
        return (model.add_interaction if k == "add" else model.update_interaction)(**kw)
    if k == "rm":
        kw = {}
        if "target" in cop:
            kw["target"] = target_of(model, cop["target"])
        if "name" in cop:
            kw["name"] = expr(cop["name"])
        return model.remove_interaction(**kw)
    if k == "del":
        return model.delete_variable(target_of(model, cop["target"]))
    if k == "fix":
        return model.fix_variable(target_of(model, cop["target"]), cop["value"])
    if k == "con_add":
        if "bad" in cop:
            return model.add_constraint(BAD[cop["bad"]])
        return model.add_constraint(make_constraint(model, cop))
    if k == "con_edit":
        c = model.get_constraints_by_label(cop["label"])
        vs = BAD[cop["vars"]["bad"]] if isinstance(cop["vars"], dict) else constraint_vars(model, cop["vars"], cop["form"])
        return getattr(c, cop["method"])(vs)
    if k == "con_new":  # a constructor call that is rejected
        return getattr(C, cop["cls"])(**{a: (target_of(model, v) if isinstance(v, list) else expr(v)) for a, v in cop["kw"].items()})
    if k == "con_rm":
        return model.remove_constraint(expr(cop["label"]))
    if k == "offset":
        return model.offset(expr(cop["value"]))
    if k == "import":
        return model.from_pyqubo(make_expression(model, cop))
    if k == "phys":
        return model.to_physical(dict(cop["feed"]))
    if k == "conv":
        return model.to_ising() if cop["to"] == "ising" else model.to_qubo()
    if k == "merge":
        return model.merge(BAD[cop["bad"]] if "bad" in cop else extra)
    if k == "select":
        r = model.select_interaction(cop["query"], fmt=cop.get("fmt", "dict"))
        return sorted(str(v["name"]) for v in r.values()) if isinstance(r, dict) else len(r)
    if k == "selvar":
        return sorted(str(x) for x in model.select_interactions_by_variable(target_of(model, cop["target"])))
    if k == "attr":
        kw = {"target": target_of(model, cop["target"])} if "target" in cop else {"name": expr(cop["name"])}
        if "key" in cop:
            return plain(model.get_attribute(key=expr(cop["key"]), **kw))
        return sorted((a, plain(v)) for a, v in model.get_attributes(**kw).items() if not is_nan(v))
    if k == "getvar":
        return list(model.get_variables_by_name(cop["name"]).shape)
    if k == "getcon":
        return constraint_fp(model.get_constraints_by_label(cop["label"]))
    if k == "empty":
        e = model.empty()
        return [fingerprint(e, [{}], direct=True), e is model]
    if k == "ctor":
        from sawatabi.model import LogicalModel

        return LogicalModel(mtype=expr(cop["mtype"]))
    raise HarnessError(f"unknown operation {k}")


def make_constraint(model, cop):
    from sawatabi.model import constraint as C

    form = cop.get("form", 0)
    if cop["cls"] == "EqualityConstraint":
        return C.EqualityConstraint(variables_1=constraint_vars(model, cop["v1"], form), variables_2=constraint_vars(model, cop["v2"], form), label=cop["label"], strength=cop["strength"])
    if cop["cls"] == "NHotConstraint":
        return C.NHotConstraint(variables=constraint_vars(model, cop["v1"], form), n=cop["n"], label=cop["label"], strength=cop["strength"])
    return C.ZeroOrOneHotConstraint(variables=constraint_vars(model, cop["v1"], form), label=cop["label"], strength=cop["strength"])


def make_expression(model, cop):
    if "bad" in cop:
        return BAD[cop["bad"]]
    import pyqubo

    e = None
    for labels, v in cop["terms"]:
        t = expr(v)
        for x in labels:
            t = t * var(model, x)
        e = t if e is None else e + t
    if cop.get("unknown"):
        cls = pyqubo.Spin if model.get_mtype() == "ising" else pyqubo.Binary
        e = e + 1.0 * cls(cop["unknown"])
    e = e + expr(cop["const"])
    return e.compile() if cop.get("compiled") else e


# --------------------------------------------------------------------------------------------------------------------
# Observation
# --------------------------------------------------------------------------------------------------------------------


def is_nan(v):
    return isinstance(v, float) and math.isnan(v)


def plain(v):
    try:
        import numpy as np

        if isinstance(v, np.generic):
            v = v.item()
    except ImportError:
        pass
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return float(v) if abs(v) < 2**53 else v
    return v


def constraint_fp(c):
    name = type(c).__name__
    if name == "EqualityConstraint":
        vs = [sorted(v.label for v in c.get_variables_1()), sorted(v.label for v in c.get_variables_2())]
    else:
        vs = [sorted(v.label for v in c.get_variables())]
    return [name, c.get_constraint_class(), c.get_label(), float(c.get_strength()), vs, c.get_n() if hasattr(c, "get_n") else None]


def model_vartype(physical):
    return "SPIN" if physical.get_mtype() == "ising" else "BINARY"


def polynomial(physical):
    """The multilinear polynomial of a physical model's energy: two such are equal iff the energies of all assignments are."""
    bqm = physical.to_bqm()
    want = model_vartype(physical)
    if bqm.vartype.name != want:  # over the values the model's type has
        bqm = bqm.change_vartype(want, inplace=False)
    p = {(): float(bqm.offset)}
    for v, b in bqm.linear.items():
        if b != 0:
            p[(v,)] = p.get((v,), 0.0) + float(b)
    for (u, v), b in bqm.quadratic.items():
        key = tuple(sorted((u, v)))
        if b != 0:
            p[key] = p.get(key, 0.0) + float(b)
    return p


def physical_fp(physical):
    bqm = physical.to_bqm()
    return {"mtype": physical.get_mtype(), "vartype": bqm.vartype.name, "offset": float(physical.get_offset()), "poly": polynomial(physical), "vars": sorted(str(v) for v in bqm.variables)}


def rows_of(m, feeds):
    """Live rows and removed names of a (private copy of a) model."""
    live = []
    for r in m.select_interaction("removed == False", fmt="dict").values():
        attrs = {k[len("attributes."):]: plain(v) for k, v in r.items() if k.startswith("attributes.") and not is_nan(v)}
        key = (r["key"],) if r["body"] == 1 else tuple(r["key"])
        live.append({"name": r["name"], "labels": key, "c": evaluate(r["coefficient"], feeds), "s": evaluate(r["scale"], feeds), "ts": plain(r["timestamp"]), "attrs": attrs,
                     "_c": r["coefficient"], "_s": r["scale"]})
    removed = sorted(str(r["name"]) for r in m.select_interaction("removed == True", fmt="dict").values())
    return live, removed


def depends_on(model, ph):
    """Whether the model's energy really depends on the value of this placeholder."""
    feeds = [{p: 0.75 for p in PHS}, {p: (0.75 if p != ph else -1.625) for p in PHS}]
    m = copy.deepcopy(model)
    a, b = {}, {}
    for r in rows_of(m, feeds)[0]:
        for q, j in ((a, 0), (b, 1)):
            padd(q, tuple(r["labels"]), r["c"][j] * r["s"][j])
    off = evaluate(m.get_offset(), feeds)
    return abs(off[0] - off[1]) > 1e-6 or any(abs(a.get(k, 0.0) - b.get(k, 0.0)) > 1e-6 for k in a)


def fingerprint(model, feeds, polys=True, direct=False, columns=False):
    """Everything observable about a model, as plain data.

    What plain getters return is read from the model itself; what needs a conversion or a query is read from a private
    copy, or from the model itself as well (direct), so that a copy that loses something cannot hide it.
    """
    m = model
    work = m if direct else copy.deepcopy(m)
    live, removed = rows_of(work, feeds)
    arrays = m.get_variables()
    fp = {
        "mtype": m.get_mtype(),
        "variables": {n: [list(a.shape), sorted({type(v).__name__ for v in flat(a)})] for n, a in arrays.items()},
        "sizes": [m.get_size(), m.get_all_size(), m.get_deleted_size(), m.get_fixed_size()],
        "deleted": sorted(m.get_deleted_array()),
        "fixed": sorted(m.get_fixed_array()),
        "offset": rnd(evaluate(m.get_offset(), feeds)),
        "rows": sorted([[str(r["name"]), list(r["labels"]), rnd(r["c"]), rnd(r["s"]), r["ts"], sorted((k, repr(v)) for k, v in r["attrs"].items())] for r in live], key=repr),
        "removed": removed,
        "constraints": {k: constraint_fp(c) for k, c in sorted(m.get_constraints().items())},
    }
    if columns:  # the attribute names that a query can use
        fp["columns"] = sorted(str(c) for c in work.select_interaction("removed == False").columns)
    if polys:
        fp["polys"] = [sorted((list(k), v + 0.0) for k, v in polynomial(work.to_physical(f)).items()) for f in feeds]
    return fp


def rnd(vs):
    return [v + 0.0 for v in vs]


def flat(arr):
    def walk(x):
        if isinstance(x, list):
            for y in x:
                yield from walk(y)
        else:
            yield x

    return list(walk(arr.bit_list))


def close(a, b, tol=TOL):
    """Plain data equal up to a tolerance on floats."""
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and (a == b or abs(a - b) <= tol * max(UNIT, abs(a), abs(b)))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(close(a[k], b[k], tol) for k in a)
    return a == b


def diff_fp(a, b, skip=()):
    return [k for k in a if k not in skip and k != "polys" and not close(a[k], b.get(k))] + (
        ["polys"] if "polys" in a and "polys" in b and "polys" not in skip and not all(poly_close({tuple(k): v for k, v in x}, {tuple(k): v for k, v in y}) for x, y in zip(a["polys"], b["polys"])) else [])


def poly_close(p, q, const=True, tol=TOL):
    for k in set(p) | set(q):
        if not const and k == ():
            continue
        x, y = p.get(k, 0.0), q.get(k, 0.0)
        if abs(x - y) > tol * max(UNIT, abs(x), abs(y)):
            return False
    return True


def poly_show(p):
    return {"*".join(k) or "1": round(v / UNIT, 6) * UNIT for k, v in sorted(p.items()) if abs(v) > 5e-7 * UNIT}


# --------------------------------------------------------------------------------------------------------------------
# Polynomial arithmetic of the reference
# --------------------------------------------------------------------------------------------------------------------


def padd(p, key, v):
    p[key] = p.get(key, 0.0) + v


def to_spin(p):
    """Binary polynomial -> spin polynomial (x = (s+1)/2)."""
    q = {}
    for k, v in p.items():
        for r in range(len(k) + 1):
            for sub in itertools.combinations(k, r):
                padd(q, sub, v / (2 ** len(k)))
    return q


def to_binary(p):
    q = {}
    for k, v in p.items():
        for r in range(len(k) + 1):
            for sub in itertools.combinations(k, r):
                padd(q, sub, v * (2**r) * ((-1) ** (len(k) - r)))
    return q


def substitute(p, fixed):
    q = {}
    for k, v in p.items():
        for x in k:
            if x in fixed:
                v = v * fixed[x]
        padd(q, tuple(x for x in k if x not in fixed), v)
    return q


def square(lin, const):
    """(sum of coefficient*x + const)^2 over binary variables."""
    q = {(): const * const}
    items = sorted(lin.items())
    for i, (x, a) in enumerate(items):
        padd(q, (x,), a * a + 2 * const * a)
        for y, b in items[i + 1:]:
            padd(q, (x, y), 2 * a * b)
    return q


class RefCon:
    def __init__(self, cls, label, strength, v1, v2, n):
        self.cls, self.label, self.strength, self.v1, self.v2, self.n = cls, label, strength, set(v1), set(v2), n

    def clone(self):
        return RefCon(self.cls, self.label, self.strength, self.v1, self.v2, self.n)

    def penalty(self):
        """strength * penalty as a binary polynomial."""
        if self.cls == "NHotConstraint":
            p = square({x: 1.0 for x in self.v1}, -float(self.n))
        elif self.cls == "EqualityConstraint":
            lin = {x: 1.0 for x in self.v1}
            for x in self.v2:
                lin[x] = lin.get(x, 0.0) - 1.0
            p = square(lin, 0.0)
        else:
            p = square({x: 1.0 for x in self.v1}, 0.0)  # (sum)^2 - sum
            for x in self.v1:
                padd(p, (x,), -1.0)
        return {k: v * self.strength for k, v in p.items()}

    def fp(self):
        vs = [sorted(self.v1), sorted(self.v2)] if self.cls == "EqualityConstraint" else [sorted(self.v1)]
        return [self.cls, self.cls, self.label, float(self.strength), vs, self.n if self.cls == "NHotConstraint" else None]


# --------------------------------------------------------------------------------------------------------------------
# The reference
# --------------------------------------------------------------------------------------------------------------------

NAMES = ["n1", "my int", "x[0]", "x[1]", "x[0]*x[1]", "n1 (1)", "x[0] (1)", "x[0] (2)", "x[1] (before fixed: x[0]*x[1])", "x[0] from x[0]*x[1] (mtype additional 1600000000.0)", "日本 'q\""]
CONLABELS = ["c1", "c1 b", "Default N-hot Constraint"]
VARNAMES = ["x", "y", "z", "xy"]
PHS = ["P", "Q"]


class Ref:
    def __init__(self, mtype, feeds):
        self.mtype = mtype
        self.feeds = feeds
        self.vars = {}
        self.rows = []  # {"name","labels","c","s","ts","attrs","removed","phs"}
        self.offset = [0.0] * len(feeds)
        self.offset_phs = set()
        self.sets = []
        self.deleted = set()
        self.fixed = {}
        self.cons = {}
        self.stale_con_types = set()  # labels of constraints made before a conversion

    def clone(self):
        r = Ref(self.mtype, self.feeds)
        r.vars = {k: list(v) for k, v in self.vars.items()}
        r.rows = [dict(x, attrs=dict(x["attrs"])) for x in self.rows]
        r.offset, r.offset_phs = list(self.offset), set(self.offset_phs)
        r.sets = list(self.sets)
        r.deleted, r.fixed = set(self.deleted), dict(self.fixed)
        r.cons = {k: c.clone() for k, c in self.cons.items()}
        r.stale_con_types = set(self.stale_con_types)
        return r

    # ---- queries
    def labels(self):
        res = []
        for n, shape in self.vars.items():
            for idx in itertools.product(*(range(s) for s in shape)):
                res.append(n + "".join(f"[{i}]" for i in idx))
        return res

    def live_labels(self):
        return [x for x in self.labels() if x not in self.deleted]

    def find(self, name):
        for r in self.rows:
            if r["name"] == name:
                return r
        return None

    def live(self):
        return [r for r in self.rows if not r["removed"]]

    def phs(self):
        res = set(self.offset_phs)
        for r in self.live():
            res |= r["phs"]
        return res

    @staticmethod
    def default_name(labels):
        return "*".join(sorted(labels))

    # ---- energy
    def poly_own(self, i):
        p = {(): self.offset[i]}
        for r in self.live():
            padd(p, tuple(sorted(r["labels"])), -r["c"][i] * r["s"][i])
        return p

    def polys_allowed(self, i):
        """(polynomial, allowed constants) under feed i: exact without constraints; with constraints the constant term of the
        penalties may be dropped, and an Ising model's conversion constant may have either sign."""
        own = self.poly_own(i)
        variants = []
        for drop, sign in ((False, 1), (True, 1), (True, -1)):
            p = dict(own)
            for c in self.cons.values():
                pen = c.penalty()
                if drop:
                    pen[()] = 0.0
                if self.mtype == "ising":
                    pen = to_spin(pen)
                    if drop:
                        pen[()] = sign * pen[()]
                for k, v in pen.items():
                    padd(p, k, v)
            variants.append(substitute(p, self.fixed))
        return variants[0], [v.get((), 0.0) for v in variants]

    def poly(self, i):
        return self.polys_allowed(i)[0]

    # ---- resolution of abstract operations
    def resolve(self, op, clock_wall, others=()):
        """-> (concrete operation, prediction) or None (skip). Prediction: "ok", "raise" or "either"."""
        k = op["op"]
        live = self.live_labels()
        free = [x for x in live if x not in self.fixed]
        pick = lambda lst, n: lst[n % len(lst)] if lst else None  # noqa: E731
        size = len(self.labels())

        if k == "variables":
            name = VARNAMES[op["n"] % len(VARNAMES)]
            shape = op["shape"]
            mine, other = ("SPIN", "BINARY") if self.mtype == "ising" else ("BINARY", "SPIN")
            # declared by name, or as a PyQUBO array (of the right or the wrong type)
            arr = {2: {"array": mine}, 3: {"array": other}}.get(op.get("arr", 0) % 8, {})
            exp = "raise" if arr.get("array") == other else "ok"
            if name in self.vars:
                cur = list(self.vars[name])
                if op.get("arr", 0) % 3 == 1:  # declared again, larger
                    new = cur[:-1] + [cur[-1] + 1]
                    if size - math.prod(cur) + math.prod(new) <= MAXVARS:
                        cur = new
                return dict({"op": k, "name": name, "shape": cur}, **arr), exp
            if size + math.prod(shape) > MAXVARS:
                shape = [1]
            if size + math.prod(shape) > MAXVARS:
                return None
            return dict({"op": k, "name": name, "shape": shape}, **arr), exp
        if k == "append":
            name = VARNAMES[op["n"] % len(VARNAMES)]
            if name not in self.vars:
                if size + 1 > MAXVARS:
                    return None
                return {"op": k, "name": name, "shape": [1]}, "ok"
            cur = self.vars[name]
            add = [0] * len(cur)
            add[op["n2"] % len(cur)] = 1
            new = math.prod(a + b for a, b in zip(cur, add))
            if size - math.prod(cur) + new > MAXVARS:
                return None
            return {"op": k, "name": name, "shape": add}, "ok"
        if k in ("add", "upd"):
            tgt = self._target(live if op.get("onfixed") else free, op)
            cop = {"op": k}
            for f in ("coefficient", "scale"):
                if f in op:
                    cop[f] = op[f]
            if "attributes" in op:
                cop["attributes"] = op["attributes"]
            if "timestamp" in op:
                cop["timestamp"] = op["timestamp"]
            if k == "add":
                if tgt is None:
                    return None
                cop["target"] = tgt
                mode = op["mode"] % 10
                if mode >= 8 and self.rows:
                    cop["name"] = pick(self.rows, op["sel"])["name"]
                elif mode >= 5:
                    cop["name"] = pick(NAMES, op["sel"])
                name = cop.get("name") or self.default_name(tgt)
                return cop, ("raise" if self.find(name) else "ok")
            mode = op["mode"] % 10
            if mode < 7 and self.rows:
                cop["name"] = pick(self.rows, op["sel"])["name"]
                return cop, ("raise" if self.find(cop["name"])["removed"] else "ok")
            if mode == 7:
                cop["name"] = "unknown name"
                return cop, "raise"
            if tgt is None:
                return None
            cop["target"] = tgt
            r = self.find(self.default_name(tgt))
            return cop, ("raise" if r is not None and r["removed"] else "ok")
        if k == "rm":
            mode = op["mode"] % 10
            if mode < 6 and self.rows:
                return {"op": k, "name": pick(self.rows, op["sel"])["name"]}, "ok"
            if mode == 6:
                return {"op": k, "name": "unknown name"}, "raise"
            tgt = self._target(live, op)
            if tgt is None:
                return None
            return {"op": k, "target": tgt}, ("ok" if self.find(self.default_name(tgt)) else "raise")
        if k == "del":
            x = pick(live, op["sel"])
            return None if x is None else ({"op": k, "target": [x]}, "ok")
        if k == "fix":
            x = pick(free, op["sel"])
            if x is None:
                return None
            values = (1, -1) if self.mtype == "ising" else (1, 0)
            if op["mode"] % 8 == 7:
                return {"op": k, "target": [x], "value": (0 if self.mtype == "ising" else -1) if op["mode"] % 16 == 7 else 2}, "raise"
            return {"op": k, "target": [x], "value": values[op["mode"] % 2]}, "ok"
        if k == "con_add":
            pool = list(live)
            if not pool:
                return None
            sh = [pool[(op["sel"] + j * (1 + op["sel2"] % 3)) % len(pool)] for j in range(1 + op["n"] % 4)]
            v1 = sorted(set(sh))
            form = op["form"] % 3
            again = [t for t in self.sets if set(t) <= set(pool)]
            if again and op["sel2"] % 3 == 0:  # the same set of variables once more
                v1, form = list(pick(again, op["sel"])), 1
            v2 = sorted(set(pool) - set(v1))[: op["n2"] % 3] if op["cls"] == "EqualityConstraint" else []
            label = CONLABELS[op["lab"] % len(CONLABELS)]
            return {"op": k, "cls": op["cls"], "label": label, "strength": op["strength"], "v1": v1, "v2": v2, "n": 1 + op["n2"] % 3, "form": form}, "ok"
        if k == "con_edit":
            c = pick([self.cons[x] for x in sorted(self.cons)], op["sel"])
            if c is None or c.label in self.stale_con_types:
                return None
            which = 1 + op["n2"] % 2 if c.cls == "EqualityConstraint" else 1
            cur, oth = (c.v1, c.v2) if which == 1 else (c.v2, c.v1)
            sfx = "" if c.cls != "EqualityConstraint" else ("_to_%d" if op["mode"] % 2 == 0 else "_from_%d") % which
            if op["mode"] % 2 == 0:
                cand = [x for x in live if x not in oth]
                x = pick(cand, op["sel2"])
                if x is None:
                    return None
                return {"op": k, "label": c.label, "method": "add_variable" + sfx, "vars": [x], "form": op["form"] % 3, "which": which}, "ok"
            vs = [x for x in sorted(cur)][: 1 + op["n"] % 2]
            absent = [x for x in live if x not in cur]
            if op["mode"] % 6 == 5 and absent:
                vs = vs + [pick(absent, op["sel2"])]
                return {"op": k, "label": c.label, "method": "remove_variable" + sfx, "vars": vs, "form": op["form"] % 2, "which": which}, "raise"
            if not vs:
                return None
            return {"op": k, "label": c.label, "method": "remove_variable" + sfx, "vars": vs, "form": op["form"] % 2, "which": which}, "ok"
        if k == "con_rm":
            label = CONLABELS[op["lab"] % len(CONLABELS)]
            return {"op": k, "label": label}, ("ok" if label in self.cons else "raise")
        if k == "offset":
            return {"op": k, "value": op["value"]}, "ok"
        if k == "import":
            if len(free) < 1:
                return None
            terms, seen = [], set()
            for a, b, v in op["terms"]:
                x, y = pick(free, a), pick(free, b)
                key = tuple(sorted({x, y}))
                if key not in seen:
                    seen.add(key)
                    terms.append([list(key), v])
            cop = {"op": k, "terms": terms, "const": op["const"], "compiled": op["mode"] % 2}
            if op["mode"] % 7 == 6:
                cop["unknown"] = "w[0]"
                return cop, "raise"
            keys = set(self.import_poly(cop)) - {()}
            if any(self.find(self.default_name(key)) for key in keys):
                return cop, "raise"
            # the installed PyQUBO cannot compile coefficients with placeholders;
            # an implementation may also store linear terms that are zero
            return cop, ("either" if any(isinstance(v, dict) for _, v in terms) or any(self.find(x) for key in keys for x in key) else "ok")
        if k == "phys":
            feed = dict(self.feeds[op["feed"] % len(self.feeds)])
            exp = "ok"
            if op["mode"] % 3 == 2:
                drop = PHS[op["sel"] % len(PHS)]
                feed.pop(drop)
                if drop in self.phs():
                    exp = "raise"
            return {"op": k, "feed": feed, "index": op["feed"] % len(self.feeds)}, exp
        if k == "conv":
            return {"op": k, "to": ("ising", "qubo")[op["to"] % 2] if op["to"] % 5 else ("qubo" if self.mtype == "ising" else "ising")}, "ok"
        if k == "merge":
            return self._resolve_merge(op, others)
        if k == "select":
            if op["mode"] % 3 == 0:
                return {"op": k, "query": "no_such_column == 1"}, "raise"
            if op["mode"] % 3 == 1:
                return {"op": k, "query": "removed == False", "fmt": "no such format"}, "raise"
            return {"op": k, "query": "removed == False"}, "ok"
        if k == "attr":
            r = pick(self.live(), op["sel"])
            if r is None or op["mode"] % 4 == 3:
                return {"op": k, "name": "unknown name"}, "raise"
            if op["mode"] % 4 == 2:
                return {"op": k, "name": r["name"], "key": "attributes.no such key"}, "raise"
            return {"op": k, "name": r["name"]}, "ok"
        if k == "empty":
            return {"op": k}, "ok"
        if k == "bad":
            return self._bad(op, live)
        raise HarnessError(f"unknown abstract operation {k}")

    def _target(self, pool, op):
        if not pool:
            return None
        a = pool[op["a"] % len(pool)]
        b = pool[op["b"] % len(pool)]
        return [a] if (a == b or op["a"] % 3 == 0) else [a, b]

    def _resolve_merge(self, op, others):
        if not others:
            return None
        j = op["o"] % len(others)
        o = others[j]
        if len(self.rows) + len(o.rows) > 60:
            return None
        mine = {x for r in self.rows for x in r["labels"]} | {x for c in self.cons.values() for x in c.v1 | c.v2} | set(self.fixed)
        theirs = {x for r in o.rows for x in r["labels"]} | {x for c in o.cons.values() for x in c.v1 | c.v2} | set(o.fixed)
        if o is not self:
            if (set(o.deleted) | set(o.fixed)) & mine or (set(self.deleted) | set(self.fixed)) & theirs:
                return None
        # a label deleted in one model must not be alive in the other: its later life is not defined
        if o is not self and (set(o.deleted) & set(self.live_labels()) or set(self.deleted) & set(o.live_labels())):
            return None
        exp = "ok"
        if set(self.cons) & set(o.cons):
            exp = "raise"
        size = 0
        for n in set(self.vars) | set(o.vars):
            a, b = self.vars.get(n), o.vars.get(n)
            if a is not None and b is not None:
                if len(a) != len(b):
                    exp = "raise"
                    continue
                size += math.prod(max(x, y) for x, y in zip(a, b))
            else:
                size += math.prod(a or b)
        if exp == "ok" and size > MAXVARS + 2:
            return None
        return {"op": "merge", "o": j}, exp

    def _bad(self, op, live):
        x = live[op["sel"] % len(live)] if live else None
        y = live[op["sel2"] % len(live)] if live else None
        name = self.rows[op["sel"] % len(self.rows)]["name"] if self.rows else None
        c = self.cons[sorted(self.cons)[op["sel"] % len(self.cons)]] if self.cons else None
        cands = [
            {"op": "add", "target": {"bad": "none"}},
            {"op": "add", "target": {"bad": "str"}},
            {"op": "add", "target": {"bad": "int"}},
            {"op": "variables", "name": {"bad": "int"}, "shape": [1]},
            {"op": "variables", "name": "q", "shape": {"bad": "list"}},
            {"op": "variables", "name": "q", "shape": {"bad": "tuple0"}},
            {"op": "append", "name": {"bad": "int"}, "shape": [1]},
            {"op": "upd"},
            {"op": "rm"},
            {"op": "del", "target": {"bad": "none"}},
            {"op": "del", "target": {"bad": "str"}},
            {"op": "fix", "target": {"bad": "str"}, "value": 1},
            {"op": "con_add", "bad": "str"},
            {"op": "con_rm", "label": {"bad": "int"}},
            {"op": "con_rm", "label": "unknown label"},
            {"op": "import", "bad": "str"},
            {"op": "merge", "bad": "str"},
            {"op": "getvar", "name": "no such variable"},
            {"op": "getcon", "label": "unknown label"},
            {"op": "ctor", "mtype": {"bad": "str"}},
            {"op": "con_new", "cls": "NHotConstraint", "kw": {"label": {"bad": "emptystr"}}},
            {"op": "con_new", "cls": "NHotConstraint", "kw": {"n": 0}},
            {"op": "con_new", "cls": "ZeroOrOneHotConstraint", "kw": {"variables": {"bad": "str"}}},
        ]
        if self.vars:
            n = sorted(self.vars)[op["sel"] % len(self.vars)]
            cands += [{"op": "append", "name": n, "shape": {"bad": "tuple0"}}, {"op": "append", "name": n, "shape": {"bad": "list"}}]
        if x is not None:
            cands += [
                {"op": "add", "target": [x, x]},
                {"op": "add", "target": [x], "coefficient": {"bad": "str"}, "name": "new1"},
                {"op": "add", "target": [x], "scale": {"bad": "str"}, "name": "new2"},
                {"op": "add", "target": [x], "attributes": {"bad": "list"}, "name": "new3"},
                {"op": "add", "target": [x], "timestamp": {"bad": "str"}, "name": "new4"},
                {"op": "add", "target": [x], "name": {"bad": "int"}},
                {"op": "add", "target": [x, y, x] if y != x else [x, x, x], "name": "new5"},
                {"op": "upd", "target": [x, x]},
                {"op": "rm", "target": [x, x]},
                {"op": "del", "target": [x, x]},
                {"op": "fix", "target": [x], "value": 5},
                {"op": "fix", "target": [x], "value": "1"},
                {"op": "selvar", "target": [x, x]},
            ]
        if name is not None:
            cands += [
                {"op": "upd", "name": name, "coefficient": {"bad": "str"}, "scale": 3.0},
                {"op": "upd", "name": name, "coefficient": 4.0, "scale": {"bad": "str"}},
                {"op": "upd", "name": name, "coefficient": 4.0, "attributes": {"bad": "list"}},
                {"op": "upd", "name": name, "coefficient": 4.0, "timestamp": {"bad": "str"}},
            ]
            if x is not None:
                cands += [{"op": "upd", "name": name, "target": [x], "coefficient": 9.0}, {"op": "rm", "name": name, "target": [x]}]
        if c is not None:
            m = "add_variable" if c.cls != "EqualityConstraint" else "add_variable_to_1"
            cands += [{"op": "con_edit", "label": c.label, "method": m, "vars": {"bad": b}} for b in ("str", "emptylist", "none", "list")]
            cands += [{"op": "con_edit", "label": c.label, "method": m.replace("add", "remove").replace("_to_", "_from_"), "vars": {"bad": b}} for b in ("str", "emptylist")]
        return cands[op["n"] % len(cands)], "raise"

    # ---- effects
    def import_poly(self, cop):
        """Coefficients per feed."""
        p = {(): spec_values(cop["const"], self.feeds)}
        for labels, v in cop["terms"]:
            p[tuple(sorted(labels))] = spec_values(v, self.feeds)  # (no two terms have the same labels)
        return p

    def apply(self, cop, wall):
        """The effect of an accepted operation. Operations that create implementation-named rows are finished by adopt()."""
        k = cop["op"]
        K = len(self.feeds)
        if k == "variables":
            self.vars[cop["name"]] = list(cop["shape"])
        elif k == "append":
            if cop["name"] in self.vars:
                self.vars[cop["name"]] = [a + b for a, b in zip(self.vars[cop["name"]], cop["shape"])]
            else:
                self.vars[cop["name"]] = list(cop["shape"])
        elif k == "add" or (k == "upd" and "target" in cop and self.find(self.default_name(cop["target"])) is None):
            c, s = cop.get("coefficient", 0.0), cop.get("scale", 1.0)
            self.rows.append({"name": cop.get("name") or self.default_name(cop["target"]), "labels": tuple(sorted(cop["target"])), "c": spec_values(c, self.feeds), "s": spec_values(s, self.feeds),
                              "ts": plain(cop.get("timestamp", wall)), "attrs": {a: plain(v) for a, v in cop.get("attributes", {}).items()}, "removed": False, "phs": spec_phs(c) | spec_phs(s)})
        elif k == "upd":
            r = self.find(cop.get("name") or self.default_name(cop["target"]))
            if "coefficient" in cop:
                r["c"] = spec_values(cop["coefficient"], self.feeds)
            if "scale" in cop:
                r["s"] = spec_values(cop["scale"], self.feeds)
            r["phs"] = r["phs"] | spec_phs(cop.get("coefficient", 0)) | spec_phs(cop.get("scale", 0))
            r["attrs"].update({a: plain(v) for a, v in cop.get("attributes", {}).items()})
            r["ts"] = plain(cop.get("timestamp", wall))
        elif k == "rm":
            self.find(cop.get("name") or self.default_name(cop["target"]))["removed"] = True
        elif k == "del":
            x = cop["target"][0]
            self.deleted.add(x)
            for c in self.cons.values():
                c.v1.discard(x)
                c.v2.discard(x)
            for r in self.rows:
                if x in r["labels"]:
                    r["removed"] = True
        elif k == "fix":
            self.fixed[cop["target"][0]] = cop["value"]
        elif k == "con_add":
            self.cons[cop["label"]] = RefCon(cop["cls"], cop["label"], cop["strength"], cop["v1"], cop["v2"], cop["n"])
            self.stale_con_types.discard(cop["label"])
            self.sets += [tuple(t) for t in (cop["v1"], cop["v2"]) if cop["form"] == 1 and t and tuple(t) not in self.sets]
        elif k == "con_edit":
            c = self.cons[cop["label"]]
            cur = c.v1 if cop["which"] == 1 else c.v2
            if cop["method"].startswith("add"):
                cur.update(cop["vars"])
            else:
                cur.difference_update(cop["vars"])
        elif k == "con_rm":
            del self.cons[cop["label"]]
            self.stale_con_types.discard(cop["label"])
        elif k == "offset":
            self.offset = spec_values(cop["value"], self.feeds)
            self.offset_phs = spec_phs(cop["value"])
        elif k == "import":
            p = self.import_poly(cop)
            for key, v in p.items():
                if key:
                    self.rows.append({"name": self.default_name(key), "labels": key, "c": [-x for x in v], "s": [1.0] * K, "ts": plain(wall), "attrs": {}, "removed": False, "phs": set()})
        elif k == "phys":
            self.rows = [r for r in self.rows if not r["removed"]]
        elif k in ("conv", "merge", "select", "selvar", "attr", "empty"):
            pass
        else:
            raise HarnessError(f"no effect defined for {k}")

    def adopt(self, model, check_rows=None):
        """Takes over rows (names included) and offset from the model, after the caller predicted its polynomial."""
        m = copy.deepcopy(model)
        live, _ = rows_of(m, self.feeds)
        names = [r["name"] for r in live]
        removed = [{"name": r["name"], "labels": (r["key"],) if r["body"] == 1 else tuple(r["key"])} for r in m.select_interaction("removed == True", fmt="dict").values()]
        if len(set(names) | {r["name"] for r in removed}) != len(names) + len(removed):
            return Violation("duplicate-name", "two interactions have the same name, so one of them can no longer be addressed", {"names": sorted(map(str, names))})
        self.rows = []
        for r in live:
            self.rows.append({"name": r["name"], "labels": tuple(sorted(r["labels"])), "c": r["c"], "s": r["s"], "ts": r["ts"], "attrs": r["attrs"], "removed": False,
                              "phs": used_placeholders(r["_c"], PHS) | used_placeholders(r["_s"], PHS)})
        zero = [0.0] * len(self.feeds)
        for r in removed:
            self.rows.append({"name": r["name"], "labels": tuple(sorted(r["labels"])), "c": zero, "s": zero, "ts": None, "attrs": {}, "removed": True, "phs": set()})
        self.offset = evaluate(m.get_offset(), self.feeds)
        self.offset_phs = used_placeholders(m.get_offset(), PHS)
        return None

    # ---- comparison with the real model
    def compare(self, model, feed_ids, rows=True, where="", removed=True):
        m = copy.deepcopy(model)
        feeds = self.feeds

        def bad(cls, msg, **d):
            return Violation(cls, f"{msg} ({where})", d)

        if m.get_mtype() != self.mtype:
            return bad("mtype", f"model type is {m.get_mtype()}, expected {self.mtype}")
        got = {n: list(a.shape) for n, a in m.get_variables().items()}
        if got != {k: list(v) for k, v in self.vars.items()}:
            return bad("variables", "declared variables differ", got=got, want=self.vars)
        want_type = "Spin" if self.mtype == "ising" else "Binary"
        for n, a in m.get_variables().items():
            if any(type(v).__name__ != want_type for v in flat(a)):
                return bad("vartype", f"variables of '{n}' are not of type {want_type}")
        if sorted(m.get_deleted_array()) != sorted(self.deleted) or sorted(m.get_fixed_array()) != sorted(self.fixed):
            return bad("deleted-fixed", "deleted or fixed variables differ", got=[sorted(m.get_deleted_array()), sorted(m.get_fixed_array())], want=[sorted(self.deleted), sorted(self.fixed)])
        n_all = len(self.labels())
        want = [n_all - len(self.deleted | set(self.fixed)), n_all, len(self.deleted), len(self.fixed)]
        sizes = [m.get_size(), m.get_all_size(), m.get_deleted_size(), m.get_fixed_size()]
        if sizes != want:
            return bad("sizes", f"sizes are {sizes}, expected {want} (live, all, deleted, fixed)")
        cons = {k: constraint_fp(c) for k, c in m.get_constraints().items()}
        if not close(cons, {k: c.fp() for k, c in self.cons.items()}):
            return bad("constraints", "constraints differ", got=cons, want={k: c.fp() for k, c in self.cons.items()})
        live, rem = rows_of(m, feeds)
        if rows:
            a = sorted([[str(r["name"]), list(sorted(r["labels"])), r["c"], r["s"], r["ts"], sorted((k, repr(v)) for k, v in r["attrs"].items())] for r in live], key=lambda r: r[:2])
            b = sorted([[str(r["name"]), list(r["labels"]), r["c"], r["s"], r["ts"], sorted((k, repr(v)) for k, v in r["attrs"].items())] for r in self.live()], key=lambda r: r[:2])
            if not close(a, b):
                cls = "rows"
                d = [x for x in a if not any(close(x, y) for y in b)][:4], [y for y in b if not any(close(x, y) for x in a)][:4]
                return bad(cls, "live interactions differ from the history", got=d[0], want=d[1])
            if removed and rem != sorted(str(r["name"]) for r in self.rows if r["removed"]):
                return bad("removed", "removed interactions differ", got=rem, want=sorted(str(r["name"]) for r in self.rows if r["removed"]))
            for r in self.live():
                got_a = {k: plain(v) for k, v in m.get_attributes(name=r["name"]).items() if not is_nan(v)}
                want_a = {f"attributes.{k}": v for k, v in r["attrs"].items()}
                if got_a != want_a:
                    return bad("attributes", f"attributes of '{r['name']}' differ", got=got_a, want=want_a)
            for x in self.labels():
                names = sorted(str(n) for n in m.select_interactions_by_variable(var(m, x)))
                want_n = sorted(str(r["name"]) for r in self.rows if x in r["labels"])
                if names != want_n:
                    return bad("select", f"interactions of variable '{x}' differ", got=names, want=want_n)
        if not close(evaluate(m.get_offset(), feeds), self.offset):
            return bad("offset", f"offset is {m.get_offset()}, expected {self.offset}")
        for i in feed_ids:
            v = self.compare_physical(m.to_physical(feeds[i]), i, where)
            if v is not None:
                return v
        return None

    def compare_physical(self, physical, i, where=""):
        if physical.get_mtype() != self.mtype:
            return Violation("physical-mtype", f"physical model is of type {physical.get_mtype()}, expected {self.mtype} ({where})")
        p = polynomial(physical)
        want, consts = self.polys_allowed(i)
        if not poly_close(p, want, const=False):
            return Violation("energy", f"the physical model's energy differs from the history's polynomial ({where})", {"got": poly_show(p), "want": poly_show(want), "feed": self.feeds[i]})
        ok = consts if self.cons else consts[:1]
        if not any(abs(p.get((), 0.0) - c) <= TOL * max(UNIT, abs(c)) for c in ok):
            return Violation("constant", f"the physical model's constant term is {p.get((), 0.0)}, expected {ok[0]} ({where})", {"allowed": ok})
        live = set(self.live_labels()) - set(self.fixed)
        bqm_vars = {str(x) for x in physical.to_bqm().variables}
        if not bqm_vars <= live:
            return Violation("physical-variables", f"the physical model holds variables that are not live: {sorted(bqm_vars - live)} ({where})")
        return None


# --------------------------------------------------------------------------------------------------------------------
# Generation
# --------------------------------------------------------------------------------------------------------------------

NUMS = [1.0, -1.0, 2.0, 0.5, -0.25, 3.0, 10.0, 0.0, 1.5, -2.0, 7, 0.1, -0.3]


def g_coeff(rng, ph):
    if rng.random() < ph:
        terms = [[rng.choice(NUMS[:6]), [rng.choice(PHS)]]]
        if rng.random() < 0.4:
            terms.append([rng.choice(NUMS[:6]), []])
        if rng.random() < 0.2:
            terms.append([rng.choice(NUMS[:6]), rng.choices(PHS, k=2)])
        return {"t": terms}
    if rng.random() < 0.15:
        return round(rng.uniform(-5, 5), 3)
    return rng.choice(NUMS)


def g_op(rng, kind, cfg):
    r = lambda: rng.randrange(1000)  # noqa: E731
    ph = cfg.get("ph", 0.0)
    op = {"op": kind}
    if kind == "variables":
        op.update(n=r(), shape=rng.choice([[1], [2], [3], [2], [1, 2], [2, 2], [2, 1], [1, 2, 1], [2, 1, 2], [1, 1, 2]]), arr=r())
    elif kind == "append":
        op.update(n=r(), n2=r())
    elif kind in ("add", "upd"):
        op.update(a=r(), b=r(), mode=r(), sel=r())
        if rng.random() < (0.95 if kind == "add" else 0.7):
            op["coefficient"] = g_coeff(rng, ph)
        if rng.random() < 0.4:
            op["scale"] = g_coeff(rng, ph / 2)
        if rng.random() < 0.35:
            op["attributes"] = {rng.choice(["a", "b", "c", "name"]): rng.choice([1, 2.5, "v", "w", True, 0, ""]) for _ in range(rng.randrange(1, 3))}
        if rng.random() < 0.3:
            op["timestamp"] = rng.choice([0, 1, 1.5, 1234567890, -3.25, 1.6e9])
        if rng.random() < 0.15:
            op["onfixed"] = 1
    elif kind == "con_add":
        op.update(cls=rng.choice(["NHotConstraint", "EqualityConstraint", "ZeroOrOneHotConstraint"]), lab=r(), strength=rng.choice([1.0, 2.0, 0.5, 10, -1.0, 0.3]), sel=r(), sel2=r(), n=r(), n2=r(), form=r())
    elif kind == "offset":
        op["value"] = g_coeff(rng, ph)
    elif kind == "import":
        num = lambda pool: g_coeff(rng, 1.0) if rng.random() < ph else rng.choice(pool)  # noqa: E731
        op.update(terms=[[r(), r(), num(NUMS[:6])] for _ in range(rng.randrange(1, 4))], const=num([0.0, 1.0, -2.5]), mode=r())
    else:
        op.update(sel=r(), sel2=r(), n=r(), n2=r(), mode=r(), feed=r(), form=r(), lab=r(), to=r(), o=r(), a=r(), b=r())
        if kind == "temp":
            op = {k: op[k] for k in ("op", "n", "n2", "sel")}
        if kind == "clock":
            op["dt"] = rng.choice([0.0, 1.0, 60.5, -1.0, -3600.0, 86400.0])
        if kind == "restart":
            op["how"] = rng.choice(["pickle", "deepcopy"])
    return op


BASE = {"variables": 3, "append": 2, "add": 14, "upd": 8, "rm": 5, "del": 2, "fix": 3, "con_add": 4, "con_edit": 3, "con_rm": 1, "offset": 2, "import": 2, "phys": 3, "restart": 3, "clock": 2, "select": 0, "attr": 0, "bad": 0, "conv": 0, "merge": 0}


def in_unit(op, unit):
    """The same operation with every energy in another unit (a power of two, so that nothing is rounded)."""
    op = dict(op)

    def scaled(c):
        return {"t": [[a * unit, p] for a, p in c["t"]]} if isinstance(c, dict) else c * unit

    for f in ("coefficient", "value", "strength", "const"):
        if f in op:
            op[f] = scaled(op[f])
    if op["op"] == "import":
        op["terms"] = [[a, b, scaled(c)] for a, b, c in op["terms"]]
    return op


BIGSHAPES = [[11], [12], [3, 4], [2, 6], [13]]


def g_history(rng, weights, nmodels=1, length=(6, 22), ph=None):
    ph = rng.choice([0.0, 0.0, 0.25]) if ph is None else ph
    kinds = list(weights)
    ws = [weights[k] for k in kinds]
    # swarm: every history uses its own subset and emphasis
    ws = [w * rng.choice([0.2, 1, 1, 3]) for w in ws]
    if sum(ws) == 0:
        ws = [1 for _ in ws]
    ops = []
    for m in range(nmodels):
        ops.append(dict(g_op(rng, "variables", {}), m=m, n=rng.choice([0, 0, 0, 1]), arr=rng.choice([0, 0, 0, 2])))
        for _ in range(rng.randrange(1, 4)):
            ops.append(dict(g_op(rng, "add", {"ph": ph}), m=m, mode=rng.choice([0, 0, 5])))
    for _ in range(rng.randrange(*length)):
        k = rng.choices(kinds, weights=ws)[0]
        ops.append(dict(g_op(rng, k, {"ph": ph}), m=rng.randrange(nmodels)))
    if weights.get("con_add") and weights.get("con_edit") and rng.random() < 0.15:
        # the same set of variables given to two constraints, one of which is edited
        at = rng.randrange(len(ops) // 2, len(ops) + 1)
        burst = [dict(g_op(rng, "con_add", {"ph": ph}), form=1, lab=0), dict(g_op(rng, "con_edit", {"ph": ph}), sel=0), dict(g_op(rng, "con_add", {"ph": ph}), sel2=0, lab=1), dict(g_op(rng, "con_edit", {"ph": ph}))]
        ops[at:at] = [dict(o, m=rng.randrange(nmodels)) for o in burst]
    feeds = [{p: rng.choice([1.0, 2.0, -1.5, 0.5, 3.0]) for p in PHS} for _ in range(2)]
    unit = rng.choice([1.0] * 8 + [2.0**-30, 2.0**20])
    if unit != 1.0:
        ops = [in_unit(op, unit) for op in ops]
    maxvars = 7
    if rng.random() < 0.08:  # indices of two digits
        maxvars = 15
        for op in ops:
            if op["op"] == "variables" and rng.random() < 0.7:
                op["shape"] = rng.choice(BIGSHAPES)
    return {"unit": unit, "maxvars": maxvars, "mtypes": [rng.choice(["ising", "qubo"]) for _ in range(nmodels)], "feeds": feeds, "ops": ops}


def roundtrip(obj, how):
    return copy.deepcopy(obj) if how == "deepcopy" else pickle.loads(pickle.dumps(obj))
