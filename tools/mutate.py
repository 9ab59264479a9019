"""Mutation run: mutates one source file in scratch copies of /repo and runs the checks responsible for it with small budgets.
Usage: mutate.py FILE RUNS SLOTS OUT.jsonl [FILTER]   (scratch copies in /tmp/mut; never touches /repo)"""
import ast
import copy
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

PIPE = ["C01", "C02", "C04", "C03", "C06", "C07", "C08", "C05", "C09"]
CHECKS = {"sawatabi/algorithm/io.py": ["C10"], "sawatabi/algorithm/": PIPE, "sawatabi/model/logical_model.py": ["C11", "C17", "C15", "C12", "C13", "C14", "C16"],
          "sawatabi/model/constraint/": ["C11", "C12", "C14", "C17"], "sawatabi/model/": ["C11", "C13", "C14", "C20", "C18"],
          "sawatabi/solver/sawatabi_solver.py": ["C18", "C19", "C16", "C22", "C14", "C25"], "sawatabi/solver/local": ["C22", "C16"], "sawatabi/solver/dwave": ["C21", "C22"], "sawatabi/solver/optigan": ["C20", "C22"],
          "sawatabi/utils/time": ["C16"], "sawatabi/utils/profile": ["C16"], "sawatabi/utils/functions": ["C11", "C17"], "sawatabi/base_mixin": ["C12", "C11"]}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def mutants(src):
    tree = ast.parse(src)
    nodes = [n for n in ast.walk(tree)]
    skip = set()
    for n in nodes:  # representations and docstrings are not observable results
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__", "append_prefix", "remove_leading_spaces"):
            skip.update(id(x) for x in ast.walk(n))
    out = []

    def emit(i, desc, f):
        t = copy.deepcopy(tree)
        node = list(ast.walk(t))[i]
        r = f(t, node)
        if r is False:
            return
        s = ast.unparse(ast.fix_missing_locations(t))
        out.append((getattr(nodes[i], "lineno", 0), desc, s))

    def replace(t, node, new):
        for p in ast.walk(t):
            for fld, val in ast.iter_fields(p):
                if val is node:
                    setattr(p, fld, new)
                    return None
                if isinstance(val, list):
                    for k, v in enumerate(val):
                        if v is node:
                            val[k] = new
                            return None
        return False

    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        seg = (ast.get_source_segment(src, n) or "")[:90].replace("\n", " ") if hasattr(n, "lineno") else ""
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                if type(op) in SWAP:
                    emit(i, f"cmp {seg}", lambda t, x, k=k: x.ops.__setitem__(k, SWAP[type(x.ops[k])]()))
        if isinstance(n, ast.BoolOp):
            emit(i, f"bool {seg}", lambda t, x: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                emit(i, f"drop operand {k} of {seg}", lambda t, x, k=k: replace(t, x, x.values[1 - k]) if len(x.values) == 2 else x.values.pop(k) and None)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)):
            emit(i, f"bin {seg}", lambda t, x: setattr(x, "op", BIN[type(x.op)]()))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            emit(i, f"aug {seg}", lambda t, x: setattr(x, "op", BIN[type(x.op)]()))
            emit(i, f"aug->assign {seg}", lambda t, x: replace(t, x, ast.Assign(targets=[x.target], value=x.value, lineno=x.lineno)))
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None), type(...))):
            if isinstance(n.value, bool):
                emit(i, f"const {n.value}", lambda t, x: setattr(x, "value", not x.value))
            else:
                emit(i, f"const {n.value}+1", lambda t, x: setattr(x, "value", x.value + 1))
                if n.value not in (0, 0.0):
                    emit(i, f"const {n.value}->0", lambda t, x: setattr(x, "value", x.value * 0))
        if isinstance(n, ast.If):
            emit(i, f"if True: {seg[:60]}", lambda t, x: setattr(x, "test", ast.Constant(True)))
            emit(i, f"if False: {seg[:60]}", lambda t, x: setattr(x, "test", ast.Constant(False)))
        if isinstance(n, ast.IfExp):
            emit(i, f"ifexp True {seg}", lambda t, x: setattr(x, "test", ast.Constant(True)))
            emit(i, f"ifexp False {seg}", lambda t, x: setattr(x, "test", ast.Constant(False)))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Continue, ast.Break)) or (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield))):
            emit(i, f"del {seg}", lambda t, x: replace(t, x, ast.Pass()))
        if isinstance(n, ast.Call):
            name = ast.unparse(n.func)
            if name in ("copy.deepcopy", "sorted", "list", "set", "int", "float", "str", "abs", "reversed") and len(n.args) == 1:
                emit(i, f"unwrap {seg}", lambda t, x: replace(t, x, x.args[0] if ast.unparse(x.func) != "sorted" else ast.Call(func=ast.Name("list", ast.Load()), args=x.args, keywords=[])))
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    emit(i, f"drop kw {n.keywords[k].arg} of {seg[:60]}", lambda t, x, k=k: x.keywords.pop(k) and None)
            if len(n.args) == 2:
                emit(i, f"swap args {seg}", lambda t, x: x.args.reverse())
        if isinstance(n, ast.comprehension) and n.ifs:
            emit(i, "drop comprehension filter", lambda t, x: x.ifs.clear())
        if isinstance(n, ast.For):
            emit(i, f"for once {seg[:50]}", lambda t, x: x.body.append(ast.Break()))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp):
            emit(i, f"index {seg}", lambda t, x: setattr(x, "slice", ast.Constant(0)))
    seen, res = {ast.unparse(tree)}, []
    for ln, d, s in out:
        if s not in seen:
            seen.add(s)
            res.append((ln, d, s))
    return res


def main():
    path, runs, slots, outp = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    flt = re.compile(sys.argv[5]) if len(sys.argv) > 5 else None
    src = open(os.path.join("/repo", path)).read()
    ms = [m for m in mutants(src) if flt is None or flt.search(f"{m[0]}: {m[1]}")]
    checks = next(v for k, v in CHECKS.items() if path.startswith(k))
    print(len(ms), "mutants", checks, flush=True)
    q = Queue()
    tag = re.sub(r"\W", "_", path)
    for s in range(slots):
        d = f"/tmp/mut/{tag}_{s}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        q.put(d)

    def work(m):
        d = q.get()
        try:
            with open(os.path.join(d, path), "w") as f:
                f.write(m[2])
            for c in checks:
                env = dict(os.environ, VERIF_REPO=d, VERIF_SHARDS="1", VERIF_RUNS=runs, VERIF_OUT=d + "/.verif-out")
                try:
                    p = subprocess.run(["/opt/venv/bin/python", "-m", "sim.check", c], cwd=os.environ.get("MUT_VERIF", "/verif"), env=env, capture_output=True, timeout=900)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc == 1:
                    return m, c, re.search(rb"\[([^\]]*)\]", p.stdout).group(1).decode() if b"[" in p.stdout else "?"
                if rc not in (0, 1):
                    return m, f"rc{rc}@{c}", (p.stderr[-300:].decode("utf-8", "replace") if rc != 99 else "")
            return m, None, ""
        finally:
            q.put(d)

    alive = 0
    with ThreadPoolExecutor(slots) as ex, open(outp, "w") as f:
        for m, c, cls in ex.map(work, ms):
            if c is None or c.startswith("rc"):
                alive += 1
                print("ALIVE" if c is None else c, m[0], m[1], cls[-150:], flush=True)
            f.write(json.dumps({"line": m[0], "desc": m[1], "killed": c, "cls": cls, "src": m[2] if c is None or c.startswith("rc") else None}) + "\n")
            f.flush()
    print("alive", alive, "of", len(ms))
    for s in range(slots):
        shutil.rmtree(f"/tmp/mut/{tag}_{s}", ignore_errors=True)


if __name__ == "__main__":
    main()
