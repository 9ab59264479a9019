"""Helper to author planted bugs: mkbug(id, property, file, [(old, new)...], needs, breaks, demo) -> /verif/seeded/<id>/"""
import json
import os
import subprocess
import tempfile


def mkbug(bid, prop, edits, needs, breaks, demo):
    d = f"/verif/seeded/{bid}"
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
        subprocess.run(f"git -C /repo archive HEAD | tar -x -C {t}", shell=True, check=True)
        subprocess.run(f"cd {t} && git init -q && git add -A && git -c user.email=a@b -c user.name=n commit -qm base", shell=True, check=True)
        for path, old, new in edits:
            p = os.path.join(t, path)
            s = open(p).read()
            assert s.count(old) == 1, (bid, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, check=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo_body.py"), "w").write(demo)
    open(os.path.join(d, "demo.py"), "w").write("import demo_body  # a module, so that Beam pickles its functions by reference\n\nif hasattr(demo_body, 'main'):\n    demo_body.main()\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
