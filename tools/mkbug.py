"""Development aid: mkbug.mk(id, property, [(file, old, new), ...], demo_python, needs, breaks) writes /verif/seeded/id."""
import json
import os
import shutil
import subprocess
import tempfile

DEMO = """#!/bin/bash
# run with cwd /repo; exit 0: the property holds in this scenario
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def mk(i, prop, edits, demo, needs, breaks):
    d = f"/verif/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mk_", dir="/tmp")
    try:
        subprocess.run(f"git clone -q /repo {w}/r", shell=True, check=True)
        for f, old, new in edits:
            p = f"{w}/r/src/aspsim/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        o = subprocess.run(f"git -C {w}/r diff", shell=True, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(o)
    finally:
        shutil.rmtree(w)
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
