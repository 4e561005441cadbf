"""Development aid: checks planted bugs. usage: plant.py [-t] ID...   (-t: also run the stable tests in a scratch copy)
For each /verif/seeded/ID: the demo passes on a copy of /repo, fails with the patch; then says which checks see the patch."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = "/verif"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(i, tests):
    d = f"{V}/seeded/{i}"
    w = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        sh(f"cp -a /repo/. {w}/r")
        env = dict(os.environ, PYTHONPATH=f"{w}/r/src", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
        dd = f"{w}/demo"
        shutil.copytree(d, dd)
        # the demo imports aspsim through PYTHONPATH here and through the installation when it counts
        a = sh(f"bash {dd}/demo.sh", cwd=w + "/r", env=env)
        p = sh(f"git -C {w}/r apply {d}/patch.diff")
        if p.returncode:
            print(i, "PATCH DOES NOT APPLY", p.stderr[-300:])
            return
        b = sh(f"bash {dd}/demo.sh", cwd=w + "/r", env=env)
        prop = json.load(open(d + "/meta.json"))["property"]
        env2 = dict(os.environ, VERIF_SOURCE=w + "/r/src", VERIF_EVIDENCE=w + "/ev")
        seen = []
        props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        own = None
        for q in props if "-a" in sys.argv else [prop]:
            if q not in props:
                own = "no check"
                continue
            r = sh(f"python3 -m vg.check {q}", cwd=V, env=env2)
            if r.returncode == 1:
                seen.append(q)
            elif q == prop:
                own = r.stdout[-300:]
        t = ""
        if tests:
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            r = sh(f"cd {w}/r && /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 --hypothesis-profile=ci -n 8 --dist worksteal --basetemp={w}/bt -rf tests 2>&1 | tail -30", env=env)
            bad = [x for x in base if any(ln.startswith("FAILED") and x.split("::")[1] in ln for ln in r.stdout.splitlines())]
            t = "tests: " + ("ok " + r.stdout.strip().splitlines()[-1] if not bad else "BROKEN " + str(bad))
        print(i, prop, "demo clean", a.returncode, "patched", b.returncode, "| caught by", seen, t)
        if prop not in seen:
            print("   MISSED:", own)
        if a.returncode:
            print(a.stdout[-500:], a.stderr[-500:])
        if not b.returncode:
            print(b.stdout[-500:])
    finally:
        shutil.rmtree(w)


for i in [x for x in sys.argv[1:] if x[0] != "-"] or sorted(os.listdir(V + "/seeded")):
    one(i, "-t" in sys.argv)
