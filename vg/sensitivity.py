"""Thorough tier: how sharp are the obligations?  Each function they rest on is changed in memory, one place at a time, and the
obligations are decided again on the changed source (nothing is executed, nothing in /repo is touched).  The counts go to the
evidence; they never change the verdict on the real source."""
import ast
import multiprocessing as mp
import os
import random
import time


def one(arg):
    fpath, src, what, prop, names, root = arg
    import importlib
    import sys
    import threading
    import warnings
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(40000)
    threading.stack_size(256 * 1024 * 1024)
    out = []

    def go():
        from . import oblig
        from .program import Program
        prog = Program(root, override={fpath: src})
        oblig.add_spec(prog)
        m = importlib.import_module("rules." + prop.lower())
        done = [(o, oblig.run(o, prog)) for o in m.OBLIGATIONS if o.name in names]
        oblig.settle(done, prog)
        got = {r.status for _, r in done}
        out.append("violated" if "violated" in got else (sorted(got - {"proved"}) or ["proved"])[0])
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return what, (out or ["failed"])[0]


def selftest(prop, fns, root, budget=600, limit=400):
    """fns: qualified function name -> names of the obligations that rest on it"""
    from .faults import faults, funcs
    jobs = []
    byfile = {}
    for q in fns:
        parts = q.split(".")
        for k in range(len(parts) - 1, 0, -1):
            f = os.path.join(root, *parts[:k]) + ".py"
            if os.path.exists(f):
                byfile.setdefault(f, []).append((".".join(parts[k:]), q))
                break
    for f, qs in sorted(byfile.items()):
        tree = ast.parse(open(f).read())
        want = dict(qs)
        for name, fn in funcs(tree):
            if name in want:
                for d in faults(fn):
                    try:
                        s = ast.unparse(ast.fix_missing_locations(tree))
                        ast.parse(s)
                    except Exception:
                        continue
                    jobs.append((f, s, f"{os.path.basename(f)}:{name} {d}", prop, fns[want[name]], root))
    total = len(jobs)
    if len(jobs) > limit:
        jobs = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1)).sample(jobs, limit)
    n, quiet, t0 = {}, [], time.time()
    with mp.Pool(8, maxtasksperchild=12) as pool:
        for what, s in pool.imap_unordered(one, jobs, 1):
            n[s] = n.get(s, 0) + 1
            if s != "violated":
                quiet.append(f"{s}: {what}")
            if time.time() - t0 > budget:
                pool.terminate()
                break
    return {"changes_in_scope": total, "changes_judged": sum(n.values()), "judged": n, "not_reported": sorted(quiet)[:60]}
