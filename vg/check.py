"""Decides one property from the current source of /repo.

usage (in /verif): python3 -m vg.check ID [--thorough]
exit 0: no obligation of the property is broken; exit 1 and a VIOLATION line: one is; what could not be decided is listed.
"""
import ctypes
import importlib
import json
import os
import sys
import traceback
import threading
import time
import warnings

warnings.simplefilter("ignore")
BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("VERIF_SOURCE", "/repo/src")
EVD = os.environ.get("VERIF_EVIDENCE", os.path.join(BASE, "evidence"))
TRUST = [
    "the value-graph construction and normal forms of /verif/vg (about 4500 lines of Python)",
    "the reference models and selectors in /verif/spec and /verif/rules that state the property",
    "the description of numpy/scipy/standard-library calls in /verif/vg/lib.py (signatures, which calls have effects)",
    "CPython's parser (ast) for the meaning of the source text",
    "real arithmetic for floating-point numbers; no monkey patching, subclass overriding or reflection from outside src/aspsim",
]


def known(prop):
    """identified failures recorded in known_findings.txt: property -> obligation names"""
    out = set()
    p = os.path.join(BASE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("finding: property=" + prop + " "):
                out.add(ln.split("obligation=", 1)[1].split()[0])
    return out


class Late(BaseException):
    pass


def decide(oblig, o, prog, t0):
    """an obligation whose analysis fails or takes too long is open, not violated"""
    me = threading.get_ident()
    timer = threading.Timer(max(5, min(240, 780 - (time.time() - t0))),
                            lambda: ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(me), ctypes.py_object(Late)))
    timer.daemon = True
    timer.start()
    try:
        try:
            return oblig.run(o, prog)
        finally:
            timer.cancel()
    except (Exception, Late) as ex:
        r = oblig.Result(o)
        r.status = "undecided"
        r.details.append(("U", f"analysis failed: {type(ex).__name__}: {ex}", traceback.format_exc()[-600:].replace(chr(10), " ")))
        return r


def main():
    from . import oblig
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    t0 = time.time()
    prog = oblig.load(ROOT)
    for e in prog.errors:
        print("not parsed:", e)
    m = importlib.import_module("rules." + prop.lower())
    acc = known(prop)
    rows, bad, fns, effects, resting = [], [], set(), 0, {}
    done = [(o, decide(oblig, o, prog, t0)) for o in m.OBLIGATIONS]
    oblig.settle(done, prog)
    for o, r in done:
        fns |= r.functions
        for q in r.functions:
            resting.setdefault(q, set()).add(o.name)
        effects += r.events
        row = {"obligation": o.name, "about": o.doc, "status": r.status, "functions": len(r.functions), "compared": r.events}
        if r.details:
            row["details"] = [f"{w}: {s}" for _, s, w in r.details[:8]]
        rows.append(row)
        if r.status == "violated":
            if o.name in acc:
                print(f"KNOWN-FINDING: property={prop} {o.name}: {r.details[0][1][:200]}")
            else:
                bad.append((o, r))
        elif r.status != "proved":
            print(f"not decided: {o.name} ({r.status}): " + (r.details[0][1][:300] if r.details else ""))
    n = {s: sum(1 for x in rows if x["status"] == s) for s in ("proved", "violated", "undecided", "missing")}
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof",
        "coverage": {
            "obligations": len(rows), "discharged": n["proved"], "undecided": n["undecided"] + n["missing"],
            "checker_cmd": f"cd /verif && python3 -m vg.check {prop}", "trusted_base": TRUST,
            "rule": getattr(m, "RULE", "value graph of the code equals the value graph of the reference model, for every input"),
            "functions_analysed": sorted(fns), "values_and_effects_compared": effects, "cases": rows,
        },
        "assumptions": list(getattr(m, "ASSUME", [])), "wall_s": 0.0, "violations": len(bad),
    }
    if tier == "thorough":
        from .sensitivity import selftest
        ev["coverage"]["sensitivity"] = selftest(prop, {q: sorted(x) for q, x in resting.items()}, ROOT)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(EVD, exist_ok=True)
    with open(os.path.join(EVD, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {len(rows)} obligations, {n['proved']} proved, {n['violated']} violated, {n['undecided']} undecided, {n['missing']} without anchor; {len(fns)} functions analysed in {ev['wall_s']} s")
    if bad:
        p = os.path.join(EVD, prop + ".violation.txt")
        with open(p, "w") as f:
            for o, r in bad:
                f.write(f"obligation {o.name}: {o.doc}\n")
                for _, s, w in r.details:
                    f.write(f"  {w}\n    {s}\n")
        for o, r in bad[:5]:
            for _, s, w in r.details[:3]:
                print(f"  {o.name}: {w}: {s[:600]}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    if n["missing"] and not n["proved"]:
        print(f"{prop}: nothing could be decided")
    return 0


if __name__ == "__main__":
    sys.setrecursionlimit(40000)
    threading.stack_size(512 * 1024 * 1024)
    rc = [3]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
