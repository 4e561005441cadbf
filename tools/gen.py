"""Writes properties.jsonl and MANIFEST.json from the table below (run in /verif: python3 tools/gen.py)."""
import json
import os

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
TECH = "interprocedural value-graph comparison of the source with a reference model (static, no execution, no solver)"
NOTE = ("Every obligation compares, for every input, the value graph built from the current source (through all repo calls) with that of a "
        "reference model; equality of normal forms is the proof. Trusted: graph construction and normal forms in vg/, the models in spec/, "
        "signatures of library calls, exact real arithmetic. Parts a change makes opaque are reported as undecided in the evidence, not as alarms.")


def p(pid, title, statement, over, quant, why, files, mech, technique=TECH, note=""):
    f = [x if "/" not in x or x.startswith("src") else x for x in files]
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
        "anchors": {"files": ["src/aspsim/" + x for x in f], "mechanism": [{"name": n, "where": "src/aspsim/" + w} for n, w in mech], "hook_needed": None},
        "_tech": technique, "_note": note})


def na(pid, title, statement, over, quant, why, files, mech, reason):
    p(pid, title, statement, over, quant, why, files, mech)
    NA.append({"property": pid, "reason": reason})
    P[-1]["_na"] = True


exec(open(os.path.join(BASE, "tools", "table.py")).read())


def main():
    have = {x[:-3] for x in os.listdir(os.path.join(BASE, "rules")) if x[0] == "c" and x.endswith(".py")}
    checks = []
    with open(os.path.join(BASE, "properties.jsonl"), "w") as f:
        for x in P:
            d = {k: v for k, v in x.items() if k[0] != "_"}
            assert len(d["title"]) <= 80, d["title"]
            assert d["statement"].count(". ") <= 2, d["id"]
            f.write(json.dumps(d) + "\n")
            if x.get("_na"):
                continue
            i = d["id"]
            if i.lower() not in have:
                print("no rules yet:", i)
                NA.append({"property": i, "reason": "no check yet"})
                continue
            checks.append({"property": i, "quick_cmd": f"python3 -m vg.check {i}", "thorough_cmd": f"python3 -m vg.check {i} --thorough",
                           "technique": x["_tech"], "level": "proof", "level_note": (x["_note"] + " " + NOTE).strip()})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q vg spec rules", "checks": checks, "not_applicable": NA}
    with open(os.path.join(BASE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")


main()
