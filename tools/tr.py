"""Development aid: runs rule modules and prints each obligation.  usage: tr.py RULES[:filter] [root]"""
import sys, importlib, time, os, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore")
from vg import oblig
root = sys.argv[2] if len(sys.argv) > 2 else "/repo/src"
prog = oblig.load(root)
name, _, flt = sys.argv[1].partition(":")
m = importlib.import_module("rules." + name)
for o in m.OBLIGATIONS:
    if flt and flt not in o.name:
        continue
    t = time.time()
    r = oblig.run(o, prog)
    print(f"{r.status:10} {o.name} ev={r.events} terms={r.terms} {time.time() - t:.2f}s")
    for d in r.details[:6]:
        print("     ", d[0], d[1][:700], d[2])
    if r.status == "undecided":
        for n in r.notes[:2]:
            print("      note", n[-600:])
