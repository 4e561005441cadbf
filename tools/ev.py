"""Development aid: prints the effects seen on one side of an obligation.  usage: ev.py RULES:name side [kind,kind]"""
import sys, os, importlib, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)
from vg import oblig, terms as tm
prog = oblig.load()
if os.environ.get("CASE"):
    # one of the edits of tools/refactor
    from tools import refactor
    from vg.program import Program
    n0, p0, s0 = next(c for c in refactor.cases("") if c[0] == os.environ["CASE"])
    prog = Program("/repo/src", override={p0: s0})
    for f in sorted(os.listdir(oblig.SPECDIR)):
        if f.endswith(".py"):
            prog.add("spec." + f[:-3], os.path.join(oblig.SPECDIR, f))
name, _, flt = sys.argv[1].partition(":")
m = importlib.import_module("rules." + name)
o = next(o for o in m.OBLIGATIONS if flt in o.name)
s = oblig.run_side(prog, o, int(sys.argv[2]))
kinds = sys.argv[3].split(",") if len(sys.argv) > 3 else None
W = int(sys.argv[4]) if len(sys.argv) > 4 else 140
def sh(x):
    if isinstance(x, tm.T):
        return tm.show(x, int(os.environ.get("DEEP", "4")))
    if isinstance(x, tuple):
        return "(" + ", ".join(sh(y) for y in x) + ")"
    return str(x)
for n, e in enumerate(s.events):
    if kinds and e.kind not in kinds:
        continue
    print(n, e.kind, e.inst, " | ".join(sh(x)[:W] for x in e.data), "IF " + tm.show(oblig.clean_guard(e), int(os.environ.get("DEEP", "4")))[:W] if oblig.clean_guard(e) is not tm.TRUE else "", e.where)
print("RET", tm.show(s.ret, 5)[:400])
for n in s.eng.unknown[:5]:
    print("UNKNOWN", n[-300:])
if os.environ.get("COND"):
    def walk(t):
        if t.op == "ite":
            print("COND", t.a[0])
            print("   ", [(x.op, str(x.a)[:300]) for x in tm.children(t.a[0])])
        for c in tm.children(t):
            if c.op in ("ite", "tuple"):
                walk(c)
    walk(s.ret)
