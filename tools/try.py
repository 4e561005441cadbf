"""Development aid: what obligations say about a textual change.  usage: try.py FILE OLD NEW RULES...   (FILE relative to src/aspsim; W width)"""
import sys, os, importlib, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore")
sys.setrecursionlimit(40000)
from tools import mutate
f, old, new = sys.argv[1:4]
p = os.path.join(mutate.ROOT, "aspsim", f)
s = open(p).read()
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
assert s.count(old) == 1, s.count(old)
_, out = mutate.work((p, s.replace(old, new), "", sys.argv[4:]))
W = int(os.environ.get("W", "250"))
for r, o, st, det, notes in out:
    if st != "proved":
        print(st, r, o)
        for d in det[:3]:
            print("    ", d[0], d[1][:W], d[2])
print({st: sum(1 for x in out if x[2] == st) for st in {x[2] for x in out}})
