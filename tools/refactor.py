"""hand-written edits that keep the behaviour; every check has to stay quiet on each (development tool, not used by any check)

file format (tools/refactor/*.txt):   === NAME FILE   then pairs  <<<<\nOLD\n----\nNEW\n>>>>
usage: refactor.py [FILE-SUBSTRING] [-v] [rules...]"""
import glob, os, re, sys, warnings
from multiprocessing import Pool
sys.path.insert(0, "/verif")
sys.setrecursionlimit(40000)
warnings.simplefilter("ignore")
from tools import mutate
ALL = sorted(os.path.basename(f)[:-3] for f in glob.glob("/verif/rules/c[0-9][0-9].py"))


def cases(sel, folder="refactor"):
    for f in sorted(glob.glob(f"/verif/tools/{folder}/*.txt")):
        for part in re.split(r"^=== ", open(f).read(), flags=re.M)[1:]:
            head, _, rest = part.partition("\n")
            name, path = head.split()
            if sel and sel not in name and sel not in f:
                continue
            p = "/repo/src/aspsim/" + path
            s = open(p).read()
            for m in re.finditer(r"^<<<<\n(.*?)\n----\n(.*?)\n?>>>>$", rest, flags=re.M | re.S):
                pat = r"[ \t]*\n(?:[ \t]*(?:#.*)?\n)*".join(re.escape(x.rstrip()) for x in m[1].split("\n") if x.strip()) + r"[ \t]*$"
                hits = list(re.finditer(r"^" + pat, s, flags=re.M))
                if len(hits) != 1:
                    print("BAD", name, len(hits), m[1][:80])
                    break
                s = s[:hits[0].start()] + m[2] + s[hits[0].end():]
            else:
                try:
                    compile(s, p, "exec")
                except SyntaxError as e:
                    print("SYNTAX", name, e)
                    continue
                yield name, p, s


def one(a):
    name, p, s, rules = a
    import signal, time
    t0 = time.time()

    def slow(*_):
        import traceback
        print("SLOW", name, rules, traceback.extract_stack()[-12:][0], flush=True)
        signal.alarm(300)
    signal.signal(signal.SIGALRM, slow)
    signal.alarm(int(os.environ.get("SLOW", "300")))
    _, out = mutate.work((p, s, "", rules))
    signal.alarm(0)
    if time.time() - t0 > 60:
        print("SLOW", name, rules, int(time.time() - t0), [x[1] for x in out if "slow" in str(x[3])])
    return name, [x for x in out if x[2] != "proved"]


def groups(rules):
    """the obligations about a whole run share their analysis"""
    a = [r for r in rules if r in ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c13")]
    b = [r for r in rules if r not in a]
    return [g for g in (a, b[:len(b) // 2], b[len(b) // 2:]) if g]


def main():
    args = [a for a in sys.argv[1:] if a != "-v"]
    pat = args[0] if args and args[0] not in ALL else ""
    rules = [a for a in args if a in ALL] or ALL
    jobs = [(n, p, s, g) for n, p, s in cases(pat) for g in groups(rules)]
    bad, und, names = 0, 0, set()
    with Pool(int(os.environ.get("J", "8"))) as pool:
        for name, out in pool.imap_unordered(one, jobs):
            names.add(name)
            for r, o, st, det, n in out:
                if st == "undecided" and "-v" not in sys.argv:
                    und += 1
                    continue
                bad += st == "violated"
                print(st, name, r, o)
                for d in det[:3]:
                    print("   ", d[0], d[1][:int(os.environ.get("W", "260"))], d[2])
    print(len(names), "edits,", bad, "violated,", und, "undecided")


if __name__ == "__main__":
    main()
