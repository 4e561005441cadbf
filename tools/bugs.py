"""realistic bugs written from the properties' texts; says which check reports each (development tool, not used by any check)

usage: bugs.py [NAME-OR-FILE-SUBSTRING] [-v]      bugs are named after their property, e.g. C01-contribution"""
import os, sys
sys.path.insert(0, "/verif")
sys.setrecursionlimit(40000)
from multiprocessing import Pool
from tools.refactor import cases, one, groups, ALL


def main():
    args = [a for a in sys.argv[1:] if a != "-v"]
    todo = list(cases(args[0] if args else "", "bugs"))
    only = "-v" in sys.argv
    jobs = [(n, p, s, r) for n, p, s in todo for r in ([[n[:3].lower()]] if only else groups(ALL))]
    res = {n: [] for n, _, _ in todo}
    with Pool(int(os.environ.get("J", "8"))) as pool:
        for name, out in pool.imap_unordered(one, jobs):
            res[name] += out
    own = 0
    for n, xs in sorted(res.items()):
        hit = sorted({x[0] for x in xs if x[2] == "violated"})
        if n[:3].lower() in hit:
            own += 1
            if not only:
                continue
        print(n, "caught by", " ".join(hit) or "NONE")
        for r, o, st, det, k in xs:
            if r == n[:3].lower():
                print("    ", st, o)
                for d in det[:4]:
                    print("         ", d[0], d[1][:int(os.environ.get("W", "200"))])
    print(len(res), "bugs,", own, "caught by their own check")


if __name__ == "__main__":
    main()
