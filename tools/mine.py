"""Development aid: prints which of the lines changed by an edit of tools/bugs are lines of this project's own fixes."""
import subprocess,sys
sys.path.insert(0,'/verif')
base=subprocess.run("git -C /repo log --format=%h --grep '^fix:'|tail -1",shell=True,capture_output=True,text=True).stdout.strip()+"^"
def orig(path): return subprocess.run(["git","-C","/repo","show",base+":"+path[len("/repo/"):]],capture_output=True,text=True).stdout.split("\n")
if __name__=="__main__":
    from tools.refactor import cases
    for n,p,s in cases(sys.argv[1] if len(sys.argv)>1 else "","bugs"):
        o=set(orig(p)); cur=open(p).read().split("\n"); new=set(s.split("\n"))
        gone=[l for l in cur if l not in new]
        print(n, "OWN" if any(l not in o for l in gone) else "ok", len(gone))
