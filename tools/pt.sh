# pt.sh BUG RULES...: what the obligations say about a planted bug
w=/tmp/pt_$1; rm -rf /tmp/pt_$1; cp -a /repo/src $w; (cd $w && git init -q . && git apply -p2 /verif/seeded/$1/patch.diff); b=$1; shift
cd /verif; for r in "$@"; do python3 tools/tr.py $r $w 2>&1 | cut -c1-${W:-400} | head -${N:-40}; done; rm -rf /tmp/pt_$b
