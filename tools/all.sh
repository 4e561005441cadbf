# runs every check in parallel; prints those that are not fully proved, and the totals
cd /verif
for f in rules/c*.py; do n=$(basename $f .py | tr c C); [ $n = Coll ] && continue; case $n in C[0-9][0-9]) echo $n;; esac; done | xargs -P 8 -I{} sh -c 'timeout 900 python3 -m vg.check {} > /tmp/o_{} 2>&1; echo "{} rc=$? $(tail -1 /tmp/o_{} | cut -c1-150)"' | sort
