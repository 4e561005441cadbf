cd /verif; python3 tools/mutate.py "$@" 2>&1 | cut -c1-230 | (head -${N:-30}; tail -1)
