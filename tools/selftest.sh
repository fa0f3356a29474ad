#!/bin/bash
# selftest.sh [N] [PROPERTY...]: one seed is one execution.
# The first N runs (default 120) of each property are executed twice, under different interpreter hash seeds and dealt to
# different numbers of processes, and the digests of what every run did and saw are compared.
set -u
d=$(cd "$(dirname "$0")/.." && pwd)
n=${1:-120}
shift
props=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C16}
t=$(mktemp -d /tmp/histbook-selftest.XXXXXX)
trap 'rm -rf "$t"' EXIT
export PYTHONPYCACHEPREFIX=$t/pyc OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 TMPDIR=$t
py=${HISTBOOK_PYTHON:-/opt/venv-pypy/bin/python}
bad=0
for p in $props; do
    jit=""
    case $p in C08|C09|C16) jit="--jit off";; esac
    for k in 0 1 2; do
        PYTHONHASHSEED=0 $py $jit -W ignore "$d/sim/worker.py" digest $p 1 $k 3 $n > $t/a$k &
    done
    for k in 0 1; do
        PYTHONHASHSEED=12345 $py $jit -W ignore "$d/sim/worker.py" digest $p 1 $k 2 $n > $t/b$k &
    done
    wait
    sort -n $t/a0 $t/a1 $t/a2 > $t/a
    sort -n $t/b0 $t/b1 > $t/b
    if [ "$(wc -l < $t/a)" = "$n" ] && cmp -s $t/a $t/b; then
        echo "$p: $n runs, same twice"
    else
        echo "$p: DIFFERS"; diff $t/a $t/b | head -5
        bad=1
    fi
done
exit $bad
