#!/bin/bash
# mutrun.sh WORKER NWORKERS [NAME...]: runs the hand-written mutants of mutants.py, every NWORKERS-th one, in /tmp/pwWORKER
w=$1; n=$2; shift 2; i=0
[ $# = 0 ] && set -- $(python3 /verif/tools/mutants.py list | cut -d' ' -f1)
for m in "$@"; do
    i=$((i+1)); [ $((i % n)) = "$w" ] || continue
    python3 /verif/tools/mutants.py diff "$m" > "/tmp/mut.$w.diff"
    PW=/tmp/pw$w /verif/tools/seedrun.sh "/tmp/mut.$w.diff" $(python3 /verif/tools/mutants.py checks "$m") 2>&1 | sed "s#^/tmp/mut.$w.diff#$m#"
done
