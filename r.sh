#!/bin/bash
# dev helper: r.sh PROP CONFIG [args]
p=$1; c=$2; shift 2
timeout 600 /verif/target/$c/release/vpk $p --config $c --threads 8 --out /tmp/o.json "$@" > /tmp/o.txt 2>&1; echo "exit $?"; python3 /verif/tools/show.py /tmp/o.json
