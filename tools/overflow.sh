#!/bin/bash
# Developer tool (never run by a check): which suites of the compiled packages (C23-C28) meet a 64-bit overflow?
# overflow.sh [TIER [CHECK...]]   one line per suite; every suite of the quick tier should report 0
cd "$(dirname "$0")/.." || exit 2
T=${1:-quick}; shift
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
export VERIF_CFLAGS='-O1 -w -g1 -fno-wrapv -fsanitize=signed-integer-overflow' LDFLAGS=-lubsan UBSAN_OPTIONS=log_path=$D/ub
for c in ${@:-C23 C24 C25 C26 C27 C28}; do
  for s in $(grep -o "Suite('[a-z_0-9]*'" harness/props/${c,,}.py | cut -d"'" -f2); do
    rm -f "$D"/ub.*
    LD_PRELOAD=$(gcc -print-file-name=libubsan.so) timeout 1800 /opt/venv/bin/python harness/run.py $c $T --suite=$s 2>&1 | tail -1
    echo "$c $s: $(cat "$D"/ub.* 2>/dev/null | awk '{print $1}' | sort -u | wc -l) overflowing places"
  done
done
