#!/bin/bash
# replay.sh PROPERTY FILE: re-execute one recorded execution, with its trace.
exe=$(cd "$(dirname "$0")" && python3 - "$1" "$2" <<'PY'
import sys, os
from registry import PROPERTIES, EXES
import json
suite = open(sys.argv[2]).readline().split()[1]
print(' '.join(PROPERTIES[sys.argv[1]]['exes']))
PY
)
for e in $exe; do
	for f in plain mt; do
		x=/verif/build/$f/harness/$e
		[ -x "$x" ] && "$x" --replay "$2"
	done
done
