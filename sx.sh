#!/bin/bash
# developer aid: sx.sh <harness> <entry> <config> [symex options]; keeps bitcode in /tmp/w
cd "$(dirname "$0")"
h=$1; e=$2; c=$3; D=${DEFS:-}; shift 3
VERIF_CACHE=${VERIF_CACHE:-/tmp/vcache} python3 - "$h" "$e" "$c" <<'P'
import sys, os
h, e, c = sys.argv[1:4]; sys.argv = ["check.py"]
src = open("check.py").read().replace("\nmain()\n", "\n")
exec(compile(src.replace("os.path.abspath(__file__)", repr(os.path.abspath("check.py"))), "check.py", "exec"))
b = Build("/tmp/w"); print(b.harness_bc(dict(harness=h, entry=e, defs=[x for x in os.environ.get("DEFS","").split() if x]), c))
P
exec engine/build/symex /tmp/w/h/$h-$e${D:+-${D//=/}}-$c.o.bc --entry $e --out /tmp/w/r "$@"
