#!/bin/bash
# developer tool: mut.sh "PROP PROP.." 'python expr on s' FILE  -> plant a change in a scratch copy and run checks against it
# usage: mut.sh PROPS FILE OLD NEW
M=${MUT:-/tmp/mut}; B=${MUTB:-/tmp/mutb}
mkdir -p $M $B
rsync -rlc --delete ${SRC:-/work/repo}/src ${SRC:-/work/repo}/deps $M/ 2>/dev/null || { rm -rf $M/src $M/deps; cp -a ${SRC:-/work/repo}/src ${SRC:-/work/repo}/deps $M/; }
python3 - "$M/$2" "$3" "$4" <<'P' || exit 3
import sys
p,o,n=sys.argv[1:4]; s=open(p).read()
if s.count(o)<1: print("pattern not found"); sys.exit(1)
open(p,"w").write(s.replace(o,n,1))
P
for p in $1; do
 QDB_REPO=$M QDB_SIM_BUILD=$B VERIF_BUDGET=${BUD:-20} python3 $(dirname $0)/../check.py $p quick 2>&1 | grep -v "^KNOWN" | cut -c1-260 | tail -4
done
