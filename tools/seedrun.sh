#!/bin/bash
# seedrun.sh [PROP] ID...: runs the check of a planted bug's property against a patched copy; budget BUD seconds
M=/tmp/mut; B=/tmp/mutb; mkdir -p $M $B
for id in "$@"; do
  rsync -rlc --delete /repo/src /repo/deps $M/ 2>/dev/null || { rm -rf $M/src $M/deps; cp -a /repo/src /repo/deps $M/; }
  [ -f /tmp/mut.prev ] && (cd $M; xargs touch < /tmp/mut.prev); grep "^+++ b/" /verif/seeded/$id/patch.diff | cut -c7- > /tmp/mut.prev
  (cd $M && patch -s -p1 < /verif/seeded/$id/patch.diff) || { echo "$id: patch failed"; continue; }
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  echo "== $id ($p): $(QDB_REPO=$M QDB_SIM_BUILD=$B VERIF_SEED=${SEED:-1} VERIF_BUDGET=${BUD:-40} python3 /verif/check.py $p quick 2>&1 | grep -v ^KNOWN | cut -c1-230 | grep -E "^violation|quick:|VIOL|rror" | tail -3)"
done
