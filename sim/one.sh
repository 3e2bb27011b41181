#!/bin/bash
# one.sh SCEN SEED [k=v..] : run one seed, print result
s=$1; n=$2; shift 2
{ echo "scenario $s"; echo "seed $n"; for k in "$@"; do echo "knob ${k%%=*} ${k#*=}"; done; } > /tmp/one.plan
$(dirname "$0")/../build/qdbsim run /tmp/one.plan
