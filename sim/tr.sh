#!/bin/bash
# tr.sh SCEN SEED [regex]: trace of one seed without the fiber dump, repeated messages dropped
d=$(dirname "$0"); f=$(mktemp); "$d/../build/qdbsim" gen $1 $2 $K > $f
QDBSIM_TRACE=1 "$d/../build/qdbsim" run $f 2>&1 | grep -a -v "^log\|^fault\|^probe\|\] fiber \|Shutting down link\|New link\|identifying\|client .* unavailable\|not receiving heartbeats\|During the last" | grep -a -E "${3:-.}" | awk '{k=$0; sub(/^\[[^]]*\] (\[[0-9]*\] )?/,"",k); match($0,/ n[0-9]+ /); k=substr($0,RSTART,4) k; if(c[k]++<'${R:-3}') print}' | cut -c1-${W:-180} | tail -${N:-50}; rm -f $f
