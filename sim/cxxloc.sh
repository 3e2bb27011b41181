#!/bin/bash
# Compile one simulator/harness object and make its copies of inline standard-library functions
# private: otherwise the linker would merge them with the instrumented copies of the code under
# test and the scheduler itself would become preemptible.
# usage: cxxloc.sh OUT compiler args...
out=$1; shift
set -e
"$@" -o "$out.tmp.o"
ld -r --force-group-allocation "$out.tmp.o" -o "$out.grp.o"
nm "$out.grp.o" | awk '$2=="W" && $3 ~ /^(_ZNSt|_ZNKSt|_ZSt|_ZN9__gnu|_ZNK9__gnu|_ZN3sim|_ZNK3sim|_ZN4scen|_ZNK4scen)/ {print $3}' > "$out.loc"
if [ -s "$out.loc" ]; then objcopy --localize-symbols="$out.loc" "$out.grp.o" "$out"; else cp "$out.grp.o" "$out"; fi
rm -f "$out.tmp.o" "$out.grp.o" "$out.loc"
