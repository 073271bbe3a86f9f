#!/bin/bash
# devall.sh SECS SEED [BIN]: every property for a while, in parallel
B=${3:-/verif/sim/target/dev/release/mbsim}
for p in ${PROPS:-C01 C02 C03 C04 C05 C06 C07 C08 C12 C13 C14 C16 C17 C18}; do ( rm -rf /tmp/o/$p; mkdir -p /tmp/o/$p; timeout $(($1+200)) $B explore --prop $p --seed $2 --start 0 --step 1 --count 10000000 --secs $1 --out /tmp/o/$p --shrink 20 $X >/tmp/o.$p 2>/tmp/e.$p; echo "$p rc=$? $(grep -E 'FOUND|RUNS|NONT|OTHERS' /tmp/o.$p | tr '\n' ' ' | cut -c1-300) $(head -3 /tmp/e.$p)" ) & done; wait
