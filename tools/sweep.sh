#!/bin/bash
# run checks with several seeds: tools/sweep.sh "C11 C12" "2 3" [tier]
for s in $2; do for p in $1; do VERIF_SEED=$s timeout 1800 /verif/check.py $p --tier ${3:-quick} 2>&1 | tail -2 | cut -c1-300 | sed "s/^/seed=$s /"; done; done
